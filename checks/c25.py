"""C25: command sequences of spec/cli replayed with real processes in scratch folders."""
import random, vp
def run(c):
    mc = open(vp.ROOT + "/spec/cli/MC.cfg").read(); T = c.thorough
    with vp.background(lambda: vp.build("_vmecpp", "vmec_standalone")):
        c.model(vp.tlc_check("cli/Cli", mc.replace("MaxOps = 3", "MaxOps = 4") if T else mc, workdir=c.pid + "-mc", timeout=3000 if T else 600))
        for a, b, law in (('Naming = "exact"', 'Naming = "stem"', "Own"), ('Order = "namefirst"', 'Order = "solvefirst"', "NothingInVain"), ('Status = "honest"', 'Status = "always0"', "Honest"), ('Status = "honest"', 'Status = "partial"', "Own"), ('Naming = "exact"', 'Naming = "squeeze"', "Own")):
            q = vp.tlc("cli/Cli", mc.replace(a, b).replace('{"a", "a.v2"}', '{"b_c", "b_input.c"}' if "squeeze" in b else '{"a", "a.v2"}'), workdir=c.pid + "-sens")
            if f"{law} is violated" not in q.out: raise vp.CheckError(f"the specification does not notice {b}")
        gen = (mc.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("Dirs = {1}", "Dirs = {1, 2}").replace('{"a", "a.v2"}', '{"a", "a.v2", "b_c", "b_input.c", "x y"}')
               .replace('{"p1", "p2", "fails", "garbage"}', '{"p1", "p2", "p3", "p1", "loose", "fails", "refused", "garbage", "empty"}').replace("MaxOps = 3", "MaxOps = 24")
               .replace("Emitting = FALSE", "Emitting = TRUE").split("INVARIANTS")[0] + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
        r = vp.tlc_simulate("cli/Cli", gen, 2000 if T else 240, 26, c.seed, workdir=c.pid + "-gen"); c.model(r)
    rng = random.Random(c.seed)
    cases = [{"id": i, **b, "seed": rng.randrange(10**9)} for i, b in enumerate(r.prints())]
    obs = vp.drive("c25_drv.py", cases, c.pid + "-drv", jobs=8, timeout=600 if not T else 5000)
    steps, n = 0, {}
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("a command sequence ended the driver: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        steps += o["steps"]
        for x, v in o["n"].items(): n[x] = n.get(x, 0) + v
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
    c.note("operations", steps); c.note("commands", n)
    for k in cases[:1]: c.sample([[x["op"], x.get("file"), x.get("fault")] for x in k["ops"]])
