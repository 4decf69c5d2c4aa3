"""C24: process histories of spec/history replayed; every result must be what a fresh process gives for the same arguments."""
import random, vp
def run(c):
    mc = open(vp.ROOT + "/spec/history/MC.cfg").read(); T = c.thorough
    with vp.background(lambda: vp.build("_vmecpp")):
        c.model(vp.tlc_check("history/History", mc.replace("MaxOps = 6", "MaxOps = 8") if T else mc, workdir=c.pid + "-mc", timeout=3000 if T else 600))
        for a, b, law in (("Memory", "coarse", "Determined"), ("Share", "work", "Determined"), ("Share", "alias", "Recorded")):
            q = vp.tlc("history/History", mc.replace(f'{a} = "none"', f'{a} = "{b}"'), workdir=f"{c.pid}-{b}")
            if f"{law} is violated" not in q.out: raise vp.CheckError(f"the specification does not notice {a} = {b}")
        gen = (mc.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("Bases = {1}", "Bases = {1, 2, 3, 4, 5, 6, 7, 8, 9}").replace('{"grid", "budget", "bound"}', '{"grid", "budget", "bound", "prof", "step", "flux", "nfp", "short"}')
               .replace("NI = 1", "NI = 3").replace("NO = 2", "NO = 6").replace("NF = 1", "NF = 2").replace("MaxOps = 6", "MaxOps = 34").replace("MaxDepth = 2", "MaxDepth = 3")
               .replace("Emitting = FALSE", "Emitting = TRUE").split("INVARIANTS")[0] + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
        r = vp.tlc_simulate("history/History", gen, 4000 if T else 400, 36, c.seed, workdir=c.pid + "-gen"); c.model(r)
        cg = (gen.replace("GSpec", "CSpec").replace("NI = 3", "NI = 4").replace("MaxOps = 34", "MaxOps = 176").replace('"short"}', '"fine"}'))
        q = vp.tlc_simulate("history/History", cg, 120 if T else 16, 180, c.seed, workdir=c.pid + "-crowd"); c.model(q)
    rng = random.Random(c.seed)
    cases = [{"id": i, **b, "seed": rng.randrange(10**9)} for i, b in enumerate(r.prints())]
    crowds = [{"id": len(cases) + i, **b, "seed": rng.randrange(10**9), "crowd": True} for i, b in enumerate(q.prints())]
    for i, b in enumerate(crowds): cases.insert(i * len(cases) // len(crowds), b)
    obs = vp.drive("c24_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700 if not T else 6000)
    steps, n = 0, {}
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("a history ended the process: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        steps += o["steps"]
        for x, v in o["n"].items(): n[x] = n.get(x, 0) + v
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
    c.note("operations", steps); c.note("operations_by_kind", n)
    for k in cases[1:2]: c.sample([[x["op"], x.get("i", x.get("o"))] for x in k["ops"]])
