"""C21: provider histories and table layouts of spec/fields against the real field tables."""
import random, vp
def run(c):
    tb, pr = (open(vp.ROOT + f"/spec/fields/{n}.cfg").read() for n in ("Table", "Provider"))
    with vp.background(lambda: vp.build("_vmecpp", "vx_mgrid")):
        if c.thorough: tb = tb.replace("MaxP = 6", "MaxP = 12").replace("MaxZ = 5", "MaxZ = 7").replace("MaxR = 3", "MaxR = 5")
        t = vp.tlc_check("fields/Fields", tb, workdir=c.pid + "-tab"); c.model(t)
        c.model(vp.tlc_check("fields/Fields", pr.replace("MaxSteps = 2", "MaxSteps = 3") .replace("MaxC = 2", "MaxC = 1").replace("MaxR = 2", "MaxR = 3") if c.thorough else pr, workdir=c.pid + "-mc"))
        gen = (pr.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("MaxSteps = 2", "MaxSteps = 8").replace("MaxP = 2", "MaxP = 5").replace("MaxZ = 3", "MaxZ = 5").replace("MaxR = 2", "MaxR = 6").replace("MaxC = 2", "MaxC = 4")
               .replace("CurSmall", "CurLarge").replace("Gen = FALSE", "Gen = TRUE").replace("Linear GridExact PathFree RefusedHoldsNothing", "RefusedHoldsNothing Emit"))
        r = vp.tlc_simulate("fields/Fields", gen, 12000 if c.thorough else 1500, 10, c.seed, workdir=c.pid + "-gen")
    c.model(r)
    rng = random.Random(c.seed)
    cases = [{"kind": "steps", "steps": b} for b in {repr(x): x for x in r.prints()}.values()]
    cases = rng.sample(cases, min(len(cases), 60000 if c.thorough else 3000))
    tabs = list({repr(x): x for x in t.prints()}.values())
    cases += [{"kind": "table", **b} for b in tabs] * (3 if c.thorough else 1)
    cases += [{"kind": "run"} for _ in range(8 if c.thorough else 2)] + [{"kind": "refuse"}]
    rng.shuffle(cases)
    cases = [{**k, "id": i, "seed": rng.randrange(10**9)} for i, k in enumerate(cases)]
    obs = vp.drive("c21_drv.py", cases, c.pid + "-drv", jobs=8, timeout=750)
    used = 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("a field table operation crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        used += bool(o.get("used"))
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
    for n in ("steps", "table", "run"): c.note(n, sum(k["kind"] == n for k in cases))
    c.note("runs_that_depend_on_the_currents", used)
    c.sample(next(k["steps"][0] for k in cases if k["kind"] == "steps")); c.sample([x for x in tabs if x["sym"] and x["ok"]][:1])
