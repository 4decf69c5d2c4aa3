"""C16: scoped conversions between namelist and JSON under faults (spec/convert), replayed on the real converters."""
import random, vp
def run(c):
    with vp.background(lambda: vp.build("_vmecpp")):
        mc = open(vp.ROOT + "/spec/convert/MC.cfg").read()
        c.model(vp.tlc_check("convert/Convert", mc.replace("MaxDepth = 2", "MaxDepth = 3").replace("MaxSteps = 9", "MaxSteps = 14") if c.thorough else mc, workdir=c.pid + "-mc"))
        gen = (mc.replace("Random = FALSE", "Random = TRUE").replace("Emitting = FALSE", "Emitting = TRUE").replace("MaxSteps = 9", "MaxSteps = 999").replace("MaxDepth = 2", "MaxDepth = 3")
               .replace("INVARIANTS NothingLeft CwdBack Disjoint", "INVARIANT Emit").replace("PROPERTIES NoSwallow\n", ""))
        r = vp.tlc_simulate("convert/Convert", gen, 5000 if c.thorough else 500, 80, c.seed, workdir=c.pid + "-gen")
    c.model(r)
    rng = random.Random(c.seed)
    cases = [{"id": i, **b, "seed": rng.randrange(10**9)} for i, b in enumerate(r.prints())]
    obs = vp.drive("c16_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700)
    steps, cov = 0, {}
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("scenario crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        steps += o["steps"]
        for x in k["ops"][:o["steps"]]:
            n = x.get("api", "leave") + "/" + x.get("fault", x.get("how", "")); cov[n] = cov.get(n, 0) + 1
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
    c.note("operations", steps); c.note("operations_by_kind", cov)
    for k in cases[:2]: c.sample([[x.get("api", "leave"), x.get("fault", x.get("how"))] for x in k["ops"]])
