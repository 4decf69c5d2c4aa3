"""C17: save/load walks over the forms of an output (spec/outputs), replayed on real outputs and files."""
import random, vp
def run(c):
    with vp.background(lambda: vp.build("_vmecpp", "vx_h5")):
        mc = open(vp.ROOT + "/spec/outputs/MC.cfg").read()
        c.model(vp.tlc_check("outputs/Outputs", mc.replace("MaxOps = 7", "MaxOps = 10") if c.thorough else mc, workdir=c.pid + "-mc"))
        gen = (mc.replace("Random = FALSE", "Random = TRUE").replace("Emitting = FALSE", "Emitting = TRUE").replace("MaxOps = 7", "MaxOps = 40" if c.thorough else "MaxOps = 24").replace("MaxVer = 2", "MaxVer = 8")
               .replace("INVARIANTS NoDeadEnd", "INVARIANT Emit").replace("PROPERTIES ContentKept NeverFromNothing\n", ""))
        r = vp.tlc_simulate("outputs/Outputs", gen, 6000 if c.thorough else 700, 60, c.seed, workdir=c.pid + "-gen")
    c.model(r)
    rng = random.Random(c.seed)
    cases = [{"id": i, **b, "seed": rng.randrange(10**9)} for i, b in enumerate(r.prints())]
    obs = vp.drive("c17_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700)
    steps, cov = 0, {}
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("walk crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        steps += o["steps"]
        for x in k["ops"][:o["steps"]]:
            n = x["op"] + ("/" + x["what"] if "what" in x else "") + ("" if x["verdict"] == "ok" else "/refused"); cov[n] = cov.get(n, 0) + 1
        for f in o["known"]: c.violation("a result file cut off inside its data section is loaded, the missing values read as zero", {"key": f, "case": k, "observed": o})
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
    c.note("operations", steps); c.note("operations_by_kind", cov)
    for k in cases[:2]: c.sample([x["op"] for x in k["ops"]])
