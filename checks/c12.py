"""C12: conversion walks of spec/repr replayed on the real converters."""
import random, vp
def run(c):
    with vp.background(lambda: vp.build("_vmecpp", "vx_indata")):
        mc = open(vp.ROOT + "/spec/repr/MC.cfg").read()
        c.model(vp.tlc_check("repr/Repr", mc.replace("MaxVer = 3", "MaxVer = 30") if c.thorough else mc, workdir=c.pid + "-mc"))
        gen = (mc.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("MaxVer = 3", "MaxVer = 99").replace("Random = FALSE", "Random = TRUE").replace("Emitting = FALSE", "Emitting = TRUE")
               .replace("INVARIANTS NoDeadEnd", "INVARIANT Emit").replace("PROPERTIES ContentKept NeverSilent NeverSilentSkew\n", ""))
        r = vp.tlc_simulate("repr/Repr", gen, 8000 if c.thorough else 900, 14, c.seed, workdir=c.pid + "-gen")
    c.model(r)
    rng = random.Random(c.seed)
    cases = [{"id": i, **b, "seed": rng.randrange(10**9), "lasym": rng.random() < 0.5} for i, b in enumerate(r.prints())]
    obs = vp.drive("c12_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700, env={"VP_LOG": "1"})
    steps = 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("walk crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        steps += o["steps"]
        if o["bad"]: c.violation(f"{'asymmetric' if k['lasym'] else 'symmetric'} input, {[x['op'] for x in k['ops'][:o['steps']]][-5:]}: {o['bad']}", {"case": k, "observed": o})
    c.note("operations", steps)
    for k in cases[:2]: c.sample([x["op"] for x in k["ops"]])
