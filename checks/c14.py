"""C14: resolution histories of spec/modes replayed on inputs, the solver structure and stored solutions."""
import random, vp
def run(c):
    with vp.background(lambda: vp.build("_vmecpp")):
        mc = open(vp.ROOT + "/spec/modes/MC.cfg").read()
        c.model(vp.tlc_check("modes/Modes", mc.replace("MaxM = 4", "MaxM = 5").replace("MaxOps = 3", "MaxOps = 4") if c.thorough else mc, workdir=c.pid + "-mc"))
        gen = (mc.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("MaxM = 4", "MaxM = 7").replace("MaxN = 2", "MaxN = 4").replace("MaxOps = 3", "MaxOps = 10")
               .replace("Random = FALSE", "Random = TRUE").replace("Emitting = FALSE", "Emitting = TRUE").replace("INVARIANTS Shape Survivors UpDownIdentity Confluent", "INVARIANT Emit").replace("PROPERTIES SharedKept NewAreZero\n", ""))
        r = vp.tlc_simulate("modes/Modes", gen, 3000 if c.thorough else 300, 12, c.seed, workdir=c.pid + "-gen")
    c.model(r)
    rng = random.Random(c.seed)
    cases = [{"id": i, **b, "seed": rng.randrange(10**9), "lasym": rng.random() < 0.4, "back": rng.random() < 0.5, "ns": rng.choice([3, 4, 5, 8])} for i, b in enumerate(r.prints())]
    obs = vp.drive("c14_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700)
    steps = 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("walk crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        steps += o["steps"]
        if o["bad"]: c.violation(f"{k['kind']}{' (asymmetric)' if k['lasym'] else ''}, {[(x['way'], x['mp'], x['nt']) for x in k['ops'][:o['steps']]][-4:]}: {o['bad']}", {"case": k, "observed": o})
    c.note("operations", steps)
    for k in cases[:2]: c.sample([[x["way"], x["mp"], x["nt"], x["ok"]] for x in k["ops"]])
