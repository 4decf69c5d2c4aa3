"""C19: operation walks of spec/wrapper replayed on the SIMSOPT wrapper."""
import random, vp
READERS = '{"run", "aspect", "volume", "iota_axis", "iota_edge", "mean_iota", "mean_shear", "vacuum_well", "external_current"}'
def run(c):
    with vp.background(lambda: vp.build("_vmecpp")):
        mc = open(vp.ROOT + "/spec/wrapper/MC.cfg").read()
        if c.thorough: mc = mc.replace("MaxVer = 3", "MaxVer = 4").replace("MaxOps = 3", "MaxOps = 4").replace("Surfaces = {1, 2}", "Surfaces = {1, 2, 3}")
        c.model(vp.tlc_check("wrapper/Wrapper", mc, workdir=c.pid + "-mc"))
        gen = (mc.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("Res\n", "ResBig\n").replace("{1, 2}", "{1, 2, 3}").replace('{"phiedge", "curtor"}', '{"delt", "tcon0", "phiedge", "curtor", "gamma"}')
               .replace('{"aspect"}', READERS).replace("MaxVer = 3", "MaxVer = 99").replace("MaxVer = 4", "MaxVer = 99").replace("MaxOps = 3", "MaxOps = 24").replace("MaxOps = 4", "MaxOps = 24")
               .replace("Random = FALSE", "Random = TRUE").replace("Emitting = FALSE", "Emitting = TRUE").replace("INVARIANTS", "INVARIANTS Emit").replace("PROPERTY SolveIffChanged\n", ""))
        r = vp.tlc_simulate("wrapper/Wrapper", gen, 3000 if c.thorough else 300, 26, c.seed, workdir=c.pid + "-gen")
    c.model(r)
    rng = random.Random(c.seed)
    cases = [{"id": i, **b, "seed": rng.randrange(10**9), "lasym": rng.random() < 0.3, "keep": rng.random() < 0.3, "res0": RES0} for i, b in enumerate(r.prints())]
    obs = vp.drive("c19_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700)
    solves = steps = 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("walk crashed: " + o["crash"][:300], {"case": k, "observed": o}); continue
        solves += o["solves"]; steps += o["steps"]
        if o["bad"]: c.violation(f"{k['kind']} object, walk {[(x['op'], x['which'], x.get('outcome')) for x in k['ops'][:o['steps']]][-8:]}: {o['bad']}", {"case": k, "observed": o})
    c.note("operations", steps); c.note("solves", solves)
    for k in cases[:2]: c.sample([[x["op"], x["which"], x.get("outcome")] for x in k["ops"]])
RES0 = [4, 1]
