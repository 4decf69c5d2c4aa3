"""C23: descriptions of one problem (spec/frame/Equiv) solved for real and compared."""
import json, random, vp
def run(c):
    mc = open(vp.ROOT + "/spec/frame/EquivMC.cfg").read(); T = c.thorough
    with vp.background(lambda: vp.build("_vmecpp")):
        c.model(vp.tlc_check("frame/Equiv", mc if T else mc.replace("MaxSteps = 4", "MaxSteps = 3"), workdir=c.pid + "-mc", timeout=3000 if T else 600)); B = []
        for n, (steps, num) in enumerate(((2, 300), (4, 160), (7, 140), (2, 110), (5, 120))):
            gen = mc.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("MaxSteps = 4", f"MaxSteps = {steps}").replace("Emitting = FALSE", "Emitting = TRUE").split("INVARIANTS")[0] + "INVARIANTS Emit GLaws\nCHECK_DEADLOCK FALSE\n"
            r = vp.tlc_simulate("frame/Equiv", gen, num * (8 if T else 1), steps + 1, c.seed + n, workdir=c.pid + f"-gen{n}"); c.model(r); B += [(n, x) for x in r.prints()]
    rng = random.Random(c.seed); cases = []
    for n, x in B:
        k = dict(id=len(cases), **x, axis=rng.choice((0., 0., 0., .7, -.8)), style=rng.choice(("vmec_8_52", "vmec_8_52", "parvmec")), ncurr=rng.randrange(2), dir=rng.choice((1, 1, -1)), ntheta=rng.choice((0, 0, 16, 18)), tcon0=rng.choice((1., 1., .5)), threads=[rng.choice((1, 2)), rng.choice((1, 2, 3))])
        free = k.pop("free")
        if n < 3:
            ns = rng.choice(([5], [7], [3, 7], [5, 9], [4, 7, 11])); k.update(ns=ns, niter=[rng.choice((6, 12, 20)) for _ in ns], delt=rng.choice((.5, .7, .9, .9, 1.5, 3.)), nzeta=rng.choice((6, 7, 8, 9, 10)))
        elif not free: continue
        else:   # free boundary: long enough for the vacuum field to be switched on and to move the surface
            u = rng.uniform; ns = rng.choice(([5], [7], [9], [5, 7])); k.update(ns=ns, niter=[rng.choice((40, 70, 100)) for _ in ns], delt=rng.choice((.5, .7, .9)), nzeta=8, axis=0., tcon0=1.,
                free=dict(skip=rng.choice((1, 2, 4)), two=rng.choice((1., .5)), q=[u(-.01, .01), u(-.01, .01), u(-.004, .004), u(1.5, 2.1), u(-.05, .05), rng.choice((-.06, -.04, -.02)), u(-.01, .01)], q2=[u(-.005, .005) for _ in range(7)]))
        cases.append(k)
    obs = vp.drive("c23_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700 if not T else 3000); n = it = rs = fb = 0; seen = {}
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        if "crash" in o: c.violation("a solve crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        z = o["note"]; n += 1; it += z.get("n", 0); rs += z.get("restarts", 0) > 0; fb += bool(k.get("free")); c.traces()
        for q, v in k["p"].items(): seen.setdefault(q, set()).add(v)
        if o["bad"]: c.violation(f"{o['bad']} (described with {json.dumps(k['p'])}, grid {k['ns']}, asymmetric {k['base']['la']}, free boundary {bool(k.get('free'))}, ntor {k['base']['nt']}, ncurr {k['ncurr']})", {"case": k, "observed": o})
    c.note("pairs_of_solves", n); c.note("free_boundary_pairs", fb); c.note("iterations_compared", it); c.note("with_steps_taken_back", rs); c.note("descriptions", {q: sorted(map(str, v)) for q, v in seen.items()})
    for k in cases[:1] + cases[-1:]: c.sample(k["p"])
