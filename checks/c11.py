"""C11: behaviours of the model-object specification (spec/model/Model.tla) replayed on real model objects."""
import json, random, vp
def run(c):
    mc = open(vp.ROOT + "/spec/model/ModelMC.cfg").read(); T = c.thorough
    if T: mc = mc.replace("MaxOps = 4", "MaxOps = 5")
    G = []; sets = ("{3, 4, 7}", "{4, 9}", "{3, 5, 6, 11}")
    with vp.background(lambda: vp.build("_vmecpp")):
        c.model(vp.tlc_check("model/Model", mc, workdir=c.pid + "-mc"))
        for k, g in enumerate(sets):
            cfg = "SPECIFICATION GSpec\nCONSTANTS\n  MaxOps = %d\n  Grids = %s\n  Given = {0, 1, 2, 3, 4, 5, 6, 7}\n  Emitting = TRUE\nINVARIANT GEmit\nCHECK_DEADLOCK FALSE\n" % ((24, 30, 40)[k], g)
            r = vp.tlc_simulate("model/Model", cfg, 4000 if T else 400, 45, c.seed + k, workdir=f"{c.pid}-gen{k}"); c.model(r); G += [(int(g[1]), x) for x in r.prints()]
    rng = random.Random(c.seed); cases = []
    for i, (ns, x) in enumerate(G):
        cases.append(dict(id=i, ns=ns, ops=x["ops"], defs=x["defs"], seed=rng.randrange(10**6), mpol=rng.choice((2, 3, 4)), ntor=rng.choice((0, 1, 1, 2)), lasym=rng.random() < .4, ncurr=rng.choice((0, 1)), lforbal=rng.random() < .3, style=rng.choice(("vmec_8_52", "parvmec")), pres=rng.choice((0., .01, 1.)), tcon0=rng.choice((1., .3)), phiedge=rng.choice((1., -1.5))))
    obs = vp.drive("c11_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700 if not T else 3000); seen = {}
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        brief = {a: b for a, b in k.items() if a not in ("ops", "defs")}
        if "crash" in o: c.violation("the model object crashed: " + o["crash"][-300:] + f" ({json.dumps(brief)})", {"case": k, "observed": o}); continue
        c.traces()
        for a, b in o["seen"].items(): seen[a] = seen.get(a, 0) + b
        if o["bad"]: c.violation(f"{o['bad']} ({json.dumps(brief)}; operations {' '.join(x['op'] for x in k['ops'])})", {"case": k, "observed": o})
    c.note("operations", seen)
    for k in cases[:1]: c.sample({**k, "defs": [], "ops": [x["op"] for x in k["ops"]]})
