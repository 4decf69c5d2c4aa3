"""C07: distributions computed by the real classes and used in real solves, judged with spec/partition."""
import json, os, random, vp
from c06 import unsupported
def run(c):
    mc = open(vp.ROOT + "/spec/partition/MC.cfg").read()
    with vp.background(lambda: vp.build("_vmecpp", "obs_run", "part_run")):
        c.model(vp.tlc_check("partition/Partition", mc.replace("= 40", "= 90").replace("= 60", "= 150") if c.thorough else mc, workdir=c.pid + "-mc"))
    rng = random.Random(c.seed)
    big = [x for _ in range(60 if c.thorough else 15) for x in (rng.randrange(41, 400), rng.randrange(1, 70))] + [x for _ in range(40 if c.thorough else 8) for x in (int(10 ** rng.uniform(2.6, 3.6)), rng.randrange(1, 33))]
    rc, out = vp.sh([os.path.join(vp.CPPBUILD, "part_run"), *(("90", "50", "120") if c.thorough else ("40", "25", "50")), *map(str, big)], timeout=300)
    recs = [json.loads(l) for l in out.splitlines() if l.startswith("{")]; src = [f"direct: {r['kind']}" for r in recs]
    if rc != 0: c.violation(f"computing the distribution stopped with exit {rc} after {recs[-1] if recs else 'nothing'}", {"output": out[-400:], "rc": rc})
    cases = []
    for k in range(600 if c.thorough else 90):
        free = k % 3 == 0; n = rng.choice((1, 1, 2)); ns = sorted(rng.sample(range(3, 19), n))
        if k < 24: ns = [3 + k // 2]
        cases.append(dict(kind="solve", free=free, ns=ns, niter=[60 if free and i == 0 else 6 for i in range(len(ns))], mpol=rng.choice((3, 4)), ntheta=rng.choice((0, 10)), threads=rng.choice((2, 3, 4, 5, 6, 7, 8, 9, 11, 20, 40))))
        if rng.random() < .3: cases[-1]["limit"] = rng.randrange(1, 8)
    if unsupported(): cases = []
    cases += [dict(kind="limit", input=n, threads=t, limit=l) for n in ("sym2d", "multi", "free") for t, l in ((4, 2), (5, 1), (3, 3), (2, 4))]
    cases = [{**k, "id": i} for i, k in enumerate(cases)]
    obs = vp.drive("c07_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700 if not c.thorough else 3000)
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("a solve crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
        for r in o.get("ranges", []): recs.append(r); src.append(f"used in the solve {k}")
    r = vp.tlc_validate("partition/Partition", mc.replace("SPECIFICATION Spec", "SPECIFICATION TSpec").replace('"none"', '"trace.ndjson"').replace("INVARIANTS SchemeGood PointsGood\n", ""), recs, workdir=c.pid + "-trace")
    c.model(r); c.traces(len(recs))
    for x in r.rejects: q = recs[x["record"] - 1]; c.violation(f"{x['why']}: {json.dumps(q)[:300]} ({src[x['record'] - 1][:100]})", {"record": q, "from": src[x["record"] - 1]})
    c.note("distributions_judged", len(recs)); c.note("solves", len(cases)); c.sample(recs[7]); c.sample(cases[0])
