"""C08: recorded solves validated against spec/vacuum (vacuum contribution of free-boundary solves)."""
import json, random, vp
def cases_for(rng, n):
    out = []
    for k in range(n):
        ns = [rng.choice((5, 7, 9, 11))]; free = k % 8 != 7
        for _ in range(rng.choice((0, 0, 1, 1, 2))): ns.append(ns[-1] if rng.random() < .25 else ns[-1] + rng.randrange(1, 7))
        calm = rng.random() < .6
        c = dict(free=free, ns=ns, mpol=rng.choice((3, 4, 5)), skip=rng.choice((1, 2, 3, 5, 9)), threads=rng.choice((1, 1, 2, 3, 4)), delt=rng.choice((.9, .7, .5, 1.)), style=rng.choice(("vmec_8_52", "vmec_8_52", "parvmec")),
                 a=rng.choice((1., .95, 1.05)), axis=rng.choice((4.1, 4., 4.3, 4.05)), bz=rng.choice((.0385, .03, .045)) if calm else rng.choice((.0385, -.02, .1)), ripple=0. if calm else rng.choice((0., .02, .05)),
                 cur=-6e5 if calm else rng.choice((-6e5, 6e5, -3e5)), niter=[rng.choice((60, 120, 400)) if i == 0 else rng.choice((1, 5, 40, 200)) for i in range(len(ns))], ftol=[rng.choice((1e-14, 1e-8, 1e-5, 2e-4)) for _ in ns], hot=None)
        if free and k % 3 == 1:  # restart from an earlier solve on the first grid
            c["hot"] = dict(ns=[ns[0]], niter=[rng.choice((50, 300, 900))], ftol=[rng.choice((1e-9, 1e-4))], **rng.choice(({}, {"a": 1.}, {"skip": 1}, {"bz": c["bz"] * .9})), threads=1); c["niter"][0] = rng.choice((1, 2, 10, 60, 200))
        if rng.random() < .1: c["axis"] = rng.choice((4.8, 3.2))
        if rng.random() < .1: c["bumps"] = [[2, 0, .3]]
        out.append(c)
    return out
def run(c):
    mc = open(vp.ROOT + "/spec/vacuum/MC.cfg").read()
    with vp.background(lambda: vp.build("_vmecpp", "obs_run")):
        c.model(vp.tlc_check("vacuum/Vacuum", mc.replace("MaxEvals = 6", "MaxEvals = 8") if c.thorough else mc, workdir=c.pid + "-mc"))
    rng = random.Random(c.seed)
    cases = [{**k, "id": i} for i, k in enumerate(cases_for(rng, 1600 if c.thorough else 160))]
    obs = vp.drive("c08_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700 if not c.thorough else 3000)
    recs, src, n, act, hot, ref = [], [], 0, 0, 0, 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        if "crash" in o: c.violation("a solve crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
        if not o.get("events"): continue
        c.traces(); recs += o["events"]; src += [k] * len(o["events"]); n += o["n"]
        on = 2 in o["states"] or 1 in o["states"]; act += on and not k["hot"]; hot += on and bool(k["hot"]); ref += on and sum(e["e"] == "stage" for e in o["events"]) > 1
    r = vp.tlc_validate("vacuum/Vacuum", mc.split("CONSTANTS")[0].replace("Spec", "TSpec") + "CONSTANTS" + mc.split("CONSTANTS")[1].split("INVARIANTS")[0].replace('"none"', '"trace.ndjson"') + "CHECK_DEADLOCK FALSE\n", recs, workdir=c.pid + "-trace")
    c.model(r)
    for x in r.rejects[:40]:
        i = x["record"] - 1; c.violation(f"{x['why']} ({json.dumps(recs[i])}); solve {json.dumps(src[i])[:300]}", {"case": src[i], "record": recs[i], "why": x["why"]})
    c.note("evaluations_judged", len(recs)); c.note("solves_that_turned_the_vacuum_on", act); c.note("hot_started", hot); c.note("refined_with_vacuum", ref)
    for k in cases[:2]: c.sample(k)
