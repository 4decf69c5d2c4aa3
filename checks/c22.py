"""C22: the frame and profile specifications (spec/frame) against real solves."""
import json, random, vp
def run(c):
    mc = open(vp.ROOT + "/spec/frame/MC.cfg").read(); T = c.thorough
    with vp.background(lambda: vp.build("_vmecpp", "obs_run")):
        c.model(vp.tlc_check("frame/Frame", mc.replace("Pairs = FALSE", "Pairs = TRUE").replace("MaxSteps = 2", "MaxSteps = 1") if T else mc, workdir=c.pid + "-mc", timeout=3000 if T else 600))
        gen = mc.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("Emitting = FALSE", "Emitting = TRUE").split("INVARIANTS")[0] + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
        r = vp.tlc_simulate("frame/Frame", gen, 1500 if T else 260, 3, c.seed, workdir=c.pid + "-gen"); c.model(r); B = list(r.prints())
        r = vp.tlc_simulate("frame/Profiles", open(vp.ROOT + "/spec/frame/Gen.cfg").read(), 6000 if T else 500, 3, c.seed, workdir=c.pid + "-prof"); c.model(r); P = list(r.prints())
    rng = random.Random(c.seed); cases = []
    for k, x in enumerate(B):
        ns = [rng.choice((3, 5, 7))]
        for _ in range(rng.choice((0, 0, 1, 1, 2))): ns.append(ns[-1] + rng.randrange(1, 7))
        y = B[(k + 1) % len(B)]["b"]; same = [z["b"] for z in B if (z["b"]["mp"], z["b"]["nt"], z["b"]["la"]) == (x["b"]["mp"], x["b"]["nt"], x["b"]["la"])]
        cases.append(dict(kind="edge", b=x["b"], normal=x["normal"], flip=x["flip"], ns=ns, niter=[rng.choice((1, 3, 10, 30)) for _ in ns], ftol=[rng.choice((1e-14, 1e-14, 1e-3)) for _ in ns], delt=rng.choice((.9, .9, .5, 1.5, 4.)), style=rng.choice(("vmec_8_52", "vmec_8_52", "parvmec")),
                          axis=rng.choice((4., 4., 4., 4.1, 4.6, 3.5)), threads=rng.choice((1, 2, 3, 4)), ncurr=rng.randrange(2), hot=rng.choice(same) if k % 4 == 3 else None))
    for x in P: cases.append(dict(kind="profile", **x, first=rng.choice(([], [], [3]) if x["p"]["ns"] > 3 else ([],)), threads=rng.choice((1, 1, 2, 3)), pscale=rng.choice((1., 1., .5, 4.)), phiedge=rng.choice((1., 1., -1., 2.5)), curtor=rng.choice((1e4, -1e4)), zbs=rng.choice((1.2, 1.2, -1.2)), niter=rng.choice((1, 3, 3, 20))))
    f = lambda a, b: round(rng.uniform(a, b), 4)
    for k in range(400 if T else 90):
        t, what = rng.choice((("gauss_trunc", "pres"), ("gauss_trunc", "curr"), ("sum_atan", "curr"), ("sum_atan", "iota"), ("two_lorentz", "pres"), ("two_power_gs", "pres"), ("two_power_gs", "curr"), ("pedestal", "pres"), ("pedestal", "curr")))
        sc = {"pres": .01, "iota": .5, "curr": 1.}[what]
        a = {"gauss_trunc": lambda: [f(.5, 2) * sc, f(.4, 1.5)], "sum_atan": lambda: [f(.2, 1) * sc if what == "iota" else 0.] + [z for _ in range(rng.randrange(1, 6)) for z in (f(.1, 1) * sc, f(.5, 3), f(.5, 2), f(.5, 2))],
             "two_lorentz": lambda: [f(.5, 2) * sc, f(0, 1), f(.5, 1.5), f(.8, 2), f(.8, 2), f(.5, 1.5), f(.8, 2), f(.8, 2)], "two_power_gs": lambda: [f(.5, 2) * sc, rng.choice((1., 2., 3.)), rng.choice((1., 2.))] + [z for _ in range(rng.randrange(0, 3)) for z in (f(.1, .5), f(.2, .8), f(.5, .9))],
             "pedestal": lambda: ([f(.1, 1) * sc for _ in range(4)] + [0.] * 12 + [0., f(.1, 1) * sc, f(.5, .9), f(.1, .4)] + [0.]) if what == "pres" else [f(.1, 1) for _ in range(8)] + [f(.1, 1), 0., f(.5, .9), f(.1, .4), 0., f(.1, .5), 0., f(.2, .8), f(.1, .5), f(.1, .5), 0., f(.2, .8), f(.1, .5)]}[t]()
        cases.append(dict(kind="formula", type=t, what=what, a=a, ns=rng.choice(([5], [9], [3, 7], [16])), threads=rng.choice((1, 2))))
    for k in range(120 if T else 24): cases.append(dict(kind="callable", what=rng.choice(("pressure", "iota", "current")), a=[f(.2, 1), f(-.1, .5), f(0, .3), f(0, .2), f(.2, .8)], ns=rng.choice(([5], [4, 9], [3, 5, 12], [16])), threads=rng.choice((1, 2))))
    cases = [{**k, "id": i} for i, k in enumerate(cases)]
    obs = vp.drive("c22_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700 if not T else 3000)
    recs, src = [], []; n = {k: [0, 0] for k in ("edge", "profile", "formula", "callable")}; it = hot = jac = st = 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        if "crash" in o: c.violation("a solve crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        n[k["kind"]][0] += 1; z = o.get("note", {}); n[k["kind"]][1] += bool(z.get("out"))
        if o["bad"]: c.violation(f"{o['bad']} ({json.dumps(k)[:400]})", {"case": k, "observed": o})
        if k["kind"] == "edge" and "events" in o:
            c.traces(); recs += o["events"]; src += [k] * len(o["events"]); it += z["n"]; hot += bool(k["hot"]) and z["n"] > 0; jac += z["ijacob"] > 1; st += z["stages"] > 1
        elif z.get("out"): c.traces()
    r = vp.tlc_validate("frame/Frame", mc.split("CONSTANTS")[0].replace("Spec", "TSpec") + "CONSTANTS" + mc.split("CONSTANTS")[1].split("INVARIANTS")[0].replace('"none"', '"trace.ndjson"') + "CHECK_DEADLOCK FALSE\n", recs, workdir=c.pid + "-trace"); c.model(r)
    for x in r.rejects[:40]:
        i = x["record"] - 1; e = recs[i]; c.violation(f"{x['why']}" + (f" (grid {e['ns']}, iteration {e['iter']})" if e["e"] == "edge" else "") + f"; solve {json.dumps(src[i])[:300]}", {"case": src[i], "record": e, "why": x["why"]})
    c.note("solves_and_outputs_judged", n); c.note("iterations_watched", it); c.note("hot_started", hot); c.note("with_rolled_back_steps", jac); c.note("several_stages", st)
    for k in cases[:1] + cases[300:301]: c.sample(k)
