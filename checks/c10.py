"""C10: the restart specification (spec/frame/Restart.tla) against real solves started from stored solutions."""
import json, random, vp
def run(c):
    mc = open(vp.ROOT + "/spec/frame/RestartMC.cfg").read(); T = c.thorough; con = "CONSTANTS\n  TraceFile = \"none\"\n  Emitting = TRUE\n"
    with vp.background(lambda: vp.build("_vmecpp", "obs_run")):
        c.model(vp.tlc_check("frame/Restart", mc, workdir=c.pid + "-mc"))
        r = vp.tlc_check("frame/Restart", "SPECIFICATION ESpec\n" + con + "INVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workdir=c.pid + "-all"); c.model(r); R = list(r.prints())
        r = vp.tlc_simulate("frame/Restart", "SPECIFICATION GSpec\n" + con + "INVARIANT GEmit\nCHECK_DEADLOCK FALSE\n", 900 if T else 160, 3, c.seed, workdir=c.pid + "-gen"); c.model(r); G = list(r.prints())
    rng = random.Random(c.seed); cases = []; E = ("run", "cpp", "model", "solver")
    for x in R:
        s, q = x["stored"], x["req"]; miss = (s["la"] != q["la"]) + (s["mp"] != q["mp"]) + (s["nt"] != q["nt"]) + (s["sched"][-1] != q["sched"][0]) + (s["tables"] != "whole")
        for e in E if miss < 2 or T else [rng.choice(E[:3])]: cases.append(dict(kind="request", stored=s, req=q, entry=e, threads=rng.choice((1, 2))))
    cases.sort(key=lambda k: json.dumps(k["stored"]))
    cases = [k for i in range(8) for k in cases[i * len(cases) // 8:(i + 1) * len(cases) // 8]]
    for k, x in enumerate(G):
        free = k % 3 > 0 and x["b"]["nt"] == 1; ns = x["ns"]
        cases.append(dict(kind="start", **x, free=free, phiedge=rng.choice((1., 1., -1.5)), style=rng.choice(("vmec_8_52", "parvmec")), threads=rng.choice((1, 2, 3, 4)), later=rng.choice(([], [2 * ns - 1], [ns], [ns + 1], [2 * ns - 1, 4 * ns - 3])), entry=None if free else rng.choice(E[:3])))
    for k, x in enumerate(G[:400 if T else 64]): cases.append(dict(kind="again", b=x["b"], sched=rng.choice(([5], [9], [3, 7], [5, 9])), phiedge=rng.choice((1., -1.5)), style=rng.choice(("vmec_8_52", "parvmec")), threads=rng.choice((1, 3)), threads2=rng.choice((1, 2, 4)), free=False))
    for k in range(60 if T else 16): cases.append(dict(kind="again", b=G[0]["b"], sched=rng.choice(([9], [5, 9], [11])), phiedge=1., style="vmec_8_52", threads=rng.choice((1, 3)), threads2=rng.choice((1, 2)), free=True, bz=.0385 * rng.uniform(.97, 1.03), cur=-6e5 * rng.uniform(.97, 1.03)))
    cases = [{**k, "id": i} for i, k in enumerate(cases)]
    obs = vp.drive("c10_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700 if not T else 3000)
    recs, src = [], []; n = {k: [0, 0] for k in ("request", "start", "again")}; seen = {}
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        if "crash" in o: c.violation("a restart crashed: " + o["crash"][-300:] + f" ({json.dumps({a: b for a, b in k.items() if a not in ('b', 'stored')})})", {"case": k, "observed": o}); continue
        n[k["kind"]][0] += 1
        if o["bad"]: c.violation(f"{o['bad']} ({json.dumps(k)[:300]})", {"case": k, "observed": o})
        ev = o.get("events", []); n[k["kind"]][1] += bool(ev)
        if ev: c.traces()
        else: seen[k["kind"] + ("-free" if k.get("free") else "") + ": " + str(o.get("note"))] = seen.get(k["kind"] + ("-free" if k.get("free") else "") + ": " + str(o.get("note")), 0) + 1
        for e in ev: seen[e["e"]] = seen.get(e["e"], 0) + 1
        recs += ev; src += [k] * len(ev)
    r = vp.tlc_validate("frame/Restart", "SPECIFICATION TSpec\nCONSTANTS\n  TraceFile = \"trace.ndjson\"\n  Emitting = FALSE\nCHECK_DEADLOCK FALSE\n", recs, workdir=c.pid + "-trace"); c.model(r)
    for x in r.rejects[:40]:
        i = x["record"] - 1; e = recs[i]; c.violation(f"{x['why']}; " + json.dumps({a: b for a, b in e.items() if a not in ("b", "g", "l", "x")})[:300], {"case": src[i], "record": e, "why": x["why"]})
    c.note("cases_and_judged", n); c.note("records", seen); c.note("free_boundary_starts", sum(e["e"] == "start" and e["free"] and e["j"] == e["ns"] for e in recs)); c.note("asymmetric_starts", sum(e["e"] == "start" and e["b"]["la"] and e["j"] == 1 for e in recs))
    for k in cases[:1]: c.sample(k)
