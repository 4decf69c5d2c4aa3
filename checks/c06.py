"""C06: schedules of spec/sched/Phases.tla forced on whole solves; every one must give what one worker gives."""
import concurrent.futures as cf, os, random, re, numpy as np, ctl, vp
PROVIDED = set(re.findall(r"\b((?:GOMP|omp)_\w+)\(", open(vp.ROOT + "/harness/omp_sched.h").read()))
def unsupported():
    """runtime entry points the solver needs that the scheduling runtime does not provide"""
    rc, out = vp.sh(["nm", "-u", os.path.join(vp.CPPBUILD, "libcore.a")])
    return sorted(set(re.findall(r"U ((?:GOMP|GOACC|omp)_\w+)", out)) - PROVIDED)
def schedules(c, T, num):
    """random schedules for T workers, and the lists that start with one and the same permutation throughout"""
    cfg = (open(vp.ROOT + "/spec/sched/MC.cfg").read().replace("SPECIFICATION Spec", "SPECIFICATION GenSpec").replace("T = 3", f"T = {T}")
           .replace("MaxLists = 2", f"MaxLists = {6 if T < 5 else 3}").replace("ScheduleFree Report", "Emit"))
    r = vp.tlc_simulate("sched/Phases", cfg, num, 8, c.seed + T, workdir=f"{c.pid}-gen{T}"); c.model(r)
    return [x["perms"] for x in {repr(x): x for x in r.prints()}.values()]
def scripted(c, rng, bs):
    """solves whose residuals follow behaviours of spec/solver (roll-backs of every kind): each with one worker and with several"""
    scs = [ctl.scenario(b, i, rng, "cpp") for i, b in enumerate(bs)]
    def go(T):
        obs = {}
        with cf.ThreadPoolExecutor(4) as ex:
            for o in ex.map(lambda q: ctl.run_cpp([{**s, "threads": T} for s in scs[q::4]], os.path.join(vp.BUILDROOT, "work", f"{c.pid}-{T}", str(q)), vp.CPPBUILD, timeout=120), range(4)): obs.update(o)
        return obs
    one = go(1)
    for T in ((2, 3, 4, 8) if c.thorough else (2, 4)):
        many = go(T)
        for s in scs:
            a, b = one.get(s["id"]), many.get(s["id"])
            if a is None or b is None or "crash" in a: continue
            c.traces()
            if "crash" in b: bad = b["crash"]
            else:
                d = [k for k in ("exc", "code", "status", "hist", "polls", "output", "out_iter2", "out_status", "extra") if a.get(k) != b.get(k)]
                bad = f"{d[0]} is {b.get(d[0])}, one worker: {a.get(d[0])}" if d else None
                if bad is None and len(a["evals"]) != len(b["evals"]): bad = f"{len(b['evals'])} force evaluations, one worker: {len(a['evals'])}"
                for q, (x, y) in enumerate(zip(a["evals"], b["evals"])):
                    if bad: break
                    if x[:5] != y[:5] or x[6:7] != y[6:7]: bad = f"evaluation {q + 1}: counters and grid {y[:5]}, one worker: {x[:5]}"
                    elif y[7]: bad = f"evaluation {q + 1}: neighbouring workers hold different copies of the surface they share"
                    elif not np.allclose(a["pool"][x[5]:x[5] + x[6]], b["pool"][y[5]:y[5] + y[6]], rtol=1e-9, atol=1e-9, equal_nan=True): bad = f"evaluation {q + 1}: another geometry than with one worker"
            if bad: c.violation(f"scripted solve with {T} workers: {bad}", {"scenario": {**s, "threads": T}, "observed": bad})
def run(c):
    inputs = ["sym2d", "multi", "repeat", "curr2d", "sym3d", "curr3d", "asym", "parvmec", "badaxis", "bigstep", "resets", "resetspar", "asym3d", "splines", "lforbal", "converges", "fails", "free", "freemulti", "freelost", "onlycoils"]
    teams = (2, 3, 4, 5, 6) if c.thorough else (2, 3, 4, 5)
    with vp.background(lambda: vp.build("_vmecpp", "obs_run", "ctl_replay")):
        m = vp.tlc_check("sched/Phases", "MC.cfg", workdir=c.pid + "-mc"); c.model(m)
        seen = {mode: {x["drop"] for x in m.prints() if x["mode"] == mode} for mode in ("free", "serial")}
        if seen["free"] != seen["serial"] or not seen["free"]: raise vp.CheckError(f"the forced schedules do not show what the interleavings show: {seen}")
        per = {T: schedules(c, T, (400 if c.thorough else 40) if T < 5 else 6) for T in teams}
        bs, st = ctl.generate(["general", "storm", "single"], "cpp", 200 if c.thorough else 24, c.seed, tag=c.pid + "-ctl"); c.cov["states"] += st; c.cov["transitions"] += st
    c.note("barriers_whose_loss_the_forced_schedules_show", sorted(seen["serial"]))
    rng = random.Random(c.seed); cases = []
    extra = unsupported()
    if extra: c.note("scheduling_runtime_lacks", extra)
    for n in inputs:
        per_input = 160 if c.thorough else 14
        for k in range(per_input if not extra else 0):
            T = (2, 3, 4, 2, 3, 4, 5, 12)[k % 8] if not c.thorough else rng.choice((2, 3, 4, 5, 6, 7, 9, 12, 16))
            base = T if T in per else rng.choice([t for t in per if t <= T])
            cases.append({"kind": "sched", "input": n, "threads": T, "perms": rng.choice(per[base])})
        for T in ((2, 3, 5, 8, 16) if c.thorough else (3, 8)): cases.append({"kind": "real", "input": n, "threads": T})
    if c.thorough: cases += [{"kind": "real", "input": n, "threads": T} for n in inputs for T in (2, 4, 7) for _ in range(3)]
    rng.shuffle(cases); cases.sort(key=lambda k: 0)
    cases = [{**k, "id": i} for i, k in enumerate(cases)]
    obs = vp.drive("c06_drv.py", cases, c.pid + "-drv", jobs=8, timeout=750 if not c.thorough else 3000)
    ch = 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces(); ch += o.get("choices") or 0
        if "crash" in o: c.violation("a solve crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
    scripted(c, rng, bs)
    c.note("scripted_solves", len(bs)); c.note("scheduling_choices_made", ch)
    for n in ("sched", "real"): c.note(n + "_runs", sum(k["kind"] == n for k in cases))
    for k in cases[:3]: c.sample(k)
