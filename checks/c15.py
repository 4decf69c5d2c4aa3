import random, vp
def run(c):
    with vp.background(lambda: vp.build("_vmecpp")):
        c.model(vp.tlc_check("continuation/Continuation", "MC.cfg", workdir=c.pid + "-mc"))
        gen = (open(vp.ROOT + "/spec/continuation/MC.cfg").read().replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("MaxSteps = 2", "MaxSteps = 4")
               .replace("{5, 7}", "{5, 7, 9, 13}").replace("{3, 4}", "{3, 4, 6}").replace("{0, 1}", "{0, 1, 2}").replace("Emitting = FALSE", "Emitting = TRUE").replace("INVARIANTS", "INVARIANTS Emit"))
        r = vp.tlc_simulate("continuation/Continuation", gen, 4000 if c.thorough else 400, 20, c.seed, workdir=c.pid + "-gen")
    c.model(r)
    rng = random.Random(c.seed)
    cases = [{"id": i, **b, "seed": rng.randrange(10**9), "lasym": rng.random() < 0.3, "thr": rng.choice([1, 1, 2]), "verb": rng.choice([0, 0, 0, 1])} for i, b in enumerate(r.prints())]
    obs = vp.drive("c15_drv.py", cases, c.pid + "-drv")
    kinds = {}
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces(); D = judge(k, o); kinds[k["outcome"]] = kinds.get(k["outcome"], 0) + 1
        if D: c.violation(D, {"case": k, "observed": o})
    for k in cases[:3]: c.sample({"request": k["req"], "expected": k["outcome"], "solves": len(k["calls"])})
    c.note("requests_by_outcome", kinds)

def judge(k, o):
    if "crash" in o: return "the run crashed: " + o["crash"][:300]
    r = k["req"]; n = len(r["ns"])
    tag = f"schedule ns={r['ns']} mpol={r['mp']['v']} ntor={r['nt']['v']} ftol entries {n + r['lf']} niter entries {n + r['li']}: "
    if o["outcome"] != k["outcome"]: return tag + f"outcome {o['outcome']} ({o.get('exc', '')}) after {len(o['calls'])} solves, specification: {k['outcome']}"
    if len(o["calls"]) != len(k["calls"]): return tag + f"{len(o['calls'])} solves, specification: {len(k['calls'])}"
    for i, (a, b) in enumerate(zip(o["calls"], k["calls"])):
        want = {"ns": [b["ns"]], "mp": b["mp"], "nt": b["nt"], "ftol": [10.0 ** -(6 + i)], "niter": [21 + i], "thr": k["thr"], "verb": k["verb"]}
        for f, v in want.items():
            if a[f] != v: return tag + f"solve {i+1} ran with {f}={a[f]}, specification {v}"
        if a["bad"]: return tag + f"solve {i+1} changed unrelated or resolution-independent settings: {a['bad']}"
        if a["seed"] != b["seed"]: return tag + f"solve {i+1} started from {a['seed']}, specification: {b['seed']}"
    if k["outcome"] == "done":
        if not o["same_input"]: return tag + "the returned input is not the requested one (or the request was modified)"
        if not o["last"] or o["res"] != [r["mp"]["v"][-1], r["nt"]["v"][-1], r["ns"][-1]]: return tag + "the result is not the last solve's solution at the requested resolution"
    return None
