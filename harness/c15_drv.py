"""Replays continuation schedules into vmecpp.run; the compiled solver entry point is wrapped to record each solve."""
import random
import drv
import numpy as np
import vmecpp
_cpp = vmecpp._vmecpp
_real = _cpp.run

GEO = ("rmnc", "zmns", "lmns_full")
GEOA = ("rmns", "zmnc", "lmnc_full")

def boundary(rng, mpol, ntor, lasym):
    def z(): return np.zeros((mpol, 2 * ntor + 1))
    rbc, zbs, rbs, zbc = z(), z(), z(), z()
    for m in range(mpol):
        for n in range(-ntor, ntor + 1):
            if m == 0 and n < 0: continue
            s = 0.02 / (1 + m + abs(n)) ** 2
            rbc[m, n + ntor] = rng.uniform(-s, s); zbs[m, n + ntor] = rng.uniform(-s, s)
            if lasym: rbs[m, n + ntor] = rng.uniform(-s, s) / 3; zbc[m, n + ntor] = rng.uniform(-s, s) / 3
    rbc[0, ntor] = 4.0; rbc[1, ntor] = 1.0; zbs[1, ntor] = 1.4
    return rbc, zbs, rbs, zbc

def make(case):
    rng = random.Random(case["seed"]); r = case["req"]
    mp = r["mp"]["v"]; nt = r["nt"]["v"]; n = len(r["ns"]); lasym = case["lasym"]
    rbc, zbs, rbs, zbc = boundary(rng, mp[-1], nt[-1], lasym)
    rax = np.zeros(nt[-1] + 1); rax[0] = 4.05; zax = np.zeros(nt[-1] + 1)
    if nt[-1]: rax[-1] = 0.013; zax[-1] = -0.007
    kw = dict(lasym=lasym, nfp=2, mpol=mp[0] if r["mp"]["kind"] == "s" else list(mp), ntor=nt[0] if r["nt"]["kind"] == "s" else list(nt),
              ntheta=0, nzeta=10, ns_array=r["ns"], ftol_array=[10.0 ** -(6 + i) for i in range(n + r["lf"])], niter_array=[21 + i for i in range(n + r["li"])],
              return_outputs_even_if_not_converged=True, raxis_c=rax, zaxis_s=zax, rbc=rbc, zbs=zbs, delt=0.7, tcon0=0.8, phiedge=1.1, pres_scale=0.9)
    if lasym: kw.update(rbs=rbs, zbc=zbc, raxis_s=np.zeros(nt[-1] + 1), zaxis_c=np.full(nt[-1] + 1, 0.01))
    if r.get("field"): kw.update(lfreeb=True, mgrid_file="does-not-exist.nc", extcur=np.array([1.5, -2.5]))
    return drv.solovev(**kw)

def table():
    p = vmecpp.MakegridParameters(normalize_by_currents=False, assume_stellarator_symmetry=False, number_of_field_periods=2, r_grid_minimum=3.0, r_grid_maximum=5.0,
        number_of_r_grid_points=2, z_grid_minimum=-1.0, z_grid_maximum=1.0, number_of_z_grid_points=2, number_of_phi_grid_points=1)
    b = np.arange(8.0).reshape(2, 4)
    return vmecpp.MagneticFieldResponseTable(parameters=p, b_r=b, b_p=b + 1, b_z=b + 2)

FRAME = [f for f in vmecpp.VmecInput.model_fields if f not in ("mpol", "ntor", "ns_array", "ftol_array", "niter_array", "rbc", "zbs", "rbs", "zbc", "raxis_c", "zaxis_s", "raxis_s", "zaxis_c", "free_boundary_method", "iteration_style", "mgrid_file")]

def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (np.array_equal(a, b) if a.dtype.kind not in "fc" else np.array_equal(a, b, equal_nan=True))

def resized(c, mpol, ntor):
    m0, n0 = c.shape[0], (c.shape[1] - 1) // 2
    out = np.zeros((mpol, 2 * ntor + 1))
    for m in range(min(mpol, m0)):
        for n in range(-min(ntor, n0), min(ntor, n0) + 1): out[m, n + ntor] = c[m, n + n0]
    return out

def geometry(w):
    """mode-number keyed geometry of a (C++ or Python) wout"""
    xm, xn = np.asarray(w.xm).astype(int), np.asarray(w.xn).astype(int)
    g = {}
    for f in GEO + (GEOA if w.lasym else ()):
        v = np.asarray(getattr(w, f))
        g[f] = {(int(a), int(b)): v[i] for i, (a, b) in enumerate(zip(xm, xn))}
    return g

def seed_matches(prev, cur):
    """cur (restart state handed to the solver) carries prev's solution: shared modes in place, new ones zero,
    and on every surface the two grids have in common the very values of prev."""
    a, b = geometry(prev), geometry(cur)
    if set(a) != set(b): return "symmetry"
    n0, n1 = int(prev.ns), int(cur.ns)
    common = [(i, i * (n1 - 1) // (n0 - 1)) for i in range(n0) if (i * (n1 - 1)) % (n0 - 1) == 0]
    for f in a:
        for k, v in b[f].items():
            if len(v) != n1: return f"{f} has {len(v)} surfaces instead of {n1}"
            if k not in a[f]:
                if np.any(v != 0): return f"{f}{k}: new mode not zero"
            else:
                for i, j in common:
                    if i == 0 and k[0] % 2 == 1: continue      # odd m vanishes on the axis by definition
                    x, y = a[f][k][i], v[j]
                    if not (x == y or abs(x - y) <= 1e-12 * (1 + abs(x)) or (np.isnan(x) and np.isnan(y))): return f"{f}{k} differs on a common surface: {x!r} -> {y!r}"
    return ""

def handle(case):
    vi = None; calls = []; outs = []
    r = case["req"]
    given = None
    try:
        vi = make(case)
    except Exception as e:
        return {"calls": [], "outcome": "refused", "exc": repr(e)[:200]}
    if r["rf"]:
        gi = make({**case, "req": {**r, "ns": [5], "mp": {"kind": "s", "v": [4]}, "nt": {"kind": "s", "v": [1]}, "lf": 0, "li": 0, "field": False}})
        given = vmecpp.run(gi, verbose=0, max_threads=1)
    before = vi.model_dump_json()
    def run(indata, *a, **kw):
        i = len(calls) + 1
        q = {"ns": [int(x) for x in indata.ns_array], "mp": int(indata.mpol), "nt": int(indata.ntor), "ftol": [float(x) for x in indata.ftol_array],
             "niter": [int(x) for x in indata.niter_array], "thr": kw.get("max_threads"), "verb": kw.get("verbose"), "bad": []}
        t = kw.get("magnetic_response_table")
        if (t is not None) != bool(r.get("field")): q["bad"].append("magnetic_field")
        if t is not None:
            want = table()
            if not (same(t.b_r, want.b_r) and same(t.b_p, want.b_p) and same(t.b_z, want.b_z)): q["bad"].append("magnetic_field")
            kw = {k: v for k, v in kw.items() if k != "magnetic_response_table"}
        for f in FRAME:
            if not same(getattr(indata, f), getattr(vi, f)): q["bad"].append(f)
        for f in ("rbc", "zbs") + (("rbs", "zbc") if case["lasym"] else ()):
            if not same(getattr(indata, f), resized(getattr(vi, f), q["mp"], q["nt"])): q["bad"].append(f)
        for f in ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if case["lasym"] else ()):
            w = np.zeros(q["nt"] + 1); v = getattr(vi, f)[: q["nt"] + 1]; w[:len(v)] = v
            if not same(getattr(indata, f), w): q["bad"].append(f)
        st = kw.get("initial_state")
        if st is None: q["seed"] = "none"
        else:
            src = outs[-1].wout if outs else (given.wout if given is not None else None)
            if src is None: q["seed"] = "unexpected"
            else:
                why = seed_matches(src, st.wout)
                q["seed"] = ("prev" if outs else "given") if not why else "other: " + why
                if int(st.wout.mpol) != q["mp"] or int(st.wout.ntor) != q["nt"] or int(st.wout.ns) != q["ns"][0]: q["seed"] = "other: resolution"
        calls.append(q)
        if r["fail"] == i: raise RuntimeError(f"scripted failure {i}")
        indata.lfreeb = False
        o = _real(indata, *a, **kw); outs.append(o); return o
    _cpp.run = run
    try:
        try:
            o = vmecpp.run(vi, table() if r.get("field") else None, max_threads=case["thr"], verbose=case["verb"], restart_from=given)
            oc = "done"
            extra = {"same_input": o.input.model_dump_json() == before and vi.model_dump_json() == before,
                     "last": bool(outs and same(o.wout.rmnc, outs[-1].wout.rmnc)), "res": [int(o.wout.mpol), int(o.wout.ntor), int(o.wout.ns)]}
        except Exception as e:
            m = str(e); extra = {"exc": repr(e)[:300]}
            oc = "failed" if "scripted failure" in m else ("refused" if not calls else "error")
            if oc == "failed" and not isinstance(e, RuntimeError): oc = "failed-as-" + type(e).__name__
    finally:
        _cpp.run = _real
    return {"calls": calls, "outcome": oc, **extra}

drv.main(handle)
