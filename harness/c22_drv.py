"""Fixed-boundary solves: the outermost surface at every iteration and in the output, the profiles in the output."""
import json, math
import numpy as np
import drv, c06_drv as d
U = 40000.; MU0 = 4e-7 * np.pi
def whole(x, tol=2e-4):
    r = round(x); return int(r) if abs(x - r) < tol else -999999999
def tables(b):
    t = {"rbc": np.array(b["rc"], float) / U, "zbs": np.array(b["zs"], float) / U}
    if b["la"]: t.update(rbs=np.array(b["rs"], float) / U, zbc=np.array(b["zc"], float) / U)
    return t
def inp(b, **kw):
    nt = b["nt"]; k = dict(mpol=b["mp"], ntor=nt, nfp=2 if nt else 1, lasym=b["la"], raxis_c=[4.] + [0.] * nt, zaxis_s=[0.] * (nt + 1), return_outputs_even_if_not_converged=True, nstep=1, pres_scale=.01, **tables(b))
    if b["la"]: k.update(raxis_s=np.zeros(nt + 1), zaxis_c=np.zeros(nt + 1))
    k.update(kw)
    if "axis" in k: k["raxis_c"] = [k.pop("axis")] + [0.] * nt
    return drv.solovev(**k)
def vector(v, b):
    """twice the coefficients in the unit of the specification"""
    w, mp = (b["nt"] + 1) * b["mp"], b["mp"]; out = []
    for i, x in enumerate(v):
        m, n = i % mp, (i % w) // mp; out.append(whole(2 * U * float(x) * (math.sqrt(2.) if m else 1.) * (math.sqrt(2.) if n else 1.)) if isinstance(x, float) or isinstance(x, int) else -999999999)
    return out
def solution_edge(w, b):
    nt, mp = b["nt"], b["mp"]; xm = np.asarray(w.xm).astype(int); xn = np.asarray(w.xn).astype(int) // int(w.nfp); o = dict(mp=mp, nt=nt, la=b["la"])
    for k, f in (("rc", "rmnc"), ("zs", "zmns"), ("rs", "rmns"), ("zc", "zmnc")):
        t = [[0] * (2 * nt + 1) for _ in range(mp)]; c = getattr(w, f, None)
        if c is not None and b["la"] or k in ("rc", "zs"):
            for q in range(len(xm)): t[xm[q]][xn[q] + nt] = whole(U * float(np.asarray(c)[q, -1]))
        o[k] = t
    return o
def run(i, threads=1, hot=None):
    import vmecpp
    return vmecpp.run(i, max_threads=threads, verbose=False, **({"restart_from": hot} if hot else {}))
def edge_case(c):
    b = c["b"]; kw = dict(ns_array=c["ns"], niter_array=c["niter"], ftol_array=c["ftol"], delt=c["delt"], iteration_style=c["style"])
    if c["ncurr"]: kw.update(ncurr=1, ac=[1.], curtor=2e5, pcurr_type="power_series")
    ev = [dict(e="solve", b=b, free=False)]; note = {}
    i = inp(b, axis=c["axis"], **kw)
    oc = dict(id=0, input=json.loads(i._to_cpp_vmecindata().to_json()), threads=c["threads"], perms=[], seconds=60, watch=dict(iters=True, edge=True))
    if c.get("hot"): oc["restart"] = {"input": json.loads(inp(c["hot"], **{**kw, "ns_array": c["ns"][:1], "niter_array": [5], "ftol_array": [1e-14]})._to_cpp_vmecindata().to_json())}
    o = d.run(oc)
    for k in ("deadlock", "hang", "crash", "exc"):
        if k in o: return {"bad": f"{k}: {o[k]}"}
    last = None
    for r, v in zip(o.get("iters", []), o.get("edge", [])):
        x = vector(v, b)
        if x != last: ev.append(dict(e="edge", x=x, ns=r[0], iter=r[2])); last = x
    note.update(n=len(o.get("edge", [])), ijacob=max([r[8] for r in o.get("iters", [])] or [0]), stages=len({r[0] for r in o.get("iters", [])}))
    try: hot = run(inp(c["hot"], **{**kw, "ns_array": c["ns"][:1], "niter_array": [5], "ftol_array": [1e-14]})) if c.get("hot") else None
    except Exception: hot = None
    bad = None
    try:
        out = run(i, c["threads"], hot); ev.append(dict(e="output", x=solution_edge(out.wout, b))); note["out"] = 1
        if not c.get("hot"): bad = reverse(c, kw, out)
    except (RuntimeError, AttributeError) as e: note["err"] = str(e)[:80]
    return {"bad": bad, "events": ev, "note": note}
SAME = ("wb", "volume_p", "aspect", "Aminor_p", "Rmajor_p", "betatotal", "fsqr", "fsqz", "fsql", "ctor", "b0", "rmax_surf", "rmin_surf", "zmax_surf")
TABS = ("rmnc", "zmns", "bmnc", "gmnc", "pres", "phi", "buco", "bvco", "vp")
def reverse(c, kw, out):
    """the same boundary run through the other way round (with the opposite transform, if that is prescribed)"""
    if c["b"]["la"]: return None   # the two are not brought to the same angle
    k2 = dict(kw)
    if not c["ncurr"]: k2["ai"] = [-1.]
    o2 = run(inp(c["flip"], axis=c["axis"], **k2), c["threads"]); a, z = out.wout, o2.wout
    if a.ier_flag or z.ier_flag: return None if a.ier_flag == z.ier_flag else "the outcome depends on the orientation of the boundary"   # ended without a usable geometry: nothing to compare
    if a.itfsq != z.itfsq: return f"the solve with the boundary run through the other way round took {z.itfsq} iterations, not {a.itfsq}"
    for f in SAME:
        x, y = float(getattr(a, f)), float(getattr(z, f))
        if abs(x - y) > 1e-6 * max(abs(x), abs(y)) + 1e-13: return f"{f} depends on the orientation of the boundary: {x!r} and {y!r}"
    for f in TABS:
        x, y = np.asarray(getattr(a, f)), np.asarray(getattr(z, f)); s = np.abs(x).max() + 1e-30
        if x.shape != y.shape or np.abs(x - y).max() > 1e-6 * s: return f"{f} depends on the orientation of the boundary"
    if np.abs(np.asarray(a.iotas) - np.asarray(z.iotas)).max() > 1e-6: return "the transform depends on the orientation of the boundary"
    return None
# ---------------------------------------------------------------------------- profiles
def q(x): return x[0] / x[1]
def fields(f, pre, scale):
    """profile of the specification -> input fields (am, am_aux_s, am_aux_f, type), all values times scale"""
    t = f["type"]; o = {}; c = f.get("c")
    def co(v): o[pre] = np.array(v, float)
    def tab(kn, v): o[pre + "_aux_s"] = np.array(kn, float); o[pre + "_aux_f"] = np.array(v, float) * scale
    name = {"power_series_int": "power_series", "two_power_int": "two_power", "two_power_gs_int": "two_power_gs", "pedestal_int": "pedestal"}.get(t, t)
    if t in ("power_series", "power_series_int", "power_series_i", "pedestal", "pedestal_int", "nice_quadratic"): co([x * scale for x in c])
    elif t in ("two_power", "two_power_int", "two_power_gs", "two_power_gs_int"): co([c[0] * scale] + c[1:])
    elif t == "rational": co([x * scale for x in c["num"]] + [0.] * (10 - len(c["num"])) + c["den"])
    elif t == "two_lorentz": co([c[0] * scale, c[1] / 2., c[2], 1., 1., c[3], 1., 1.])
    elif t.startswith("line_segment"): tab([x / 8. for x in f["kn"]], f["v"])
    elif t in ("akima_knots", "cubic_knots"): tab([x / 8. for x in f["kn"]], f["v"]); name = t[:5] + "_spline" + ("_i" if pre == "ac" else "")
    else:  # a table of a parabola
        kn = np.arange(9) / 8.; tab(kn, np.polyval(c[::-1], kn)); name = t[:5] + "_spline" + ("_ip" if pre == "ac" else "")
    o[{"am": "pmass_type", "ai": "piota_type", "ac": "pcurr_type"}[pre]] = name
    return o
def solve(c, **kw):
    """a short solve that honours the profile; the shape is fixed, only the profiles matter"""
    k = dict(mpol=3, ns_array=c["ns"], niter_array=[c.get("niter", 3)] * len(c["ns"]), ftol_array=[1e-14] * len(c["ns"]), return_outputs_even_if_not_converged=True, nstep=200, rbc=[{"m": 0, "n": 0, "value": 4.}, {"m": 1, "n": 0, "value": 1.}], zbs=[{"m": 1, "n": 0, "value": c.get("zbs", 1.2)}])
    k.update(kw); return run(drv.solovev(**k), c.get("threads", 1)).wout
def differ(name, got, want, scale, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape: return f"{name} has {got.shape[0]} values, expected {want.shape[0]}"
    e = np.abs(got - want); s = max(np.abs(want).max(), scale)
    if not np.all(e <= tol * s): j = int(np.argmax(np.where(np.isfinite(e), e, 1e300))); return f"{name} at half grid point {j + 1} is {got[j]!r}, prescribed {want[j]!r}"
    return None
def judge(w, c, pres, iota, curr, ncurr, curtor):
    return (differ("the pressure", w.pres[1:], pres, 1e-6) or (None if ncurr else differ("the rotational transform", w.iotas[1:], iota, 1e-3))
            or (differ("the enclosed current", -2 * np.pi * np.asarray(w.buco)[1:] / MU0, curr, abs(curtor) * 1e-2, 1e-8) if ncurr else None))
def profile_case(c):
    p = c["p"]; PS, IS, cur = .004, .125, c["curtor"]; kw = dict(pres_scale=c["pscale"], ncurr=p["nc"], phiedge=c["phiedge"], aphi=np.array(p["aphi"], float) / 4., bloat=1. / p["bloat"], spres_ped=p["ped"] / 8., curtor=cur)
    kw.update(fields(p["pres"], "am", PS / c["pscale"])); kw.update(fields(p["iota"], "ai", IS)); kw.update(fields(p["curr"], "ac", 1.))
    try: w = solve({**c, "ns": c["first"] + [p["ns"]]}, **kw)
    except (RuntimeError, AttributeError) as e: return {"bad": None, "note": {"err": str(e)[:80]}}
    sg = -1. if c.get("zbs", 1.) < 0 else 1.
    bad = judge(w, c, [q(x) * PS for x in c["pres"]], [q(x) * IS * sg for x in c["iota"]], [q(x) * cur for x in c["curr"]], p["nc"], cur)
    if not bad:
        f = np.array([q(x) for x in c["flux"]]) / (sum(p["aphi"]) / 4.) * c["phiedge"]; h = 1. / (p["ns"] - 1); tol = 1e-9 + (0 if len(p["aphi"]) < 3 else h * h * 6 * abs(p["aphi"][2]) / 24.)
        bad = differ("the enclosed flux", w.phi, f, 1e-3, tol)
        if not bad:
            s = np.linspace(0, 1, p["ns"]); fp = sum((i + 1) * a * s**i for i, a in enumerate(p["aphi"])) / sum(p["aphi"]) * c["phiedge"]
            bad = differ("the flux derivative", w.phipf, fp, 1e-3)
    return {"bad": bad, "note": {"out": 1}}
# ---- families defined through elementary functions: the formula is the oracle
def atans(a, x): k = range(1, len(a), 4); return a[0] + (sum(a[i] for i in k) if x >= 1 else 2 / np.pi * sum(a[i] * np.arctan(a[i + 1] * x**a[i + 2] / (1 - x)**a[i + 3]) for i in k))
def integral(f, x, n=4000):  # composite Simpson rule
    t = np.linspace(0, x, 2 * n + 1); y = np.array([f(v) for v in t]); return x / (6 * n) * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-1:2].sum())
def gauss(a, x): e = np.exp(-(1 / a[1])**2); return a[0] / (1 - e) * (np.exp(-(x / a[1])**2) - e)
def powgs(a, x): return a[0] * (1 - x**a[1])**a[2] * (1 + sum(a[i] * np.exp(-((x - a[i + 1]) / a[i + 2])**2) for i in range(3, len(a), 3)))
def lorentz(a, x):
    L = lambda y, w, p, r: 1 / (1 + (y / (w * w))**p)**r; N = lambda w, p, r: (L(x, w, p, r) - L(1, w, p, r)) / (1 - L(1, w, p, r))
    return a[0] * (a[1] * N(*a[2:5]) + (1 - a[1]) * N(*a[5:8]))
def pedestal(a, x): t = lambda y: np.tanh(2 * (a[18] - y) / a[19]); return sum(a[i] * x**i for i in range(16)) + a[17] * (t(np.sqrt(x)) - t(1)) / (t(0) - t(1))
def pedcur(a, x):
    t = lambda y: np.tanh(2 * (a[10] - y) / a[11]); g = lambda k, y: np.tanh((y - a[k]) / max(a[k + 1], .01))
    return sum(a[i] * x**(i + 1) / (i + 1) for i in range(8)) + a[8] * (t(0) - t(np.sqrt(x))) / (t(0) - t(1)) + a[13] * (g(15, x) - g(15, 0)) + a[17] * (g(19, x) - g(19, 0))
def formula_case(c):
    s = (np.arange(1, c["ns"][-1]) - .5) / (c["ns"][-1] - 1); a = c["a"]; t = c["type"]; f = {"gauss_trunc": gauss, "sum_atan": atans, "two_power_gs": powgs, "two_lorentz": lorentz, "pedestal": pedestal}[t]; cur = 1e4
    if c["what"] == "curr":
        if t == "pedestal": f = pedcur
        if t in ("gauss_trunc", "two_power_gs"): g = f; F = lambda x: integral(lambda y: g(a, y), x)
        else: F = lambda x: f(a, x)
        kw = dict(ncurr=1, curtor=cur, pcurr_type=t, ac=np.array(a)); want = np.array([F(x) for x in s]) / F(1.) * cur
    elif c["what"] == "pres": kw = dict(pmass_type=t, am=np.array(a)); want = np.array([f(a, x) for x in s])
    else: kw = dict(piota_type=t, ai=np.array(a)); want = np.array([f(a, x) for x in s])
    try: w = solve(c, **kw)
    except (RuntimeError, AttributeError) as e: return {"bad": None, "note": {"err": str(e)[:80]}}
    smooth = 1e-9 if c["what"] != "curr" or t in ("sum_atan", "pedestal") else 1e-6   # the enclosed current of these families is a quadrature
    b = differ("the pressure", w.pres[1:], want, 1e-6, smooth) if c["what"] == "pres" else differ("the rotational transform", w.iotas[1:], want, 1e-3, smooth) if c["what"] == "iota" else differ("the enclosed current", -2 * np.pi * np.asarray(w.buco)[1:] / MU0, want, 100., max(smooth, 1e-8))
    return {"bad": b and f"{t}: {b}", "note": {"out": 1}}
def callable_case(c):
    """vmecpp.set_profile: the callable's values appear at the grid points"""
    import vmecpp
    a = c["a"]; f = lambda s: (a[0] + a[1] * s + a[2] * np.sqrt(np.abs(s)) + a[3] * (s > a[4])); N = c["ns"][-1]; s = (np.arange(1, N) - .5) / (N - 1)
    i = drv.solovev(mpol=3, ns_array=c["ns"], niter_array=[3] * len(c["ns"]), ftol_array=[1e-14] * len(c["ns"]), return_outputs_even_if_not_converged=True, nstep=200, ncurr=1 if c["what"] == "current" else 0, curtor=1e4 if c["what"] == "current" else 0., pres_scale=1.)
    try: w = run(vmecpp.set_profile(i, c["what"], f), c["threads"]).wout
    except (RuntimeError, AttributeError) as e: return {"bad": None, "note": {"err": str(e)[:80]}}
    b = (differ("the pressure", w.pres[1:], f(s), 1e-6) if c["what"] == "pressure" else differ("the rotational transform", w.iotas[1:], f(s), 1e-3) if c["what"] == "iota"
         else differ("the enclosed current", -2 * np.pi * np.asarray(w.buco)[1:] / MU0, f(s) / f(np.array([1.]))[0] * 1e4, 100., 1e-8))
    return {"bad": b and f"set_profile: {b}", "note": {"out": 1}}
def handler(c):
    return {"edge": edge_case, "profile": profile_case, "formula": formula_case, "callable": callable_case}[c["kind"]](c)
if __name__ == "__main__": drv.main(handler)
