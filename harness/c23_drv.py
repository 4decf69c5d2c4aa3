"""One problem in two descriptions: both are solved, and everything the second gives is compared with the first, seen as the specification says."""
import numpy as np
import drv
U = 40000.; TOL = 1e-6
LIN = dict(p=(1., -1.), i=(.4, .3), c=(1., -1.))   # pressure, transform, current density
KNOTS = np.linspace(0., 1., 6)
def line(a): return a[0] + a[1] * KNOTS
def profile(what, form, scale):
    a = np.array(LIN[what]) * scale; f = {"p": "am", "i": "ai", "c": "ac"}[what]; t = {"p": "pmass_type", "i": "piota_type", "c": "pcurr_type"}[what]; ip = "_ip" if what == "c" else ""
    if form in (1, 2, 3): return {t: ("cubic_spline", "akima_spline", "line_segment")[form - 1] + ip, f + "_aux_s": KNOTS, f + "_aux_f": line(a), **({f: np.array([0.])} if what == "c" else {})}
    if form == 4 and what != "i": return {t: "two_power", f: np.array([a[0], 1., 1.])}
    if form == 5 and what == "c": return {t: "power_series_i", f: np.array([a[0], a[1] / 2.])}
    if form >= 4: return {t: "power_series", f: np.array([*a, 0., 0.])}
    return {t: "power_series", f: a}
def describe(c, s, ax, p):
    nt, la = s["nt"], s["la"]; L = 16. ** p["len"]; F = 16. ** p["fld"]; hand = p["a"] * p["b"]
    tab = lambda y, k: np.array(y[k], float) / U * L
    d = dict(mpol=s["mp"], ntor=nt, nfp=p["nfp"], lasym=la, rbc=tab(s, "rc"), zbs=tab(s, "zs"), raxis_c=tab(ax, "rc")[0][nt:], zaxis_s=tab(ax, "zs")[0][nt:], ns_array=c["ns"], niter_array=c["niter"], ftol_array=[1e-20] * len(c["ns"]), nstep=10,
             delt=c["delt"], iteration_style=c["style"], ncurr=c["ncurr"], gamma=0., pres_scale=F * F * (.25 if p["pp"] == 5 else 1.), phiedge=1.5 * L * L * F * p["rev"] * c["dir"], curtor=4e4 * L * F * p["rev"] * c["dir"] * hand, return_outputs_even_if_not_converged=True, ntheta=c["ntheta"], tcon0=c["tcon0"])
    d["nzeta"] = 8 * p["k"] if nt and not p["up"] else (c["nzeta"] if nt else 1)
    d["raxis_c"][0] += c["axis"] * L
    if la: d.update(rbs=tab(s, "rs"), zbc=tab(s, "zc"), raxis_s=tab(ax, "rs")[0][nt:], zaxis_c=tab(ax, "zc")[0][nt:])
    d.update(profile("p", p["pp"], 3e3 * (4. if p["pp"] == 5 else 1.))); d.update(profile("i", p["pi"], float(hand))); d.update(profile("c", p["pc"], 1.))
    f = c.get("free")
    if f: d.update(lfreeb=True, mgrid_file="table", nvacskip=f["skip"], extcur=[2. * F, .5 * F * f["two"]] if p is PLAIN else [F, F * f["two"]])
    return drv.solovev(**d)
GR, GZ, PLAIN = 9, 11, {}
def outside(c, p):
    """the external field of the base problem, seen from description p: two circuits on a grid"""
    import vmecpp
    f = c.get("free")
    if not f: return None
    L = 16. ** p["len"]; n = 8 * p["k"] if c["base"]["nt"] else 1
    R = np.linspace(2., 6., GR)[None, None, :]; Z = p["a"] * np.linspace(-2.5, 2.5, GZ)[None, :, None]; z = (p["b"] * p["k"] * 2 * np.pi * np.arange(n) / n + p["d"] * np.pi / 2)[:, None, None] if c["base"]["nt"] else np.zeros((1, 1, 1))
    o = 1. if c["base"]["la"] else 0.; cz, sz = np.cos(z), np.sin(z)
    def one(q):   # R, toroidal and Z components, no current through any loop within a plane; what the symmetry forbids only without it
        return [q[0] * Z * (1 + .3 * cz) + q[1] * (R - 4.) * sz + o * q[2] * (1 + .5 * cz), (q[3] + q[4] * cz * (R - 4.) + q[1] * Z * sz + o * q[2] * sz) / R + 0 * Z, q[0] * (R - 4.) * (1 + .3 * cz) + q[5] * (1 + .1 * cz) + o * q[6] * Z * (1 - cz)]
    def seen(v): return [x * c["dir"] * (1 if p is PLAIN else c["outside"][g]["sign"]) + 0 * R + 0 * Z + 0 * z for x, g in zip(v, ("b_r", "b_p", "b_z"))]
    h = .5 if p is PLAIN else 1.; B = [np.array([h * u.ravel(), w.ravel() / h]) for u, w in zip(seen(one(f["q"])), seen(one(f["q2"])))]   # (the same field from other turns and currents)
    P = vmecpp.MakegridParameters(normalize_by_currents=False, assume_stellarator_symmetry=False, number_of_field_periods=p["nfp"], r_grid_minimum=2. * L, r_grid_maximum=6. * L, number_of_r_grid_points=GR, z_grid_minimum=-2.5 * L, z_grid_maximum=2.5 * L, number_of_z_grid_points=GZ, number_of_phi_grid_points=n)
    return vmecpp.MagneticFieldResponseTable(parameters=P, b_r=B[0], b_p=B[1], b_z=B[2])
def to(p, m, n):
    n1 = (p["b"] if m == 0 else p["a"] * p["b"]) * n * p["k"]; return -n1 if m == 0 and n1 < 0 else n1
def mat(p, m, n):
    c, s = ((1, 0), (0, 1), (-1, 0), (0, -1))[(n * p["d"]) % 4]; o = (-1 if p["b"] * n < 0 else 1) if m == 0 else p["a"]
    return c, -s, o * s, o * c
def near(x, y, s): return x.shape == y.shape and (not x.size or (np.isfinite(y).all() and float(np.abs(x - y).max()) <= TOL * s + 1e-300)) if np.isfinite(x).all() else x.shape == y.shape and bool((np.isfinite(x) == np.isfinite(y)).all())
def fac(q): return 16. ** (q["len"] + q["fld"]) * q["sign"]
def off(name, x, y, q, floor=0.):
    floor = max(floor, abs(fac(q)) * (1e3 if any(t in name for t in ("jcur", "jsup", "jdotb", "j_dot_b", "itheta", "izeta", "bdotk")) else 1e-5))   # what is zero but for rounding
    x = np.asarray(x, float) * fac(q); y = np.asarray(y, float); s = max(float(np.abs(x[np.isfinite(x)]).max()) if x.size and np.isfinite(x).any() else 0., floor)
    if not near(x, y, s): return f"{name} is {np.ravel(y)[:4].tolist()}.., expected {np.ravel(x)[:4].tolist()}.."
PAIRS = dict(r=("rmnc", "rmns"), z=("zmnc", "zmns"), l=("lmnc_full", "lmns_full"), lh=("lmnc", "lmns"), g=("gmnc", "gmns"), b=("bmnc", "bmns"), bsupu=("bsupumnc", "bsupumns"), bsupv=("bsupvmnc", "bsupvmns"), bsubu=("bsubumnc", "bsubumns"), bsubv=("bsubvmnc", "bsubvmns"), bsubs=("bsubsmnc", "bsubsmns"), curru=("currumnc", "currumns"), currv=("currvmnc", "currvmns"))
def series(w, k, mmax, nmax):
    nyq = k not in ("r", "z", "l", "lh"); xm = np.asarray(w.xm_nyq if nyq else w.xm).astype(int); xn = np.asarray(w.xn_nyq if nyq else w.xn).astype(int) // int(w.nfp); o = {}
    c, s = (getattr(w, f, None) for f in PAIRS[k]); z = np.zeros(int(w.ns)); c, s = (None if t is None or not np.size(t) else np.asarray(t, float) for t in (c, s))
    for i in range(len(xm)):
        if nyq and (xm[i] > mmax or abs(xn[i]) > nmax): continue
        o[int(xm[i]), int(xn[i])] = (z if c is None else c[i], z if s is None else s[i])
    return o
def run(i, threads, table):
    import vmecpp
    return vmecpp.run(i, magnetic_field=table, max_threads=threads, verbose=False)
def compare(c, A, B):
    p, a, b = c["p"], A.wout, B.wout
    if a.ier_flag != b.ier_flag or (a.itfsq > 0) != (b.itfsq > 0): return f"one description ends with {a.ier_flag} after {a.itfsq} iterations, the other with {b.ier_flag} after {b.itfsq}"
    if a.ier_flag: return None   # ended without a usable geometry
    for f in ("force_residual_r", "force_residual_z", "force_residual_lambda", "fsqt"):
        x, y = np.asarray(getattr(a, f)), np.asarray(getattr(b, f))
        if x.shape != y.shape: return f"{len(y)} iterations instead of {len(x)}"
        if x.size and float((np.abs(x - y) / (np.abs(x) + 1e-14)).max()) > TOL: return f"{f} differs at iteration {int(np.argmax(np.abs(x - y) / (np.abs(x) + 1e-14) > TOL)) + 1}"
    if list(a.restart_reason_timetrace) != list(b.restart_reason_timetrace): return "the steps taken back differ"
    e = off("wdot[0]", np.asarray(a.wdot)[:1], np.asarray(b.wdot)[:1], c["scalars"]["wb"])   # the energy at the start
    if e: return e
    if np.abs(np.asarray(a.wdot)[1:] - np.asarray(b.wdot)[1:]).max(initial=0.) > 1e-6: return "wdot differs"
    for k, q in c["scalars"].items():
        e = off(k, getattr(a, k), getattr(b, k), q, 1e-12 if k in ("fsqr", "fsqz", "fsql") else 0.)
        if e: return e
    fl = {"equif": 1e-3}
    for k, q in c["profiles"].items():
        e = off(k, getattr(a, k), getattr(b, k), q, fl.get(k, 0.))
        if e: return e
    for g in ("jxbout", "mercier", "threed1_volumetrics", "threed1_first_table", "threed1_geometric_magnetic", "threed1_betas", "threed1_shafranov_integrals"):
        for k, q in c["tables"].get(g, {}).items():
            x, y = np.asarray(getattr(getattr(A, g), k), float), np.asarray(getattr(getattr(B, g), k), float)
            if x.ndim == 2: x, y, q = np.abs(x).max(axis=1), np.abs(y).max(axis=1), {**q, "sign": 1}   # on a grid: the largest value on each surface
            e = off(g + "." + k, x, y, q)
            if e: return e
    # series on the surfaces
    mm = int(np.asarray(a.xm_nyq).max()) - 1; nn = 3 if c["base"]["nt"] else 0
    for k in PAIRS:
        q = c["fields"]["l" if k == "lh" else k]; X = series(a, k, mm, nn); Y = series(b, k, mm, 3 * p["k"] if c["base"]["nt"] else (c["nzeta"] // 2 - 1 if p["up"] else 0)); exp = {}
        for (m, n), (C, S) in X.items():
            M = mat(p, m, n); z = exp.setdefault((m, to(p, m, n)), [0., 0.]); z[0] = z[0] + (M[0] * C + M[1] * S) * fac(q); z[1] = z[1] + (M[2] * C + M[3] * S) * fac(q)
        sc = max(float(np.abs(t).max()) for z in exp.values() for t in z)
        sc = max(sc, 1e-6 if k in ("l", "lh") else 0.)
        for mn in exp:
            if mn not in Y: return f"{k}: no mode {mn}"
        for mn, (C, S) in Y.items():
            z = exp.get(mn, (0., 0.))
            if k == "l" and p["d"] % 2 and mn[0] == 0 and mn in exp: C, S, z = C[1:], S[1:], (z[0][1:], z[1][1:])   # on the axis lambda has no meaning; sines are extrapolated there, cosines are not
            if float(np.abs(C - z[0]).max()) > TOL * sc or float(np.abs(S - z[1]).max()) > TOL * sc: return f"{k}: mode {mn} is {C.tolist()[:3]}.. cos, {S.tolist()[:3]}.. sin, expected {np.ravel(z[0]).tolist()[:3]}.., {np.ravel(z[1]).tolist()[:3]}.."
    for f, kk, s in (("raxis_cc", "r", 0), ("zaxis_cs", "z", 1), ("raxis_cs", "r", 1), ("zaxis_cc", "z", 0)):   # the magnetic axis is the innermost surface
        v = getattr(b, f, None)
        if v is None: continue
        Y = series(b, kk, 0, 0)
        for n, t in enumerate(np.asarray(v, float)):
            if abs(abs(t) - abs(Y[0, n][s][0])) > 1e-12 * 16. ** p["len"] * 8: return f"{f}[{n}] is {t}, the innermost surface has {Y[0, n][s][0]}"
    return None
def handle(c):
    from copy import deepcopy
    p0 = PLAIN; p0.update(len=0, fld=0, rev=1, a=1, b=1, d=0, k=1, up=0, nfp=6, la=c["base"]["la"], pp=0, pi=0, pc=0)
    i = describe(c, c["base"], c["ax0"], p0); j = describe(c, c["x"], c["ax"], c["p"])
    try: A = run(i, c["threads"][0], outside(c, p0))
    except RuntimeError as e: A, ea = None, str(e)[:80]
    try: B = run(j, c["threads"][1], outside(c, c["p"]))
    except RuntimeError as e: B, eb = None, str(e)[:80]
    if A is None or B is None: return {"bad": None if A is None and B is None else "one description is solved, the other fails: " + (eb if B is None else ea), "note": {}}
    r = [int(getattr(t, "value", t)) for t in A.wout.restart_reason_timetrace]
    return {"bad": compare(c, A, B), "note": dict(n=len(A.wout.force_residual_r), restarts=sum(t != 1 for t in r), ier=int(A.wout.ier_flag))}
if __name__ == "__main__": drv.main(handle)
