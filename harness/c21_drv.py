"""External field tables: provider histories, computed tables and whole solves (spec/fields)."""
import importlib.util, os, random
import numpy as np
import drv
import vmecpp
from scipy.special import ellipe, ellipk
_s = importlib.util.spec_from_file_location("vx_mgrid", os.path.join(os.environ["VP_BUILD"], "vx_mgrid.so"))
vx = importlib.util.module_from_spec(_s); _s.loader.exec_module(vx)
SCR = os.environ["VP_SCRATCH"]; MU = 4e-7 * np.pi
def tmp(n): return os.path.join(SCR, f"{n}_{os.getpid()}")

# ------------------------------------------------------------------ provider histories
def entry(t, c, comp, l): return ((t["salt"] * 5 + c * 7 + comp * 11 + l * 3 + l // 4) % 23) - 11
def par(s, nfp=2, **kw):
    d = dict(norm=False, sym=False, nfp=nfp, rmin=2., rmax=2. + .5 * (s["r"] - 1), r=s["r"], zmin=-.25 * (s["z"] - 1), zmax=.25 * (s["z"] - 1), z=s["z"], p=s["p"])
    d.update(kw); return d
def arrays(t):
    n = t["s"]["p"] * t["s"]["z"] * t["s"]["r"]
    return [np.array([[float(entry(t, c, comp, l)) for l in range(n)] for c in range(1, t["circuits"] + 1)]) for comp in (1, 2, 3)]
def ncfile(path, d, arrs, defect="none", typ="f8"):
    import netCDF4
    nc = len(arrs[0])
    with netCDF4.Dataset(path, "w", format="NETCDF3_CLASSIC") as f:
        for n, l in (("stringsize", 30), ("external_coil_groups", nc), ("dim_00001", 1), ("external_coils", nc), ("rad", d["r"]), ("zee", d["z"]), ("phi", d["p"])):
            f.createDimension(n, l if l else None)
        for n, v in (("ir", d["r"]), ("jz", d["z"]), ("kp", d["p"]), ("nfp", d["nfp"]), ("nextcur", nc)):
            if defect == "noscalar" and n == "jz": continue
            f.createVariable(n, "i4", ())[...] = v + (defect == n)
        for n, v in (("rmin", d["rmin"]), ("rmax", d["rmax"]), ("zmin", d["zmin"]), ("zmax", d["zmax"])): f.createVariable(n, "f8", ())[...] = v
        f.createVariable("mgrid_mode", "S1", ("dim_00001",))[0] = b"R"
        f.createVariable("raw_coil_cur", "f8", ("external_coils",))[:] = 1.
        for k in range(nc):
            for c, a in zip(("br", "bp", "bz"), arrs):
                last = (c, k) == ("bz", nc - 1)
                if defect == "novar" and last: continue
                if defect == "rank" and last: f.createVariable(f"{c}_{k + 1:03d}", typ, ("zee", "rad"))[:] = 1.; continue
                if defect == "text" and last: f.createVariable(f"{c}_{k + 1:03d}", "S1", ("phi", "zee", "rad"))[:] = b"x"; continue
                v = f.createVariable(f"{c}_{k + 1:03d}", typ, ("phi", "zee", "rad"))
                if d["p"]: v[:] = a[k].reshape(d["p"], d["z"], d["r"])
def load(g, st, scale=1., pad=0):
    """scale: all currents times a power of two; pad: so many circuits without current tabulated before the others"""
    t, defect = st["t"], st["defect"]; arrs = arrays(t); s = dict(t["s"]); cur = [float(x) * scale for x in t["currents"]]
    if pad and defect == "none":
        t = {**t, "circuits": t["circuits"] + pad}; cur = [0.] * pad + cur; arrs = [np.vstack([np.full((pad, a.shape[1]), 3.), a]) for a in arrs]
    if defect == "morecurrents": cur += [1.]
    if defect == "fewercurrents": cur = cur[:-1]
    if defect in ("oner", "onez"):
        s[defect[-1]] = 1; n = s["p"] * s["z"] * s["r"]; arrs = [a[:, :n] for a in arrs]
    d = par(s)
    if defect == "oner": d["rmax"] = 3.
    if defect == "onez": d["zmax"] = 3.
    if defect == "extent": d["rmin"], d["rmax"] = d["rmax"], d["rmin"]
    if defect == "nofieldperiods": d["nfp"] = 0
    if defect == "nophi": d["p"] = 0; arrs = [a[:, :0] for a in arrs]
    if t["path"] == "memory":
        if defect[:4] == "rows": i = "rpz".index(defect[5]); arrs[i] = arrs[i][:-1]
        if defect[:7] == "columns": i = "rpz".index(defect[8]); arrs[i] = arrs[i][:, :-1]
        if defect == "extracolumns": arrs = [np.hstack([a, a[:, :1]]) for a in arrs]
        return g.load_fields(d, *arrs, cur)
    p = tmp("mgrid")
    if os.path.exists(p): os.unlink(p)
    if defect == "garbage": open(p, "wb").write(bytes(range(256)) * 8)
    elif defect == "missing": pass
    elif t["path"] == "written": vx.write(p, d, np.ones(t["circuits"]), *arrs)
    else: ncfile(p, d, arrs, defect, "f4" if t["path"] == "float" else "f8")
    return g.load_file(p, cur)
def provider(case):
    g = vx.Provider(); r = random.Random(case["seed"]); t = None
    for i, st in enumerate(case["steps"]):
        if st["op"] == "load":
            scale, pad = r.choice([1., 1., .125, 2. ** -24, 4096.]), r.choice([0, 0, 0, 0, 0, 9, 11])
            try: load(g, st, scale, pad); ok = True; err = ""
            except Exception as e: ok = False; err = f"{type(e).__name__} {str(e)[:120]}"
            if ok != (st["defect"] == "none"): return {"bad": f"step {i}: a table ({st['t']['path']}) with defect '{st['defect']}' was {'accepted' if ok else 'refused ' + err}", "step": st}
            if ok:
                t = st["t"]; held = scale
                if not g.loaded(): return {"bad": f"step {i}: nothing loaded after a successful load"}
        else:
            p = t["s"]["p"]; rows = r.randrange(1, 4); at = r.randrange(rows)
            R = np.array([2. + .25 * r.randrange(0, 2 * t["s"]["r"] - 1) for _ in range(rows * p)]); Z = np.array([-.25 * (t["s"]["z"] - 1) + .25 * r.randrange(0, 2 * t["s"]["z"] - 1) for _ in range(rows * p)])
            R[at * p:(at + 1) * p] = 2. + .25 * st["ii"]; Z[at * p:(at + 1) * p] = -.25 * (t["s"]["z"] - 1) + .25 * st["jj"]
            cuts = sorted({0, rows * p, *[r.randrange(rows * p + 1) for _ in range(r.randrange(3))]})
            out = [np.concatenate(x) for x in zip(*[g.interpolate(a, b, p, R, Z) for a, b in zip(cuts, cuts[1:])])]
            for n, x in zip(("br", "bp", "bz"), out):
                e = np.array(st[n]) / 4. * held
                if not np.allclose(x[at * p:(at + 1) * p], e, rtol=0, atol=1e-9 * held):
                    return {"bad": f"step {i}: {n} at column {st['ii'] / 2}, row {st['jj'] / 2} is {x[at * p:(at + 1) * p].tolist()}, the table and currents say {e.tolist()}", "step": st}
    return {"bad": None}

# ------------------------------------------------------------------ computed tables
def segment(a, b, x):
    ri, rf = x - a, x - b; ni, nf = np.linalg.norm(ri, axis=1), np.linalg.norm(rf, axis=1); L = np.linalg.norm(b - a)
    B = np.cross(ri, rf) * ((ni + nf) / (ni * nf * (ni * nf + np.sum(ri * rf, axis=1))))[:, None]
    A = np.log((ni + nf + L) / (ni + nf - L))[:, None] * ((b - a) / L)[None, :]
    return MU / 4 / np.pi * B, MU / 4 / np.pi * A
def loop(a, z0, x):
    r = np.hypot(x[:, 0], x[:, 1]); z = x[:, 2] - z0; m = 4 * a * r / ((a + r) ** 2 + z ** 2); K, E = ellipk(m), ellipe(m); q = np.sqrt((a + r) ** 2 + z ** 2)
    bz = MU / 2 / np.pi / q * (K + (a * a - r * r - z * z) / ((a - r) ** 2 + z * z) * E); br = MU / 2 / np.pi * z / (r * q) * (-K + (a * a + r * r + z * z) / ((a - r) ** 2 + z * z) * E)
    ap = MU / np.pi / np.sqrt(m) * np.sqrt(a / r) * ((1 - m / 2) * K - E); c, s = x[:, 0] / r, x[:, 1] / r
    return np.stack([br * c, br * s, bz], 1), np.stack([-ap * s, ap * c, 0 * ap], 1)
def coilset(r, nfp, circuits, symmetric):
    """list of (circuit, windings, points | (radius, z))"""
    out = []
    for c in range(circuits):
        base = []
        for _ in range(r.randrange(1, 3)):
            w = r.choice([1., -1., 2., -3., 16.])
            if r.random() < .3: base.append((w, (r.uniform(3.5, 6), r.uniform(-1, 1))))
            else:
                ph, R, z = r.uniform(0, 2 * np.pi), r.uniform(4, 6), r.uniform(-1, 1)
                pts = [[R * np.cos(ph) + r.uniform(-.5, .5), R * np.sin(ph) + r.uniform(-.5, .5), z + r.uniform(-.5, .5)] for _ in range(r.randrange(3, 6))]
                base.append((w, np.array(pts + pts[:1])))
        if symmetric:
            full = []
            for w, g in base:
                if isinstance(g, tuple): full += [(w, g), (w, (g[0], -g[1]))]; continue
                for n in range(nfp):
                    a = 2 * np.pi * n / nfp; rot = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
                    full += [(w, g @ rot.T), (-w, (g * [1, -1, -1]) @ rot.T)]
            base = full
        out += [(c, w, g) for w, g in base]
    return out
def coilfile(p, coils, nfp):
    with open(p, "w") as f:
        f.write(f"periods {nfp}\nbegin filament\nmirror NIL\n")
        for k, (c, w, g) in enumerate(coils):
            if isinstance(g, tuple): f.write("%.17g 0 %.17g %.17g %d c%d\n" % (g[0], g[1], w, c + 1, k)); continue
            for q in g[:-1]: f.write("%.17g %.17g %.17g %.17g\n" % (*q, w))
            f.write("%.17g %.17g %.17g 0.0 %d c%d\n" % (*g[-1], c + 1, k))
        f.write("end\n")
def table(case):
    r = random.Random(case["seed"]); s, sym = case["s"], case["sym"]; nfp = r.randrange(1, 4); circuits = r.randrange(1, 4)
    symc = r.random() < .6; norm = r.random() < .5; lop = r.random() < .15 and s["z"] > 1
    coils = coilset(r, nfp, circuits, symc); p = tmp("coils"); coilfile(p, coils, nfp)
    zm = r.choice([.5, .6, .37]); d = dict(norm=norm, sym=sym, nfp=nfp, rmin=1.9, rmax=3., r=s["r"], zmin=-zm, zmax=zm + (.2 if lop else 0), z=s["z"], p=s["p"])
    want = case["ok"] and not (sym and lop)
    try: B = vx.field(d, p); ok = True; err = ""
    except Exception as e: ok = False; err = str(e)[:150]
    what = f"{s} {d}"
    if ok != want: return {"bad": f"{'accepted' if ok else 'refused: ' + err}: field table {what}"}
    try: A = vx.potential(d, p); ok = True
    except Exception: ok = False
    if ok != want: return {"bad": f"{'accepted' if ok else 'refused'}: vector potential table {what}"}
    P = vmecpp.MakegridParameters(normalize_by_currents=norm, assume_stellarator_symmetry=sym, number_of_field_periods=nfp, r_grid_minimum=d["rmin"], r_grid_maximum=d["rmax"], number_of_r_grid_points=s["r"],
                                  z_grid_minimum=d["zmin"], z_grid_maximum=d["zmax"], number_of_z_grid_points=s["z"], number_of_phi_grid_points=s["p"])
    try: T = vmecpp.MagneticFieldResponseTable.from_coils_file(p, P); ok = True
    except Exception: ok = False
    if ok != want: return {"bad": f"{'accepted' if ok else 'refused'} by from_coils_file: {what}"}
    if not want: return {"bad": None}
    if T.parameters != P: return {"bad": f"the table carries other parameters: {T.parameters} instead of {P}"}
    n = s["p"] * s["z"] * s["r"]; l = np.arange(n)
    def cyl(V, ph): return np.stack([V[:, 0] * np.cos(ph) + V[:, 1] * np.sin(ph), V[:, 1] * np.cos(ph) - V[:, 0] * np.sin(ph), V[:, 2]])
    def at(idx):
        k, j, i = idx // (s["z"] * s["r"]), idx % (s["z"] * s["r"]) // s["r"], idx % s["r"]
        ph = 2 * np.pi * k / (nfp * s["p"]); R = d["rmin"] + i * (d["rmax"] - d["rmin"]) / (s["r"] - 1); Z = d["zmin"] + j * (d["zmax"] - d["zmin"]) / (s["z"] - 1)
        x = np.stack([R * np.cos(ph), R * np.sin(ph), Z], 1); eb, ea = np.zeros((circuits, 3, n)), np.zeros((circuits, 3, n))
        for c in range(circuits):
            w0 = next(w for cc, w, g in coils if cc == c)
            for cc, w, g in coils:
                if cc != c: continue
                b, a = loop(*g, x) if isinstance(g, tuple) else [sum(q) for q in zip(*[segment(u, v, x) for u, v in zip(g, g[1:])])]
                f = w / w0 if norm else w
                eb[c] += f * cyl(b, ph); ea[c] += f * cyl(a, ph)
        return eb, ea
    src, sgn = np.array(case["src"]), np.array(case["sgn"])
    eb, ea = at(src); eb[:, 0] *= sgn; ea[:, 0] *= sgn
    checks = [("mapped", eb, ea)]
    if symc and not lop: checks.append(("direct", *at(l)))
    for how, xb, xa in checks:
        # the sign of the vector potential of circular loops is a convention of the library behind it
        loops = {c for c, w, g in coils if isinstance(g, tuple)}
        for name, got, exp in (("field", np.stack(B, 1), xb), ("vector potential", np.stack(A, 1), xa), ("from_coils_file field", np.stack([T.b_r, T.b_p, T.b_z], 1), xb)):
            if got.shape != exp.shape: return {"bad": f"{name} table has shape {got.shape}, expected {exp.shape} ({what})"}
            for c in range(circuits):
                if name == "vector potential" and c in loops: continue
                tol = 2e-7 * np.max(np.abs(exp[c]))
                e = np.abs(got[c] - exp[c])
                if not np.all(e <= tol):
                    q = np.unravel_index(np.nanargmax(np.where(np.isnan(e), np.inf, e)), e.shape)
                    return {"bad": f"{name} ({how} evaluation): circuit {c}, component {'r phi z'.split()[q[0]]}, index {q[1]} is {got[c][q]}, Biot-Savart says {exp[c][q]} ({what})"}
    return {"bad": None}

# ------------------------------------------------------------------ whole solves
NZ = 6
def freeb(**kw):
    d = dict(lfreeb=True, nzeta=NZ, nfp=2, ntor=1, mpol=3, nvacskip=3, extcur=np.array([1., 1.]), niter_array=[140], mgrid_file="from_memory", raxis_c=[4., 0.], zaxis_s=[0., 0.], return_outputs_even_if_not_converged=True, ftol_array=[1e-14])
    d.update(kw); return drv.solovev(**d)
def fieldtable(r, rows=2):
    nr, nz = 9, 9; R = np.linspace(2., 6., nr)[None, None, :]; Z = np.linspace(-2.5, 2.5, nz)[None, :, None]; K = np.arange(NZ)[:, None, None]
    bp = .8 / R + 0 * Z + 0 * K; bz = -.02 * (1 + .05 * np.cos(2 * np.pi * K / NZ)) + 0 * R + 0 * Z; br = .003 * Z * np.cos(2 * np.pi * K / NZ) + 0 * R
    w = np.array([r.uniform(.3, .7) for _ in range(rows - 1)]); w = np.append(w, 1 - w.sum())
    P = vmecpp.MakegridParameters(normalize_by_currents=False, assume_stellarator_symmetry=False, number_of_field_periods=2, r_grid_minimum=2., r_grid_maximum=6., number_of_r_grid_points=nr,
                                  z_grid_minimum=-2.5, z_grid_maximum=2.5, number_of_z_grid_points=nz, number_of_phi_grid_points=NZ)
    return P, [np.outer(w, x.ravel()) for x in (br, bp, bz)]
def solve(inp, tab=None):
    try: o = vmecpp.run(inp, magnetic_field=tab, max_threads=1, verbose=False)
    except Exception as e: return f"{type(e).__name__} {e}"
    return np.concatenate([np.ravel(x) for x in (o.wout.rmnc, o.wout.zmns, o.wout.bsubumnc, o.wout.fsqr, o.wout.itfsq, getattr(o.wout, "force_residual_r", np.zeros(1)))])
def same(a, b, tol): return a == b if isinstance(a, str) or isinstance(b, str) else a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
def pardict(P): return dict(norm=P.normalize_by_currents, sym=P.assume_stellarator_symmetry, nfp=P.number_of_field_periods, rmin=P.r_grid_minimum, rmax=P.r_grid_maximum, r=P.number_of_r_grid_points,
                            zmin=P.z_grid_minimum, zmax=P.z_grid_maximum, z=P.number_of_z_grid_points, p=P.number_of_phi_grid_points)
def run(case):
    r = random.Random(case["seed"]); P, X = fieldtable(r); T = lambda X, P=P: vmecpp.MagneticFieldResponseTable(parameters=P, b_r=X[0], b_p=X[1], b_z=X[2])
    base = solve(freeb(), T(X)); bad = []
    if isinstance(base, str): return {"bad": None, "note": base}
    def must(name, other, tol=0.):
        if not same(base, other, tol): bad.append(f"{name}: " + (other if isinstance(other, str) else f"largest difference {np.max(np.abs(other - base)) if other.shape == base.shape else 'shape'}"))
    used = not same(base, solve(freeb(extcur=np.array([1.25, 1.])), T(X)), 1e-12)
    f = tmp("mg1"); ncfile(f, pardict(P), X); must("the same table read from its file", solve(freeb(mgrid_file=f)))
    f = tmp("mg2"); vx.write(f, pardict(P), np.ones(2), *X); must("the same table written by the code and read back", solve(freeb(mgrid_file=f)))
    must("table doubled, currents halved", solve(freeb(extcur=np.array([.5, .5])), T([2 * x for x in X])))
    must("circuits exchanged together with their currents", solve(freeb(extcur=np.array([1., 1.])), T([x[::-1].copy() for x in X])), 1e-9)
    must("both circuits tabulated as one", solve(freeb(extcur=np.array([1.])), T([x.sum(0, keepdims=True) for x in X])), 1e-9)
    must("a further circuit without current", solve(freeb(extcur=np.array([1., 1., 0.])), T([np.vstack([x, 7 + x[:1]]) for x in X])))
    # a table object made from arrays of another one
    cpp = T(X)._to_cpp_magnetic_field_response_table(); Q = vmecpp.MagneticFieldResponseTable._from_cpp_magnetic_field_response_table(cpp)
    must("a table handed back by the compiled code", solve(freeb(), Q))
    Pw = P.model_copy(update={"r_grid_maximum": 7.})
    a = solve(freeb(), vmecpp.MagneticFieldResponseTable(parameters=Pw, b_r=Q.b_r, b_p=Q.b_p, b_z=Q.b_z)); b = solve(freeb(), T([x.copy() for x in X], Pw))
    if not same(a, b, 0.): bad.append("a table built from the arrays of another table but with its own grid is solved with the other table's grid")
    a = solve(freeb(), vmecpp.MagneticFieldResponseTable(parameters=P, b_r=Q.b_z, b_p=Q.b_p, b_z=Q.b_r)); b = solve(freeb(), T([X[2], X[1], X[0]]))
    if not same(a, b, 0.): bad.append("a table built from exchanged components of another table is solved with the unexchanged ones")
    return {"bad": "; ".join(bad) or None, "used": bool(used)}

def forked(f):
    """'ok', 'refused' or a crash"""
    pid = os.fork()
    if pid == 0:
        try: f(); os._exit(7)
        except Exception: os._exit(0)
        finally: os._exit(9)
    c = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    return {7: "accepted", 0: "refused"}.get(c, f"the process died ({c})")
def refuse(case):
    P, X = fieldtable(random.Random(1)); T = lambda P=P, X=X: vmecpp.MagneticFieldResponseTable(parameters=P, b_r=X[0], b_p=X[1], b_z=X[2]); bad = []
    def up(**kw): return P.model_copy(update=kw)
    cut = lambda k, f: [f(x) if i == k else x for i, x in enumerate(X)]
    def go(t, **kw): return lambda: vmecpp.run(freeb(niter_array=[3], **kw), magnetic_field=t(), max_threads=1, verbose=False)
    tests = {"more currents than circuits": go(T, extcur=np.ones(3)), "fewer currents than circuits": go(T, extcur=np.ones(1)),
             "another number of toroidal planes than nzeta": go(lambda: T(up(number_of_phi_grid_points=8), [np.hstack([x, x]) for x in X])),
             "another number of field periods": go(lambda: T(up(number_of_field_periods=5))),
             "more grid points than columns": go(lambda: T(up(number_of_r_grid_points=10))), "fewer grid points than columns": go(lambda: T(up(number_of_r_grid_points=8))),
             "r_grid_maximum below r_grid_minimum": go(lambda: T(up(r_grid_maximum=1.))), "z_grid_maximum equal to z_grid_minimum": go(lambda: T(up(z_grid_maximum=-2.5)))}
    for k, n in enumerate(("b_r", "b_p", "b_z")):
        tests[f"a row missing in {n}"] = go(lambda k=k: T(P, cut(k, lambda x: x[:1])))
        tests[f"columns missing in {n}"] = go(lambda k=k: T(P, cut(k, lambda x: x[:, :-3])))
    f = tmp("mg3"); d = pardict(P); d["nfp"] = 5; ncfile(f, d, X); tests["a file with another number of field periods"] = lambda: vmecpp.run(freeb(mgrid_file=f, niter_array=[3]), max_threads=1, verbose=False)
    for n, t in tests.items():
        o = forked(t)
        if o != "refused": bad.append(f"{n}: {o}")
    o = forked(go(T))
    if o != "accepted": bad.append(f"a matching table: {o}")
    # makegrid parameters
    import json
    good = P.model_dump(); f = tmp("par.json")
    def pfile(x):
        with open(f, "w") as h: h.write(x if isinstance(x, str) else json.dumps(x))
        return lambda: vmecpp.MakegridParameters.from_file(f)
    got = pfile(good)()
    if got != P: bad.append(f"parameters read from a file: {got} instead of {P}")
    for n, x in {"missing key": {k: v for k, v in good.items() if k != "z_grid_minimum"}, "text for a number": {**good, "r_grid_minimum": "x"}, "fractional count": {**good, "number_of_r_grid_points": 2.5}, "one radial point": {**good, "number_of_r_grid_points": 1},
                 "no planes": {**good, "number_of_phi_grid_points": 0}, "no field periods": {**good, "number_of_field_periods": 0}, "reversed": {**good, "z_grid_minimum": 9.}, "number for a flag": {**good, "normalize_by_currents": 1},
                 "not JSON": "{", "empty": ""}.items():
        o = forked(pfile(x))
        if o != "refused": bad.append(f"makegrid parameters, {n}: {o}")
    for n, q in (("a missing file", os.path.join(SCR, "no", "such")), ("a directory", SCR)):
        o = forked(lambda: vmecpp.MakegridParameters.from_file(q))
        if o != "refused": bad.append(f"makegrid parameters from {n}: {o}")
    return {"bad": "; ".join(bad) or None}

drv.main(lambda c: {"steps": provider, "table": table, "run": run, "refuse": refuse}[c["kind"]](c))
