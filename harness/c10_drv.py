"""Solves started from stored solutions: what is admitted, where they start, how they end."""
import json, math
import numpy as np
import drv, c06_drv as d, c08_drv as fb
from c22_drv import U, whole, tables
import vmecpp
from vmecpp.cpp import _vmecpp
ent = lambda l: [{"m": m, "n": n, "value": v} for m, n, v in l]
js = lambda i: json.loads(i._to_cpp_vmecindata().to_json())
GEO = ("rmnc", "zmns", "lmns_full"); ASYM = ("rmns", "zmnc", "lmnc_full")
def shape(s, **kw):
    """a small problem with the given symmetry, resolution and schedule"""
    nt = s["nt"]; n = len(s["sched"]); k = dict(mpol=s["mp"], ntor=nt, nfp=2 if nt else 1, lasym=s["la"], ns_array=s["sched"], niter_array=[2] * n, ftol_array=[1e-14] * n, nstep=1, delt=.5, return_outputs_even_if_not_converged=True,
                raxis_c=[4.] + [0.] * nt, zaxis_s=[0.] * (nt + 1), pres_scale=.01, rbc=ent([(0, 0, 4.), (1, 0, 1.), (2, 0, .02)] + ([(1, 1, .03)] if nt else [])), zbs=ent([(1, 0, 1.2)] + ([(1, 1, -.02)] if nt else [])))
    if s["la"]: k.update(rbs=ent([(2, 0, .02)]), zbc=ent([(2, 0, .01)]), raxis_s=np.zeros(nt + 1), zaxis_c=np.zeros(nt + 1))
    k.update(kw); return drv.solovev(**k)
KEEP = {}
def stored(s):
    key = json.dumps({**s, "tables": ""}, sort_keys=True)
    if key not in KEEP: KEEP[key] = vmecpp.run(shape(s), max_threads=1, verbose=False)
    o = KEEP[key].model_copy(deep=True)
    if s["tables"] == "coarser": o.wout = stored({**s, "sched": s["sched"][:-1], "tables": "whole"}).wout
    if s["tables"] == "half":
        for f in ASYM: setattr(o.wout, f, None)
    return o
def cpp_state(s, o):
    w = o.wout
    if s["tables"] == "half": w = stored({**s, "tables": "whole"}).wout
    w = w._to_cpp_wout()
    if s["tables"] == "half":
        for f in ASYM: setattr(w, f, np.zeros((0, 0)))
    return _vmecpp.HotRestartState(wout=w, indata=o.input._to_cpp_vmecindata())
def request(c):
    s, r, e = c["stored"], c["req"], c["entry"]; new = shape(r, rbc=ent([(0, 0, 4.), (1, 0, 1.02)])); work = 0; msg = ""
    if e == "solver":
        rs = {"input": js(shape(s if s["tables"] != "coarser" else {**s, "sched": s["sched"][:-1]})), "indata": js(shape(s))}
        if s["tables"] == "half": rs["tables"] = {f: [] for f in ASYM}
        o = d.run(dict(id=0, input=js(new), threads=c["threads"], perms=[], seconds=60, watch=dict(iters=True), restart=rs))
        for k in ("deadlock", "hang", "crash", "exc"):
            if k in o: return {"bad": f"{k}: {o[k]} ({s} -> {r})"}
        ans = "refused" if o["code"] == 3 else "accepted"; work = o.get("calls", 0) + len(o.get("hist", [[]])[0]); msg = o["msg"]
        if o["code"] not in (0, 3): return {"bad": None, "events": [], "note": "ended otherwise: " + o["msg"][:80]}
    else:
        o = stored(s)
        try:
            if e == "run": vmecpp.run(new, max_threads=c["threads"], verbose=False, restart_from=o)
            elif e == "cpp": _vmecpp.run(new._to_cpp_vmecindata(), initial_state=cpp_state(s, o), max_threads=c["threads"], verbose=_vmecpp.OutputMode.SILENT)
            else: _vmecpp.VmecModel.create(new._to_cpp_vmecindata(), r["sched"][0], cpp_state(s, o))
            ans = "accepted"
        except (RuntimeError, ValueError, AttributeError, TypeError) as x: ans = "refused"; msg = str(x)[:120]
    return {"bad": None, "events": [dict(e="request", stored=s, req=r, entry=e, answer=ans, work=work)], "note": msg}
# ---------------------------------------------------------------------------- where it starts
def modes(mp, nt): return [(m, n) for m in range(mp) for n in range(0 if m == 0 else -nt, nt + 1)]
def mats(st, b):
    nt = b["nt"]; g = lambda key, kk: [[st[j][key][kk][m][n + nt] / U for j in range(len(st))] for m, n in modes(b["mp"], nt)]
    t = {"rmnc": g("g", "rc"), "zmns": g("g", "zs"), "lmns_full": g("l", "zs")}
    if b["la"]: t.update(rmns=g("g", "rs"), zmnc=g("g", "zc"), lmnc_full=g("l", "zc"))
    return t
def inp(c, b, **kw):
    nt = b["nt"]; k = dict(mpol=b["mp"], ntor=nt, nfp=2 if nt else 1, lasym=b["la"], ns_array=[c["ns"]], niter_array=[2], ftol_array=[1e-14], nstep=1, delt=.3, return_outputs_even_if_not_converged=True, phiedge=c["phiedge"], raxis_c=[4.] + [0.] * nt, zaxis_s=[0.] * (nt + 1), pres_scale=.01, iteration_style=c["style"], **tables(b))
    if b["la"]: k.update(raxis_s=np.zeros(nt + 1), zaxis_c=np.zeros(nt + 1))
    if c["free"]: k.update(nfp=2, nzeta=fb.NZ, lfreeb=True, nvacskip=3, extcur=np.array([1.]), mgrid_file="table", ncurr=1, ac=np.array([1., -1.]), curtor=1e4, pcurr_type="power_series")
    k.update(kw); return drv.solovev(**k)
def vector(v, b):
    w, mp = (b["nt"] + 1) * b["mp"], b["mp"]
    return [whole(2 * U * float(x) * (math.sqrt(2.) if i % mp else 1.) * (math.sqrt(2.) if (i % w) // mp else 1.)) if isinstance(x, (int, float)) else -999999999 for i, x in enumerate(v)]
def start(c):
    b = c["b"]; ns = c["ns"]; later = c["later"]; n = 1 + len(later); new = inp(c, b, ns_array=[ns] + later, niter_array=[2] * n, ftol_array=[1e-14] * n)
    t = mats(c["stored"], b); base = inp(c, b)   # any solve of that shape; its tables are replaced by the stored ones
    if c["free"]: base = inp({**c, "free": False}, b, nfp=2)
    oc = dict(id=0, input=js(new), threads=c["threads"], perms=[], seconds=60, watch=dict(iters=True, start=True), restart={"input": js(base), "tables": t})
    if c["free"]: oc["table"] = fb.field(.03, .05)
    o = d.run(oc)
    for k in ("deadlock", "hang", "crash", "exc"):
        if k in o: return {"bad": f"{k}: {o[k]}"}
    if o["code"] == -1: return {"bad": None, "events": [], "note": "no base"}
    S = o.get("starts", [])
    if o["code"] == 3: return {"bad": "a restart from a solution of the right shape was refused: " + o["msg"]}
    if not S or S[0]["evals"] > 1 or S[0]["iter2"] != 1 or o["iters"][0][8]: return {"bad": None, "events": [], "note": "no first evaluation to look at"}   # (it did not have a usable geometry)
    flip = (-1 if c["phiedge"] > 0 else 1)
    ev = [dict(e="start", b=b, free=c["free"], j=j + 1, ns=ns, g=c["stored"][j]["g"], l=c["stored"][j]["l"], x=vector(S[0]["x"][j] or [], b), flip=flip) for j in range(ns)]
    for p, q in zip(S, S[1:]):   # stages: surfaces both grids share
        if q["iter2"] != 1 or p["after"] - p["evals"] + 1 != p["calls"] or q["evals"] != p["after"] + 1: continue
        pairs = [(i, i * (q["ns"] - 1) // (p["ns"] - 1)) for i in range(1, p["ns"]) if i * (q["ns"] - 1) % (p["ns"] - 1) == 0]; rz = 2 * len(p["end"][0]) // 3
        far = lambda A: max(np.abs(np.array(A[i][:rz], float) - np.array(q["x"][j][:rz], float)).max() for i, j in pairs)
        if any(isinstance(z, str) for r in p["end"] + q["x"] for z in r): continue
        ev.append(dict(e="stage", **{"from": "previous" if far(p["end"]) < 1e-9 else "stored" if far(S[0]["x"]) < 1e-9 else "other"}))
    # the other ways in must start at the same place: the first residuals tell
    bad = None
    if c["entry"]:
        h = [float(o["hist"][k][0]) for k in range(3)] if o["hist"][0] else None; cp = lambda: _vmecpp.HotRestartState(wout=w, indata=src.input._to_cpp_vmecindata())
        src = vmecpp.run(inp({**c, "free": False}, b), max_threads=1, verbose=False)
        for f in GEO + (ASYM if b["la"] else ()): setattr(src.wout, f, np.array(t[f]))
        w = src.wout._to_cpp_wout(); one = inp(c, b)
        if c["entry"] == "run": r = vmecpp.run(one, max_threads=c["threads"], verbose=False, restart_from=src).wout; g = [r.force_residual_r[0], r.force_residual_z[0], r.force_residual_lambda[0]]
        elif c["entry"] == "cpp": r = _vmecpp.run(one._to_cpp_vmecindata(), initial_state=cp(), max_threads=c["threads"], verbose=_vmecpp.OutputMode.SILENT).wout; g = [r.force_residual_r[0], r.force_residual_z[0], r.force_residual_lambda[0]]
        else: m = _vmecpp.VmecModel.create(one._to_cpp_vmecindata(), ns, cp()); m.evaluate(1, 1); g = [m.fsqr, m.fsqz, m.fsql]
        if h and not np.allclose(h, g, rtol=1e-8, atol=1e-14): bad = f"the solve entered through {c['entry']} starts with residuals {[float(x) for x in g]}, the solver itself with {h}"
    return {"bad": bad, "events": ev, "note": "seen"}
# ---------------------------------------------------------------------------- a converged problem again
def again(c):
    cc = {**c, "free": False, "ns": c["sched"][-1], "style": c["style"]}; n = len(c["sched"])
    i = inp(cc, c["b"], ns_array=c["sched"], niter_array=[3000] * n, ftol_array=[1e-9] * n, return_outputs_even_if_not_converged=False, delt=.7, nstep=3000)
    kw = {}
    if c["free"]:   # a tokamak held by a vertical field
        f = fb.field(c["bz"], 0.); q = f["par"]; B = [np.array(x) for x in f["b"]]
        P = vmecpp.MakegridParameters(normalize_by_currents=False, assume_stellarator_symmetry=False, number_of_field_periods=2, r_grid_minimum=q["rmin"], r_grid_maximum=q["rmax"], number_of_r_grid_points=q["r"], z_grid_minimum=q["zmin"], z_grid_maximum=q["zmax"], number_of_z_grid_points=q["z"], number_of_phi_grid_points=q["p"])
        kw["magnetic_field"] = vmecpp.MagneticFieldResponseTable(parameters=P, b_r=B[0], b_p=B[1], b_z=B[2])
        i = drv.solovev(lfreeb=True, mgrid_file="table", nvacskip=3, extcur=np.array([1.]), nfp=2, ntor=1, nzeta=fb.NZ, mpol=4, ns_array=c["sched"], niter_array=[6000] * n, ftol_array=[1e-12] * n, nstep=6000, delt=.7, ncurr=1, ac=np.array([1., -1.]), curtor=c["cur"], pcurr_type="power_series", phiedge=np.pi, am=np.array([1e3, -1e3]), pres_scale=1., rbc=ent([(0, 0, 4.), (1, 0, 1.)]), zbs=ent([(1, 0, 1.)]), raxis_c=[4.1, 0.], zaxis_s=[0., 0.])
    try: a = vmecpp.run(i, max_threads=c["threads"], verbose=False, **kw)
    except (RuntimeError, AttributeError) as e: return {"bad": None, "events": [], "note": "did not converge: " + str(e)[:60]}
    j = i.model_copy(deep=True); j.ns_array = np.array(c["sched"][-1:]); j.ftol_array = i.ftol_array[-1:]; j.niter_array = i.niter_array[-1:]; tol = .02 if c["free"] else 1e-4
    before = a.wout.model_copy(deep=True); x = vmecpp.run(j, max_threads=c["threads2"], verbose=False, restart_from=a, **kw); y = vmecpp.run(j, max_threads=c["threads2"], verbose=False, restart_from=a, **kw)
    F = ("rmnc", "zmns", "lmns_full", "iotaf", "presf") + (("rmns", "zmnc") if i.lasym else ())
    far = lambda p, q, f: float(np.abs(np.asarray(getattr(p, f)) - np.asarray(getattr(q, f))).max() / (np.abs(np.asarray(getattr(p, f))).max() + 1e-30))
    same = all(far(a.wout, x.wout, f) < tol for f in F) and abs(a.wout.wb - x.wout.wb) < tol / 100 * abs(a.wout.wb); twice = all(np.array_equal(getattr(x.wout, f), getattr(y.wout, f)) for f in F)
    kept = all(np.array_equal(getattr(a.wout, f), getattr(before, f)) for f in F)
    return {"bad": None if kept else "restarting from a stored solution changed it", "events": [dict(e="again", free=c["free"], cold=len(a.wout.force_residual_r), hot=len(x.wout.force_residual_r), same=bool(same), twice=bool(twice))], "note": "seen"}
def handler(c): return {"request": request, "start": start, "again": again}[c["kind"]](c)
if __name__ == "__main__": drv.main(handler)
