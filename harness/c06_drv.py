"""Whole solves under schedules of spec/sched/Phases.tla: every schedule must give what one worker gives."""
import json, os, random, signal, subprocess
import numpy as np
import drv
import vmecpp
B, SCR = os.environ["VP_BUILD"], os.environ["VP_SCRATCH"]

NZ = 6
def table(case):
    """an external field in which the free-boundary input below turns its vacuum contribution on"""
    nr, nz = 9, 9; R = np.linspace(2., 6., nr)[None, None, :]; Z = np.linspace(-2.5, 2.5, nz)[None, :, None]; K = np.arange(NZ)[:, None, None]
    bp = .8 / R + 0 * Z + 0 * K; bz = -.02 * (1 + .05 * np.cos(2 * np.pi * K / NZ)) + 0 * R + 0 * Z; br = .003 * Z * np.cos(2 * np.pi * K / NZ) + 0 * R
    if case == "freelost": bz = -1.5 * bz  # pushes the plasma out until its surfaces overlap
    if case == "onlycoils": bz = 0 * bz + .002; br = 0 * br  # no current anywhere inside
    return {"par": dict(norm=False, sym=False, nfp=2, rmin=2., rmax=6., r=nr, zmin=-2.5, zmax=2.5, z=nz, p=NZ), "b": [x.reshape(1, -1).tolist() for x in (br, bp, bz)]}
def inputs(name):
    """name -> (VmecInput, needs the field table)"""
    b = dict(nstep=1, return_outputs_even_if_not_converged=True, ftol_array=[1e-14])
    ent = lambda l: [{"m": m, "n": n, "value": v} for m, n, v in l]
    d3 = dict(nfp=3, ntor=2, mpol=4, rbc=ent([(0, 0, 4.), (0, 1, .2), (1, 0, 1.), (1, 1, .15), (1, -1, -.1), (2, 0, .05)]), zbs=ent([(0, 1, .2), (1, 0, 1.2), (1, 1, -.15), (1, -1, .1)]), raxis_c=[4., .1, 0.], zaxis_s=[0., .1, 0.])
    t = {
        "sym2d": dict(ns_array=[11], niter_array=[40]),
        "multi": dict(ns_array=[5, 9, 13], niter_array=[15, 15, 15], ftol_array=[1e-14] * 3),
        "repeat": dict(ns_array=[7, 7, 12], niter_array=[12, 12, 12], ftol_array=[1e-14] * 3),
        "curr2d": dict(ns_array=[10], niter_array=[40], ncurr=1, ac=[1., -1.], curtor=2e5, pcurr_type="power_series"),
        "sym3d": dict(ns_array=[9], niter_array=[30], **d3),
        "curr3d": dict(ns_array=[6, 11], niter_array=[15, 15], ftol_array=[1e-14] * 2, ncurr=1, ac=[1.], curtor=1e5, **d3),
        "asym": dict(ns_array=[11], niter_array=[30], lasym=True, rbs=ent([(1, 0, .1), (2, 0, .04)]), zbc=ent([(1, 0, .05), (2, 0, .02)]), raxis_s=[0.], zaxis_c=[0.]),
        "parvmec": dict(ns_array=[11], niter_array=[40], iteration_style="parvmec"),
        "badaxis": dict(ns_array=[9], niter_array=[30], raxis_c=[5.2]),
        "bigstep": dict(ns_array=[12], niter_array=[60], delt=1., rbc=ent([(0, 0, 4.), (1, 0, 1.5), (2, 0, .35)]), zbs=ent([(1, 0, 1.4), (2, 0, -.2)])),
        "resets": dict(ns_array=[8], niter_array=[400], delt=10., nstep=400, rbc=ent([(0, 0, 4.), (1, 0, 2.), (2, 0, .9)]), zbs=ent([(1, 0, 3.4), (2, 0, -.6)]), am=[1e5, -1e5], pres_scale=1.),
        "resetspar": dict(ns_array=[8], niter_array=[400], delt=10., nstep=400, rbc=ent([(0, 0, 4.), (1, 0, 2.5), (2, 0, .8)]), zbs=ent([(1, 0, 2.4), (2, 0, -.6)]), iteration_style="parvmec"),
        "asym3d": dict(ns_array=[5, 9], niter_array=[12, 15], ftol_array=[1e-14] * 2, lasym=True, **{**d3, "rbs": ent([(1, 0, .1), (1, 1, .03), (2, -1, .02)]), "zbc": ent([(1, 0, .05), (2, 1, .02)]), "raxis_s": [0., .02, 0.], "zaxis_c": [0., .01, 0.]}),
        "splines": dict(ns_array=[10], niter_array=[30], ncurr=1, pcurr_type="cubic_spline_ip", ac_aux_s=[0., .2, .5, .8, 1.], ac_aux_f=[1., .8, .6, .3, 0.], curtor=1e5, pmass_type="akima_spline", am_aux_s=[0., .2, .4, .7, .9, 1.], am_aux_f=[.1, .09, .06, .03, .01, 0.], bloat=1.05, spres_ped=.8),
        "lforbal": dict(ns_array=[11], niter_array=[40], lforbal=True),
        "converges": dict(ns_array=[5, 11], niter_array=[400, 600], ftol_array=[1e-8, 1e-10], nstep=200),
        "fails": dict(ns_array=[11], niter_array=[5], return_outputs_even_if_not_converged=False),
        "free": dict(lfreeb=True, nzeta=NZ, nfp=2, ntor=1, mpol=3, nvacskip=3, extcur=np.array([1.]), ns_array=[9], niter_array=[75], mgrid_file="table", raxis_c=[4., 0.], zaxis_s=[0., 0.]),
        "freemulti": dict(lfreeb=True, nzeta=NZ, nfp=2, ntor=1, mpol=3, nvacskip=2, extcur=np.array([1.]), ns_array=[5, 8], niter_array=[60, 20], ftol_array=[1e-14] * 2, mgrid_file="table", raxis_c=[4., 0.], zaxis_s=[0., 0.]),
        "freelost": dict(lfreeb=True, nzeta=NZ, nfp=2, ntor=1, mpol=3, nvacskip=3, extcur=np.array([1.]), ns_array=[7], niter_array=[60], mgrid_file="table", raxis_c=[4., 0.], zaxis_s=[0., 0.], phiedge=.6),
        "onlycoils": dict(lfreeb=True, nzeta=NZ, nfp=2, ntor=1, mpol=3, nvacskip=2, extcur=np.array([1.]), ns_array=[5, 8], niter_array=[60, 20], ftol_array=[1e-14] * 2, mgrid_file="table", raxis_c=[4., 0.], zaxis_s=[0., 0.], free_boundary_method="only_coils", ncurr=1, ac=[1.], curtor=0., pres_scale=0.),
    }[name]
    return drv.solovev(**{**b, **t}), name.startswith(("free", "only"))
INPUTS = ["sym2d", "multi", "repeat", "curr2d", "sym3d", "curr3d", "asym", "parvmec", "badaxis", "bigstep", "resets", "resetspar", "asym3d", "splines", "lforbal", "converges", "fails", "free", "freemulti", "freelost", "onlycoils"]

_json = {}
def case_of(name, threads, perms, **kw):
    if name not in _json:
        i, f = inputs(name); _json[name] = (json.loads(i._to_cpp_vmecindata().to_json()), table(name) if f else None)
    j, t = _json[name]; c = dict(id=0, input=j, threads=threads, perms=perms, seconds=30, **kw)
    if t: c["table"] = t
    return c
def run(c):
    a, b = (os.path.join(SCR, f"{x}_{os.getpid()}.nd") for x in ("case", "obs"))
    if os.path.exists(b): os.unlink(b)
    with open(a, "w") as f: f.write(json.dumps(c) + "\n")
    p = subprocess.run([os.path.join(B, "obs_run"), a, b], capture_output=True, text=True, timeout=200)
    try: return json.loads(open(b).read())
    except Exception: return {"crash": (p.stderr or "no output")[-200:]}
_ref = {}
def num(x): return np.array([float(v) for v in x])
def compare(o, r, geo=1e-7, his=1e-5):
    if o["code"] != r["code"] or o["status"] != r["status"]: return f"verdict code {o['code']} status {o['status']} ({o['msg'][:80]}), one worker: code {r['code']} status {r['status']} ({r['msg'][:80]})"
    if o["reasons"] != r["reasons"]: return f"restart history {[x for x in o['reasons'] if x != 1][:9]} of {len(o['reasons'])}, one worker: {[x for x in r['reasons'] if x != 1][:9]} of {len(r['reasons'])}"
    for n, x, y in zip(("fsqr", "fsqz", "fsql", "energy", "delbsq"), o["hist"], r["hist"]):
        x, y = num(x), num(y)
        if len(x) != len(y): return f"{n} history has {len(x)} entries, one worker: {len(y)}"
        ok = np.isclose(x, y, rtol=his, atol=1e-18, equal_nan=True)
        if not np.all(ok): k = int(np.argmin(ok)); return f"{n} at iteration {k + 1} is {x[k]}, one worker: {y[k]}"
    if ("out" in o) != ("out" in r): return "output present/absent"
    for n in o.get("out", {}):
        x, y = num(o["out"][n]), num(r["out"][n]); s = np.max(np.abs(y[np.isfinite(y)]), initial=1e-30)
        if x.shape != y.shape: return f"{n} has another size"
        g = geo * (100 if n in ("DMerc", "equif", "jdotb") else 1)
        if n == "scal": ok = np.isclose(x, y, rtol=1e-6, atol=1e-12, equal_nan=True)
        else: ok = np.isclose(x, y, rtol=0, atol=g * s, equal_nan=True)
        if not np.all(ok): k = int(np.argmin(ok)); return f"output {n}[{k}] is {x[k]}, one worker: {y[k]}"
    return None
_one = {}
def whole(n, threads):
    """the same input through the Python package, threads left to the machine's own OpenMP runtime"""
    i, f = inputs(n); tab = None
    if f:
        t = table(n); q = t["par"]
        P = vmecpp.MakegridParameters(normalize_by_currents=q["norm"], assume_stellarator_symmetry=q["sym"], number_of_field_periods=q["nfp"], r_grid_minimum=q["rmin"], r_grid_maximum=q["rmax"], number_of_r_grid_points=q["r"], z_grid_minimum=q["zmin"], z_grid_maximum=q["zmax"], number_of_z_grid_points=q["z"], number_of_phi_grid_points=q["p"])
        tab = vmecpp.MagneticFieldResponseTable(parameters=P, b_r=np.array(t["b"][0]), b_p=np.array(t["b"][1]), b_z=np.array(t["b"][2]))
    try: o = vmecpp.run(i, magnetic_field=tab, max_threads=threads, verbose=False)
    except Exception as e: return {"err": type(e).__name__}
    r = {"fsqt": np.array(o.wout.force_residual_r), "reasons": [str(x) for x in o.wout.restart_reasons]}
    for part in ("wout", "jxbout", "mercier", "threed1_volumetrics"):
        for k in type(getattr(o, part)).model_fields:
            try: v = np.asarray(getattr(getattr(o, part), k), dtype=float)
            except (TypeError, ValueError): continue
            r[k if part == "wout" else part + "." + k] = v
    return r
def real(case, n):
    if n not in _one: _one[n] = whole(n, 1)
    signal.alarm(40)  # a run that never ends takes this process with it and is reported as a crash
    r, o = _one[n], whole(n, case["threads"]); signal.alarm(0); who = f"{n}, {case['threads']} real threads: "
    if ("err" in o) != ("err" in r) or o.get("err") != r.get("err"): return {"bad": who + f"ended as {o.get('err')}, one worker: {r.get('err')}"}
    if "err" in r: return {"bad": None}
    if o["reasons"] != r["reasons"]: return {"bad": who + "another restart history than one worker"}
    for k in r:
        if k in ("reasons", "maximum_iterations"): continue
        if k not in o or o[k].shape != r[k].shape: return {"bad": who + f"{k} has another size"}
        fin = r[k][np.isfinite(r[k])]; ok = np.isclose(o[k], r[k], rtol=1e-5 if k == "fsqt" else 0, atol=1e-18 if k == "fsqt" else 2e-6 * np.max(np.abs(fin), initial=0) + 1e-14, equal_nan=True)
        if not np.all(ok): j = int(np.argmin(ok.ravel())); return {"bad": who + f"{k}[{j}] is {o[k].ravel()[j]}, one worker: {r[k].ravel()[j]}"}
    return {"bad": None}
_hangs = 0
def handler(case):
    global _hangs
    if _hangs > 1: return {"bad": None, "skipped": True}  # reported already; do not wait for it again and again
    o = handle(case)
    if o["bad"] and "hang" in str(o.get("observed", "")): _hangs += 1
    return o
def handle(case):
    n = case["input"]
    if n not in _ref: _ref[n] = run(case_of(n, 1, []))
    r = _ref[n]
    if case["kind"] == "real": return real(case, n)
    if "code" not in r: return {"bad": f"{n} with one worker: {r}"}
    o = run(case_of(n, case["threads"], case["perms"], watch=dict(seams=True)))
    for k, t in (("deadlock", "the workers wait for each other for ever: "), ("hang", "the run did not end: "), ("crash", "crashed: "), ("exc", "exception: ")):
        if k in o: return {"bad": f"{n}, {case['threads']} workers: {t}{o[k]}", "observed": o}
    bad = compare(o, r)
    if bad is None and o["seams"]: s = o["seams"][0]; bad = f"workers {s[2]} and {s[2] + 1} hold different copies of surface {s[3]} after iteration {s[1]} on the grid of {s[0]}"
    if bad is None and o["sched"]["divergences"]: bad = o["sched"]["divergences"][0]
    return {"bad": None if bad is None else f"{n}, {case['threads']} workers: {bad}", "choices": o["sched"]["choices"], "nthreads": o.get("nthreads"), "vac": o.get("vacthreads")}
if __name__ == "__main__": drv.main(handler)
