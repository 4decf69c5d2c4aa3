"""Replays process histories of spec/history on the real package; each result is compared with what a fresh process gives."""
import faulthandler, gc, json, os, pickle, signal, struct, tempfile, threading
import numpy as np
import drv
import vmecpp
ent = lambda l: [{"m": m, "n": n, "value": v} for m, n, v in l]
NZ = 6
PAR = dict(norm=False, sym=False, nfp=2, rmin=2., rmax=6., r=5, zmin=-2.5, zmax=2.5, z=5, p=NZ)
D3 = dict(nfp=3, ntor=1, mpol=4, rbc=ent([(0, 0, 4.), (0, 1, .2), (1, 0, 1.), (1, 1, .1), (2, 0, .05)]), zbs=ent([(0, 1, .2), (1, 0, 1.2), (1, 1, -.1)]), raxis_c=[4., .1], zaxis_s=[0., .1])
FREE = dict(lfreeb=True, nzeta=NZ, nfp=2, ntor=1, mpol=3, nvacskip=3, extcur=np.array([1.]), raxis_c=[4., 0.], zaxis_s=[0., 0.])
BASES = {
    1: dict(),
    2: D3,
    3: dict(lasym=True, **{**D3, "rbs": ent([(1, 0, .05), (2, -1, .02)]), "zbc": ent([(1, 0, .05), (2, 1, .02)]), "raxis_s": np.array([0., .02]), "zaxis_c": np.array([0., .01])}),
    4: dict(ncurr=1, pcurr_type="cubic_spline_ip", ac_aux_s=np.array([0., .2, .5, .8, 1.]), ac_aux_f=np.array([1., .8, .6, .3, 0.]), curtor=1e5, iteration_style="parvmec"),
    5: dict(FREE, mgrid_file="NONE"),
    6: dict(FREE, mgrid_file="file"),
    7: dict(ns_array=[4, 7], niter_array=[40, 60], ftol_array=[1e-9, 1e-9], nfp=5, mpol=5),
    8: dict(mpol=[3, 4], ns_array=[5, 7], niter_array=[25, 25], ftol_array=[1e-9, 1e-9]),
    9: dict(D3, nfp=4, nzeta=7, ntheta=14),
}
GRID = (7, 19, 5)
def arrays(v):
    R = np.linspace(2., 6., PAR["r"])[None, None, :]; Z = np.linspace(-2.5, 2.5, PAR["z"])[None, :, None]; K = np.arange(NZ)[:, None, None]
    bp = .8 / R + 0 * Z + 0 * K; bz = (-.02, -.03, -.012)[v] * (1 + .05 * np.cos(2 * np.pi * K / NZ)) + 0 * R + 0 * Z; br = .003 * Z * np.cos(2 * np.pi * K / NZ) + 0 * R
    return [x.reshape(1, -1) for x in (br, bp, bz)]
def table(v):
    q = PAR
    P = vmecpp.MakegridParameters(normalize_by_currents=q["norm"], assume_stellarator_symmetry=q["sym"], number_of_field_periods=q["nfp"], r_grid_minimum=q["rmin"], r_grid_maximum=q["rmax"],
                                  number_of_r_grid_points=q["r"], z_grid_minimum=q["zmin"], z_grid_maximum=q["zmax"], number_of_z_grid_points=q["z"], number_of_phi_grid_points=q["p"])
    return vmecpp.MagneticFieldResponseTable(parameters=P, **dict(zip(("b_r", "b_p", "b_z"), [a.copy() for a in arrays(v)])))
def write(path, v):
    """an mgrid file with one circuit"""
    import netCDF4
    d = PAR
    with netCDF4.Dataset(path + ".new", "w", format="NETCDF3_CLASSIC") as f:
        for n, l in (("stringsize", 30), ("external_coil_groups", 1), ("dim_00001", 1), ("external_coils", 1), ("rad", d["r"]), ("zee", d["z"]), ("phi", d["p"])): f.createDimension(n, l)
        for n, x in (("ir", d["r"]), ("jz", d["z"]), ("kp", d["p"]), ("nfp", d["nfp"]), ("nextcur", 1)): f.createVariable(n, "i4", ())[...] = x
        for n in ("rmin", "rmax", "zmin", "zmax"): f.createVariable(n, "f8", ())[...] = d[n]
        f.createVariable("mgrid_mode", "S1", ("dim_00001",))[0] = b"R"
        f.createVariable("raw_coil_cur", "f8", ("external_coils",))[:] = 1.
        for c, a in zip(("br", "bp", "bz"), arrays(v)): f.createVariable(f"{c}_001", "f8", ("phi", "zee", "rad"))[:] = a[0].reshape(d["p"], d["z"], d["r"])
    os.replace(path + ".new", path)
def base(b, where):
    k = dict(BASES[b]); k.setdefault("ns_array", [7]); n = len(k["ns_array"]); k.setdefault("niter_array", [60] * n); k.setdefault("ftol_array", [1e-9] * n)
    if k.get("mgrid_file") == "file": k["mgrid_file"] = where
    return drv.solovev(nstep=7, return_outputs_even_if_not_converged=True, **k)
def edit(x, b, f, v, how):
    """changes field f of input x to version v"""
    def put(name, a):
        a = np.asarray(a, dtype=getattr(x, name).dtype)
        if how == "inplace" and a.shape == getattr(x, name).shape: getattr(x, name)[...] = a
        else: setattr(x, name, a)
    ref = base(b, x.mgrid_file)
    if f == "grid": a = ref.ns_array.copy(); a[-1] = GRID[v] if len(a) == 1 else GRID[v] + (2 if v == 2 else 0); put("ns_array", a)
    elif f == "budget": put("niter_array", ref.niter_array if v == 0 else np.full_like(ref.niter_array, (0, 2, -1, 1)[v])); x.return_outputs_even_if_not_converged = v in (0, 3)
    elif f == "bound": a = ref.rbc.copy(); a[1, a.shape[1] // 2] *= (1., 1.03, .95)[v]; put("rbc", a)
    elif f == "prof": put("am", ref.am * (1., 1.5, .4)[v])
    elif f == "step": x.delt = (ref.delt, .6, .4)[v]
    elif f == "nfp": x.nfp = ref.nfp if ref.lfreeb else (ref.nfp, ref.nfp + 1, 2 * ref.nfp)[v]
    elif f == "fine": x.ntheta = (ref.ntheta, 24, 16)[v]; x.nzeta = ref.nzeta if ref.lfreeb or ref.ntor == 0 else (ref.nzeta, 16, 9)[v]
    elif f == "short": x.nstep = (ref.nstep, 50, 1)[v]; x.ftol_array = ref.ftol_array * (1., 1e3, 1e-3)[v]
    elif f == "flux": x.phiedge = ref.phiedge * (1., -1.3, .6)[v]
    else: raise KeyError(f)
def build(content, where):
    c = content["in"]; x = base(c["base"], where)
    for f, v in c["ed"].items():
        if v: edit(x, c["base"], f, v, "assign")
    return x
def arrs(o, pre=""):
    """every quantity of an output (or input), by name"""
    r = {}
    for k in type(o).model_fields:
        v = getattr(o, k)
        if hasattr(type(v), "model_fields"):
            if k != "input": r.update(arrs(v, k + "."))
            continue
        if v is None: r[pre + k] = None; continue
        try: r[pre + k] = np.array(v, dtype=float)
        except (TypeError, ValueError): r[pre + k] = repr(v)
    return r
def same(a, b):
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray) or (not isinstance(x, np.ndarray) and x != y) or (isinstance(x, np.ndarray) and (x.shape != y.shape or x.tobytes() != y.tobytes())): return k
def close(a, b, tight):
    for k in b:
        x, y = a.get(k), b[k]
        if k.endswith("input_extension") or k.endswith("mgrid_file"): continue
        if not isinstance(y, np.ndarray) or not isinstance(x, np.ndarray):
            if type(x) is not type(y) or x != y: return f"{k} is {x!r}, in a fresh process {y!r}"[:200]
            continue
        if x.shape != y.shape: return f"{k} has shape {x.shape}, in a fresh process {y.shape}"
        fin = y[np.isfinite(y)]; s = np.max(np.abs(fin), initial=0)
        ok = np.isclose(x, y, rtol=1e-7 if tight else 1e-4, atol=(1e-9 if tight else 5e-6) * s + 1e-14, equal_nan=True)
        if not np.all(ok): j = int(np.argmin(ok.ravel())); return f"{k}[{j}] is {x.ravel()[j]}, in a fresh process {y.ravel()[j]}"

# ---- a process that never solved anything; every reference is computed in a fresh child of it
def reference(key, d):
    where = os.path.join(d, f"ref{os.getpid()}.nc"); o = None
    for c in key:
        b = c["in"]["base"]
        if b == 6: write(where, c["ext"][1])
        try: o = vmecpp.run(build(c, where), magnetic_field=table(c["ext"][0]) if b == 5 else None, max_threads=1, verbose=False, restart_from=o)
        except Exception as e: return {"err": type(e).__name__}
    return {"out": arrs(o)}
def zygote():
    a, b = os.pipe(), os.pipe()
    if os.fork() == 0:
        os.close(a[1]); os.close(b[0]); r, w = os.fdopen(a[0], "rb"), os.fdopen(b[1], "wb")
        try:
            while True:
                key, d = pickle.load(r); fd = os.path.join(d, "ref.pkl")
                if os.path.exists(fd): os.unlink(fd)
                pid = os.fork()
                if pid == 0:
                    try:
                        x = reference(key, d)
                        with open(fd, "wb") as f: pickle.dump(x, f)
                    finally: os._exit(0)
                st = os.waitpid(pid, 0)[1]; pickle.dump(st, w); w.flush()
        except EOFError: pass
        os._exit(0)
    os.close(a[0]); os.close(b[1]); return os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb")
ask, tell = zygote()
_refs = {}
def expected(key, d):
    key = [{"in": c["in"], "ext": [c["ext"][0] if c["in"]["base"] == 5 else 0, c["ext"][1] if c["in"]["base"] == 6 else 0]} for c in key]
    s = json.dumps(key, sort_keys=True)
    if s not in _refs:
        pickle.dump((key, d), ask); ask.flush(); st = pickle.load(tell)
        try:
            with open(os.path.join(d, "ref.pkl"), "rb") as f: _refs[s] = pickle.load(f)
        except FileNotFoundError: _refs[s] = {"died": st}
    return _refs[s]

# ---- runs under way
_real = vmecpp._vmecpp.run; _here = threading.local()
def _entered(*a, **k):
    e = getattr(_here, "ev", None)
    if e: e.set()
    return _real(*a, **k)
vmecpp._vmecpp.run = _entered
class Run:
    def __init__(s, x, tab, thr, start):
        s.args = (x, tab, thr, start); s.ev = threading.Event(); s.res = None; s.err = None
    def go(s):
        x, tab, thr, start = s.args; _here.ev = s.ev
        try: s.res = vmecpp.run(x, magnetic_field=tab, max_threads=thr, verbose=False, restart_from=start)
        except BaseException as e: s.err = e
        finally: _here.ev = None; s.ev and s.ev.set()
    def begin(s): s.th = threading.Thread(target=s.go); s.th.start(); s.ev.wait()
    def here(s, ms):
        def stop(*_): raise KeyboardInterrupt
        old = signal.signal(signal.SIGALRM, stop); s.th = s.ev = None      # no locks: the interrupt may come anywhere
        try:
            signal.setitimer(signal.ITIMER_REAL, ms / 1000.); s.go()
            signal.setitimer(signal.ITIMER_REAL, 0)
        except KeyboardInterrupt: s.res = None; s.err = KeyboardInterrupt()
        finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
    def join(s):
        if s.th: s.th.join()
class Hist:
    def __init__(s, case, d):
        s.d = d; s.where = os.path.join(d, "mgrid_x.nc"); write(s.where, 0); s.tab = table(0); s.ext = [0, 0]
        s.inp, s.con, s.out, s.snap, s.run, s.thr, s.kept = {}, {}, {}, {}, {}, {}, []; s.rng = np.random.default_rng(case["seed"]); s.n = {}
    def alone(s, op):
        for i, x in s.inp.items():
            b = same(arrs(x), arrs(build({"in": s.con[i]}, s.where)))
            if b: return f"after {op['op']}: field {b} of input {i} is {getattr(x, b)!r}, nobody changed it"[:300]
        t = dict(zip(("b_r", "b_p", "b_z"), arrays(s.ext[0])))
        for k, v in t.items():
            if not np.array_equal(getattr(s.tab, k), v): return f"after {op['op']}: {k} of the field table has changed"
        for o, x in s.out.items():
            if s.snap[o] is None: continue
            b = same(s.snap[o][0], arrs(x)) or same(s.snap[o][1], arrs(x.input))
            if b: return f"after {op['op']}: {b} of the earlier output {o} has changed"
    def step(s, op):
        k = op["op"]; s.n[k] = s.n.get(k, 0) + 1
        if k == "make": s.inp[op["i"]] = base(op["base"], s.where); s.con[op["i"]] = {"base": op["base"], "ed": {}}
        elif k == "edit":
            c = s.con[op["i"]]; edit(s.inp[op["i"]], c["base"], op["f"], op["v"], op["how"]); s.con[op["i"]] = {"base": c["base"], "ed": {**c["ed"], op["f"]: op["v"]}}
        elif k == "rewrite":
            if op["f"] == 1:
                for n, v in zip(("b_r", "b_p", "b_z"), arrays(op["v"])): getattr(s.tab, n)[...] = v
            else:
                for r in s.run.values(): r.join()      # the file is read at some moment of a run
                write(s.where, op["v"])
            s.ext[op["f"] - 1] = op["v"]
        elif k == "begin":
            c = s.con[op["i"]]; st = s.out.get(op["s"]) if op["s"] else None
            if op["s"] and st is None:      # the problem it should start from has no solution
                for z in (s.out, s.snap, s.thr): z.pop(op["o"], None)
                return
            r = Run(s.inp[op["i"]], s.tab if c["base"] == 5 else None, op["thr"], st); r.thin = op["thr"] == 1 and (not op["s"] or s.thr[op["s"]])
            for z in (s.out, s.snap, s.thr): z.pop(op["o"], None)
            s.run[op["o"]] = r
            if op["fate"] == "interrupted": r.here(float(s.rng.choice((.5, 2., 5., 15.))))
            else: r.begin()
        elif k == "end":
            if op["o"] not in s.run: return
            r = s.run.pop(op["o"]); r.join()
            if r.th is None and isinstance(r.err, KeyboardInterrupt): s.n["interrupts"] = s.n.get("interrupts", 0) + 1
            else:
                w = expected(op["key"], s.d)
                if "died" in w: return f"the run ends a fresh process (status {w['died']})"
                what = f"run of {op['key'][-1]['in']}" + (f" restarted {len(op['key']) - 1}x" if len(op["key"]) > 1 else "")
                if (op["how"] == "refused" or (op["how"] == "failed" and len(op["key"]) == 1)) and "err" not in w: return f"{what}: should have been {op['how']}"
                if ("err" in w) != (r.err is not None) or ("err" in w and w["err"] != type(r.err).__name__): return f"{what}: ended with {type(r.err).__name__ if r.err is not None else 'an output'} ({str(r.err)[:120]}), in a fresh process with {w.get('err', 'an output')}"
                q = "errors" if r.err is not None else "outputs"; s.n[q] = s.n.get(q, 0) + 1
                if r.err is None:
                    a = arrs(r.res); b = close(a, w["out"], r.thin)
                    if b: return f"{what}: {b}"
                    g = same(arrs(build(op["key"][-1], s.where)), arrs(r.res.input))
                    if g: return f"{what}: the output records {g} = {getattr(r.res.input, g)!r} as its input"[:300]
                    if op["how"] == "output": s.out[op["o"]] = r.res; s.snap[op["o"]] = (a, arrs(r.res.input)); s.thr[op["o"]] = r.thin
        elif k in ("scribble", "drop") and op["o"] not in s.out: return
        elif k == "scribble":
            x = s.out[op["o"]]; s.snap[op["o"]] = None
            for p in type(x).model_fields:
                y = getattr(x, p)
                for f in type(y).model_fields:
                    v = getattr(y, f)
                    if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable: v[...] = 7.25
        elif k == "drop": s.out.pop(op["o"]); s.snap.pop(op["o"]); gc.collect()
        elif k == "aside":
            x = s.inp[op["i"]]; c = s.con[op["i"]]
            if op["kind"] == "tojson": x.to_json()
            elif op["kind"] == "table": t = table(int(s.rng.integers(3)))._to_cpp_magnetic_field_response_table(); s.kept.append(t)
            elif op["kind"] == "tocpp" and c["base"] != 8: s.kept.append(x._to_cpp_vmecindata())
            elif op["kind"] == "model" and c["base"] not in (5, 6, 8) and c["ed"].get("budget", 0) != 2:
                m = vmecpp._vmecpp.VmecModel.create(x._to_cpp_vmecindata(), int(x.ns_array[-1]), None)
                for q in range(1, 4):
                    try: m.evaluate(q, q, precondition=True, always_fix_m1_gauge=True); m.perform_time_step(.9, .5, 1e-2)
                    except (RuntimeError, AttributeError): break
                s.kept.append(m)
        return s.alone(op)
def handler(case):
    faulthandler.dump_traceback_later(100, exit=True)      # a history that never ends is reported as a crash
    try: return replay(case)
    finally: faulthandler.cancel_dump_traceback_later()
def crowd(case):
    """every slot runs its problems one after the other in a thread of its own, all slots at the same time"""
    d = tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"]); h = Hist(case, d); bad = []; todo = {}; n = {"outputs": 0, "errors": 0}
    for op in case["ops"]:
        if op["op"] in ("make", "edit"): h.step(op)
        elif op["op"] == "begin": todo.setdefault(op["o"], []).append(op)
    for l in todo.values():
        for op in l: expected(op["key"], d)
    go = threading.Barrier(len(todo))
    def slot(l):
        go.wait()
        for op in l:
            if bad: return
            r = Run(h.inp[op["i"]], h.tab if h.con[op["i"]]["base"] == 5 else None, 1, None); r.go(); w = expected(op["key"], d); what = f"run of {op['key'][-1]['in']} beside others"
            if "died" in w: bad.append(f"the run ends a fresh process (status {w['died']})")
            elif ("err" in w) != (r.err is not None): bad.append(f"{what}: ended with {r.err!r}"[:200] + f", in a fresh process with {w.get('err', 'an output')}")
            elif r.err is None:
                b = close(arrs(r.res), w["out"], True); n["outputs"] += 1
                if b: bad.append(f"{what}: {b}")
            else: n["errors"] += 1
    t = [threading.Thread(target=slot, args=(l,)) for l in todo.values()]
    for x in t: x.start()
    for x in t: x.join()
    import shutil; shutil.rmtree(d, ignore_errors=True)
    return {"bad": bad[0] if bad else h.alone({"op": "crowd"}), "steps": len(case["ops"]), "n": n}
def replay(case):
    if case.get("crowd"): return crowd(case)
    d = tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"]); h = Hist(case, d); bad = None
    for i, op in enumerate(case["ops"]):
        bad = h.step(op)
        if bad: break
    for r in h.run.values(): r.join()
    import shutil; shutil.rmtree(d, ignore_errors=True)
    return {"bad": bad, "steps": i + 1, "n": h.n}
if __name__ == "__main__": drv.main(handler)
