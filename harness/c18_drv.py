"""C18: saves outputs under injected faults; reports what a reader of the destination would have seen at every step."""
import ctypes, errno, glob, json, os, shutil, sys, tempfile
import drv, netCDF4, numpy as np, vmecpp
L = ctypes.CDLL(None)
SHIM = hasattr(L, "vp_arm")
if SHIM:
    L.vp_look.restype = ctypes.c_uint64; L.vp_at_fault.restype = ctypes.c_uint64; L.vp_look.argtypes = [ctypes.c_int]
BASE = os.environ["VP_SCRATCH"]
RealDataset = netCDF4.Dataset
_objs = {}
def objects(asym):
    if asym not in _objs:
        kw = dict(ftol_array=[1e-6])
        if asym: kw.update(lasym=True, rbs=[{"m": 1, "n": 0, "value": 0.02}], zbc=[{"m": 1, "n": 0, "value": 0.01}], raxis_s=np.zeros(1), zaxis_c=np.zeros(1))
        r = {}
        for i, v in enumerate(("old", "new", "other")):
            r[v] = vmecpp.run(drv.solovev(phiedge=1.0 + 0.25 * i, **kw), verbose=0, max_threads=1).wout
        refs = {}
        d = tempfile.mkdtemp(dir=BASE)
        for v, w in r.items():
            w.save(os.path.join(d, v + ".nc")); refs[v] = (open(os.path.join(d, v + ".nc"), "rb").read(), contents(os.path.join(d, v + ".nc")))
        _objs[asym] = (r, refs, d)
    return _objs[asym]

def contents(p):
    with RealDataset(p, "r") as f:
        f.set_auto_mask(False)
        return {k: (v.dimensions, np.asarray(v[()])) for k, v in f.variables.items()}

def classify(path, refs):
    """which complete version (if any) the file holds"""
    if not os.path.exists(path): return "none"
    data = open(path, "rb").read()
    for v, (b, _) in refs.items():
        if data == b: return v
    try: c = contents(path)
    except Exception: return "damaged"
    for v, (_, ref) in refs.items():
        if set(c) == set(ref) and all(c[k][0] == ref[k][0] and c[k][1].tobytes() == ref[k][1].tobytes() for k in ref): return v
    return "damaged"

class Trip(netCDF4.Dataset):
    """netCDF4.Dataset whose k-th call runs a hook first"""
    def _vp(self):
        H["n"] += 1
        if H["n"] == H["k"] and H["f"]: H["f"]()
    def createDimension(self, *a, **k): self._vp(); return super().createDimension(*a, **k)
    def createVariable(self, *a, **k): self._vp(); return super().createVariable(*a, **k)
    def __getitem__(self, *a): self._vp(); return super().__getitem__(*a)
    def close(self): self._vp(); return super().close()
    def __exit__(self, *a): self._vp(); return super().__exit__(*a)
H = {"n": 0, "k": 0, "f": None}
_counts = {}

class Scripted(Exception): pass

def handle(case):
    objs, refs, _ = objects(case["asym"])
    top = tempfile.mkdtemp(dir=BASE)
    try: return _handle(case, objs, refs, top)
    finally: shutil.rmtree(top, ignore_errors=True)

def attempt(case, objs, refs, top, k):
    """run one save in a child process; returns the observed record"""
    d, snap = os.path.join(top, "d"), os.path.join(top, "snap"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); os.makedirs(snap, exist_ok=True)
    dest = os.path.join(d, "wout_x.nc"); initial = "old" if case["init"] else "none"
    if case["init"]:
        with open(dest, "wb") as f: f.write(refs["old"][0])
    if case.get("extra") == "dirdest": os.makedirs(dest, exist_ok=True) if not case["init"] else None
    res = os.path.join(top, "res.json")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            obj = objs["new"].model_copy()
            ev = []
            x = case.get("extra")
            if x == "cube": obj.zz_cube = np.zeros((2, 2, 2))
            if x == "object": obj.zz_object = {"a": 1}
            if x == "nonascii": obj.zz_text = "gr\u00fc\u00dfe"
            target = dest if x != "noparent" else os.path.join(d, "missing", "wout_x.nc")
            if x == "h5": target = os.path.join(d, "wout_x.h5")
            if case["kind"] == "os":
                L.vp_arm(d.encode(), dest.encode(), snap.encode(), k, case["mode"], errno.ENOSPC if case["mode"] == 2 else case.get("errno", errno.EIO))
            else:
                netCDF4.Dataset = Trip; H.update(n=0, k=k)
                if case["kind"] == "api":
                    E = {"kbd": KeyboardInterrupt, "mem": MemoryError, "run": RuntimeError}[case["exc"]]
                    def boom(): raise E("scripted")
                    H["f"] = boom
                elif case["kind"] == "race":
                    def other():
                        H["f"] = None; ev.append(["look", classify(dest, refs)])
                        try: objs["other"].save(dest); v = "ok"
                        except Exception: v = "failed"
                        ev.append(["end", "other", v]); ev.append(["look", classify(dest, refs)])
                    H["f"] = other
                if case["kind"] != "race":
                    real_f = H["f"]
                    def looked():
                        ev.append(["look", classify(dest, refs)])
                        if real_f: real_f()
                    H["f"] = looked
                if SHIM: L.vp_arm(d.encode(), dest.encode(), snap.encode(), 0, 0, 0)
            exc = None
            try:
                obj.save(target); verdict = "ok"
            except BaseException as e:
                verdict = "failed"; exc = repr(e)[:200]
            n = L.vp_disarm() if SHIM else 0
            r = {"verdict": verdict, "exc": exc, "ev": ev, "calls": n if case["kind"] == "os" else H["n"]}
            if case["kind"] == "os":
                r["looks"] = ["%016x" % L.vp_look(i) for i in range(L.vp_nlooks())]
                r["hit"] = bool(L.vp_fault_done()); r["at"] = "%016x" % L.vp_at_fault()
            elif SHIM: r["looks"] = ["%016x" % L.vp_look(i) for i in range(L.vp_nlooks())]
            json.dump(r, open(res, "w")); code = 0
        finally:
            sys.stdout.flush(); os._exit(code)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    if os.path.exists(res): r = json.load(open(res)); os.unlink(res)
    elif rc == 99:
        r = {"verdict": "died", "exc": None, "ev": [], "hit": True, "calls": k, "looks": open(os.path.join(snap, "looks")).read().split(), "at": None}
    else: r = {"verdict": "crashed", "exc": f"exit {rc}", "ev": [], "calls": 0, "looks": [], "hit": False}
    isdir = os.path.isdir(dest)
    cls = {}
    for h in set(r.get("looks", [])) | ({r["at"]} if r.get("at") else set()):
        cls[h] = "none" if h == "%016x" % 1 else classify(os.path.join(snap, h), refs)
    r["seen"] = [cls[h] for h in r.get("looks", [])] if not isdir else []
    r["late"] = r["verdict"] == "failed" and bool(r.get("at")) and cls.get(r["at"]) == "new"
    r["final"] = initial if isdir else classify(dest, refs)
    r["left"] = sorted(f for f in os.listdir(d) if f != "wout_x.nc"); r["initial"] = initial
    shutil.rmtree(snap, ignore_errors=True)
    return r

def _handle(case, objs, refs, top):
    key = (case["asym"], case["kind"] == "os")
    if case.get("extra"):
        r = attempt({**case, "kind": "api", "exc": "run"}, objs, refs, top, 0)
    else:
        if key not in _counts:
            p = attempt({"kind": "os", "mode": 0, "init": True, "asym": case["asym"]} if key[1] else {"kind": "probe", "init": True, "asym": case["asym"]}, objs, refs, top, 0)
            _counts[key] = max(1, p["calls"])
        n = _counts[key]
        f = case["at"]
        k = 0 if f is None else (min(n, 1 + int(f * n)) if f >= 0 else max(1, n + 1 + int(f)))
        r = attempt(case, objs, refs, top, k)
        r["k"], r["n"] = k, n
    # the record the specification judges
    ev = []
    def add(e):
        if not ev or ev[-1] != e: ev.append(e)
    if case["kind"] == "race":
        # interleaved observation order is only known from the hook, so the shim's looks are folded in as a set
        for e in r["ev"]: add(e)
    else:
        for s in r["seen"]: add(["look", s])
    add(["end", "new", "late" if r["late"] else r["verdict"]])
    add(["final", r["final"], len(r["left"])])
    extra_bad = [s for s in r["seen"] if s not in ("none", "old", "new", "other")] if case["kind"] == "race" else []
    return {"initial": r["initial"], "events": ev, "bad_seen": extra_bad, "left": r["left"], "exc": r["exc"], "k": r.get("k"), "n": r.get("n"), "calls": r.get("calls"), "shim": SHIM}

drv.main(handle)
