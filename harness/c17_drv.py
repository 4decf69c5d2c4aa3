"""Replays save/load walks of spec/outputs on real outputs: result file, archive, JSON text, solver struct."""
import copy, json, os, random, shutil, struct, tempfile
import drv
import numpy as np, netCDF4, vmecpp
import importlib.util
_s = importlib.util.spec_from_file_location("vx_h5", os.path.join(os.environ["VP_BUILD"], "vx_h5.so"))
vx_h5 = importlib.util.module_from_spec(_s); _s.loader.exec_module(vx_h5)
from vmecpp import VmecWOut
cpp = vmecpp._vmecpp
SKIPPED = {"lambda": ["lmns_full", "lmnc_full"], "rfp": ["lrfp__logical__"], "currents": ["currumnc", "currvmnc", "currumns", "currvmns"], "label": ["input_extension"],
           "history": ["fsqt", "force_residual_r", "force_residual_z", "force_residual_lambda", "delbsq", "restart_reasons", "wdot", "itfsq"], "optional1d": ["chipf", "bdotb", "q_factor", "chi"],
           "ancient": ["fsqr", "fsqz", "fsql", "ftolv", "pcurr_type", "pmass_type", "piota_type", "am", "ac", "ai", "am_aux_s", "am_aux_f", "ac_aux_s", "ac_aux_f", "ai_aux_s", "ai_aux_f"]}
REQUIRED = ("ier_flag nfp ns mpol ntor mnmax mnmax_nyq lasym__logical__ lfreeb__logical__ wb wp rmax_surf rmin_surf zmax_surf aspect betapol betator betaxis b0 rbtor0 rbtor IonLarmor ctor Aminor_p Rmajor_p volume_p "
            "phipf jcuru jcurv jdotb bdotgradv DMerc equif xm xn xm_nyq xn_nyq mass buco bvco phips bmnc gmnc bsubumnc bsubvmnc bsubsmns bsupumnc bsupvmnc rmnc zmns lmns gamma mgrid_file extcur mgrid_mode iotas iotaf "
            "betatotal raxis_cc zaxis_cs vp presf pres phi signgs volavgB specw over_r DShear DWell DCurr DGeod niter beta_vol version_").split()
RECENT = "fsqr fsqz fsql ftolv pcurr_type pmass_type piota_type am ac ai am_aux_s ac_aux_s ai_aux_s".split()
ALIAS = {"lasym__logical__": "lasym", "lfreeb__logical__": "lfreeb", "lrfp__logical__": "lrfp", "volume_p": "volume", "restart_reasons": "restart_reason_timetrace"}
H5_OPT = {"input_extension", "bdotb", "lrfp", "itfsq", "fsqt", "force_residual_r", "force_residual_z", "force_residual_lambda", "delbsq", "restart_reason_timetrace", "wdot", "currumnc", "currvmnc", "currumns", "currvmns", "chipH", "currH", "chipf", "chi", "q_factor", "nextcur"}
FIXED = {"ns", "mnmax", "mnmax_nyq", "mpol", "ntor", "lasym", "nextcur", "version_", "xm", "xn"}
PROFILES = ("am", "ac", "ai"), ("am_aux_s", "am_aux_f", "ac_aux_s", "ac_aux_f", "ai_aux_s", "ai_aux_f")
_T = []
def templates():
    if _T: return _T
    a = dict(lasym=True, rbs=[{"m": 1, "n": 0, "value": 0.02}], zbc=[{"m": 1, "n": 0, "value": 0.01}], raxis_s=np.zeros(1), zaxis_c=np.zeros(1))
    t = dict(ntor=2, nfp=3, mpol=3, raxis_c=[4., .02, 0.], zaxis_s=[0., .01, 0.], rbc=[{"m": 0, "n": 0, "value": 3.999}, {"m": 1, "n": 0, "value": 1.026}, {"m": 1, "n": 1, "value": -0.068}],
             zbs=[{"m": 1, "n": 0, "value": 1.58}, {"m": 1, "n": 1, "value": 0.01}])
    ta = {**t, **a, "raxis_s": np.zeros(3), "zaxis_c": np.zeros(3)}
    un = dict(niter_array=[4], ftol_array=[1e-30], return_outputs_even_if_not_converged=True)
    for kw in ({}, a, dict(ns_array=[4]), {**a, "ns_array": [8]}, dict(ns_array=[9], mpol=9), t, ta, {**t, **un, "ns_array": [13]}, un):
        if kw.get("ntor"): kw = {**kw, **un}
        i = drv.solovev(**{"ftol_array": [1e-6], **kw})
        o = cpp.run(i._to_cpp_vmecindata(), max_threads=1, verbose=cpp.OutputMode.SILENT)
        _T.append((i, o, VmecWOut._from_cpp_wout(o.wout)))
    return _T

def rnd(r, shape, dt):
    n = int(np.prod(shape))
    if np.issubdtype(dt, np.integer): return np.array([r.randrange(-2**31, 2**31) for _ in range(n)], dtype=dt).reshape(shape)
    pool = [0.0, -0.0, 1.0, np.nan, np.inf, -np.inf, 5e-324, -1.7976931348623157e308, 9.96920996838687e+36, 0.1]
    return np.array([r.choice(pool) if r.random() < .1 else r.uniform(-1, 1) * 10.0 ** r.randrange(-30, 30) for _ in range(n)]).reshape(shape)
def word(r, n): return "".join(r.choice("abcXYZ019_.-/ '\"&(") for _ in range(r.randrange(0, n))).strip()

def string(r, f): return r.choice(["", "R", "S"]) if f == "mgrid_mode" else word(r, 200 if f == "mgrid_file" else 20 if f.endswith("_type") else 80)

def edited(r, w):
    """a result with the same shapes and other contents"""
    d = {f: getattr(w, f) for f in VmecWOut.model_fields}
    for f, v in d.items():
        if f in FIXED or v is None: continue
        if isinstance(v, np.ndarray):
            n = v.shape
            if f in PROFILES[0] and r.random() < .15: n = (r.choice([22, 40]),)
            if f in PROFILES[1] and r.random() < .15: n = (r.choice([102, 150]),)
            if f == "extcur": n = (r.choice([0, 1, 2, 5]),); d["nextcur"] = n[0]
            d[f] = rnd(r, n, v.dtype)
        elif isinstance(v, bool): d[f] = r.random() < .5
        elif isinstance(v, (int, np.integer)): d[f] = r.randrange(1, 9) if f == "nfp" else r.randrange(-2**31, 2**31)
        elif isinstance(v, float): d[f] = float(rnd(r, (1,), float)[0])
        elif isinstance(v, str): d[f] = string(r, f)
    for f in ("currumnc", "currvmnc"):
        if d[f].size == 0: del d[f]
    if r.random() < .3: d["vendor_" + r.choice("abc")] = r.choice([3, 2.5, rnd(r, (3,), float), rnd(r, (2, 3), float), "text"])
    return VmecWOut(**d)

def eq(x, y):
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        return x.shape == y.shape and x.dtype == y.dtype and (x.tobytes() == y.tobytes() or bool(np.all((x == y) & (np.signbit(x) == np.signbit(y)) | (x != x) & (y != y))))
    if type(x) is not type(y): return False
    if isinstance(x, float): return x == y and struct.pack("d", x) == struct.pack("d", y) or (x != x and y != y)
    return x == y
def loose(x, y): return np.shape(x) == np.shape(y) and (np.array_equal(x, y, equal_nan=np.asarray(x).dtype.kind == "f"))
def content(w): return {f: copy.deepcopy(getattr(w, f)) for f in VmecWOut.model_fields} | {"+" + k: copy.deepcopy(v) for k, v in (w.model_extra or {}).items()}
def cmp(w, want):
    got = content(w)
    for k in want.keys() | got.keys():
        if k not in got: return f"{k[1:]} is gone"
        if k not in want: return f"{k[1:]} = {got[k]!r} appears from nowhere"
        if not (loose if k[0] == "+" else eq)(got[k], want[k]):
            return f"{k} is {type(got[k]).__name__} {np.shape(got[k])} {str(got[k])[:120]}, was {type(want[k]).__name__} {np.shape(want[k])} {str(want[k])[:120]}"
def fallback(want, what):
    """what a result file without these variables is documented to stand for; None: not judged"""
    out = {}
    for v in SKIPPED[what]:
        f = ALIAS.get(v, v); x = want[f]
        if f == "lmnc_full" and not want["lasym"]: continue
        if f in ("currumns", "currvmns"):
            out[f] = (lambda g: g is None) if want["lasym"] else None; continue
        if x is None: continue
        if f.startswith("lmn"): out[f] = lambda g, s=x.shape: g is not None and g.shape == s and not g.any()
        elif f == "lrfp": out[f] = lambda g: g is False
        elif f in ("fsqr", "fsqz", "fsql", "ftolv"): out[f] = lambda g: g != g
        elif f.endswith("_type"): out[f] = lambda g: g == "UNKNOWN"
        elif isinstance(x, np.ndarray) and what == "ancient": out[f] = lambda g: bool(np.all((g == 0) | (g == -1)))
        elif isinstance(x, np.ndarray): out[f] = lambda g: g is None or g.size == 0
        elif f == "input_extension": out[f] = lambda g: g == ""
        else: out[f] = lambda g: True
    return {k: v for k, v in out.items() if v}

PARTS = ("jxbout", "mercier", "threed1_first_table", "threed1_geometric_magnetic", "threed1_volumetrics", "threed1_axis", "threed1_betas", "threed1_shafranov_integrals", "wout", "indata")
def snap(oq):
    s = {}
    for p in PARTS:
        P = getattr(oq, p)
        for f in dir(P):
            if f[0] == "_": continue
            v = getattr(P, f)
            if not callable(v): s[p + "." + f] = copy.deepcopy(v) if isinstance(v, (np.ndarray, list)) else v
    return s
def cmp_oq(oq, want):
    got = snap(oq)
    for k in want:
        if not eq(got.get(k), want[k]): return f"{k} is {np.shape(got.get(k))} {str(got.get(k))[:120]}, was {np.shape(want[k])} {str(want[k])[:120]}"
def edit_oq(r, oq):
    w = oq.wout; arr = {}
    for f in dir(w):
        if f[0] == "_" or f in FIXED: continue
        v = getattr(w, f)
        if callable(v): continue
        try:
            if f == "curlabel": setattr(w, f, [word(r, 20) for _ in range(r.choice([0, 1, 3]))])
            elif f == "extcur": n = r.choice([0, 1, 2, 5]); setattr(w, f, rnd(r, (n,), float)); w.nextcur = n
            elif isinstance(v, np.ndarray): setattr(w, f, rnd(r, (r.choice([22, 40]),) if f in PROFILES[0] and r.random() < .2 else v.shape, v.dtype).astype(v.dtype))
            elif isinstance(v, bool): setattr(w, f, r.random() < .5)
            elif isinstance(v, int): setattr(w, f, r.randrange(1, 9) if f == "nfp" else r.randrange(-2**31, 2**31))
            elif isinstance(v, float): setattr(w, f, float(rnd(r, (1,), float)[0]))
            elif isinstance(v, str): setattr(w, f, string(r, f))
        except AttributeError: pass
    i = oq.indata
    for f in ("phiedge", "curtor", "delt", "gamma"): setattr(i, f, float(r.uniform(-9, 9)))
    i.mgrid_file = word(r, 40)

def strip(src, dst, drop, over):
    with netCDF4.Dataset(src) as a, netCDF4.Dataset(dst, "w", format=a.data_model) as b:
        a.set_auto_mask(False)
        for n, d in a.dimensions.items(): b.createDimension(n, None if d.isunlimited() else len(d))
        for n, v in a.variables.items():
            if n in drop: continue
            x = b.createVariable(n, v.dtype, v.dimensions); x.set_auto_mask(False); x[...] = over.get(n, v[...])

def handler(case):
    top = tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"])
    try: return walk(case, top)
    finally: shutil.rmtree(top, ignore_errors=True)

def walk(case, top):
    r = random.Random(case["seed"]); T = templates(); known = []
    i, oq0, w0 = T[r.randrange(len(T))]
    obj = None; want = None; path = None; text = None; ref = None; first = None
    if case["ops"][0]["from"] == "oq":
        p = os.path.join(top, "copy"); oq0.save(p); obj = cpp.OutputQuantities.load(p); ref = oq0; want = snap(oq0); b = cmp_oq(obj, want)
        if not b and not vx_h5.equal(oq0, obj): b = "an archived quantity differs"
        if b: return {"bad": "after archiving a real output: " + b, "steps": 0, "known": []}
    else: obj = copy.deepcopy(w0); want = content(w0)
    pend = {}; prev = obj; broken = None; n = 0
    for k, op in enumerate(case["ops"]):
        o = op["op"]; n += 1
        def fail(m): return {"bad": f"step {k} {o}: {m}", "steps": n, "known": known}
        err = None
        try:
            if o == "edit":
                if op["from"] == "wout": obj = edited(r, obj); want = content(obj); pend = {}
                else: edit_oq(r, obj); want = snap(obj); ref = None
            elif o in ("nc_save", "nc_save_over"):
                if o == "nc_save" or path is None or not path.endswith(".nc") or not os.path.exists(path): path = os.path.join(top, f"wout_{k}.nc")
                prev = obj; obj.save(path)
                b = cmp(obj, want)
                if b: return fail("saving changed the object: " + b)
            elif o in ("nc_load", "nc_load_wrapper"):
                if o == "nc_load": obj2 = VmecWOut.from_wout_file(path if r.random() < .5 else __import__("pathlib").Path(path))
                else:
                    import vmecpp.simsopt_compat as sc
                    obj2 = sc.Vmec(path).wout
                if op["verdict"] == "ok":
                    obj = obj2
                    for f, t in pend.items():
                        g = getattr(obj, f)
                        if not t(g): return fail(f"{f} of a file that lacks it is {str(g)[:200]}")
                        want[f] = copy.deepcopy(g)
                    pend = {}
            elif o == "json_dump":
                if obj.model_extra: want = {a: b for a, b in want.items() if a[0] != "+"}; obj = VmecWOut(**want)     # foreign arrays have no JSON form
                text = obj.model_dump_json()
            elif o == "json_load": obj = VmecWOut.model_validate_json(text)
            elif o == "dict_trip": obj = VmecWOut.model_validate(obj.model_dump()) if r.random() < .5 else VmecWOut.model_validate(obj.model_dump(by_alias=True), by_alias=True)
            elif o == "copy": obj = r.choice([copy.deepcopy, copy.copy, lambda x: x.model_copy(deep=True)])(obj)
            elif o == "to_cpp": obj = obj._to_cpp_wout(); want = {a: b for a, b in want.items() if a[0] != "+"}
            elif o == "from_cpp": obj = VmecWOut._from_cpp_wout(obj)
            elif o in ("h5_save", "h5_save_over"):
                if o == "h5_save" or path is None or not path.endswith(".h5") or not os.path.exists(path): path = os.path.join(top, f"out_{k}.h5")
                prev = ref = obj; obj.save(path); d = vx_h5.dump(path)
                if first is not None and first[0] == want_key(want) and first[1] != d:
                    return fail(f"saving the loaded output again changes the archive: {[a for a in d.keys() | first[1].keys() if d.get(a) != first[1].get(a)][:5]}")
                first = (want_key(want), d)
            elif o == "h5_load":
                obj2 = cpp.OutputQuantities.load(path)
                if op["verdict"] == "ok":
                    obj = obj2
                    if ref is not None and vx_h5.equal(ref, ref) and not vx_h5.equal(ref, obj):
                        return fail("a quantity of the archive differs from the one saved " + str(cmp_oq(obj, want)))
            elif o == "oq_wout":
                cw = obj.wout
                obj = VmecWOut._from_cpp_wout(cw); want = content(obj)
                for f in VmecWOut.model_fields:
                    x = getattr(cw, f, None); g = getattr(obj, f)
                    if g is not None and not isinstance(g, np.ndarray) and not eq(type(g)(x), g): return fail(f"{f} is {g!r}, the solver's struct has {x!r}")
                    if isinstance(g, np.ndarray) and f not in PROFILES[0] + PROFILES[1] and not loose(np.asarray(x), g): return fail(f"{f} differs from the solver's struct")
            elif o == "age":
                drop = list(SKIPPED[op["what"]]); over = {}
                if op["what"] == "ancient": over["version_"] = 7.9 if r.random() < .5 else 8.0; want["version_"] = over["version_"]
                strip(path, path + ".tmp", drop, over); os.replace(path + ".tmp", path)
                for f, t in fallback(want, op["what"]).items(): pend.setdefault(f, t)
            elif o == "gone": os.unlink(path)
            elif o == "empty": open(path, "wb").close()
            elif o == "truncate":
                s = os.path.getsize(path); cut = r.randrange(1, s)
                if path.endswith(".nc"):
                    with netCDF4.Dataset(path) as a: cl = a.data_model.startswith("NETCDF3")
                    if cl: broken = "data"     # cuts inside the data section are judged separately
                    cut = r.randrange(1, s) if not cl or r.random() < .5 else r.randrange(1, 2000)
                os.truncate(path, cut)
                if cut < 2000: broken = None
            elif o == "not_a_file_of_its_kind":
                kind = r.choice(["text", "json", "other", "zeros"])
                if kind == "other" and path.endswith(".h5"): w0.save(path + ".x"); shutil.move(path + ".x", path)
                elif kind == "other": oq0.save(path)
                else: open(path, "wb").write({"text": b"&INDATA\n/\n", "json": b'{"ns": 5}', "zeros": bytes(4096), "other": b"x"}[kind])
            elif o == "drop_required":
                if path.endswith(".nc"):
                    with netCDF4.Dataset(path) as a: have = set(a.variables); old = float(a["version_"][...]) <= 8.0
                    v = r.choice([x for x in REQUIRED + ([] if old else RECENT) if x in have]); strip(path, path + ".tmp", [v], {}); os.replace(path + ".tmp", path)
                else:
                    v = r.choice(sorted(x for x in vx_h5.dump(path) if x.split("/")[-1] not in H5_OPT)); vx_h5.remove(path, v)
                broken = v
        except Exception as e: err = e
        if op["verdict"] == "error":
            if err is None:
                if broken == "data": known.append("nc-truncated-in-data"); obj = prev; pend = {}; broken = None; path = None; want = content(obj); continue
                return fail(f"a damaged file ({case['ops'][k - 1]['op'] if k else ''} {broken or ''}) was loaded without an error")
            obj = prev; pend = {}; broken = None; path = None; first = None
            want = content(obj) if op["to"] == "wout" else snap(obj)
            continue
        if err is not None: return fail(f"{type(err).__name__}: {str(err)[:300]}")
        if op["to"] == "wout" and isinstance(obj, VmecWOut):
            b = cmp(obj, want)
            if b: return fail(b)
        if op["to"] == "oq":
            b = cmp_oq(obj, want)
            if b: return fail(b)
    return {"bad": None, "steps": n, "known": known}

def want_key(want): return hash(repr([(k, v.tobytes() if isinstance(v, np.ndarray) else v) for k, v in sorted(want.items()) if not isinstance(v, float) or v == v]))
drv.main(handler)
