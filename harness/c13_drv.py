"""Sessions of spec/inputs: hands (mostly defective) inputs to every entry point and reports what happened."""
import json, os, tempfile
import drv
import numpy as np
import vmecpp
from vmecpp import _free_boundary as fb  # noqa: F401
cpp = vmecpp._vmecpp
SCR = os.environ["VP_SCRATCH"]

def mgrid(kind):
    p = os.path.join(SCR, f"mgrid_{kind}_{os.getpid()}")
    if kind == "missing": return os.path.join(SCR, "no", "such", "mgrid.nc")
    if kind == "none": return "NONE"
    if kind == "dir": os.makedirs(p, exist_ok=True); return p
    if os.path.exists(p): return p
    if kind == "empty": open(p, "w").close(); return p
    if kind == "junk": open(p, "wb").write(bytes(range(256)) * 40); return p
    import netCDF4
    nr, nz, nphi, ncur = 9, 9, 4, 2
    with netCDF4.Dataset(p, "w", format="NETCDF3_CLASSIC") as d:
        for n, l in (("stringsize", 30), ("external_coil_groups", ncur), ("dim_00001", 1), ("external_coils", ncur), ("rad", nr), ("zee", nz), ("phi", nphi)): d.createDimension(n, l)
        for n, v in (("ir", nr), ("jz", nz), ("kp", nphi), ("nfp", 1), ("nextcur", ncur)):
            d.createVariable(n, "i4", ())[...] = v
        for n, v in (("rmin", 2.), ("zmin", -2.5), ("rmax", 6.), ("zmax", 2.5)): d.createVariable(n, "f8", ())[...] = v
        x = d.createVariable("mgrid_mode", "S1", ("dim_00001",)); x[0] = b"R"
        d.createVariable("raw_coil_cur", "f8", ("external_coils",))[:] = 1.
        r = np.linspace(2., 6., nr)
        for k in range(ncur):
            for c in ("br", "bp", "bz"):
                if kind == "nofields" and (c, k) == ("bz", 1): continue
                d.createVariable(f"{c}_{k + 1:03d}", "f8", ("phi", "zee", "rad"))[:] = (1. / r if c == "bp" else 0. * r)[None, None, :] * np.ones((nphi, nz, nr))
    return p

def fields(i):
    """field values as Python data, boundary coefficients sparse"""
    mp, nt = max(1, i["mpol"]), max(0, i["ntor"])
    def ax(f, x):
        n = nt + 1 + ({"short": -1, "long": 1}.get(i["axis"], 0) if f == i["axisof"] else 0)
        return [x] * min(1, n) + [0.] * (n - min(1, n))
    B = lambda rows: [{"m": m, "n": 0, "value": v} for m, v in rows if m < mp]
    kn = {"none": (0, 0), "match": (4, 4), "moreknots": (5, 4), "morevalues": (4, 6)}[i["aux"]]
    P = lambda k, name: name if i[k] == "known" else "no_such_profile"
    d = dict(lasym=i["lasym"], nfp=i["nfp"], mpol=i["mpol"], ntor=i["ntor"], ntheta=i["ntheta"], nzeta=i["nzeta"], ns_array=i["ns"],
             ftol_array=[x * 1e-30 for x in i["ftol"]], niter_array=i["niter"], phiedge=i["phiedge"] / 1000, ncurr=i["ncurr"], pres_scale=i["presscale"] / 1000,
             gamma=i["gamma"] / 1000, spres_ped=i["spresped"] / 1000, bloat=i["bloat"] / 1000, nvacskip=i["nvacskip"], nstep=i["nstep"], delt=i["delt"] / 1000,
             tcon0=i["tcon0"] / 1000, lfreeb=i["lfreeb"], mgrid_file=mgrid(i["mgrid"]), extcur=[1.] * {"match": 2, "short": 1, "long": 3, "none": 0}[i["extcur"]],
             free_boundary_method=i["method"], iteration_style=i["style"], pmass_type=P("pmass", "power_series"), piota_type=P("piota", "power_series"),
             pcurr_type=P("pcurr", "power_series"), am=[.125, -.125], ai=[1.], ac=[0., 1.], curtor=0., **{f"{p}_aux_{q}": [x / 4 if q == "s" else .1 for x in range((kn if p == i["auxof"] else (4, 4))[q == "f"])] for p in ("am", "ai", "ac") for q in "sf"},
             raxis_c=ax("raxis_c", 4.), zaxis_s=ax("zaxis_s", 0.), rbc=B([(0, 3.999), (1, 1.026), (2, -.068)]), zbs=B([(1, 1.58), (2, .01)]), aphi=[1.], lforbal=False,
             return_outputs_even_if_not_converged=True)
    if i["asymset"]: d.update(raxis_s=ax("raxis_s", 0.), zaxis_c=ax("zaxis_c", 0.), rbs=B([(1, .02)]), zbc=B([(1, .01)]))
    return d, mp, nt

WRONG = {"string": "abc", "list": [1], "object": {"a": 1}, "fraction": 1.5, "huge": 10**12, "hugenegative": -10**10, "beyond64": 2**64, "number": 7,
         "stringlist": ["a", "b"], "nested": [[1], [2]], "hugelist": [2**32 + 5], "fractionlist": [5.5], "badentry": [{"m": "x", "n": 0, "value": 1.}]}
INT, REAL = ("ns_array", "niter_array"), ("ftol_array", "am", "ai", "ac", *[f"{p}_aux_{q}" for p in ("am", "ai", "ac") for q in "sf"], "raxis_c", "zaxis_s", "raxis_s", "zaxis_c", "extcur", "aphi")
TEXTS = {"empty": "", "open": "{", "list": "[]", "null": "null", "number": "3", "binary": "\x00\x01\x02", "noquote": "{lasym: false}"}

def dense(i, f, rows, mp, nt):
    how = i["bdy"] if f == i["bdyof"] else "exact"
    r = mp + {"rows": 1, "fewer": -1}.get(how, 0); c = 2 * nt + 1 + (how == "cols")
    a = np.zeros((r, c))
    for e in rows:
        if e["m"] < r: a[e["m"], e["n"] + nt] = e["value"]
    return a

def attempt(a):
    e, i = a["entry"], a["inp"]
    d, mp, nt = fields(i)
    if i["kindof"] != "none": d[i["kindof"]] = WRONG[i["kind"]]
    if e == "file":
        t = json.dumps(d); t = TEXTS.get(i["text"], t)
        if i["text"] == "trunc": t = t[:len(t) // 2]
        p = os.path.join(SCR, f"in_{os.getpid()}.json")
        with open(p, "w") as f: f.write(t)
        if i["path"] == "missing": p = os.path.join(SCR, "nothing_here.json")
        if i["path"] == "dir": p = os.path.join(SCR, f"dir_{os.getpid()}"); os.makedirs(p, exist_ok=True)
        return vmecpp.run(vmecpp.VmecInput.from_file(p), max_threads=i["threads"], verbose=False)
    arr = lambda v, t: np.array(v, dtype=t) if isinstance(v, list) and not any(isinstance(x, (str, list)) for x in v) else v
    if e == "object":
        if i["kindof"] == "none" or i["kindof"] in ("rbc", "zbs"):
            for f in INT: d[f] = arr(d[f], np.int64)
            for f in REAL:
                if f in d: d[f] = arr(d[f], float)
        else:      # wrong kinds come through the JSON form
            return vmecpp.run(vmecpp.VmecInput.model_validate_json(json.dumps(d)), max_threads=i["threads"], verbose=False)
        if i["bdy"] != "exact":
            for f in ("rbc", "zbs", "rbs", "zbc"):
                if f in d and f != i["kindof"]: d[f] = dense(i, f, d[f], mp, nt)
        return vmecpp.run(vmecpp.VmecInput(**d), max_threads=i["threads"], verbose=False)
    s = drv.solovev()._to_cpp_vmecindata()
    s.lasym = i["asymset"]
    s._set_mpol_ntor(i["mpol"], i["ntor"])
    for f, v in d.items():
        if f in ("mpol", "ntor"): continue
        if f in ("rbc", "zbs", "rbs", "zbc"): getattr(s, f)[...] = dense(i, f, v, mp, nt); continue
        if f in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c"): getattr(s, f)[...] = v; continue
        if f in INT: v = np.array(v, dtype=np.int32)
        elif f in REAL: v = np.array(v, dtype=float)
        elif f == "free_boundary_method": v = {x.lower(): y for x, y in cpp.FreeBoundaryMethod.__members__.items()}[v]
        elif f == "iteration_style": v = {x.lower(): y for x, y in cpp.IterationStyle.__members__.items()}[v]
        elif f == "mgrid_file": v = str(v)
        setattr(s, f, v)
    if e == "struct": return cpp.run(s, max_threads=i["threads"], verbose=cpp.OutputMode.SILENT)
    m = cpp.VmecModel.create(s, i["gridns"]); m.evaluate(1, 1); return m

def handler(case):
    out = []
    for a in case["attempts"]:
        try: r = attempt(a); got = ["solved", ""]
        except Exception as ex: r = None; got = ["refused", f"{type(ex).__name__}: {str(ex)[:200]}"]
        out.append(got)
    return {"got": out}

drv.main(handler)
