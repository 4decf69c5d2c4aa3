"""Replays conversion walks between the representations of an input."""
import copy, importlib.util, io, json, logging, math, os, random, sys, tempfile
import drv
logging.disable(logging.NOTSET)
import numpy as np
import vmecpp
cpp = vmecpp._vmecpp
_s = importlib.util.spec_from_file_location("vx_indata", os.path.join(os.environ["VP_BUILD"], "vx_indata.so"))
vx = importlib.util.module_from_spec(_s); _s.loader.exec_module(vx)
V = vmecpp.VmecInput
from inputgen import *
INT_ARRAYS = ("ns_array", "niter_array")

class Records(logging.Handler):
    def __init__(self): super().__init__(); self.n = 0
    def emit(self, r):
        if r.levelno >= logging.INFO: self.n += 1
REC = Records(); logging.getLogger().addHandler(REC); logging.getLogger().setLevel(logging.INFO)

class Capture:
    """what a call reports: log records of the package and text the solver writes to stderr"""
    def __enter__(self):
        REC.n = 0; self.f = tempfile.TemporaryFile(); self.old = os.dup(2); sys.stderr.flush(); os.dup2(self.f.fileno(), 2); return self
    def __exit__(self, *a):
        sys.stderr.flush(); os.dup2(self.old, 2); os.close(self.old); self.f.seek(0); t = self.f.read().decode(errors="replace"); self.f.close()
        self.text = t; self.reported = REC.n > 0 or "gnoring" in t or "iscarding" in t or bool(t.strip())

def handler(case):
    seed, lasym = case["seed"], case["lasym"]
    r = random.Random(seed); mp, nt = r.randrange(2, 7), r.randrange(0, 4)
    c = content(f"{seed}/0", lasym, mp, nt); sched = None
    if case["s0"]:
        k = len(c["ns_array"])
        if k > 1: sched = dict(mpol=np.array([2] * (k - 1) + [mp]), ntor=np.array([0] * (k - 1) + [nt]))
    kw = dict(c)
    if sched: kw.update(sched)
    if r.random() < .5:        # sparse instead of dense lists
        for f in B2 + B2A:
            if kw[f] is not None: kw[f] = [{"m": int(m), "n": int(n) - nt, "value": float(kw[f][m, n])} for m, n in np.argwhere(kw[f] != 0)]
    cur = V(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
    bad = compare_object(cur, c, sched)
    if bad: return {"bad": "construction: " + bad, "steps": 0}
    wd = tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"]); path = os.path.join(wd, "in.json")
    for i, op in enumerate(case["ops"]):
        k = op["op"]; skew = None
        try:
            bad = step(case, i, op, k, cur, c, sched, path, wd)
            if isinstance(bad, tuple): cur, c, sched, bad = bad
        except Exception as e:
            bad = f"unexpected {type(e).__name__}: {str(e)[:300]}"
        if bad: return {"bad": f"{k}: {bad}", "steps": i + 1}
    return {"bad": None, "steps": len(case["ops"])}

def convert(k, cur, path, wd):
    if k == "py_to_json": return cur.to_json()
    if k == "py_save": cur.save(path, indent=2); return open(path).read()
    if k == "py_dump": return cur.model_dump()
    if k == "py_copy": return cur.model_copy(deep=True)
    if k == "py_to_cpp": return cur._to_cpp_vmecindata()
    if k in ("json_to_py", "cjson_to_py"): return V.model_validate_json(cur)
    if k == "dict_to_py": return V.model_validate(cur)
    if k in ("json_file_to_py", "cjson_file_to_py"): open(path, "w").write(cur); return V.from_file(path)
    if k in ("json_to_cpp", "cjson_to_cpp"):
        open(path, "w").write(cur); return cpp.VmecINDATA.from_file(path)
    if k == "cpp_to_cjson": return cur.to_json()
    if k == "cpp_to_py": return V._from_cpp_vmecindata(cur)
    if k == "cpp_copy": return cur.copy()
    if k == "cpp_to_h5": p = os.path.join(wd, "in.h5"); vx.write(cur, p); return p
    if k == "h5_to_cpp": return vx.read(cur)
    raise AssertionError(k)

def step(case, i, op, k, cur, c, sched, path, wd):
    rr = random.Random(f"{case['seed']}/{i}")
    if k == "edit":
        new = content(f"{case['seed']}/{op['ver']}", c["lasym"], c["mpol"], c["ntor"])
        groups = [["nfp"], ["ns_array", "ftol_array", "niter_array"], ["phiedge", "curtor"], ["am", "am_aux_s", "am_aux_f", "pmass_type", "pres_scale"], ["ai", "ai_aux_s", "ai_aux_f"],
                  ["ac", "ac_aux_s", "ac_aux_f", "ncurr", "bloat"], ["mgrid_file", "extcur", "nvacskip", "lfreeb", "free_boundary_method"], ["iteration_style", "delt", "tcon0", "nstep"], ["aphi", "lforbal"],
                  ["rbc"], ["zbs"], ["rbs", "raxis_s"], ["zbc", "zaxis_c"], ["raxis_c"], ["zaxis_s"], ["mpol_geometry", "ntheta"]]
        c = dict(c)
        for g in rr.sample(groups, 4):
            if sched is not None and "ns_array" in g: continue
            for f in g:
                v = new[f]
                if v is None: continue
                c[f] = v
                if op["from"] == "cpp":
                    if f in B2 + A1 + B2A + A1A: getattr(cur, f)[:] = v
                    elif f == "free_boundary_method": setattr(cur, f, getattr(cpp.FreeBoundaryMethod, v.upper()))
                    elif f == "iteration_style": setattr(cur, f, getattr(cpp.IterationStyle, v.upper()))
                    else: setattr(cur, f, v)
                else:
                    if f == "free_boundary_method": v = vmecpp.FreeBoundaryMethod(v)
                    if f == "iteration_style": v = vmecpp.IterationStyle(v)
                    setattr(cur, f, v.copy() if isinstance(v, np.ndarray) else v)
        return cur, c, sched, compare_object(cur, c, sched)
    if k in ("shuffle", "zeros"):
        d = json.loads(cur)
        if k == "shuffle":
            items = list(d.items()); rr.shuffle(items); d = dict(items)
            for f in B2 + B2A:
                if d.get(f): rr.shuffle(d[f])
        else:
            for f in B2 + B2A:
                if d.get(f) is not None:
                    have = {(e["m"], e["n"]) for e in d[f]}
                    for m in range(c["mpol"]):
                        for n in range(-c["ntor"], c["ntor"] + 1):
                            if (m, n) not in have and rr.random() < .5: d[f].append({"m": m, "n": n, "value": 0.0})
        return json.dumps(d), c, sched, None
    if k.startswith("spoil_"):
        d = json.loads(cur); f = rr.choice(B2 + (B2A if c["lasym"] else ())); w = k[6:]
        if w == "axis": a = rr.choice(A1 + (A1A if c["lasym"] else ())); d[a] = list(d[a]) + [1.25]
        else:
            d[f].insert(rr.randrange(len(d[f]) + 1), {"m": c["mpol"] + rr.randrange(3) if w == "m" else -1 - rr.randrange(3) if w == "negm" else rr.randrange(c["mpol"]),
                        "n": rr.choice([-1, 1]) * (c["ntor"] + 1 + rr.randrange(3)) if w == "n" else 0, "value": 0.125})
        return json.dumps(d), c, sched, None
    if k.startswith("skew_"):
        if k == "skew_up":
            if rr.random() < .5: cur.ntor = c["ntor"] + 1 + rr.randrange(2)
            else: cur.mpol = c["mpol"] + 1
            if rr.random() < .3: cur.ntor = c["ntor"] + 1
        else:
            if c["ntor"] and rr.random() < .5: cur.ntor = rr.randrange(c["ntor"])
            elif c["mpol"] > 2: cur.mpol = c["mpol"] - 1
            else: cur.mpol = c["mpol"] + 2
        return cur, c, sched, None
    # a conversion
    silent = op["allow"] == ["same"]
    before = copy.deepcopy(cur) if isinstance(cur, (dict, V)) else cur
    try:
        with Capture() as cap: new = convert(k, cur, path, wd)
    except Exception as e:
        if silent: return f"refused: {type(e).__name__}: {str(e)[:300]}"
        return cur, c, sched, None
    want = c
    if op["to"] == "cpp": sched = None
    if not silent:
        if k == "py_to_cpp":     # skewed object: the tables refitted to the assigned resolution
            a, b = cur.mpol, cur.ntor; want = dict(c, mpol=a, ntor=b); grown = a >= c["mpol"] and b >= c["ntor"]
            for f in B2 + (B2A if c["lasym"] else ()):
                t = np.zeros((a, 2 * b + 1)); m, n = min(a, c["mpol"]), min(b, c["ntor"]); t[:m, b - n:b + n + 1] = c[f][:m, c["ntor"] - n:c["ntor"] + n + 1]; want[f] = t
            for f in A1 + (A1A if c["lasym"] else ()): t = np.zeros(b + 1); n = min(b, c["ntor"]) + 1; t[:n] = c[f][:n]; want[f] = t
            if not grown and not cap.reported: return "tables that do not fit the resolution were dropped silently"
        elif not cap.reported: return "an entry that does not fit was dropped silently"
    if op["to"] in ("py", "cpp"): bad = compare_object(new, want, sched)
    elif op["to"] == "h5": bad = None
    else: bad = compare_text(new, want, sched)
    if not bad and op["from"] == "py" and op["allow"] == ["same"]: bad = compare_object(cur, c, sched if op["to"] != "cpp" else None) if op["to"] != "cpp" else None
    return new, want, sched, bad

drv.main(handler)
