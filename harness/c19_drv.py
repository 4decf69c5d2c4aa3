"""C19: replays operation walks on the SIMSOPT wrapper with the solver entry point observed (and made to fail on demand)."""
import json, os, random, shutil, sys, tempfile
import drv, numpy as np
try:
    import simsopt  # noqa: F401
except ImportError:
    print("VP_DRIVER_READY"); sys.exit(7)
import vmecpp
from vmecpp import simsopt_compat as sc
from simsopt.geo.surfacerzfourier import SurfaceRZFourier
from simsopt._core.util import ObjectiveFailure
_cpp = vmecpp._vmecpp; _real = _cpp.run
BASE = os.environ["VP_SCRATCH"]
NAMES = ["delt", "tcon0", "phiedge", "curtor", "gamma"]

def coeffs(s, mpol, ntor, lasym):
    """boundary coefficients by mode number, from the surface's own accessors"""
    out = {}
    for f, g, on in (("rbc", "get_rc", True), ("zbs", "get_zs", True), ("rbs", "get_rs", lasym), ("zbc", "get_zc", lasym)):
        if not on: continue
        a = np.zeros((mpol, 2 * ntor + 1))
        for m in range(mpol):
            for n in range(-ntor, ntor + 1):
                if m <= s.mpol and abs(n) <= s.ntor and not (m == 0 and n < 0): a[m, n + ntor] = getattr(s, g)(m, n)
        out[f] = a
    return out

def dense(v, mpol, w):
    if v and not isinstance(v[0], dict): return np.asarray(v, dtype=float)
    a = np.zeros((mpol, w))
    for e in v or []: a[e["m"], e["n"] + (w - 1) // 2] = e["value"]
    return a

def expect(r, w):
    w = {k: np.asarray(getattr(w, k)) for k in ("aspect", "iotaf", "iotas", "gmnc", "bvco", "ns", "volume")}
    ns = int(w["ns"]); i = w["iotas"][1:]
    if r == "aspect": return float(w["aspect"])
    if r == "volume": return float(w["volume"])
    if r == "iota_axis": return float(w["iotaf"][0])
    if r == "iota_edge": return float(w["iotaf"][-1])
    if r == "mean_iota": return float(sum(i) / len(i))
    if r == "mean_shear":
        s = (np.arange(ns - 1) + 0.5) / (ns - 1); return float(np.sum((s - s.mean()) * (i - i.mean())) / np.sum((s - s.mean()) ** 2))
    if r == "vacuum_well":
        d = np.abs(w["gmnc"][0, 1:]); a = 1.5 * d[0] - 0.5 * d[1]; b = 1.5 * d[-1] - 0.5 * d[-2]; return float((a - b) / a)
    if r == "external_current": return float((1.5 * w["bvco"][-1] - 0.5 * w["bvco"][-2]) / 2e-7)
    return None

class Held:  # the values of a solve's output, copied
    def __init__(self, w):
        for k in ("aspect", "iotaf", "iotas", "gmnc", "bvco", "ns"): setattr(self, k, np.array(getattr(w, k)))
        self.volume = float(getattr(w, "volume", getattr(w, "volume_p", np.nan)))

def handle(case):
    rng = random.Random(case["seed"]); d = tempfile.mkdtemp(dir=BASE); old = os.getcwd(); os.chdir(d)
    try: return walk(case, rng, d)
    finally:
        os.chdir(old); _cpp.run = _real; shutil.rmtree(d, ignore_errors=True)

def walk(case, rng, d):
    lasym = case["lasym"]; mpol, ntor = case["res0"]
    kw = dict(nfp=2, lasym=lasym, mpol=mpol, ntor=ntor, nzeta=10, ns_array=[3, rng.choice([5, 7])], ftol_array=[1e-12, 1e-13], niter_array=[6, 8], return_outputs_even_if_not_converged=True,
              raxis_c=np.array([4.0] + [0.0] * ntor), zaxis_s=np.zeros(ntor + 1), ncurr=1, curtor=9e4, ac=[1.0, -0.5])
    if lasym: kw.update(rbs=[{"m": 1, "n": 0, "value": 0.01}], zbc=[{"m": 1, "n": 0, "value": 0.02}], raxis_s=np.zeros(ntor + 1), zaxis_c=np.zeros(ntor + 1))
    vi = drv.solovev(**kw)
    name = rng.choice(["input.walk.json", "walk.json", "input.walk.more.json"])
    vi.save(os.path.join(d, name)); outname = {"input.walk.json": "wout_walk.nc", "walk.json": "wout_walk.nc", "input.walk.more.json": "wout_walk.more.nc"}[name]
    calls = []; state = {"fail": None, "out": None}
    def run(indata, *a, **k):
        calls.append({"ns": [int(x) for x in indata.ns_array], "mp": int(indata.mpol), "nt": int(indata.ntor), "seeded": k.get("initial_state") is not None,
                      "thr": k.get("max_threads"), "par": {n: float(getattr(indata, n)) for n in NAMES}, "axis": float(sum(np.abs(np.asarray(getattr(indata, f))).sum() for f in ("raxis_c", "zaxis_s"))),
                      "co": {f: np.array(getattr(indata, f)) for f in ("rbc", "zbs") + (("rbs", "zbc") if lasym else ())}})
        if state["fail"] is not None: raise state["fail"]
        o = _real(indata, *a, **k); state["out"] = Held(o.wout); return o
    keep = case["keep"] and case["kind"] == "input"
    if case["kind"] == "wout":
        w = vmecpp.run(vi, verbose=0, max_threads=1).wout; w.save(os.path.join(d, "wout_base.nc"))
        v = sc.Vmec(os.path.join(d, "wout_base.nc"), verbose=False, ntheta=6, nphi=6); held = Held(w)
    else:
        v = sc.Vmec(os.path.join(d, name), verbose=False, ntheta=6, nphi=6, keep_all_files=keep); held = None
    _cpp.run = run
    par = dict(delt=float(vi.delt), tcon0=float(vi.tcon0), phiedge=float(vi.phiedge), curtor=float(vi.curtor), gamma=float(vi.gamma))
    base = {1: v.boundary}
    for s in (2, 3):
        q = SurfaceRZFourier(nfp=2, stellsym=not lasym, mpol=rng.choice([2, 3, 5]), ntor=rng.choice([0, 1, 2]), quadpoints_phi=np.linspace(0, 1, 5), quadpoints_theta=np.linspace(0, 1, 5))
        q.set_rc(0, 0, 4.0); q.set_rc(1, 0, 1.0 + 0.01 * s); q.set_zs(1, 0, 1.4); base[s] = q
    nan = [0, 0]; cur = 1; res = [mpol, ntor]; bad = None; prev_out = None; prev_res = None; nread = 0
    for step, o in enumerate(case["ops"]):
        n0 = len(calls); where = f"step {step + 1} ({o['op']} {o['which']})"
        if o["op"] == "param":
            p = o["which"]; val = {"delt": 0.5, "tcon0": 0.5, "phiedge": 1.0, "curtor": 1e5, "gamma": 0.1}[p] * (1 + 0.003 * o["v"]); par[p] = val
            if rng.random() < 0.5: v.set(p, val)
            else: x = np.array(v.local_full_x); x[NAMES.index(p)] = val; v.local_full_x = x
        elif o["op"] == "shape":
            s = base[o["which"]]; m = rng.choice([0, 1, 2]); n = 0 if min(s.ntor, res[1]) == 0 else rng.choice([0, 1, -1] if m else [0, 1])
            val = {0: 4.0, 1: 1.0, 2: 0.02}[m] * (1 + 0.001 * o["v"]) if n == 0 else 0.001 * o["v"]
            kind = rng.choice(["rc", "zs"] + (["rs", "zc"] if lasym else []))
            if kind != "rc" and (m, n) == (0, 0): kind = "rc"
            if kind in ("rs", "zc"): val = 0.0005 * o["v"]
            if kind == "rs" and (m, n) == (0, 0): kind = "rc"
            if rng.random() < 0.5: getattr(s, "set_" + kind)(m, n, val)
            else: s.set(f"{kind}({m},{n})", val)
        elif o["op"] == "replace":
            cur = o["which"]; v.boundary = base[cur]
        elif o["op"] == "resize":
            res = [o["which"], o["v"]]; v.set_mpol_ntor(*res); base[cur] = v.boundary
        elif o["op"] == "input":
            want = coeffs(base[cur], res[0], res[1], lasym)
            try:
                j = json.loads(v.get_input())
                if case["kind"] == "wout": bad = where + ": an object loaded from a result file produced an input"
                else:
                    for f, a in want.items():
                        if not np.array_equal(dense(j[f], *a.shape), a): bad = where + f": {f} of the written input does not match the boundary"
                    for p in NAMES:
                        if float(j[p]) != par[p]: bad = where + f": {p} of the written input is {j[p]}, set to {par[p]}"
            except RuntimeError as e:
                if case["kind"] == "input": bad = where + f": {e!r}"
        elif o["op"] == "read":
            nread += 1
            state["fail"] = None if o["v"] else rng.choice([RuntimeError("scripted"), RuntimeError("scripted"), KeyboardInterrupt("scripted")])
            before = open(os.path.join(d, outname), "rb").read() if os.path.exists(os.path.join(d, outname)) else None
            seeded = False; val = None
            try:
                r = o["which"]
                if r == "run":
                    if prev_out is not None and prev_res == res and int(prev_out.wout.ns) == int(vi.ns_array[-1]) and rng.random() < 0.6:   # (a solve that stopped on a coarser grid is refused as a start)
                        seeded = True; v.run(restart_from=prev_out)
                    else: v.run(max_threads=rng.choice([1, 2]))
                else: val = float(getattr(v, r)())
                oc = "served"
            except ObjectiveFailure: oc = "failed"
            except KeyboardInterrupt: oc = "failed" if isinstance(state["fail"], KeyboardInterrupt) else "kbd"
            except RuntimeError as e: oc = "refused" if "wout" in str(e) or "result" in str(e) or case["kind"] == "wout" else "RuntimeError"
            except Exception as e: oc = repr(e)[:200]
            solved = len(calls) - n0
            if oc == "failed" and state["fail"] is None: oc = "failed without cause"
            if solved != int(o["solve"]): bad = where + f": {solved} solves, specification: {int(o['solve'])}"
            elif oc != o["outcome"]: bad = where + f": {oc}, specification: {o['outcome']}"
            else:
                if solved:
                    c = calls[-1]; want = coeffs(base[cur], res[0], res[1], lasym)
                    if [c["mp"], c["nt"]] != res: bad = where + f": solved at resolution {[c['mp'], c['nt']]}, current {res}"
                    elif c["par"] != par: bad = where + f": solved with {c['par']}, current {par}"
                    elif any(not np.array_equal(c["co"][f], a) for f, a in want.items()): bad = where + ": solved with a boundary that is not the current one"
                    elif c["axis"] != 0: bad = where + ": the initial axis depends on earlier runs"
                    elif c["ns"] != ([int(vi.ns_array[-1])] if seeded else [int(x) for x in vi.ns_array]): bad = where + f": solved on grids {c['ns']}"
                    elif c["seeded"] != seeded: bad = where + ": restart state not forwarded" if seeded else where + ": unrequested restart state"
                if not bad and oc == "served":
                    if solved: held = state["out"]; prev_out = v.output_quantities; prev_res = list(res)
                    if val is not None:
                        e = expect(o["which"], held); nan[0] += bool(np.isnan(e)); nan[1] += 1
                        if not (abs(val - e) <= 1e-9 * (abs(e) + 1) or (np.isnan(val) and np.isnan(e))): bad = where + f": {o['which']} = {val!r}, the current problem's solution has {e!r}"
                    if keep and not bad and solved:
                        try: a = vmecpp.VmecWOut.from_wout_file(os.path.join(d, outname)).aspect
                        except Exception as e: bad = where + f": kept output file unusable: {e!r}"
                        else:
                            if a != float(held.aspect) and not (np.isnan(a) and np.isnan(held.aspect)): bad = where + ": the kept output file is not the current result"
                if not bad and oc == "failed" and keep:
                    now = open(os.path.join(d, outname), "rb").read() if os.path.exists(os.path.join(d, outname)) else None
                    if now != before: bad = where + ": a failed solve changed the kept output file"
            state["fail"] = None
        if o["op"] != "read" and len(calls) != n0: bad = where + ": solved although nothing was read"
        if bad: return {"bad": bad, "steps": step + 1, "solves": len(calls), "nan": nan}
    return {"bad": None, "steps": len(case["ops"]), "solves": len(calls), "nan": nan}

drv.main(handle)
