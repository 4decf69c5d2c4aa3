"""Solves on many grids and team sizes: the distribution each stage used is reported, and the result compared with that of one worker."""
import json, os, subprocess, sys
import numpy as np
import drv, c06_drv as d
def make(case):
    free = case["free"]; n = len(case["ns"]); b = dict(nstep=1, return_outputs_even_if_not_converged=True, ns_array=case["ns"], niter_array=case["niter"], ftol_array=[1e-14] * n, mpol=case["mpol"], ntheta=case.get("ntheta", 0))
    if free: b.update(lfreeb=True, nzeta=d.NZ, nfp=2, ntor=1, nvacskip=2, extcur=np.array([1.]), mgrid_file="table", raxis_c=[4., 0.], zaxis_s=[0., 0.])
    c = dict(id=0, input=json.loads(drv.solovev(**b)._to_cpp_vmecindata().to_json()), seconds=30)
    if free: c["table"] = d.table(0)
    return c
LIM = r'''
import sys, json; sys.path[:0] = json.loads(sys.argv[1]); import numpy as np, drv, c06_drv as d
print("@" + json.dumps({k: (v.ravel().tolist() if hasattr(v, "ravel") else v) for k, v in d.whole(sys.argv[2], int(sys.argv[3])).items()}))
'''
_one = {}
def whole(name, threads, limit):
    """through the Python package in a process whose OpenMP runtime grants no more threads than `limit`"""
    e = dict(os.environ)
    if limit: e["OMP_THREAD_LIMIT"] = str(limit)
    p = subprocess.run([sys.executable, "-c", LIM, json.dumps(sys.path), name, str(threads)], env=e, capture_output=True, text=True, timeout=200)
    l = [x for x in p.stdout.splitlines() if x.startswith("@")]
    return json.loads(l[-1][1:]) if l else {"crash": p.returncode, "err": (p.stderr or "")[-200:]}
def handler(case):
    if case["kind"] == "limit":
        n = case["input"]
        if n not in _one: _one[n] = whole(n, 1, 0)
        r, o = _one[n], whole(n, case["threads"], case["limit"]); who = f"{n}, {case['threads']} threads asked for, {case['limit']} granted: "
        if "crash" in r: raise RuntimeError(str(r))
        if "crash" in o: return {"bad": who + f"crashed ({o['crash']}) {o['err']}"}
        if "err" in o: return {"bad": who + f"ended as {o['err']}" if not ("err" in r or o["err"] in ("RuntimeError", "ValueError")) else None}  # a clean refusal is an answer
        for k in ("rmnc", "zmns", "lmns", "iotaf", "fsqt"):
            x, y = np.array(o[k]), np.array(r[k])
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-5 if k == "fsqt" else 0, atol=1e-7 * np.max(np.abs(y), initial=1e-30), equal_nan=True): return {"bad": who + f"{k} differs from the result of one thread"}
        return {"bad": None}
    c = make(case); r = d.run({**c, "threads": 1, "perms": []})
    if "code" not in r: return {"bad": f"one worker on the grids {case['ns']}: {r}"}
    extra = {"limit": case["limit"]} if case.get("limit") else {}
    o = d.run({**c, "threads": case["threads"], "perms": [], "watch": dict(ranges=True, seams=True), **extra}); who = f"grids {case['ns']}, {'free' if case['free'] else 'fixed'} boundary, {case['threads']} workers{', limit %d' % case['limit'] if extra else ''}: "
    for k in ("deadlock", "hang", "crash", "exc"):
        if k in o: return {"bad": who + f"{k}: {o[k]}"}
    if extra and o["code"] == 8: return {"bad": None, "ranges": []}  # refused: not enough threads
    bad = d.compare(o, r)
    if bad is None and o["seams"]: bad = f"neighbouring workers hold different copies of a surface {o['seams'][0]}"
    if bad is None and len(o["ranges"]) != len(dict.fromkeys(case["ns"])): bad = f"{len(o['ranges'])} stages were seen"
    rec = []
    for x in o["ranges"]:
        rec.append(dict(kind="radial", ns=x["ns"], free=case["free"], asked=case["threads"], w=x["w"]))
        if x["vac"]: rec.append(dict(kind="points", points=x["points"], asked=case["threads"], w=x["vac"]))
    return {"bad": who + bad if bad else None, "ranges": rec}
if __name__ == "__main__": drv.main(handler)
