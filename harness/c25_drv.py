"""Replays command sequences of spec/cli: each command runs in a process of its own, its status and every file are compared."""
import os
for _v in ("OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ[_v] = "1"
import importlib.metadata, json, pickle, random, resource, runpy, shutil, signal, subprocess, sys, tempfile, time
class _Dist:
    def locate_file(self, x): return os.path.join(DIST["path"], x)
DIST = {"path": "/nonexistent"}
_real, _version = importlib.metadata.distribution, importlib.metadata.version
importlib.metadata.distribution = lambda name: _Dist() if name == "vmecpp" else _real(name)
importlib.metadata.version = lambda name: "0.0.0" if name == "vmecpp" else _version(name)
import drv
import numpy as np, vmecpp
HERE = os.path.dirname(os.path.abspath(__file__)); join = os.path.join
V = vmecpp.VmecInput
STANDALONE = join(os.environ["VP_BUILD"], "vmec_standalone")
ENT = lambda l: [{"m": m, "n": n, "value": v} for m, n, v in l]
def problem(p):
    k = {"p1": dict(), "p2": dict(phiedge=1.7, ns_array=[7]), "p3": dict(nfp=2, ntor=1, ns_array=[7], rbc=ENT([(0, 0, 4.), (1, 0, 1.), (1, 1, .1)]), zbs=ENT([(1, 0, 1.2), (1, 1, -.1)]), raxis_c=[4., 0.], zaxis_s=[0., 0.]),
         "loose": dict(niter_array=[30], ftol_array=[1e-14], return_outputs_even_if_not_converged=True), "fails": dict(ftol_array=[1e-30]), "refused": dict(niter_array=[-4])}[p]
    return drv.solovev(**k)
def text(form, p, r):
    if p == "empty": return ""
    t = problem("p1" if p == "garbage" else p).to_json()
    if form == "classic": t = vmecpp._util.vmecpp_json_to_indata(json.loads(t))
    if p == "garbage": t = r.choice([t[:len(t) // 2], "hello\n", "\0\1\2" * 40])
    return t
def fields(w):
    r = {}
    for k in type(w).model_fields:
        v = getattr(w, k)
        if v is None: r[k] = None; continue
        try: r[k] = np.array(v, dtype=float)
        except (TypeError, ValueError): r[k] = str(v)
    return r
def differ(a, b):
    """the first quantity of a that is not what it is in b"""
    for k, y in b.items():
        x = a.get(k)
        if k in ("input_extension", "mgrid_file") or (x is None and y is None): continue
        if not isinstance(y, np.ndarray) or not isinstance(x, np.ndarray):
            if type(x) is not type(y) or (isinstance(x, str) and x.strip() != y.strip()): return f"{k} is {x!r}, expected {y!r}"[:200]
            continue
        if x.shape != y.shape: return f"{k} has shape {x.shape}, expected {y.shape}"
        s = np.max(np.abs(y[np.isfinite(y)]), initial=0)
        if not np.allclose(x, y, rtol=1e-4, atol=5e-6 * s + 1e-12, equal_nan=True): return f"{k} is not the result of the problem"
def forked(f, log=None, limit=None, kill=None, cwd=None):
    """f in a process of its own: (status, what it returned)"""
    a, b = os.pipe(); pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(a)
            if log is not None:
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(fd, 1); os.dup2(os.open(log + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 2)
            if cwd: os.chdir(cwd)
            if limit is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            code, x = f()
            try: sys.stdout.flush(); sys.stderr.flush()
            except Exception: pass
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            with os.fdopen(b, "wb") as o: pickle.dump(x, o)
        except BaseException: pass
        finally: os._exit(code)
    os.close(b)
    if kill is not None:
        time.sleep(kill)
        try: os.kill(pid, signal.SIGINT)
        except ProcessLookupError: pass
    with os.fdopen(a, "rb") as i: d = i.read()
    st = os.waitpid(pid, 0)[1]
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)), pickle.loads(d) if d else None
_refs = {}
def expected(p):
    if p not in _refs: _refs[p] = forked(lambda: (0, fields(vmecpp.run(problem(p), max_threads=1, verbose=False).wout)))[1]
    return _refs[p]
def contents(f):
    return forked(lambda: (0, fields(vmecpp.VmecWOut.from_wout_file(f))))[1] if f.endswith(".nc") else forked(lambda: (0, fields(vmecpp.VmecWOut._from_cpp_wout(vmecpp._vmecpp.OutputQuantities.load(f).wout))))[1]
def main(argv):
    """what `python -m vmecpp` does: status, solves, threads that came into being"""
    seen = {"solves": 0}; run = vmecpp._vmecpp.run
    def counted(*a, **k): seen["solves"] += 1; return run(*a, **k)
    vmecpp._vmecpp.run = counted; n = len(os.listdir("/proc/self/task"))
    sys.argv = ["vmecpp", *argv]; signal.signal(signal.SIGINT, signal.default_int_handler)
    try: runpy.run_module("vmecpp", run_name="__main__", alter_sys=True); code = 0
    except SystemExit as e: code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except KeyboardInterrupt: code = 130
    except BaseException: import traceback; traceback.print_exc(); code = 1
    seen["threads"] = len(os.listdir("/proc/self/task")) - n
    return code, seen
def tree(*ds):
    r = {}
    for d in ds:
        for a, b, fs in os.walk(d):
            for x in b: r[join(a, x)] = None
            for x in fs:
                with open(join(a, x), "rb") as f: r[join(a, x)] = f.read()
    return r
def restore(old, new):
    for p in new.keys() - old.keys(): shutil.rmtree(p) if new[p] is None else os.unlink(p)
    for p, v in old.items():
        if v is not None and new.get(p) != v:
            with open(p, "wb") as f: f.write(v)
class Scene:
    def __init__(s, case, top):
        s.top = top; s.r = random.Random(case["seed"]); s.n = {}
        s.dirs = [join(top, "d1"), join(top, "d 2")]; s.tmp = join(top, "tmp"); dist = join(top, "dist")
        for d in (*s.dirs, s.tmp, join(dist, "vmecpp/cpp/third_party/indata2json")): os.makedirs(d)
        exe = join(dist, "vmecpp/cpp/third_party/indata2json/indata2json")
        open(exe, "w").write(f"#!/bin/sh\nexec {sys.executable} {HERE}/indata2json_standin.py \"$@\"\n"); os.chmod(exe, 0o755)
        DIST["path"] = dist; tempfile.tempdir = s.tmp; os.environ["TMPDIR"] = s.tmp; os.environ["PYTHONPATH"] = HERE; os.environ["VP_I2J"] = "none"; os.environ["OMP_NUM_THREADS"] = "4"
    def name(s, f): return {"json": f["name"] + ".json", "odd": f["name"] + ".txt"}.get(f["form"], "input." + f["name"])
    def path(s, f): return join(s.dirs[f["dir"] - 1], s.name(f))
    def result(s, o): return join(s.dirs[o["dir"] - 1], {"wout": f"wout_{o['name']}.nc", "json": o["name"] + ".json", "h5": o["name"] + ".out.h5"}[o["kind"]])
    def step(s, op):
        k = op["op"]
        if k == "write":
            with open(s.path(op["file"]), "w") as f: f.write(text(op["file"]["form"], op["p"], s.r))
        elif k == "alien":
            with open(s.result(op), "wb") as f: f.write(b"someone else's file")
        elif k == "block": os.mkdir(s.result(op))
        else:
            tries = 3 if op["fault"] == "interrupt" else 1; bad = []
            for _ in range(tries):      # an interrupt inside a clean-up may beat it: report what repeats
                b = s.command(op)
                if b is None: return
                bad.append(b)
            return bad[-1]
    def command(s, op):
        k, g, fault = op["op"], op["flags"], op["fault"]; cwd = s.dirs[op["cwd"] - 1]; p = s.path(op["file"]); out = s.result(op["out"])
        given = {"relative": os.path.relpath(p, cwd), "absolute": p, "dotted": join(".", os.path.relpath(p, s.top).join(("../", "")))}[g["how"]]
        before = tree(*s.dirs); log = join(s.top, "log"); thr = g["thr"]; seen = None
        if k == "standalone":
            def go():
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                return (subprocess.run([STANDALONE, given, *([str(thr)] if thr else [])]).returncode & 255), None
            st, _ = forked(go, log, cwd=cwd)
        else:
            fl = ([*s.r.choice((["-q"], ["--quiet"]))] if g["quiet"] else []) + (["--legacy"] if g["legacy"] else []) + ([s.r.choice(("-t", "--max-threads")), str(thr)] if thr else [])
            if k == "convert": argv = ["convert", given]
            else: argv = fl + [given] if s.r.random() < .5 else [given] + fl
            if fault == "args": argv = s.r.choice((["--nope", *argv], [*argv, "second"], [x for x in argv if x != given], *([] if k == "convert" else ([*argv, "-t", "x"], [*argv, "-t", "0"], [*argv, "-t", "-3"], [*argv, "-t"]))))
            limit = s.r.choice((0, 100, 600)) if fault == "full" else None
            st, seen = forked(lambda: main(argv), log, None if limit is None else limit, s.r.uniform(0, .07) if fault == "interrupt" else None, cwd) if fault != "full" else s.limited(argv, log, limit, cwd)
        after = tree(*s.dirs); printed = open(log, errors="replace").read() if os.path.exists(log) else ""
        err = open(log + ".err", errors="replace").read()[-150:].replace("\n", " ") if os.path.exists(log + ".err") else ""
        changed = sorted(os.path.relpath(x, s.top) for x in before.keys() | after.keys() if x not in after or x not in before or before[x] != after[x])
        what = f"{k} {given!r} ({op['p']}, {fault})"; s.n[k] = s.n.get(k, 0) + 1
        def verdict():
            if fault == "interrupt" and st == 0:
                if op["p"] in ("fails", "refused", "garbage", "empty", "missing") and k == "run": return f"{what}: status 0 although there is no result"
            elif op["ok"] != (st == 0): return f"{what}: status {st}, expected {'0' if op['ok'] else 'another'} {err}"
            if st != 0:
                if changed: return f"{what}: ended with status {st} but changed {changed}"
                if "Output written" in printed or "Converted " in printed: return f"{what}: ended with status {st} but says it has written something"
            else:
                if [x for x in changed if x != os.path.relpath(out, s.top)]: return f"{what}: changed {changed}, should have written {os.path.relpath(out, s.top)} alone"
                if out not in after: return f"{what}: status 0 but {os.path.relpath(out, s.top)} is not there"
                if k == "convert":
                    try: got = json.loads(V.from_file(out).to_json())
                    except Exception as e: return f"{what}: its result cannot be read: {e}"[:300]
                    if got != json.loads(problem(op["p"]).to_json()): return f"{what}: its result is another problem"
                else:
                    got = contents(out)
                    if got is None: return f"{what}: its result cannot be read"
                    b = differ(got, expected(op["p"]))
                    if b: return f"{what}: {b}"
                if k == "run" and os.path.basename(out) not in printed.strip().splitlines()[-1]: return f"{what}: does not say where the result is"
            if k == "run" and seen is not None:
                if seen["solves"] and not op["solves"]: return f"{what}: solved although it cannot be saved"
                if thr and seen["threads"] > thr - 1 and fault != "args": return f"{what}: used {seen['threads'] + 1} threads, allowed {thr}"
                if g["quiet"] and fault == "none" and [x for x in printed.splitlines() if x.strip() and os.path.basename(out) not in x]: return f"{what}: prints {printed[:80]!r} although it should be quiet"
            left = os.listdir(s.tmp)
            if left and fault == "none": return f"{what}: left {left} in the temporary folder"
        b = verdict()
        if b or (fault == "interrupt" and st == 0): restore(before, after)
        for x in os.listdir(s.tmp): shutil.rmtree(join(s.tmp, x), ignore_errors=True)
        s.n["ok" if st == 0 else "failed"] = s.n.get("ok" if st == 0 else "failed", 0) + 1
        return b
    def limited(s, argv, log, limit, cwd):
        """as forked(main), the output through a pipe so that the limit is not hit by what is printed"""
        r, w = os.pipe()
        def go(): os.close(r); os.dup2(w, 1); os.dup2(w, 2); os.close(w); return main(argv)
        pid = os.fork()
        if pid == 0:
            os.close(w)
            with os.fdopen(r, "rb") as i, open(log, "wb") as o: shutil.copyfileobj(i, o)
            os._exit(0)
        if os.path.exists(log + ".err"): os.unlink(log + ".err")
        x = forked(go, None, limit, None, cwd); os.close(r); os.close(w); os.waitpid(pid, 0)
        return x
def handler(case):
    top = tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"]); s = Scene(case, top); bad = None
    try:
        for i, op in enumerate(case["ops"]):
            bad = s.step(op)
            if bad: break
    finally: shutil.rmtree(top, ignore_errors=True)
    return {"bad": bad, "steps": i + 1, "n": s.n}
if __name__ == "__main__": drv.main(handler)
