"""Shared machinery of the checks: building the code under test from /repo's working tree, running TLC
(exhaustive, simulation, trace validation), replay files, known findings and evidence."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMECPP_REPO", "/repo")
BUILDROOT = os.environ.get("VP_BUILDROOT", os.path.join(ROOT, ".build"))
SRC = os.path.join(BUILDROOT, "src")          # mirror of /repo's C++ sources (content-synchronised)
CPPBUILD = os.path.join(BUILDROOT, "cpp")
VENV_PY = "/opt/vp/venv/bin/python"
NPROC = os.cpu_count() or 8

class CheckError(Exception):
    """The check itself cannot give an answer (exit 2)."""

def sh(cmd, timeout=None, env=None, cwd=None, input=None):
    """Run a command in its own process group; returns (rc, stdout+stderr). rc = -9 on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         env=env, cwd=cwd, start_new_session=True, stdin=subprocess.PIPE if input else subprocess.DEVNULL)
    try:
        out, _ = p.communicate(input=input, timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return -9, (out or "") + "\n[timeout]"

# ----------------------------------------------------------------------------- build
def _sync(src, dst):
    """Copy files whose content differs (with a fresh mtime), delete vanished ones."""
    keep, changed = set(), 0
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", "test_data", "large_cpp_tests", ".git") and not x.startswith("bazel-")]
        for f in files:
            if not f.endswith((".cc", ".h", ".cpp", ".hpp", ".c", ".txt", ".cmake", ".inc")): continue
            a = os.path.join(d, f); rel = os.path.relpath(a, src); b = os.path.join(dst, rel); keep.add(rel)
            try: data = open(a, "rb").read()
            except FileNotFoundError: continue
            if os.path.exists(b) and open(b, "rb").read() == data: continue
            os.makedirs(os.path.dirname(b), exist_ok=True)
            with open(b, "wb") as o: o.write(data)
            changed += 1
    for d, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in keep: os.unlink(os.path.join(d, f)); changed += 1
    return changed

def build(*targets, flavour="cpp", opts=(), timeout=800):
    """Build targets of /verif/harness against the current /repo tree. Returns the build folder."""
    t0 = time.time()
    bdir = os.path.join(BUILDROOT, flavour)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(BUILDROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _sync(os.path.join(REPO, "src/vmecpp/cpp"), os.path.join(SRC, "src/vmecpp/cpp"))
        rc, out = sh(["cmake", "-G", "Ninja", "-S", os.path.join(ROOT, "harness"), "-B", bdir, f"-DVMECPP_REPO={SRC}", *opts], timeout=120)
        if rc != 0: raise CheckError("cmake failed:\n" + out[-3000:])
        rc, out = sh(["ninja", "-C", bdir, "-k", "0", *targets], timeout=timeout)
        if rc != 0:
            raise CheckError("build of %s failed:\n%s" % (targets, out[-4000:]))
    print(f"[build] {' '.join(targets)} in {time.time()-t0:.1f}s", flush=True)
    return bdir

class background:
    """Run f in a thread while the body runs; its exception is raised at the end."""
    def __init__(self, f): self.f = f
    def __enter__(self):
        import threading
        self.err = None
        def go():
            try: self.f()
            except BaseException as e: self.err = e
        self.t = threading.Thread(target=go); self.t.start(); return self
    def __exit__(self, et, ev, tb):
        self.t.join()
        if et is None and self.err is not None: raise self.err

# ----------------------------------------------------------------------------- TLC
JAR = "/opt/veriftools/tla/tla2tools.jar"
class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if not m:
            m = re.search(r"The number of states generated: (\d+)", out)
            if m: self.generated = int(m.group(1))
        self.ok = rc == 0
        self.violated = rc in (10, 11, 12, 13)
    def prints(self, tag="@@"):
        for line in self.out.splitlines():
            if line.startswith('"' + tag):
                yield json.loads(json.loads(line)[len(tag):])

def tlc(spec, cfg, *args, workdir, files=(), timeout=600, workers="auto", heap="6g", env=None, extra_specs=()):
    """Run TLC on spec (path under /verif/spec) with cfg (text or path) in a fresh work folder."""
    wd = os.path.join(BUILDROOT, "work", workdir)
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    sdir = os.path.join(ROOT, "spec", os.path.dirname(spec)); mod = os.path.basename(spec)
    for f in os.listdir(sdir):
        if f.endswith(".tla"): shutil.copy(os.path.join(sdir, f), wd)
    for f in extra_specs: shutil.copy(os.path.join(ROOT, "spec", f), wd)
    text = open(os.path.join(sdir, cfg)).read() if cfg.endswith(".cfg") else cfg
    open(os.path.join(wd, "M.cfg"), "w").write(text)
    for name, data in files:
        with open(os.path.join(wd, name), "w") as o: o.write(data)
    t0 = time.time()
    e = dict(os.environ); e.update(env or {}); e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") + f" -Xmx{heap} -Djava.io.tmpdir={wd}").strip()
    rc, out = sh(["tlc", "-config", "M.cfg", "-workers", str(workers), "-metadir", os.path.join(wd, "meta"), *args, mod + ".tla"],
                 timeout=timeout, cwd=wd, env=e)
    shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    open(os.path.join(wd, "tlc.out"), "w").write(out)
    return Tlc(rc, out, time.time() - t0)

def tlc_check(spec, cfg, *args, **kw):
    """Exhaustive check of the design; anything but success is a failure of the check itself
    (the specification does not read the code, so the code cannot make it fail)."""
    r = tlc(spec, cfg, *args, **kw)
    if not r.ok: raise CheckError(f"TLC on {spec}: exit {r.rc}\n{r.out[-3000:]}")
    print(f"[tlc] {spec}: {r.distinct} distinct / {r.generated} generated states, no violation, {r.wall:.1f}s", flush=True)
    return r

def tlc_simulate(spec, cfg, num, depth, seed, **kw):
    r = tlc(spec, cfg, "-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), "-aril", "0", workers=1, **kw)
    if not r.ok: raise CheckError(f"TLC simulation of {spec}: exit {r.rc}\n{r.out[-3000:]}")
    return r

def tlc_validate(spec, cfg, records, *, workdir, timeout=600, tracefile="trace.ndjson", **kw):
    """Trace validation: records (list of JSON values) are checked by the trace specification, which
    prints "@@REJECT" for each record the specification does not allow.  Returns the rejections."""
    data = "".join(json.dumps(r) + "\n" for r in records)
    r = tlc(spec, cfg, workdir=workdir, files=[(tracefile, data)], timeout=timeout, **kw)
    if not r.ok: raise CheckError(f"trace validation {spec}: exit {r.rc}\n{r.out[-3000:]}")
    r.rejects = list(r.prints("@@REJECT"))
    done = list(r.prints("@@DONE"))
    if not done or done[-1] != len(records):
        raise CheckError(f"trace validation {spec}: consumed {done[-1:] } of {len(records)} records\n{r.out[-2000:]}")
    return r

# ----------------------------------------------------------------------------- results
def known_findings():
    p = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

class Check:
    """Collects what a check explored and its violations, writes evidence and exits."""
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions, self.violations, self.notes, self.known = [], [], {}, []
        self.findings = [f for f in known_findings()["findings"] if f["property"] == pid]
        self.thorough = tier == "thorough"
    def model(self, r):
        self.cov["states"] += r.distinct or r.generated; self.cov["transitions"] += r.generated
    def traces(self, n=1): self.cov["traces_validated_against_impl"] += n
    def sample(self, case, cap=6):
        if len(self.cov["samples"]) < cap: self.cov["samples"].append(case)
    def note(self, k, v): self.notes[k] = v
    def elapsed(self): return time.time() - self.t0
    def violation(self, what, replay):
        """what: one line; replay: JSON-able data that reproduces it. `key` in replay identifies a known finding."""
        key = replay.get("key") if isinstance(replay, dict) else None
        for f in self.findings:
            if key is not None and f["key"] == key:
                if key not in self.known:
                    self.known.append(key); print(f"KNOWN-FINDING: property={self.pid} {f['what']}", flush=True)
                return
        if len(self.violations) >= 25:
            return
        d = os.path.join(ROOT, "replays"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.violations)+1}.json")
        json.dump({"property": self.pid, "what": what, "replay": replay}, open(path, "w"), indent=1, default=str)
        self.violations.append({"what": what, "replay": path})
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        print("   " + what[:600], flush=True)
    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {**self.cov, **self.notes}, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": len(self.violations)}
        d = os.path.join(ROOT, "evidence"); os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.pid}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1, default=str); os.replace(tmp, os.path.join(d, f"{self.pid}.json"))
        print(f"[{self.pid}] {'FAIL' if self.violations else 'ok'} {json.dumps({k: v for k, v in self.cov.items() if k != 'samples'})} {ev['wall_s']}s", flush=True)
        return 1 if self.violations else 0

# ----------------------------------------------------------------------------- driving the Python package
def drive(script, cases, workdir, *, jobs=6, timeout=400, env=None, mock=False, case_timeout_kills=3, args=()):
    """Feed cases (dicts with "id") to harness/<script> (run with the package's interpreter, /repo's Python sources
    and the freshly built extension).  The script writes one JSON line per case.  A case on which the process
    dies (abort, signal, timeout) is reported as {"id", "crash"}; the remaining cases are run in a new process."""
    import concurrent.futures as cf
    wd = os.path.join(BUILDROOT, "work", workdir); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    e0 = dict(os.environ, VP_BUILD=os.path.join(CPPBUILD, "mock") if mock else CPPBUILD, VMECPP_REPO=REPO, PYTHONDONTWRITEBYTECODE="1",
              OMP_WAIT_POLICY="passive", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", VP_SCRATCH=wd, **(env or {}))
    def one(z):
        k, todo = z; obs = {}; part = 0; crashes = 0
        while todo:
            part += 1
            a, o = os.path.join(wd, f"{k}-{part}.in"), os.path.join(wd, f"{k}-{part}.out")
            open(a, "w").write("".join(json.dumps(s) + "\n" for s in todo))
            rc, out = sh([VENV_PY, os.path.join(ROOT, "harness", script), a, o, *args], timeout=timeout, env=e0, cwd=wd)
            lines = []
            if os.path.exists(o):
                for l in open(o):
                    try: lines.append(json.loads(l))
                    except ValueError: break
            for l in lines: obs[l["id"]] = l
            if rc == 0 and len(lines) >= len(todo): break
            if part == 1 and not lines and "VP_DRIVER_READY" not in out: raise CheckError(f"driver {script} did not start (exit {rc}): {out[-1500:]}")
            if len(lines) < len(todo):
                bad = todo[len(lines)]; obs[bad["id"]] = {"id": bad["id"], "crash": f"exit {rc}: {out[-400:]}"}
            todo = todo[len(lines) + 1:]; crashes += 1
            if crashes > case_timeout_kills: break
        return obs
    chunks = [c for c in (cases[i::jobs] for i in range(jobs)) if c]
    res = {}
    with cf.ThreadPoolExecutor(len(chunks) or 1) as ex:
        for o in ex.map(one, enumerate(chunks)): res.update(o)
    return res
