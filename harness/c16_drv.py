"""Replays conversion scenarios of spec/convert on the real converters, with a scripted stand-in for the external tool."""
import importlib.metadata, json, logging, os, random, resource, shutil, stat, sys, tempfile
class _Dist:
    def locate_file(self, x): return os.path.join(DIST["path"], x)
DIST = {"path": "/nonexistent"}
_real = importlib.metadata.distribution
importlib.metadata.distribution = lambda name: _Dist() if name == "vmecpp" else _real(name)
import drv
import numpy as np, vmecpp
from pathlib import Path
from inputgen import *
import nmlread
V = vmecpp.VmecInput
HERE = os.path.dirname(os.path.abspath(__file__))
AX = {"raxis_c": "raxis_cc", "zaxis_s": "zaxis_cs", "raxis_s": "raxis_cs", "zaxis_c": "zaxis_cc"}
CLASSIC = ["lasym", "nfp", "mpol", "ntor", "ntheta", "nzeta", "ns_array", "ftol_array", "niter_array", "delt", "tcon0", "aphi", "lforbal", "nstep", "phiedge", "pmass_type", "am", "am_aux_s", "am_aux_f",
           "pres_scale", "gamma", "spres_ped", "ncurr", "piota_type", "ai", "ai_aux_s", "ai_aux_f", "pcurr_type", "ac", "ac_aux_s", "ac_aux_f", "curtor", "bloat", "lfreeb", "mgrid_file", "extcur", "nvacskip",
           "raxis_c", "zaxis_s", "raxis_s", "zaxis_c"]
TAB = ("rbc", "zbs", "rbs", "zbc")

def make(seed):
    r = random.Random(seed); lasym = r.random() < .5; mp, nt = r.randrange(2, 7), r.randrange(0, 4)
    c = content(seed, lasym, mp, nt)
    for f in TAB:
        if c[f] is not None and not c[f].any(): c[f][r.randrange(mp), r.randrange(2 * nt + 1)] = num(r) or 1.0
    return r, c

def lit(v):
    if isinstance(v, (bool, np.bool_)): return ".true." if v else "F"
    if isinstance(v, str): return "'" + v.replace("'", "''") + "'"
    if isinstance(v, (int, np.integer)): return str(int(v))
    return repr(float(v)).replace("e", "D")

def classic_text(r, c):
    """an independent namelist writer"""
    out = []
    for f in CLASSIC:
        v = c[f]
        if v is None: continue
        k = AX.get(f, f)
        if r.random() < .3: k = k.upper()
        if isinstance(v, np.ndarray):
            if len(v): out.append(f"  {k} = " + (", " if r.random() < .5 else "  ").join(lit(x) for x in v))
        else: out.append(f" {k} = {lit(v)}")
    for f in TAB:
        if c[f] is None: continue
        for m, n in np.argwhere(c[f] != 0): out.append(f"  {f}({n - c['ntor']},{m}) = {lit(c[f][m, n])}")
    r.shuffle(out)
    head = r.choice(["", "! a comment\n", "\n\n  ! two\n!three\n"])
    return head + "&INDATA\n" + "\n".join(out) + "\n/\n"

def cmp_obj(o, c):
    for f in CLASSIC + list(TAB):
        w = c[f]
        if isinstance(w, np.ndarray) and not len(w): continue
        if not same(getattr(o, f), w): return f"{f} is {getattr(o, f)!r}, expected {w!r}"[:300]

def cmp_nml(text, c):
    try: d, t = nmlread.read(text)
    except Exception as e: return f"the namelist cannot be read: {type(e).__name__} {str(e)[:200]}"
    for f in CLASSIC:
        w, g = c[f], d.get(AX.get(f, f))
        if w is None:
            if g is not None: return f"{f} appears from nowhere: {g!r}"
            continue
        if isinstance(w, np.ndarray):
            if not len(w):
                if g not in (None, []): return f"{f} is {g!r}, expected nothing"
                continue
            g = [g] if not isinstance(g, list) else g
            ok = g == w.tolist()
        else: ok = type(g) is type(w) and g == w or (isinstance(w, float) and isinstance(g, (int, float)) and g == w)
        if not ok: return f"{f} is {g!r}, expected {w!r}"[:300]
    for f in TAB:
        w = {} if c[f] is None else {(int(n) - c["ntor"], int(m)): float(c[f][m, n]) for m, n in np.argwhere(c[f] != 0)}
        g = {k: v for k, v in t.get(f, {}).items() if v != 0}
        if g != w: return f"{f} lists (n, m) entries {sorted(set(g.items()) ^ set(w.items()))[:4]} differently"

MINE = set()      # input files written by this driver
def listing(*ds):
    return sorted({os.path.join(a, x) for d in ds for a, b, fs in os.walk(d) for x in b + fs} - MINE)

def handler(case):
    top = tempfile.mkdtemp(dir=os.environ["VP_SCRATCH"]); old = os.getcwd(), tempfile.tempdir, os.environ.get("TMPDIR")
    cms = []
    try: return scenario(case, top, cms)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
        os.chdir(old[0]); tempfile.tempdir = old[1]; shutil.rmtree(top, ignore_errors=True)

def scenario(case, top, cms):
    R = random.Random(case["seed"]); join = os.path.join
    home, ind, tmp, dist = (join(top, x) for x in ("home", "in dir", "tmp", "dist"))
    if R.random() < .4: ind = home
    for d in (home, ind, tmp, join(dist, "vmecpp/cpp/third_party/indata2json"), join(top, "else")): os.makedirs(d, exist_ok=True)
    exe = join(dist, "vmecpp/cpp/third_party/indata2json/indata2json")
    open(exe, "w").write(f"#!/bin/sh\nexec {sys.executable} {HERE}/indata2json_standin.py \"$@\"\n"); os.chmod(exe, 0o755)
    DIST["path"] = dist; tempfile.tempdir = tmp; os.environ["TMPDIR"] = tmp; os.environ["PYTHONPATH"] = HERE; os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.chdir(home)
    watch = (home, ind, tmp)
    for i, op in enumerate(case["ops"]):
        bad = step(case, i, op, R, home, ind, top, exe, watch, cms)
        if bad: return {"bad": bad, "steps": i + 1}
        if len(cms) != op["open"]: return {"bad": f"{op}: {len(cms)} scopes open", "steps": i + 1}
    return {"bad": None, "steps": len(case["ops"])}

def step(case, i, op, R, home, ind, top, exe, watch, cms):
    if op["op"] == "leave":
        fr = cms.pop(); how = op["how"]
        if fr["path"] is not None and not os.path.exists(fr["path"]): return f"{fr['api']}: the converted file vanished while its scope was open"
        b = fr["check"]()
        if b: return f"{fr['api']}: later in the scope: {b}"
        E = {"raise": RuntimeError, "kbd": KeyboardInterrupt}.get(how)
        if how == "chdir": os.chdir(os.path.join(top, "else"))
        if how == "child" and fr["path"] is not None:
            pid = os.fork()
            if pid == 0:
                try:
                    os.environ["VP_I2J"] = "none"
                    with (vmecpp.ensure_vmecpp_input if fr["api"] == "ctx_json" else vmecpp.ensure_vmec2000_input)(fr["given"]): pass
                except BaseException: pass
                os._exit(0)
            os.waitpid(pid, 0)
            b = fr["check"]()
            if b: return f"{fr['api']}: after another process converted the same input: {b}"
        try:
            if E:
                e = E("from the body"); got = None
                try:
                    sw = fr["cm"].__exit__(E, e, None)
                    if sw: return f"{fr['api']}: an exception of the caller was swallowed"
                except E as x:
                    if x is not e: return f"{fr['api']}: the caller's exception was replaced by {x!r}"
            else: fr["cm"].__exit__(None, None, None)
        except BaseException as x: return f"{fr['api']}: leaving the scope ({how}) raised {type(x).__name__}: {str(x)[:200]}"
        if how == "chdir": os.chdir(home)
        if os.getcwd() != home: return f"{fr['api']}: working directory is {os.getcwd()} after the scope"
        now = listing(*watch)
        if now != fr["before"]: return f"{fr['api']} left {sorted(set(now) ^ set(fr['before']))} behind after its scope ended ({how})"
        return
    api, fault = op["api"], op["fault"]
    r, c = make(f"{case['seed']}/{i}")
    nm = r.choice(["alpha", "w7x.v2", "case_1"]) + str(i)
    obj = V(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in c.items()})
    js = json.loads(obj.to_json())
    if api in ("ctx_classic", "pass_json"):
        p = os.path.join(ind, nm + ".json" if api == "pass_json" or r.random() < .7 else "input." + nm)
        for f in TAB:
            if js.get(f): r.shuffle(js[f]); js[f] += [{"m": 0, "n": n, "value": 0.0} for n in range(-c["ntor"], c["ntor"] + 1) if not any(x["m"] == 0 and x["n"] == n for x in js[f]) and r.random() < .3]
        it = list(js.items()); r.shuffle(it); text = json.dumps(dict(it), indent=r.choice([None, 2]))
        if fault == "badjson": text = text[:len(text) * 2 // 3]
        if fault == "badtype": d = dict(it); d[r.choice(["phiedge", "delt"])] = "not a number"; text = json.dumps(d)
    else:
        p = os.path.join(ind, "input." + nm)
        text = classic_text(r, c) if r.random() < .6 else vmecpp._util.vmecpp_json_to_indata(js)
    open(p, "w").write(text); MINE.add(p)
    if fault == "input_missing": os.unlink(p)
    given = Path(p) if r.random() < .6 else Path(os.path.relpath(p, home))
    before = listing(*watch)
    os.environ["VP_I2J"] = fault; os.environ["VP_I2J_PAD"] = "200000" if fault == "copyout" else "0"
    lim = {"copyin": 10, "copyout": 100000, "write": r.choice([0, 50, 300])}.get(fault)
    if fault == "exe_missing": os.rename(exe, exe + ".gone")
    if fault == "exe_noexec":
        os.chmod(exe, 0o644)          # (as root, access() still refuses a file without any execute bit)
    over = Path(os.path.join(home, "result.json")) if r.random() < .5 else Path("result.json")
    cm = res = None; verdict = "ok"; err = None
    if lim is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
    try:
        if api in ("ctx_json", "pass_json"): cm = vmecpp.ensure_vmecpp_input(given); res = cm.__enter__()
        elif api in ("ctx_classic", "pass_classic"): cm = vmecpp.ensure_vmec2000_input(given); res = cm.__enter__()
        elif api == "from_file": res = V.from_file(given if r.random() < .5 else str(given))
        elif api == "i2j": res = vmecpp._util.indata_to_json(given, output_override=over)
        else: res = vmecpp._util.indata_to_json(given)
    except KeyboardInterrupt: verdict = "interrupt"
    except Exception as e: verdict = "error"; err = e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
        if fault == "exe_missing": os.rename(exe + ".gone", exe)
        if fault == "exe_noexec": os.chmod(exe, 0o755)
    what = f"{api} with fault {fault}"
    if verdict != op["verdict"]: return f"{what}: {verdict} ({type(err).__name__}: {str(err)[:250]}), expected {op['verdict']}"
    if os.getcwd() != home: return f"{what}: working directory is {os.getcwd()} afterwards"
    now = listing(*watch)
    if verdict != "ok":
        cm = None; err = None
        now = listing(*watch)
        if now != before: return f"{what}: left {sorted(set(now) ^ set(before))} behind after {verdict}"
        return
    if api in ("i2j", "i2j_cwd"):
        want = os.path.join(home, "result.json" if api == "i2j" else nm + ".json")
        if str(res) != want: return f"{what}: result is {res}, expected {want}"
        if sorted(set(now) - set(before)) != [want]: return f"{what}: files {sorted(set(now) ^ set(before))} instead of the result alone"
        b = cmp_obj(V.from_file(res), c); os.unlink(want)
        return b and f"{what}: {b}"
    if api == "from_file":
        if now != before: return f"{what}: left {sorted(set(now) ^ set(before))} behind"
        b = cmp_obj(res, c); return b and f"{what}: {b}"
    path = os.path.join(home, str(res))
    def check():
        if api in ("pass_json", "pass_classic"): return None if str(res) == str(given) and open(p).read() == text else "a file already in the wanted format was not passed through"
        if not os.path.isfile(path): return f"{res} does not exist"
        if api == "ctx_json": return cmp_obj(V.from_file(path), c)
        if os.path.basename(path) != "input." + nm: return f"converted file is called {os.path.basename(path)}"
        return cmp_nml(open(path).read(), c)
    b = check()
    if b: return f"{what}: {b}"
    if api.startswith("pass") and now != before: return f"{what}: made {sorted(set(now) ^ set(before))}"
    cms.append({"api": api, "cm": cm, "path": path if not api.startswith("pass") else None, "before": before, "check": check, "given": given})

drv.main(handler)
