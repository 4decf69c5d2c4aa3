"""Solver-control replay: behaviours of spec/solver/SolverControl.tla are generated by TLC and replayed into
  - the C++ solver (Vmec::run with a scripted forward model, harness/ctl_replay.cc) and
  - the Python loops (solve_equilibrium / solve_multigrid on the real VmecModel with the same scripted
    forward model, harness/ctl_pymock.cc).
What the code did (counters, stage parameters, geometry at every evaluation, polls, verdict) is compared with
what the specification prescribes.  Divergences are classified by aspect; each property selects its aspects."""
import concurrent.futures as cf, json, math, os, random
import numpy as np
import vp

GEN = """SPECIFICATION GSpec
CONSTANTS
 GapStore = 10
 GapSlow = 12
 IterSlow = 50
 SlowThr = 82
 Leash852 = 100
 LeashPar = 10000
 LeashRob = 1000
 J1 = 25
 J2 = 50
 J3 = 75
 TauLen = 10
 NsMin = 3
 FsqInit = 8192
 Styles = {%(styles)s}
 Lang = "%(lang)s"
 NsChoices <- %(ns)s
 NiterChoices <- %(niter)s
 Moods = {%(moods)s}
 IntrMode = %(intr)s
 VacOn = %(vac)s
INVARIANTS Emit TypeOK Honest LastStage Budget Bounded EscalatedStep NeverPast75
CHECK_DEADLOCK FALSE
"""
FAMILIES = {
 "general": dict(moods="start descend mixed storm slow parup conv vac", ns="NsB", niter="Hi"),
 "single":  dict(moods="start descend mixed storm leash slow parup conv vac", ns="NsA", niter="Hi"),
 "budget":  dict(moods="start descend mixed slow conv", ns="NsB", niter="Lo"),
 "storm":   dict(moods="storm leash start", ns="NsA", niter="Hi"),
 "end":     dict(moods="start descend end conv nan err", ns="NsB", niter="Hi"),
 "edge":    dict(moods="edge conv descend", ns="NsB", niter="Hi"),
 "early":   dict(moods="early conv", ns="NsB", niter="Hi"),
 "intr":    dict(moods="start descend mixed slow conv", ns="NsB", niter="Hi", intr=True),
}

def generate(families, lang, num, seed, styles=None, tag="gen", timeout=400, ns=None):
    """num behaviours per family; returns (list of behaviours, number of states TLC computed)."""
    jobs = []
    for q, fam in enumerate(families):
        f = FAMILIES[fam]
        st = styles or (["v852", "parvmec"] if lang == "cpp" else ["v852", "parvmec", "robust"])
        moods = [m for m in f["moods"].split() if not (lang == "py" and m == "vac")]
        nsc = ns or ({"py": "NsP", "cpp": "NsC"}[lang] if f["ns"] == "NsB" else f["ns"])
        for part in range(2):
            cfg = GEN % dict(styles=", ".join(f'"{s}"' for s in st), lang=lang, ns=nsc, niter=f["niter"],
                moods=", ".join(f'"{m}"' for m in moods), intr="TRUE" if f.get("intr") else "FALSE", vac="TRUE" if lang == "cpp" else "FALSE")
            jobs.append((fam, cfg, (num + 1) // 2, seed * 1000 + q * 10 + part, f"{tag}-{lang}-{fam}-{part}"))
    out, states = [], 0
    def one(j):
        fam, cfg, n, sd, wd = j
        r = vp.tlc_simulate("solver/SolverGen", cfg, n, 3000, sd, workdir=wd, heap="2g", timeout=timeout)
        return fam, list(r.prints()), r.generated
    with cf.ThreadPoolExecutor(8) as ex:
        for fam, bs, g in ex.map(one, jobs):
            states += g
            for b in bs: b["fam"] = fam; out.append(b)
    return out, states

def scenario(b, i, rng, lang):
    ev = []
    for e in b["log"]:
        if e["t"] != "eval": continue
        def v(x): return ("nan" if (len(ev) % 2 == 0) else "inf") if x == -7 else x
        ev.append([{"ok": "o", "vac": "v", "huge": "h", "bad": "b", "errP": "P", "errI": "I"}[e["k"]], v(e["r"]), v(e["z"]), v(e["l"]), e["f"], e["poll"]])
    return {"id": i, "cfg": b["cfg"], "threads": rng.choice([1, 1, 2, 3, 4]) if lang == "cpp" else 1, "lasym": rng.random() < 0.3, "ntor": rng.choice([0, 1]),
            "delt": rng.choice([0.5, 0.75, 1.0]), "evals": ev}

def run_cpp(scs, wd, bdir, timeout=300):
    """Returns {id: observation}; a scenario the process died or hung on maps to {"crash": ...}."""
    os.makedirs(wd, exist_ok=True)
    obs, todo, part = {}, list(scs), 0
    while todo:
        part += 1
        a, o, x = (os.path.join(wd, f"s{part}.{e}") for e in ("in", "out", "bin"))
        open(a, "w").write("".join(json.dumps(s) + "\n" for s in todo))
        env = dict(os.environ, OMP_WAIT_POLICY="passive")
        rc, out = vp.sh([os.path.join(bdir, "ctl_replay"), a, o, x], timeout=timeout, env=env)
        lines = [json.loads(l) for l in open(o)] if os.path.exists(o) else []
        pool = np.fromfile(x) if os.path.exists(x) else np.zeros(0)
        for l in lines: l["pool"] = pool; obs[l["id"]] = l
        if rc == 0: break
        bad = todo[len(lines)]
        obs[bad["id"]] = {"crash": f"exit {rc}: {out[-300:]}"}
        todo = todo[len(lines) + 1:]
        if sum("crash" in v for v in obs.values()) > 4: break
    return obs

def run_py(scs, wd, bdir, timeout=400):
    os.makedirs(wd, exist_ok=True)
    obs, todo, part = {}, list(scs), 0
    while todo:
        part += 1
        a, o, x = (os.path.join(wd, f"p{part}.{e}") for e in ("in", "out", "bin"))
        open(a, "w").write("".join(json.dumps(s) + "\n" for s in todo))
        env = dict(os.environ, VP_BUILD=os.path.join(bdir, "mock"), VMECPP_REPO=vp.REPO)
        rc, out = vp.sh([vp.VENV_PY, os.path.join(vp.ROOT, "harness", "ctl_py.py"), a, o, x], timeout=timeout, env=env)
        lines = [json.loads(l) for l in open(o)] if os.path.exists(o) else []
        pool = np.fromfile(x) if os.path.exists(x) else np.zeros(0)
        for l in lines: l["pool"] = pool; obs[l["id"]] = l
        if rc == 0: break
        if part == 1 and not lines: raise vp.CheckError("Python replay did not start: " + out[-1500:])
        bad = todo[len(lines)]
        obs[bad["id"]] = {"crash": f"exit {rc}: {out[-300:]}"}
        todo = todo[len(lines) + 1:]
        if sum("crash" in v for v in obs.values()) > 4: break
    return obs

STATUS = {"normal": 0, "badjac": None, "success": None}

class Sim:
    """Geometry semantics of the specification's operations T/S/R/I/V (IEEE doubles, compared with a tolerance)."""
    def __init__(s, sc): s.delt = sc["delt"]; s.sc = sc

def expected_dt(d, delt):
    return d[0] / 100 * delt * 0.9 ** d[1] / 1.03 ** d[2]

def force(k, ns, mn, active):
    q = np.arange(12)[:, None, None]; j = np.arange(ns)[None, :, None]; i = np.arange(mn)[None, None, :]
    f = (((k * 31 + q * 7 + j * 3 + i) % 11) - 5) / 64.0
    f[:, ns - 1, :] = 0.0
    return np.where(active[:, None, None], f, np.nan)

def interp(x, ns_old, ns_new, mpol, nt):
    """linear interpolation in s of the physical coefficients, odd m extrapolated to and zeroed on the axis"""
    def scal(ns):
        s = np.arange(ns) / (ns - 1.0)
        return 1.0 / np.maximum(np.sqrt(s), math.sqrt(s[1]))
    m = (np.arange(x.shape[2]) // nt) % 2 == 1
    so, sn = np.ones((ns_old, x.shape[2])), np.ones((ns_new, x.shape[2]))
    so[:, m] = scal(ns_old)[:, None]; sn[:, m] = scal(ns_new)[:, None]
    p = x * so[None]
    p[:, 0, m] = 2 * p[:, 1, m] - p[:, 2, m]
    out = np.empty((12, ns_new, x.shape[2]))
    for j in range(ns_new):
        a = j * (ns_old - 1) // (ns_new - 1); b = min(a + 1, ns_old - 1)
        w = min(1.0, max(0.0, j * (ns_old - 1) / (ns_new - 1.0) - a))
        out[:, j] = (1 - w) * p[:, a] + w * p[:, b]
    out /= sn[None]
    out[:, 0, m] = 0.0
    return out

def compare(b, sc, ob, lang, ref):
    """-> list of (aspect, text).  aspects: crash verdict count stage counters geometry rollback step output poll snapshot result"""
    D = []
    def d(a, t):
        if sum(1 for x in D if x[0] == a) < 2: D.append((a, t))
    if "crash" in ob: return [("crash", "the solver crashed or hung on a scripted scenario: " + ob["crash"])]
    if "exc" in ob and lang == "cpp": return [("crash", "exception: " + ob["exc"])]
    log = b["log"]; evs = [e for e in log if e["t"] == "eval"]; end = [e for e in log if e["t"] == "end"][-1]
    nt = sc["ntor"] + 1; mn = 3 * nt
    got = ob["evals"]
    ngot = len(got)
    if ob.get("extra"): ngot -= 1
    if ob.get("extra"): d("count", f"an evaluation more than the {len(evs)} the specification allows")
    elif ngot != len(evs): d("count", f"{ngot} force evaluations, specification: {len(evs)}")
    # ---- verdict
    if lang == "cpp":
        want = {"converged": (0,), "unconverged-output": (0,), "cancelled": (1,), "notconverged": (13,), "refused": (3,), "failed": (2, 13, 9)}[end["verdict"]]
        if ob.get("extra"): pass
        elif ob["code"] not in want: d("verdict", f"verdict {end['verdict']} expected, run returned status code {ob['code']} ({ob['msg'][:80]!r})")
        outw = end["verdict"] in ("converged", "unconverged-output")
        if not ob.get("extra") and ob["output"] != outw: d("verdict", f"output {'produced' if ob['output'] else 'missing'} for verdict {end['verdict']}")
        if outw and ob["output"]:
            conv = ob["out_status"] == 11
            if conv != (end["verdict"] == "converged"): d("verdict", f"output recorded with status {ob['out_status']} for verdict {end['verdict']}")
    else:
        r = ob["results"]
        st = end["status"]
        if st in ("error",) or (st == "unrec"):
            if not ob.get("raised"): d("verdict", "error of the forward model was swallowed")
        elif ob.get("raised"): 
            if not ob.get("extra"): d("verdict", f"unexpected exception {ob['raised'][:200]}")
        elif not r: d("verdict", "no stage result")
        else:
            w = (st == "success", st in ("badjac", "jac75"))
            if (r[-1]["converged"], r[-1]["failed"]) != w: d("verdict", f"last result converged/failed = {(r[-1]['converged'], r[-1]['failed'])}, specification {w}")
    # ---- walk
    k = 0; x = v = bk = None; ns_prev = 0; xid = bid = vid = -1; nid = 0; seen = {}; frc = None; lastinv = {}
    stage = None; stage_no = 0; stepped = 0; polls = {}
    for p, r in ob["polls"]: polls.setdefault(p, []).append(r)
    delt = sc["delt"]; f1 = 8192.0; tau = {}; cbs = iter(ob.get("snaps", [])) ; per = []
    first_reguess_done = False
    exp_obs = None
    synced = True; entry = -1
    for e in log:
        if e["t"] == "stage":
            stage = e; stage_no += 1; ns = e["ns"]; nreg = 0; stepped = 0; per.append({"steps": 0, "nr": 0, "ng": 0})
            if e["how"] == "init": xid = bid = -1; x = None; v = None
            elif e["how"] == "interp":
                pred = interp(x, ns_prev, ns, 3, nt) if x is not None else None
                x = ("pred", pred); v = None
            ns_prev = ns; f1 = 8192.0
            continue
        if e["t"] == "end": break
        if k >= ngot: break
        i1, i2, gns, gniter, gftol, off, ln, ov = got[k]
        k += 1
        if gns != stage["ns"]: d("stage", f"evaluation {k} on grid {gns}, specification: entry {stage['j']} (ns={stage['ns']})"); break
        j = stage["j"] - 1
        if gftol != b["cfg"]["ftol"][j] or gniter != b["cfg"]["niter"][j]:
            d("stage", f"evaluation {k} at ns={gns} uses tolerance {gftol}/budget {gniter}, specification: {b['cfg']['ftol'][j]}/{b['cfg']['niter'][j]}")
        if (i1, i2) != (e["i1"], e["i2"]): d("counters", f"evaluation {k}: counters iter1={i1} iter2={i2}, specification: {e['i1']}, {e['i2']}")
        if ov: d("geometry", f"evaluation {k}: {ov} values differ between the overlapping rows of neighbouring workers")
        obx = ob["pool"][off:off + ln].reshape(12, gns, mn)
        active = ~np.isnan(obx[:, 0, 0])
        if x is None or (isinstance(x, tuple) and x[0] == "pred"):
            if isinstance(x, tuple) and x[1] is not None and not np.allclose(np.where(active[:, None, None], x[1], 0), np.nan_to_num(obx), rtol=1e-10, atol=1e-12):
                q, jj, ii = np.argwhere(np.abs(np.nan_to_num(obx) - np.where(active[:, None, None], x[1], 0)) > 1e-10)[0]
                d("stage", f"first evaluation at ns={gns}: geometry is not the previous stage's geometry interpolated to the new grid (component {q}, surface {jj}, mode {ii}: {obx[q,jj,ii]!r} vs {x[1][q,jj,ii]!r})")
            if x is None:
                key = (gns, sc["lasym"], sc["ntor"], "init")
                if key in ref and not np.allclose(ref[key], np.nan_to_num(obx), rtol=1e-12, atol=1e-13): d("stage", f"initial geometry at ns={gns} differs between runs of the same problem")
                ref.setdefault(key, np.nan_to_num(obx))
            x = obx.copy(); v = np.zeros_like(x); bk = x.copy(); nid += 1; xid = bid = nid; vz = True; entry = nid if stage["how"] == "interp" else -1
        elif isinstance(x, str):   # re-initialised after an axis re-guess
            key = (gns, sc["lasym"], sc["ntor"], "reguess")
            if stage_no == 1:
                if key in ref and not np.allclose(ref[key], np.nan_to_num(obx), rtol=1e-12, atol=1e-13): d("reguess", f"evaluation {k}: geometry after the axis re-guess is not the re-initialised one")
                ref.setdefault(key, np.nan_to_num(obx))
                ikey = (gns, sc["lasym"], sc["ntor"], "init")
                if ikey in ref and not np.allclose(ref[ikey][:, gns - 1], np.nan_to_num(obx)[:, gns - 1], rtol=1e-12, atol=1e-13):
                    d("reguess", f"evaluation {k}: boundary changed by the axis re-guess")
            x = obx.copy(); v = np.zeros_like(x); bk = x.copy()
        else:
            if xid in seen:
                if not np.array_equal(np.nan_to_num(seen[xid]), np.nan_to_num(obx)):
                    if xid == entry: d("stagebk", f"evaluation {k}: the first roll-back of the stage at ns={gns} does not return bit-for-bit to the interpolated geometry the stage started from")
                    d("rollback", f"evaluation {k}: geometry is not bit-for-bit the checkpoint it must have been rolled back to")
            if not np.allclose(np.nan_to_num(x), np.nan_to_num(obx), rtol=1e-9, atol=1e-10):
                w = np.argwhere(~np.isclose(np.nan_to_num(x), np.nan_to_num(obx), rtol=1e-9, atol=1e-10))[0]
                if lastop_rollback and xid == entry: d("stagebk", f"evaluation {k}: the first roll-back of the stage at ns={gns} does not return to the interpolated geometry the stage started from")
                asp = "rollback" if lastop_rollback else ("step2" if after_escal else "step")
                d(asp, f"evaluation {k}: geometry differs from the specification's (component {w[0]}, surface {w[1]}, mode {w[2]}): {obx[tuple(w)]!r}, expected {x[tuple(w)]!r}")
            x = obx.copy()       # resynchronise (identities stay)
        seen[xid] = obx.copy()
        dt = expected_dt(e["dt"], delt)
        if e["k"] not in ("bad",): frc = force(k, gns, mn, active)
        cur1 = e["f"] if e["k"] != "bad" else lastinv.get("f", 8192.0)
        lastop_rollback = False; after_escal = False
        t = e["x"] if isinstance(e["x"], dict) else {}
        for op in e["ops"]:
            if op == "V": x = bk.copy(); v = np.zeros_like(x); xid = bid
            elif op == "T":
                ratio = f1
                tau[k] = (0.0 if cur1 == 0 else min(abs(math.log(cur1 / f1)), 0.15)) / dt
                tau[-k] = 0.15 / dt
                f1 = cur1
                ot = sum(tau[q] for q in t["tau"]) / 10
                dta = dt * ot / 2
                v = (1 / (1 + dta)) * ((1 - dta) * v + dt * (frc if frc is not None else 0)); x = x + dt * v
                nid += 1; xid = nid; per[-1]["steps"] += 1
            elif op == "S": bk = x.copy(); bid = xid
            elif op == "R": x = bk.copy(); v = np.zeros_like(x); xid = bid; lastop_rollback = True
            elif op == "I": x = "reinit"; nid += 1; xid = bid = nid
        if isinstance(t, dict) and t.get("ij", 0) >= 25: after_escal = True
        if "nr" in t: per[-1].update(nr=t["nr"], ng=t["ng"])
        lastinv["f"] = cur1
        # ---- polls
        if lang == "cpp":
            gp = polls.get(k, [])
            jac75 = end["status"] == "jac75" and e is evs[-1]
            if not jac75 and len(gp) != (1 if e["poll"] else 0): d("poll", f"evaluation {k} (iteration {i2}): {len(gp)} interrupt polls, specification: {1 if e['poll'] else 0}")
        elif "saved" in t:  # snapshot expected
            s = next(cbs, None)
            if s is None: d("snapshot", f"no callback snapshot for evaluation {k}")
            else:
                w = dict(iter1=t["i1"], iter2=e["i2"], ijacob=t["ij"], n_restarts=t["nr"], n_reguesses=t["ng"], restarted=t["restarted"], saved_backup=t["saved"], iteration=per[-1]["steps"])
                for kk, vv in w.items():
                    if s[kk] != vv: d("snapshot", f"evaluation {k}: snapshot {kk}={s[kk]}, specification {vv}")
                fl = dict(delt=expected_dt(t["dt"], delt), res0=t["res0"] / 8192)
                if b["cfg"]["style"] != "v852": fl["res1"] = t["res1"] / 8192
                fl["otav"] = sum(tau[q] for q in t["tau"]) / 10
                fl["dtau"] = dt * fl["otav"] / 2
                for kk, vv in fl.items():
                    if not math.isclose(s[kk], vv, rel_tol=1e-9, abs_tol=1e-300): d("snapshot", f"evaluation {k}: snapshot {kk}={s[kk]!r}, specification {vv!r}")
                if e["k"] != "bad":
                    for kk, vv in dict(fsqr=e["r"], fsqz=e["z"], fsql=e["l"], fsq_preconditioned=e["f"]).items():
                        if not math.isclose(s[kk], vv / 8192, rel_tol=1e-12): d("snapshot", f"evaluation {k}: snapshot {kk}={s[kk]!r}, scripted {vv/8192!r}")
    if lang == "cpp" and ob["output"] and end["verdict"] == "converged" and not D and x is not None and not isinstance(x, str):
        n = evs and got[-1][2]
        off, ln = ob["out_off"], got[-1][6]
        ox = ob["pool"][off:off + ln].reshape(12, n, mn)
        lx = seen[xid] if xid in seen else x
        if not np.array_equal(np.nan_to_num(ox), np.nan_to_num(lx)): d("output", "the output is computed from a geometry other than the one whose residuals passed the convergence test")
    if lang == "cpp" and ob["polls"] and max(p for p, _ in ob["polls"]) > ngot: d("poll", "polled after the last evaluation of the specification")
    if lang == "py" and not ob.get("raised") and not ob.get("extra"):
        r = ob["results"]
        if len(r) != len(per): d("stage", f"{len(r)} stages solved, specification: {len(per)}")
        for q, (a, w) in enumerate(zip(r, per)):
            for kk, vv in dict(num_iterations=w["steps"], restarts=w["nr"], axis_reguesses=w["ng"], style={"v852": "vmec_8_52"}.get(b["cfg"]["style"], b["cfg"]["style"])).items():
                if a[kk] != vv: d("result", f"stage {q+1}: result {kk}={a[kk]}, specification {vv}")
    return D

def campaign(c, lang, families, num, aspects, styles=None, ns=None, label=""):
    """Generate, replay, compare; report divergences of the given aspects (confirmed by a second replay)."""
    bdir = vp.CPPBUILD
    behs, states = generate(families, lang, num, c.seed, styles=styles, tag=c.pid, ns=ns)
    c.cov["states"] += states; c.cov["transitions"] += states
    rng = random.Random(c.seed * 7 + len(behs))
    scs = [scenario(b, i, rng, lang) for i, b in enumerate(behs)]
    runner = run_cpp if lang == "cpp" else run_py
    wd = os.path.join(vp.BUILDROOT, "work", f"{c.pid}-{lang}-replay")
    chunks = [scs[i::8] for i in range(8)] if lang == "cpp" else [scs[i::6] for i in range(6)]
    obs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for o in ex.map(lambda z: runner(z[1], os.path.join(wd, str(z[0])), bdir), enumerate(ch for ch in chunks if ch)): obs.update(o)
    ref, other = {}, {}
    nev = 0
    for i, b in enumerate(behs):
        if i not in obs: continue
        nev += len(obs[i].get("evals", []))
        D = compare(b, scs[i], obs[i], lang, ref)
        c.traces()
        hit = [x for x in D if x[0] in aspects or x[0] == "crash"]
        for a, t in D: other[a] = other.get(a, 0) + 1
        if hit:
            again = runner([scs[i]], os.path.join(wd, "again"), bdir)
            D2 = compare(b, scs[i], again[i], lang, {})
            if {x[0] for x in D2} & {x[0] for x in hit} or (hit[0][0] in ("stage", "reguess") and hit):
                c.violation(f"[{lang} {b['fam']} style={b['cfg']['style']} threads={scs[i]['threads']}] {hit[0][0]}: {hit[0][1]}", {"scenario": scs[i], "behaviour": b, "divergences": D})
    if behs:
        b = behs[0]; c.sample({"family": b["fam"], "lang": lang, "cfg": b["cfg"], "evaluations": sum(e["t"] == "eval" for e in b["log"]), "end": b["log"][-1]})
    c.note(f"{lang}_behaviours{label}", len(behs)); c.note(f"{lang}_force_evaluations_replayed{label}", nev)
    if other: c.note(f"{lang}_divergences_by_aspect{label}", other)
    return behs
