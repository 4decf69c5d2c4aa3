"""C18: saving is all-or-nothing (spec/save: protocol refines AtomicSave; recorded saves validated against AtomicSave)."""
import errno, os, random, vp
def run(c):
    def prep():
        vp.build("_vmecpp")
        so = os.path.join(vp.BUILDROOT, "faultfs.so")
        rc, out = vp.sh(["gcc", "-w", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(vp.ROOT, "harness/faultfs.c"), "-ldl"])
        if rc: raise vp.CheckError("faultfs.c: " + out[-500:])
    with vp.background(prep):
        cfg = open(vp.ROOT + "/spec/save/MC.cfg").read()
        if c.thorough: cfg = cfg.replace("{s1, s2}", "{s1, s2, s3}").replace("Pieces = 3", "Pieces = 4").replace("MaxFaults = 2", "MaxFaults = 3")
        for ini in ('"old"', '"none"'):
            c.model(vp.tlc_check("save/Save", cfg.replace('"old"', ini), workdir=c.pid + "-mc"))
    rng = random.Random(c.seed); cases = []
    def add(**k): cases.append({"id": len(cases), **k})
    for asym in (False, True):
        for x in ("cube", "object", "nonascii", "noparent", "h5", "dirdest", "none"):
            for ini in (True, False):
                if x == "dirdest" and ini: continue
                add(kind="api", exc="run", extra=x, at=0, init=ini, asym=asym)
        for ini in (True, False):
            add(kind="os", mode=0, at=None, init=ini, asym=asym)
            add(kind="race", at=None, init=ini, asym=asym)
            ks = [-float(i) for i in range(1, 13)] + [i / 400 for i in range(12)]
            ks += [rng.random() for _ in range(400 if c.thorough else 26)]
            for mode in (1, 2, 3):
                for at in ks: add(kind="os", mode=mode, at=at, init=ini, asym=asym, errno=rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES, errno.EDQUOT]))
            ka = [-float(i) for i in range(1, 5)] + [0.0, 0.003] + [rng.random() for _ in range(200 if c.thorough else 10)]
            for at in ka:
                add(kind="api", exc=rng.choice(["kbd", "mem", "run"]), at=at, init=ini, asym=asym)
                add(kind="race", at=at, init=ini, asym=asym)
    obs = vp.drive("c18_drv.py", cases, c.pid + "-drv", jobs=8, env={"LD_PRELOAD": os.path.join(vp.BUILDROOT, "faultfs.so")}, timeout=700)
    recs, keep = [], []
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        if "crash" in o: c.violation("saving crashed the process: " + o["crash"][:300], {"case": k, "observed": o}); continue
        if not o["shim"]: raise vp.CheckError("the fault injection shim was not loaded")
        ev = [[str(x) for x in e] for e in o["events"]]
        recs.append({"initial": o["initial"], "events": ev}); keep.append((k, o))
        c.traces()
    r = vp.tlc("save/SaveTrace", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", workdir=c.pid + "-val",
               files=[("trace.ndjson", "".join(__import__("json").dumps(x) + "\n" for x in recs))])
    if not r.ok: raise vp.CheckError("trace validation: " + r.out[-2000:])
    c.model(r)
    acc = set(r.prints("@@ACC"))
    verd = {}
    for i, (k, o) in enumerate(keep, 1):
        v = [e[2] for e in o["events"] if e[0] == "end" and e[1] == "new"][-1]; verd[v] = verd.get(v, 0) + 1
        if i not in acc or o["bad_seen"]:
            c.violation(f"save under {k['kind']} fault {k.get('extra') or k.get('exc') or k.get('mode')} at call {o['k']} of {o['n']} (destination {'present' if k['init'] else 'absent'}): "
                        f"observed {o['events']}, files left {o['left']}, {o['exc']}; not a behaviour of AtomicSave", {"case": k, "observed": o})
    c.note("saves_by_verdict", verd); c.sample(recs[0]); c.sample(recs[-1])
