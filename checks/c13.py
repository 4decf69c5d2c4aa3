"""C13: attempts of spec/inputs replayed on the real entry points."""
import vp
FINDING = {"pmass": "profile-name-pmass", "piota": "profile-name-piota", "pcurr": "profile-name-pcurr"}
def run(c):
    mc = open(vp.ROOT + "/spec/inputs/MC.cfg").read()
    with vp.background(lambda: vp.build("_vmecpp")):
        r = vp.tlc_check("inputs/Inputs", mc, workdir=c.pid + "-mc")
        c.model(r)
        if c.thorough:      # no stage of the pipeline is redundant in the specification
            for b in ("open", "parse", "types", "sizes", "consistency", "table", "resources"):
                q = vp.tlc("inputs/Inputs", mc.replace('"nothing"', f'"{b}"').replace("Printing = TRUE", "Printing = FALSE").replace("PROPERTIES Answered\n", ""), workdir=f"{c.pid}-mut-{b}")
                if "NeverSilent is violated" not in q.out: raise RuntimeError(f"the specification does not notice a missing stage {b}")
            r = vp.tlc_check("inputs/Inputs", mc.replace("MaxEdits = 1", "MaxEdits = 2").replace("PROPERTIES Answered\n", ""), workdir=c.pid + "-mc2", timeout=900)
            c.model(r)
        s = vp.tlc_simulate("inputs/Inputs", mc.replace("MaxEdits = 1", "MaxEdits = 3").replace("MaxAttempts = 1", "MaxAttempts = 6").replace("PROPERTIES Answered\n", ""),
                            6000 if c.thorough else 250, 120, c.seed, workdir=c.pid + "-sim")
        c.model(s)
    cases = list({repr(b): {"attempts": b} for b in [*r.prints(), *s.prints()]}.values())
    for i, k in enumerate(cases): k["id"] = i
    obs = vp.drive("c13_drv.py", cases, c.pid + "-drv", jobs=8, timeout=800)
    n = 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("the process died: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        for a, g in zip(k["attempts"], o["got"]):
            n += 1
            if a["verdict"] == g[0]: continue
            base_defects = sorted(a["defects"])
            key = FINDING[base_defects[0]] if g[0] == "solved" and base_defects and set(base_defects) <= set(FINDING) else None
            what = f"{a['entry']} entry, {a['base']} input, defects {base_defects}: expected {a['verdict']}, got {g[0]} {g[1]}"
            rep = {"attempt": a, "observed": g, "session": k}
            if key: rep["key"] = key
            c.violation(what, rep)
    c.note("attempts", n)
    for k in cases[:2]: c.sample(k["attempts"][0])
