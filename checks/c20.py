"""C20: coils files of spec/coils written, read with the real reader and worked on."""
import random, vp
def run(c):
    mc = open(vp.ROOT + "/spec/coils/MC.cfg").read()
    with vp.background(lambda: vp.build("_vmecpp", "vx_coils")):
        c.model(vp.tlc_check("coils/Coils", mc.replace("MaxLines = 6", "MaxLines = 8") if c.thorough else mc, workdir=c.pid + "-mc"))
        gen = (mc.replace("SPECIFICATION Spec", "SPECIFICATION GSpec").replace("MaxLines = 6", "MaxLines = 22").replace("MaxOps = 2", "MaxOps = 4").replace("WSmall", "WLarge")
               .replace("IdsSmall", "IdsLarge").replace("Gen = FALSE", "Gen = TRUE").replace("PROPERTIES AmpereTurns Terminates\n", "").replace("ReadOnlyIfEnded", "ReadOnlyIfEnded Emit"))
        r = vp.tlc_simulate("coils/Coils", gen, 20000 if c.thorough else 1500, 40, c.seed, workdir=c.pid + "-gen")
    c.model(r)
    rng = random.Random(c.seed); cases = []
    for b in {repr(x): x for x in r.prints()}.values():
        b["w0"] = [[[first_w(b["lines"], co["line"]), 1] for co in ci["coils"]] for ci in b["circuits"]]
        cases.append({**b, "seed": rng.randrange(10**9)})
    cases.append({"special": True})
    for i, k in enumerate(cases): k["id"] = i
    obs = vp.drive("c20_drv.py", cases, c.pid + "-drv", jobs=8, timeout=700)
    read = 0
    for k in cases:
        o = obs.get(k["id"])
        if o is None: continue
        c.traces()
        if "crash" in o: c.violation("the reader crashed: " + o["crash"][-300:], {"case": k, "observed": o}); continue
        read += k.get("mode") == "read"
        if o["bad"]: c.violation(o["bad"], {"case": k, "observed": o})
    c.note("files", len(cases)); c.note("well_formed", read)
    for k in cases[:2]: c.sample([x["kind"] for x in k.get("lines", [])])
def first_w(lines, close):
    """windings on the first line of the filament closed at line `close`"""
    l = close - 1
    while l > 0 and lines[l - 1]["kind"] in ("point", "mirrornil", "mirrornul"): l -= 1
    return next(x["w"] for x in lines[l:] if x["kind"] in ("point", "close"))
