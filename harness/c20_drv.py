"""Writes the coils files of spec/coils, reads them with the real reader and compares."""
import importlib.util, math, os, random
import drv
import vmecpp
_s = importlib.util.spec_from_file_location("vx_coils", os.path.join(os.environ["VP_BUILD"], "vx_coils.so"))
vx = importlib.util.module_from_spec(_s); _s.loader.exec_module(vx)
SCR = os.environ["VP_SCRATCH"]
FMT = ["%.17g", "%.16e", "%25.16E", "%+.17g", "%.3f"]

def num(r, v):
    """a spelling of v that reads back as v"""
    for f in r.sample(FMT, len(FMT)):
        t = (f % v).strip()
        if float(t) == v: return t
    return repr(v)

def coord(r):
    k = r.random()
    return round(r.uniform(-9, 9), 3) if k < .3 else r.uniform(-9, 9) if k < .9 else r.choice([0., -0., 1e-12, -3e5, 2.])

def build(case):
    r = random.Random(case["seed"]); out, pts, names, per = [], [], {}, None
    sep = lambda: r.choice([" ", "  ", "\t", " \t "])
    for i, l in enumerate(case["lines"], 1):
        k = l["kind"]
        if k in ("point", "close"):
            x, y, z = coord(r), coord(r), coord(r)
            if i < len(case["lines"]) or True: pts.append((x, y, z))
            f = [num(r, x), num(r, y), num(r, z), num(r, float(l["w"]))]
            if k == "close":
                names[i] = r.choice(["coil", "end", "begin", "mirror", "7", "MOD_" + str(i), "a.b-c"]) + str(i); f += [str(l["id"]), names[i]]
        elif k == "periods": per = r.randrange(1, 12); f = ["periods", str(per)]
        elif k == "comment": f = ["this", "is", "text"][:r.choice([1, 3])]
        elif k == "blank": f = []
        elif k == "begin": f = ["begin filament"]
        elif k == "end": f = ["end"]
        elif k == "mirrornil": f = ["mirror", r.choice(["NIL", "nil", "Nil"])]
        elif k == "mirrornul": f = ["mirror", r.choice(["NUL", "nul"])]
        elif k == "mirrored": f = ["mirror", r.choice(["S", "yes", "0"])]
        elif k == "periodsnone": f = ["periods"]
        elif k == "periodsword": f = ["periods", "five"]
        elif k == "periodstwo": f = ["periods", "5", "6"]
        elif k == "periodsfraction": f = ["periods", "2.5"]
        else:
            g = ["1.0", "2.0", "3.0", "4.0"]
            f = {"five": g + ["1"], "seven": g + ["1", "a", "b"], "three": g[:3], "badx": ["x"] + g[1:], "bady": [g[0], "--"] + g[2:], "badz": g[:2] + ["z3"] + g[3:],
                 "badw": g[:3] + ["w"], "dexponent": ["1.5D+02"] + g[1:], "trailing": g[:2] + ["3.0;"] + g[3:], "badid": g + ["one", "name"], "fractionid": g + ["1.5", "name"]}[k]
            if k in ("badx", "bady", "badz", "badw", "dexponent", "trailing") and r.random() < .5: f = f + ["1", "name"]
        t = f[0] if f else ""
        for w in f[1:]: t += sep() + w
        out.append(r.choice(["", "  ", "\t"]) + t + r.choice(["", " ", "\r"]))
    if case["rest"] == "section": out += ["begin filament", "1 0 2 1 1 c", "end"]
    elif case["rest"] == "close": out += ["1 2 3 0 1 c", "end"]
    elif case["rest"] == "end": out += ["end"]
    text = "\n".join(out) + ("\n" if r.random() < .8 or not out else "")
    return text, pts, names, per

def close(a, b): return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))

def compare(case, conf, pts, names, per, after, shift0):
    nper, circs = conf.show()
    if (nper or None) != per and per is not None: return f"field periods {nper}, file says {per}"
    if len(circs) != len(case["circuits"]): return f"{len(circs)} circuits, expected {len(case['circuits'])}"
    for k, ((cur, coils), e) in enumerate(zip(circs, case["circuits"])):
        c = after["currents"][k]
        if not close(cur, c[0] / c[1]): return f"circuit {e['id']}: current {cur}, expected {c[0]}/{c[1]}"
        if len(coils) != len(e["coils"]): return f"circuit {e['id']}: {len(coils)} coils, expected {len(e['coils'])}"
        for j, ((w, carriers), ec) in enumerate(zip(coils, e["coils"])):
            ew = after["windings"][k][j]
            if not close(w, ew[0] / ew[1]): return f"coil on line {ec['line']}: {w} windings, expected {ew[0]}/{ew[1]}"
            if len(carriers) != 1: return f"coil on line {ec['line']}: {len(carriers)} carriers"
            cc = carriers[0]; P = [pts[p - 1] for p in ec["pts"]]
            if cc[0] == "other" or cc[1] != names[ec["line"]]: return f"coil on line {ec['line']}: carrier {cc[:2]}"
            d = (after["shift"]) * 0.125
            if len(P) == 1:
                if cc[0] != "circle" or not close(cc[2], P[0][0] + d) or tuple(cc[3]) != (0, 0, P[0][2]) or tuple(cc[4]) != (0, 0, 1): return f"circle on line {ec['line']}: {cc}, point {P}"
            else:
                if cc[0] != "polygon" or len(cc[2]) != len(P): return f"filament on line {ec['line']}: {cc[0]} with {len(cc[2])} points, expected {len(P)}"
                for q, (v, p) in enumerate(zip(cc[2], P)):
                    if case["moves"] == 0: ok = tuple(v) == p
                    else:
                        # radial position, angle and height, moved step by step
                        R, phi = math.hypot(p[0], p[1]), math.atan2(p[1], p[0])
                        x, y = p[0], p[1]
                        for s in shift0:
                            rr, ph = math.hypot(x, y), math.atan2(y, x); x, y = (rr + s) * math.cos(ph), (rr + s) * math.sin(ph)
                        ok = abs(v[0] - x) < 1e-8 * max(1, R) and abs(v[1] - y) < 1e-8 * max(1, R) and v[2] == p[2]
                    if not ok: return f"filament on line {ec['line']}: point {q} is {v}, file says {p}"
    return None

def handler(case):
    text, pts, names, per = build(case)
    r = random.Random(case["seed"] + 1); case["moves"] = 0
    try:
        if r.random() < .5: conf = vx.parse(text)
        else:
            p = os.path.join(SCR, f"coils_{os.getpid()}")
            with open(p, "w", newline="") as f: f.write(text)
            conf = vx.read(p)
            vmecpp._vmecpp.MagneticConfiguration.from_file(p)
        got = "read"
    except Exception as e: got = "refused"; err = f"{type(e).__name__} {str(e)[:150]}"
    if got != case["mode"]: return {"bad": f"expected {case['mode']}, got {got} {err if got == 'refused' else ''}\n{text}"}
    if got == "refused": return {"bad": None}
    start = {"currents": [[1, 1]] * len(case["circuits"]), "windings": case["w0"], "shift": 0}
    bad = compare(case, conf, pts, names, per, start, [])
    if bad: return {"bad": f"after reading: {bad}\n{text}"}
    moves = []
    for i, o in enumerate(case["ops"]):
        try:
            if o["op"] == "set": conf.set_currents([float(o["v"] + k + 1) for k in range(len(case["circuits"]))])
            elif o["op"] == "setwrong": conf.set_currents([1.] * (len(case["circuits"]) + o["v"]))
            elif o["op"] == "normalize": conf.normalize()
            elif o["op"] == "move": conf.move(o["v"] * .125); moves.append(o["v"] * .125); case["moves"] += 1
            ok = True
        except Exception as e: ok = False
        if ok != o["ok"]: return {"bad": f"operation {i} {o['op']}: {'accepted' if ok else 'refused'}\n{text}"}
        if not all(close(a, b[0] / b[1]) for a, b in zip(conf.currents(), o["after"]["currents"])): return {"bad": f"operation {i} {o['op']}: currents {conf.currents()}\n{text}"}
        bad = compare(case, conf, pts, names, per, o["after"], moves)
        if bad: return {"bad": f"after operation {i} {o['op']}: {bad}\n{text}"}
    return {"bad": None}

def special(case):
    p = os.path.join(SCR, "special"); os.makedirs(p, exist_ok=True)
    for q in (p, os.path.join(p, "missing")):
        for f in (vx.read, vmecpp._vmecpp.MagneticConfiguration.from_file):
            try: f(q); return {"bad": f"{'a directory' if q == p else 'a missing file'} was read as a coils file"}
            except Exception: pass
    return {"bad": None}

drv.main(lambda c: special(c) if c.get("special") else handler(c))
