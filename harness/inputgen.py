"""Random inputs with known content, and comparison of a representation with that content."""
import json, random
import numpy as np
B2, A1 = ("rbc", "zbs"), ("raxis_c", "zaxis_s")
B2A, A1A = ("rbs", "zbc"), ("raxis_s", "zaxis_c")

def num(r):
    k = r.random()
    if k < .1: return float(r.randrange(-5, 6))
    if k < .2: return r.uniform(-1, 1) * 10.0 ** r.randrange(-290, 290)
    return r.uniform(-10, 10)
def pos(r): return abs(num(r)) or 1.5
def vec(r, n): return np.array([num(r) for _ in range(n)], dtype=float)
def table(r, mp, nt):
    t = np.array([[num(r) if r.random() < 0.6 else 0.0 for _ in range(2 * nt + 1)] for _ in range(mp)])
    if r.random() < 0.2: t[:] = 0.0                          # a table may well be entirely zero
    return t

def content(seed, lasym, mp, nt):
    r = random.Random(seed); n = r.randrange(1, 4); ncurr = r.randrange(2); lfreeb = r.random() < 0.5
    aux = {x: r.choice([0, 0, 2, 5]) for x in ("am", "ai", "ac")}
    c = dict(lasym=lasym, nfp=r.randrange(1, 9), mpol=mp, ntor=nt, mpol_geometry=r.choice([-1, 2, mp]), ntor_geometry=r.choice([-1, 0, nt]),
        ntheta=r.choice([0, 2 * mp + 6, 17]), nzeta=r.choice([0, 2 * nt + 4]), ns_array=np.array(sorted(r.randrange(3, 99) for _ in range(n))),
        ftol_array=np.array([r.choice([0.0, 10.0 ** -r.randrange(3, 20), 1.2345e-7]) for _ in range(n)]), niter_array=np.array([r.randrange(1, 10**6) for _ in range(n)]),
        phiedge=num(r) or 1.0, ncurr=ncurr, pmass_type=r.choice(["power_series", "gauss_trunc", "cubic_spline", "line_segment"]), pres_scale=pos(r),
        gamma=r.choice([0.0, 5 / 3]), spres_ped=r.uniform(0.01, 1), piota_type=r.choice(["power_series", "line_segment", "sum_atan"]),
        pcurr_type=r.choice(["power_series", "power_series_i", "two_power"]), curtor=num(r), bloat=1.0 if ncurr == 0 else r.uniform(0.5, 2), lfreeb=lfreeb,
        mgrid_file=r.choice(["NONE", "mgrid_a.nc", "/some dir/with \"quotes\" and 'ticks'.nc", "mgrid_\u00e9\u00fc.nc", "x" * 200]), extcur=vec(r, r.choice([0, 1, 7])),
        nvacskip=r.randrange(1, 9), free_boundary_method=r.choice(["nestor", "only_coils"] + ([] if lfreeb else ["biest"])), iteration_style=r.choice(["vmec_8_52", "parvmec"]),
        nstep=r.randrange(1, 500), aphi=vec(r, r.choice([1, 3])), delt=r.uniform(0.01, 1), tcon0=r.uniform(0, 1), lforbal=r.random() < .5,
        return_outputs_even_if_not_converged=r.random() < .5)
    for x in ("am", "ai", "ac"): c[x] = vec(r, r.choice([0, 1, 21])); c[x + "_aux_s"] = np.sort(np.abs(vec(r, aux[x]))); c[x + "_aux_f"] = vec(r, aux[x])
    for f in B2 + (B2A if lasym else ()): c[f] = table(r, mp, nt)
    for f in A1 + (A1A if lasym else ()): c[f] = vec(r, nt + 1)
    if not lasym:
        for f in B2A + A1A: c[f] = None
    return c

def same(a, b):
    if a is None or b is None: return a is None and b is None
    if hasattr(a, "name") and not isinstance(a, str): a = a.name.lower()
    if hasattr(a, "value"): a = a.value
    if isinstance(b, str): return str(a) == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))

def compare_object(o, c, sched):
    for f, want in c.items():
        if f in ("mpol", "ntor") and sched is not None: want = sched[f]
        got = getattr(o, f)
        if not same(got, want): return f"{f} is {got!r}, expected {want!r}"[:400]

def compare_text(t, c, sched):
    d = json.loads(t) if isinstance(t, str) else t
    for f, want in c.items():
        if f in ("mpol", "ntor") and sched is not None: want = sched[f]
        got = d.get(f)
        if f in B2 + B2A and want is not None and not isinstance(got, np.ndarray):
            if got is None: return f"{f} is missing"
            g = {}
            for e in got:
                if e["value"] != 0: g[e["m"], e["n"]] = e["value"]
            w = {(m, n - c["ntor"]): float(want[m, n]) for m, n in np.argwhere(want != 0)} if want is not None else {}
            if g != w: return f"{f} lists {list(set(g.items()) ^ set(w.items()))[:4]} differently"
        elif not same(got, want): return f"{f} is {got!r}, expected {want!r}"[:400]
