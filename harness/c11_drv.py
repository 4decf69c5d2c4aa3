"""Replays behaviours of spec/model/Model.tla on real model objects."""
import numpy as np
import drv
import vmecpp
from vmecpp.cpp import _vmecpp
ent = lambda l: [{"m": m, "n": n, "value": v} for m, n, v in l]
STEPS = ((1., .5, 1e-3), (.7, .3, .02), (1., 0., .01), (.5, 1., 1e-4)); SCHEMES = (None, "LINEAR", "CUBIC")
RES = ("fsqr", "fsqz", "fsql", "mhd_energy"); RES1 = ("fsqr1", "fsqz1", "fsql1")
def problem(c):
    nt = c["ntor"]; k = dict(mpol=c["mpol"], ntor=nt, nfp=2 if nt else 1, lasym=c["lasym"], ns_array=[c["ns"]], niter_array=[25], ftol_array=[1e-12], nstep=100, delt=.5, iteration_style=c["style"], lforbal=c["lforbal"],
        raxis_c=[4.] + [0.] * nt, zaxis_s=[0.] * (nt + 1), pres_scale=c["pres"], tcon0=c["tcon0"], phiedge=c["phiedge"], rbc=ent([(0, 0, 4.), (1, 0, 1.), (2, 0, .02)] + ([(1, 1, .05)] if nt else [])), zbs=ent([(1, 0, 1.2)] + ([(1, 1, -.04)] if nt else [])))
    if c["ncurr"]: k.update(ncurr=1, ac=np.array([1., -1.]), curtor=1e4, pcurr_type="power_series")
    if c["lasym"]: k.update(rbs=ent([(2, 0, .03)]), zbc=ent([(2, 0, .02)]), raxis_s=np.zeros(nt + 1), zaxis_c=np.zeros(nt + 1))
    return drv.solovev(**k)._to_cpp_vmecindata()
class Bad(Exception): pass
def same(a, b): return a.shape == b.shape and a.tobytes() == b.tobytes()
class Replay:
    def __init__(s, c):
        s.c, s.ind, s.axes, s.V, s.X, s.memo = c, problem(c), [], {}, {}, {}; s.seen = {}
        s.m = s.fresh(c["ns"]); s.defs = c["defs"]; s.rng = np.random.default_rng(c["seed"]); s.count = 0; s.X[1] = s.m.get_state()
    def fresh(s, ns): return _vmecpp.VmecModel.create(s.ind, int(ns), None)
    def one(s, key, make):
        if key not in s.memo: s.memo[key] = make()
        return s.memo[key]
    def tick(s, k): s.seen[k] = s.seen.get(k, 0) + 1
    # ---- what the specification's names stand for
    def guess(s, ns):
        m = s.fresh(s.axes[0] if s.axes else ns)
        for a in s.axes:
            if m.ns < a: m.refine_to(a)
            m.recompute_axis()
        if m.ns < ns: m.refine_to(ns)
        m.reset_to_initial_guess(); return m.get_state()
    def given(s, i, ns):
        x = s.one(("base", ns), lambda: s.fresh(ns).get_state()).copy(); g = np.random.default_rng([i, ns, s.c["seed"]])
        if i == 0: return x
        if i == 4: return -x                                       # turned inside out: the Jacobian changes sign
        if i == 6: x[:2 * len(x) // 3] = 0.; return x               # no geometry at all
        if i == 7: x[::3] = -0.; x[1::3] = 5e-324; return x         # numbers whose bits matter
        return x + 1e-3 * i * g.standard_normal(len(x)) * (np.abs(x) > 0) + 1e-6 * g.standard_normal(len(x))
    def value(s, i):
        if i in s.X: return s.X[i]
        d = s.defs[i - 1]
        if d["k"] == "given": s.X[i] = s.given(d["a"], d["ns"])
        elif d["k"] == "guess": s.X[i] = s.guess(d["ns"])
        elif d["k"] == "refine":
            src = s.defs[d["a"] - 1]; m = s.fresh(src["ns"]); m.set_state(s.value(d["a"])); s.refine(m, d["ns"], d["c"]); s.X[i] = m.get_state()
        return s.X[i]
    def refine(s, m, ns, i):
        if SCHEMES[i] is None: m.refine_to(int(ns))
        else: m.refine_to(int(ns), getattr(_vmecpp.MultigridInterpolationScheme, SCHEMES[i]))
    def evaluated(s, m, full, k, late=False, fixed=True):
        try: m.evaluate(1 if late else k, 1 + k if late else k, precondition=full, always_fix_m1_gauge=fixed)
        except RuntimeError as e: return {"error": str(e)}
        r = {n: getattr(m, n) for n in RES + (RES1 if full else ())}; r["f"] = m.get_forces(); r["reason"] = m.restart_reason; return r
    def force(s, i, full):
        ns = s.defs[i - 1]["ns"]
        def make(): m = s.fresh(ns); m.set_state(s.value(i)); return s.evaluated(m, full, 2)
        return s.one(("F", i, full), make)
    def vec(s, i, n):
        v = np.zeros(n) if i == 3 else np.random.default_rng([77, i, n]).standard_normal(n)
        if i == 2: v[:2 * n // 3] = 0.                             # along lambda only
        return v
    def product(s, i, j):
        ns = s.defs[i - 1]["ns"]
        def make():
            m = s.fresh(ns); x = s.value(i); m.set_state(x); v = s.vec(j, len(x))
            try: return m.hessian_vector_product(v)
            except RuntimeError as e: return str(e)
        return s.one(("H", i, j), make)
    def applied(s, i, j):
        def make(): m = s.fresh(s.defs[i - 1]["ns"]); x = s.value(i); m.set_state(x); m.evaluate(2, 2); return m.apply_preconditioner(s.vec(j, len(x)))
        return s.one(("M", i, j), make)
    def wrong(s, i, n): k = (0, n - 1, n + 1, 2 * n, max(1, n // 2))[i]; return np.random.default_rng([5, i]).standard_normal(k)
    def refused(s, what, call):
        try: call()
        except (RuntimeError, ValueError, TypeError): return
        raise Bad(what + " was accepted")
    # ---- one operation
    def do(s, o, before, n):
        m, op, a = s.m, o["op"], o["a"]; x = s.value(before["x"]); s.tick(op)
        if op == "set":
            y = s.value(a); form = s.count % 3; buf = y.copy() if form == 0 else np.repeat(y, 2)[::2] if form == 1 else np.asfortranarray(y.copy())
            m.set_state(buf); buf += 1.
        elif op == "setwrong": s.refused(f"a state of length {len(s.wrong(a, len(x)))} for a model of {len(x)}", lambda: m.set_state(s.wrong(a, len(x))))
        elif op == "save": m.save_backup()
        elif op == "restore": m.restore_backup()
        elif op == "still": m.zero_velocity()
        elif op == "evaluate":
            late, fixed = o["c"] % 2 == 1, o["c"] < 2; k = (2, 1, 3, 50)[s.count % 4]; r = s.evaluated(m, a == 1, k, late, fixed)
            if not late and fixed:
                e = s.force(before["x"], a == 1); s.tick("judged")
                if "error" in e or "error" in r:
                    s.tick("failing evaluation")
                    if ("error" in e) != ("error" in r): raise Bad(f"evaluating a state {'fails' if 'error' in r else 'works'} here and {'works' if 'error' in r else 'fails'} in a fresh model: {r.get('error', e.get('error'))}")
                elif e["reason"] == 2 or r["reason"] == 2:
                    s.tick("inside out")
                    if e["reason"] != r["reason"]: raise Bad(f"the evaluation reports restart reason {r['reason']}, a fresh model at the same state {e['reason']}")
                else:
                    if k > 1 and r["reason"] != e["reason"]: raise Bad(f"the evaluation reports restart reason {r['reason']}, a fresh model at the same state {e['reason']}")
                    if not same(e["f"], r["f"]) and np.isfinite(e["f"]).all(): raise Bad(f"the forces differ from those of a fresh model at the same state by up to {np.abs(e['f'] - r['f']).max():.3g} (largest force {np.abs(e['f']).max():.3g})")
                    for q in e:
                        if q not in ("f", "reason") and e[q] != r[q] and np.isfinite(e[q]): raise Bad(f"{q} is {r[q]}, in a fresh model at the same state {e[q]}")
        elif op == "product":
            want = s.product(before["x"], a); v = s.vec(a, len(x)); keep = v.copy()
            try: got = m.hessian_vector_product(v)
            except RuntimeError as e: got = str(e)
            if isinstance(got, str) != isinstance(want, str): raise Bad(f"the Hessian-vector product {'fails' if isinstance(got, str) else 'works'} here and not in a fresh model")
            e = s.force(before["x"], False); usable = "error" not in e and e["reason"] != 2 and np.isfinite(e["f"]).all()   # (elsewhere there is no force to differentiate)
            if usable: s.tick("judged product")
            if usable and not isinstance(got, str) and np.isfinite(want).all() and not same(got, want): raise Bad(f"the Hessian-vector product differs from that of a fresh model at the same state by up to {np.abs(got - want).max():.3g} (of {np.abs(want).max():.3g})")
            if not same(v, keep): raise Bad("the Hessian-vector product changed the direction it was given")
        elif op == "productwrong": s.refused(f"a direction of length {len(s.wrong(a, len(x)))} for a model of {len(x)}", lambda: m.hessian_vector_product(s.wrong(a, len(x))))
        elif op == "applywrong": s.refused(f"a vector of length {len(s.wrong(a, len(x)))} for a model of {len(x)}", lambda: m.apply_preconditioner(s.wrong(a, len(x))))
        elif op == "apply":
            e = s.force(o["c"], True)
            if "error" not in e and e["reason"] != 2:
                s.tick("preconditioned"); want = s.applied(o["c"], a); got = m.apply_preconditioner(s.vec(a, len(x)))
                if np.isfinite(want).all() and not same(got, want): raise Bad(f"the preconditioner applied to a vector differs from that of a fresh model at the same state by up to {np.abs(got - want).max():.3g}")
        elif op == "step":
            fac, b1, dt = STEPS[a]; f = m.get_forces(); m.perform_time_step(fac, b1, dt)
            if before["v"] == -1 or not (np.isfinite(f).all() and np.isfinite(x).all()): s.X[o["x"]] = m.get_state(); s.V[o["x"]] = None
            else:
                v = np.zeros(len(x)) if before["v"] == 0 else s.V[before["v"]]
                if v is None: s.X[o["x"]] = m.get_state(); s.V[o["x"]] = None
                else:
                    nv = fac * (b1 * v + dt * f); nx = x + dt * nv; got = m.get_state(); s.tick("judged step")
                    if np.abs(got - nx).max() > 1e-12 * (np.abs(x).max() + dt * np.abs(nv).max()): raise Bad(f"a time step from {'rest' if before['v'] == 0 else 'the velocity of the last step'} is off by {np.abs(got - nx).max():.3g} (moved by {np.abs(got - x).max():.3g})")
                    s.X[o["x"]] = got; s.V[o["x"]] = nv
        elif op == "guess": m.reset_to_initial_guess()
        elif op == "axis": m.recompute_axis(); s.axes.append(m.ns)
        elif op == "again": s.axes.append(m.ns); m.reinitialize()
        elif op == "finer": s.refine(m, a, o["c"])
        elif op == "coarser":
            t = (m.ftolv, m.niterv); s.refused(f"refining from {m.ns} to {a} surfaces", lambda: m.refine_to(int(a)))
            if (m.ftolv, m.niterv) != t: raise Bad("a refused refinement changed the tolerance or the iteration limit")
        elif op == "solve":
            try: m.solve()
            except RuntimeError: pass
            s.X[o["x"]] = m.get_state()
        elif op == "elsewhere":
            if a == 0: p = {**s.c, "lasym": not s.c["lasym"], "ns": 5, "ncurr": 1 - s.c["ncurr"]}; k = _vmecpp.VmecModel.create(problem(p), 5, None); k.evaluate(1, 1); k.perform_time_step(1., .5, .1); k.evaluate(1, 2)
            elif a == 1: vmecpp.run(drv.solovev(niter_array=[5], return_outputs_even_if_not_converged=True), max_threads=2, verbose=False)
            else: k = s.fresh(m.ns); k.set_state(-k.get_state()); k.save_backup(); k.evaluate(1, 1); k.evaluate(2, 2)
        # the state after it is the one the specification names
        if m.ns != o["ns"]: raise Bad(f"{op}: the model has {m.ns} surfaces, {o['ns']} by the specification")
        got, want = m.get_state(), s.value(o["x"])
        if op in ("setwrong", "productwrong", "coarser", "applywrong") and not same(got, want): raise Bad(f"{op}: a refused request changed the state")
        if not same(got, want): raise Bad(f"{op}: the state is not the one it should be (length {len(got)} of {len(want)}" + (f", off by up to {np.abs(got - want).max():.3g})" if len(got) == len(want) else ")"))
        got += 1.
        if not same(m.get_state(), want): raise Bad(f"{op}: changing the vector that was handed out changed the model")
        if op in ("get", "set", "setwrong", "save", "restore", "still", "coarser", "applywrong", "apply", "productwrong", "elsewhere") and s.F is not None and not same(s.F, m.get_forces()): raise Bad(f"{op}: the force vector changed")
        s.F = m.get_forces()
    def all(s):
        before = {"x": 1, "v": 0}; s.F = None
        if not same(s.value(1), s.m.get_state()): return "a fresh model does not start at the initial guess"
        for n, o in enumerate(s.c["ops"]):
            s.count = n + s.c["seed"]
            try: s.do(o, before, n)
            except Bad as e: return f"operation {n + 1}: {e}"
            before = o
def handler(c):
    r = Replay(c); bad = r.all(); return {"bad": bad, "seen": r.seen}
if __name__ == "__main__": drv.main(handler)
