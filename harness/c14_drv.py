"""Replays resolution histories on inputs (Python and solver structure) and stored solutions."""
import random
import drv
import numpy as np
import vmecpp
cpp = vmecpp._vmecpp
B2 = {"rbc", "zbs"}; B2A = {"rbs", "zbc"}; A1 = {"raxis_c", "zaxis_s"}; A1A = {"raxis_s", "zaxis_c"}
S2 = ["rmnc", "zmns", "lmns", "lmns_full"]; S2A = ["rmns", "zmnc", "lmnc", "lmnc_full"]
SA = ["raxis_cc", "zaxis_cs"]; SAA = ["raxis_cs", "zaxis_cc"]
_base = {}

def value(seed, f, m, n, v, j=0):
    """the value version v of coefficient (m, n) of table f has (on surface j)"""
    r = random.Random(f"{seed}/{f}/{m}/{n}/{v}/{j}")
    return r.choice([1, -1]) * r.uniform(0.1, 9.9) * 10.0 ** r.choice([-30, -12, -3, 0, 0, 0, 2, 14])

def expected2d(case, f, op):
    t = np.zeros((op["mp"], 2 * op["nt"] + 1))
    for m, n, v in op["tab"]: t[m, n + op["nt"]] = value(case["seed"], f, m, n, v)
    return t
def expected1d(case, f, op):
    t = np.zeros(op["nt"] + 1)
    for n, v in op["axis"]: t[n] = value(case["seed"], f, 0, n, v)
    return t
def fields(case): return sorted(B2 | (B2A if case["lasym"] else set())), sorted(A1 | (A1A if case["lasym"] else set()))

def diff(name, got, want):
    got = np.asarray(got)
    if got.shape != want.shape: return f"{name} has shape {got.shape}, expected {want.shape}"
    if not np.array_equal(got, want):
        k = tuple(int(i) for i in np.argwhere(got != want)[0])
        return f"{name}{list(k)} is {got[k]!r}, expected {want[k]!r}"

class Input:
    def __init__(self, case, op):
        self.case = case
        self.obj = self.make({f: expected2d(case, f, op) for f in fields(case)[0]} | {f: expected1d(case, f, op) for f in fields(case)[1]}, op["mp"], op["nt"])
    def make(self, t, mpol, ntor):
        return drv.solovev(lasym=self.case["lasym"], nfp=3, mpol=mpol, ntor=ntor, **t)
    def tables(self, o=None):
        o = self.obj if o is None else o
        b, a = fields(self.case)
        return {f: np.array(getattr(o, f), dtype=float, copy=True) for f in b + a}
    def cpp(self): return self.obj._to_cpp_vmecindata()
    def change(self, op):
        V = vmecpp.VmecInput; before = self.tables(); w = op["way"]; b, a = fields(self.case)
        try:
            if w == "static":
                t = {f: V.resize_2d_coeff(getattr(self.obj, f), op["mp"], op["nt"]) for f in b}
                for f in a:
                    x = getattr(self.obj, f)
                    t[f] = V.resize_1d_axis_coeff(x, op["nt"]) if len(x) <= op["nt"] + 1 else x[:op["nt"] + 1].copy()
                got = t
            elif w in ("rebuild", "schedule"):
                mp, nt = (op["mp"], op["nt"]) if w == "rebuild" else ([2, op["mp"]], [0, op["nt"]])
                d = self.make({f: getattr(self.obj, f) for f in b + a}, mp, nt); got = self.tables(d)
            elif w == "solver":
                c = self.cpp(); c._set_mpol_ntor(op["mp"], op["nt"]); got = self.tables(c)
                if (c.mpol, c.ntor) != (op["mp"], op["nt"]): return f"solver structure reports {(c.mpol, c.ntor)}"
                if self.case["back"]:     # the solver structure, changed again and again
                    for x, y in ((op["mp"] + 3, op["nt"] + 2), (op["mp"], op["nt"] + 2), (op["mp"], op["nt"])): c._set_mpol_ntor(x, y)
                    again = self.tables(c)
                    for f in got:
                        e = diff(f, again[f], got[f])
                        if e: return "raised and lowered again: " + e
            else: raise AssertionError(w)
        except ValueError as e:
            if op["ok"]: return f"refused: {str(e)[:200]}"
            got = None
        after = self.tables()
        for f in before:
            e = diff(f, after[f], before[f])
            if e: return "source changed: " + e
        if got is not None:
            if not op["ok"]: return "accepted although the axis tables do not fit"
            self.obj = self.make(got, op["mp"], op["nt"])
            for f in b:
                e = diff(f, got[f], expected2d(self.case, f, op))
                if e: return e
            for f in a:
                e = diff(f, got[f], expected1d(self.case, f, op))
                if e: return e
    def write(self, op):
        m, n = op["p"]; b, a = fields(self.case)
        for f in b: getattr(self.obj, f)[m, n + op["nt"]] = value(self.case["seed"], f, m, n, op["v"])
        for f in a: getattr(self.obj, f)[op["nt"]] = value(self.case["seed"], f, 0, op["nt"], op["v"])

def base(lasym):
    if lasym not in _base:
        kw = dict(rbs=np.zeros((4, 1)), zbc=np.zeros((4, 1)), raxis_s=np.zeros(1), zaxis_c=np.zeros(1)) if lasym else {}
        _base[lasym] = vmecpp.run(drv.solovev(lasym=lasym, ntheta=16, **kw), verbose=False)
    return _base[lasym]

class Solution:
    NFP = 3
    def __init__(self, case, op):
        self.case, self.ns, self.op = case, case["ns"], op
        out = base(case["lasym"])
        ks = self.keys(op); w = out.wout.model_copy(deep=True); w.nfp = self.NFP
        upd = dict(mpol=op["mp"], ntor=op["nt"], mnmax=len(ks), ns=self.ns, xm=np.array([k[0] for k in ks]), xn=np.array([k[1] * self.NFP for k in ks]))
        for f in self.f2(): upd[f] = self.want(f, op)
        for f in self.f1(): upd[f] = expected1d(case, f, op)
        n0 = int(out.wout.ns)
        for f in type(w).model_fields:
            v = getattr(w, f)
            if f not in upd and isinstance(v, np.ndarray) and v.ndim and v.shape[-1] == n0:
                upd[f] = np.repeat(v[..., :1], self.ns, axis=-1)
        for k, v in upd.items(): setattr(w, k, v)
        self.obj = out.model_copy(update={"wout": w})
    def f2(self): return S2 + (S2A if self.case["lasym"] else [])
    def f1(self): return SA + (SAA if self.case["lasym"] else [])
    def keys(self, op): return [(m, n) for m in range(op["mp"]) for n in range(0 if m == 0 else -op["nt"], op["nt"] + 1)]
    def row(self, f, m, n, v):
        x = np.array([value(self.case["seed"], f, m, n, v, j) for j in range(self.ns)])
        if m % 2: x[0] = 0.0
        return x
    def want(self, f, op):
        live = {(m, n): v for m, n, v in op["tab"]}
        return np.array([self.row(f, m, n, live[m, n]) if (m, n) in live else np.zeros(self.ns) for m, n in self.keys(op)])
    def snapshot(self, w): return {f: np.array(getattr(w, f), copy=True) for f in self.f2() + self.f1() + ["xm", "xn"]}
    def target(self, op, ns):
        t = {f: np.zeros((op["mp"], 2 * op["nt"] + 1)) for f in fields(self.case)[0]} | {f: np.zeros(op["nt"] + 1) for f in fields(self.case)[1]}
        return drv.solovev(lasym=self.case["lasym"], nfp=self.NFP, mpol=op["mp"], ntor=op["nt"], ns_array=[ns], **t)
    def change(self, op):
        before = self.snapshot(self.obj.wout); old = self.obj.wout
        new = vmecpp.interpolate_solution(self.obj, self.target(op, self.ns))
        finer = 2 * self.ns - 1
        fine = vmecpp.interpolate_solution(self.obj, self.target(op, finer))
        after = self.snapshot(old)
        for f in before:
            e = diff(f, after[f], before[f])
            if e: return "source changed: " + e
        w = new.wout; ks = self.keys(op)
        if (w.mpol, w.ntor, w.ns, w.mnmax) != (op["mp"], op["nt"], self.ns, len(ks)): return f"remapped solution reports {(w.mpol, w.ntor, w.ns, w.mnmax)}"
        for wx in (w, fine.wout):
            for a, want in (("xm", [k[0] for k in ks]), ("xn", [k[1] * self.NFP for k in ks])):
                e = diff(a, getattr(wx, a), np.array(want))
                if e: return e
        for f in self.f2():
            e = diff(f, getattr(w, f), self.want(f, op))
            if e: return e
            g = np.asarray(getattr(fine.wout, f)); want = self.want(f, op)
            if g.shape != (len(ks), finer): return f"{f} on the finer grid has shape {g.shape}"
            bad = np.argwhere(~np.isclose(g[:, ::2], want, rtol=1e-9, atol=0))
            if f not in ("lmns", "lmnc") and len(bad): return f"{f} row {ks[bad[0][0]]}: finer grid has {g[bad[0][0], 2*bad[0][1]]!r} on a shared surface, expected {want[tuple(bad[0])]!r}"
        for f in self.f1():
            e = diff(f, getattr(w, f), expected1d(self.case, f, op)) or diff(f, getattr(fine.wout, f), expected1d(self.case, f, op))
            if e: return e
        if op["mp"] == old.mpol and op["nt"] == old.ntor:
            for f in type(old).model_fields:
                a, b = getattr(old, f), getattr(w, f)
                if isinstance(a, (int, float, str, np.ndarray)) and not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == "f"):
                    return f"unchanged resolution, but {f} changed"
        self.obj = new
    def write(self, op):
        m, n = op["p"]; i = self.keys(op).index((m, n)); w = self.obj.wout
        for f in self.f2():
            a = np.array(getattr(w, f)); a[i] = self.row(f, m, n, op["v"]); setattr(w, f, a)
        for f in self.f1():
            a = np.array(getattr(w, f)); a[op["nt"]] = value(self.case["seed"], f, 0, op["nt"], op["v"]); setattr(w, f, a)

def handler(case):
    o = None
    for i, op in enumerate(case["ops"]):
        if op["way"] == "start":
            o = (Input if case["kind"] == "input" else Solution)(case, op); bad = None
        elif op["way"] == "write": o.write(op); bad = None
        else: bad = o.change(op)
        if bad: return {"bad": bad, "steps": i + 1}
    return {"bad": None, "steps": len(case["ops"])}

drv.main(handler)
