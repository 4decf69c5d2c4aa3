"""Free- and fixed-boundary solves recorded as events of spec/vacuum (one list of events per case)."""
import json
import numpy as np
import drv, c06_drv as d
NZ = 6
def field(bz, ripple):
    """a toroidal field with a vertical field that holds the plasma (ripple: makes it three-dimensional)"""
    nr = nz = 25; R = np.linspace(2., 6., nr)[None, None, :]; Z = np.linspace(-2., 2., nz)[None, :, None]; p = 2 * np.pi * np.arange(NZ)[:, None, None] / NZ
    bp = 4. / R * (1 + 0 * Z + 0 * p); b3 = bz * (1 + ripple * np.cos(p)) + 0 * R + 0 * Z; br = ripple * .05 * Z * np.cos(p) + 0 * R
    return {"par": dict(norm=False, sym=False, nfp=2, rmin=2., rmax=6., r=nr, zmin=-2., zmax=2., z=nz, p=NZ), "b": [x.reshape(1, -1).tolist() for x in (br, bp, b3)]}
def make(c):
    ent = lambda l: [{"m": m, "n": n, "value": v} for m, n, v in l]; s = len(c["ns"])
    b = dict(nfp=2, ntor=1, nzeta=NZ, mpol=c["mpol"], ns_array=c["ns"], niter_array=c["niter"], ftol_array=c["ftol"], nstep=1, delt=c["delt"], return_outputs_even_if_not_converged=True, iteration_style=c["style"],
             ncurr=1, ac=[1., -1.], curtor=c["cur"], pcurr_type="power_series", phiedge=np.pi, am=[1e3, -1e3], pres_scale=1., gamma=0., rbc=ent([(0, 0, 4.), (1, 0, c["a"])] + c.get("bumps", [])), zbs=ent([(1, 0, c["a"])]), raxis_c=[c["axis"], 0.], zaxis_s=[0., 0.])
    if c["free"]: b.update(lfreeb=True, nvacskip=c["skip"], extcur=np.array([1.]), mgrid_file="table")
    return json.loads(drv.solovev(**b)._to_cpp_vmecindata().to_json())
NAME = {-1: "off", 0: "starting", 1: "started", 2: "on"}
def events(o, case):
    H = o["hist"]; S = [float(a) + float(b) for a, b in zip(H[0], H[1])]; why = o["reasons"]; ev = [dict(e="solve", free=case["free"], hot=bool(case["hot"]), skip=case["skip"])]
    stages, last = [], None
    for r in o["iters"]:  # a stage starts where the iteration counter starts again
        if last is None or r[2] <= last: stages.append([])
        stages[-1].append(r); last = r[2]
    used, prev = 0, 2.0
    def one(i2, bad, rolled, rec):
        z = dict(e="eval", low=bool(prev < 1e-3), bad=bad, rolled=rolled, grow=int(1. / max(.1, 1e11 * prev)) if prev == prev else 0, iter2=i2, vac="?", iter1=0, full=0, soft=False, known=False)
        if rec: z.update(vac=NAME.get(rec[3], str(rec[3])), iter1=rec[1], full=rec[10], soft=bool(rec[12] < 1e-9) or case["style"] == "parvmec", known=bool(rec[13] > 0))
        ev.append(z)
    ns = 0
    for k, st in enumerate(stages):
        finer = st[0][0] != ns; ns = st[0][0]; nxt = 1
        mine = used  # evaluations rolled back at the very end of the stage before
        if k:
            first = st[0][11] - 1
            while mine < first and why[mine] != 4: mine += 1
            for i in range(used, mine): one(lastnxt, why[i] == 2, True, None); prev = S[i]
            used = mine
        ev.append(dict(e="stage", finer=bool(finer)))
        for r in st:
            own = r[11] > used and H[0][r[11] - 1] == r[4] and H[1][r[11] - 1] == r[5]  # the evaluation that converges is not in the history
            for i in range(used, r[11] - own): one(r[2], why[i] == 2, True, None); prev = S[i]
            one(r[2], bool(own and why[r[11] - 1] == 2), False, r); prev = float(r[4]) + float(r[5]); used = max(used, r[11]); nxt = r[2] + 1
        lastnxt = nxt
    return ev
def handler(case):
    c = dict(id=0, input=make(case), threads=case["threads"], perms=[], seconds=60, watch=dict(iters=True, vac=True))
    if case["free"]: c["table"] = field(case["bz"], case["ripple"])
    if case["hot"]: c["restart"] = {"input": make({**case, **case["hot"], "hot": None})}
    o = d.run(c)
    for k in ("deadlock", "hang", "crash", "exc"):
        if k in o: return {"bad": f"{k}: {o[k]}", "observed": o}
    if o["code"] == -1: return {"bad": None, "events": [], "skipped": o["msg"]}
    if "iters" not in o: return {"bad": None, "events": [], "skipped": o.get("msg")}
    seen = sorted({r[3] for r in o["iters"]}); h = [float(x) for x in o["hist"][4]]
    bad = None
    if not case["free"] and any(h): bad = "a fixed-boundary solve reports a vacuum pressure mismatch"
    if case["free"] and o["ivac"] == 2 and o["status"] == 11 and len(h) > 30 and not (max(h) > 0): bad = "the pressure mismatch at the boundary was never computed"
    return {"bad": bad, "events": events(o, case), "states": seen, "n": len(o["iters"]), "status": o["status"], "ijacob": max([r[8] for r in o["iters"]] or [0]), "msg": o["msg"][:90]}
if __name__ == "__main__": drv.main(handler)
