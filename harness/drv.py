"""Scaffolding of the Python drivers: `main(handler)` maps each input case to one JSON output line."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vpimport  # noqa: F401  (makes /repo's package and the built extension importable)
import logging
logging.disable(logging.CRITICAL)

def jd(o):
    import numpy as np
    if isinstance(o, np.ndarray): return o.tolist()
    if isinstance(o, np.generic): return o.item()
    return repr(o)

def main(handler):
    print("VP_DRIVER_READY", flush=True)
    with open(sys.argv[2], "w") as out:
        for line in open(sys.argv[1]):
            c = json.loads(line)
            r = handler(c)
            r["id"] = c["id"]
            out.write(json.dumps(r, default=jd) + "\n"); out.flush()

def solovev(**kw):
    """A small, quickly converging axisymmetric problem; keyword arguments override fields."""
    import numpy as np
    import vmecpp
    d = dict(lasym=False, nfp=1, mpol=4, ntor=0, ns_array=np.array([5]), ftol_array=np.array([1e-9]), niter_array=np.array([400]), phiedge=1.0,
             ncurr=0, pmass_type="power_series", am=np.array([0.125, -0.125]), pres_scale=1.0, gamma=0.0, piota_type="power_series", ai=np.array([1.0]),
             ac=np.array([0.0]), delt=0.9, tcon0=1.0, nstep=10, raxis_c=np.array([4.0]), zaxis_s=np.array([0.0]),
             rbc=[{"m": 0, "n": 0, "value": 3.999}, {"m": 1, "n": 0, "value": 1.026}, {"m": 2, "n": 0, "value": -0.068}],
             zbs=[{"m": 1, "n": 0, "value": 1.58}, {"m": 2, "n": 0, "value": 0.01}])
    d.update(kw)
    for k in ("ns_array", "niter_array"): d[k] = np.asarray(d[k], dtype=np.int64)
    for k in ("ftol_array", "raxis_c", "zaxis_s", "am", "ai", "ac"):
        if d.get(k) is not None: d[k] = np.asarray(d[k], dtype=float)
    return vmecpp.VmecInput(**d)
