"""Drives the Python loops of /repo on the real VmecModel whose forward model is scripted (ctl_pymock.cc)."""
import ctypes, dataclasses, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vpimport
so = ctypes.CDLL(os.path.join(os.environ["VP_BUILD"], "_vmecpp.so"))
so.vp_mock_report.restype = ctypes.c_char_p
import numpy as np
import vmecpp
from vmecpp import _iteration as it

def make_input(sc):
    cf = sc["cfg"]; nt = sc["ntor"]; mp = 3
    z = np.zeros((mp, 2 * nt + 1)); rbc, zbs = z.copy(), z.copy()
    rbc[0, nt] = 3.0; rbc[1, nt] = 1.0; zbs[1, nt] = 1.3; rbc[2, nt] = 0.05; zbs[2, nt] = -0.04
    rax, zax = np.zeros(nt + 1), np.zeros(nt + 1); rax[0] = 3.1
    if nt: rbc[1, nt + 1] = 0.1; zbs[1, nt + 1] = -0.12; rbc[1, nt - 1] = 0.03; rax[1] = 0.02; zax[1] = -0.03
    kw = dict(lasym=sc["lasym"], nfp=1, mpol=mp, ntor=nt, nzeta=8 if nt else 1, ns_array=cf["ns"], niter_array=cf["niter"],
              ftol_array=[v / 8192.0 for v in cf["ftol"]], phiedge=1.0, ncurr=0, am=[0.0], ai=[0.4], ac=[0.0], delt=sc["delt"], nstep=cf["nstep"],
              return_outputs_even_if_not_converged=cf["ret"], raxis_c=rax, zaxis_s=zax, rbc=rbc, zbs=zbs, pmass_type="power_series", piota_type="power_series")
    if sc["lasym"]:
        rbs, zbc = z.copy(), z.copy(); zbc[2, nt] = 0.02; rbs[2, nt] = 0.03
        kw.update(raxis_s=np.zeros(nt + 1), zaxis_c=np.full(nt + 1, 0.01), rbs=rbs, zbc=zbc)
    return vmecpp.VmecInput(**kw)

def main():
    out = open(sys.argv[2], "w")
    so.vp_mock_open(sys.argv[3].encode())
    for line in open(sys.argv[1]):
        sc = json.loads(line)
        so.vp_mock_load(json.dumps(sc).encode())
        snaps, results, raised = [], [], None
        style = {"v852": "vmec_8_52"}.get(sc["cfg"]["style"], sc["cfg"]["style"])
        def cb(s):
            snaps.append({f.name: getattr(s, f.name) for f in dataclasses.fields(s)})
        try:
            vi = make_input(sc)
            model, rs = it.solve_multigrid(vi, iteration_style=style, callback=cb)
            results = [dict(converged=bool(r.converged), failed=bool(r.failed), num_iterations=r.num_iterations, restarts=r.restarts, axis_reguesses=r.axis_reguesses, style=r.iteration_style,
                            fsqr=r.fsqr, hist=len(r.force_residual_r)) for r in rs]
        except Exception as e:
            raised = f"{type(e).__name__}: {e}"
        o = json.loads(so.vp_mock_report().decode())
        o.update(id=sc["id"], snaps=snaps, results=results, raised=raised)
        out.write(json.dumps(o) + "\n"); out.flush()
main()
