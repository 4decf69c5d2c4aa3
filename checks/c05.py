import ctl, vp
def run(c):
    n = 500 if c.thorough else 70
    with vp.background(lambda: vp.build("mock_vmecpp")):
        c.model(vp.tlc_check("solver/SolverMC", "SolverMC.cfg", workdir=c.pid + "-mc"))
    A = {"verdict", "count", "counters", "reguess", "step", "step2", "rollback", "geometry", "stage", "snapshot", "result"}
    ctl.campaign(c, "py", ["general", "single", "storm", "end", "budget"], n, A)
