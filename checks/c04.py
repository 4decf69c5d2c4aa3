import ctl, vp
def run(c):
    n = 400 if c.thorough else 60
    with vp.background(lambda: vp.build("ctl_replay", "mock_vmecpp")):
        c.model(vp.tlc_check("solver/SolverMC", "SolverMC.cfg", workdir=c.pid + "-mc"))
    A = {"verdict", "count", "counters", "reguess", "step2"}
    ctl.campaign(c, "cpp", ["storm", "end", "single"], n, A)
    ctl.campaign(c, "py", ["storm", "end"], n, A)
