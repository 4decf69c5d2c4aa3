import ctl, vp
def run(c):
    n = 500 if c.thorough else 60
    with vp.background(lambda: vp.build("ctl_replay", "mock_vmecpp")):
        c.model(vp.tlc_check("solver/SolverMC", "SolverMC.cfg", workdir=c.pid + "-mc"))
    A = {"verdict", "count", "output"}
    ctl.campaign(c, "cpp", ["end", "edge", "general", "budget"], n, A)
    ctl.campaign(c, "py", ["end", "edge", "budget"], n, {"verdict", "count"})
