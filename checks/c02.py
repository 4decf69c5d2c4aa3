import ctl, vp
def run(c):
    n = 500 if c.thorough else 60
    with vp.background(lambda: vp.build("ctl_replay", "mock_vmecpp")):
        c.model(vp.tlc_check("solver/SolverMC", "SolverMC.cfg", workdir=c.pid + "-mc"))
    A = {"stage", "stagebk", "count", "verdict"}
    ctl.campaign(c, "cpp", ["budget", "general", "early"], n, A)
    ctl.campaign(c, "py", ["budget", "general", "early"], n, A)
