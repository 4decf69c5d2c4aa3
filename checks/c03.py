import ctl, vp
def run(c):
    n = 500 if c.thorough else 70
    with vp.background(lambda: vp.build("ctl_replay")):
        c.model(vp.tlc_check("solver/SolverMC", "SolverMC.cfg", workdir=c.pid + "-mc"))
    ctl.campaign(c, "cpp", ["general", "single", "storm"], n, {"geometry", "rollback", "step", "step2", "counters"})
