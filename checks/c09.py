import ctl, vp
def run(c):
    n = 500 if c.thorough else 120
    with vp.background(lambda: vp.build("ctl_replay")):
        c.model(vp.tlc_check("solver/SolverMC", "SolverMC.cfg", workdir=c.pid + "-mc"))
    A = {"poll", "verdict", "count"}
    ctl.campaign(c, "cpp", ["intr", "general"], n, A)
