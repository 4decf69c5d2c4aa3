"""Stand-in for the external indata2json tool (not part of the repository): reads a namelist with f90nml and writes NAME.json
to the working directory.  VP_I2J scripts its faults."""
import json, os, resource, signal, sys
mode = os.environ.get("VP_I2J", "none")
if mode == "exe_fail": print("scripted failure"); sys.exit(3)
if mode == "exe_nothing": sys.exit(0)
if mode == "exe_killed": open("x.json", "w").write("{"); os.kill(os.getpid(), signal.SIGKILL)
if mode == "exe_sigint": os.kill(os.getppid(), signal.SIGINT); signal.signal(signal.SIGINT, signal.SIG_DFL); os.kill(os.getpid(), signal.SIGINT)
resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)   # a limit set by the test driver is not ours
import f90nml
from nmlread import read
name = sys.argv[-1]
d, tables = read(open(name).read())
out = {}
for k, v in d.items():
    if k == "lfreeb" or k == "lasym" or k == "lforbal": v = bool(v)
    out[{"raxis_cc": "raxis_c", "zaxis_cs": "zaxis_s", "raxis_cs": "raxis_s", "zaxis_cc": "zaxis_c"}.get(k, k)] = v
for k in ("raxis_c", "zaxis_s", "raxis_s", "zaxis_c", "am", "ai", "ac", "aphi", "extcur", "ns_array", "ftol_array", "niter_array", *(x + y for x in ("am", "ai", "ac") for y in ("_aux_s", "_aux_f"))):
    if k in out and not isinstance(out[k], list): out[k] = [out[k]]
for k, t in tables.items(): out[k] = [{"n": n, "m": m, "value": v} for (n, m), v in t.items()]
if not out.get("lasym"):
    for k in ("rbs", "zbc", "raxis_s", "zaxis_c"): out.pop(k, None)
text = json.dumps(out)
if mode == "exe_garbage": text = text[:len(text) // 2]
open(name.removeprefix("input.") + ".json", "w").write(text + " " * int(os.environ.get("VP_I2J_PAD", "0")))
