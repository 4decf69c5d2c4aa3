"""Entry point of every check: tools/main.py <property id> <tier>."""
import importlib, os, signal, sys, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import vp

def main():
    signal.signal(signal.SIGINT, signal.default_int_handler)   # started in the background it is ignored, and the programs under test inherit that
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = vp.Check(pid, tier, seed)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(c)
    except vp.CheckError as e:
        print(f"[{pid}] ERROR (no answer): {e}", flush=True)
        if not c.violations: return 2
    except Exception:
        traceback.print_exc()
        print(f"[{pid}] ERROR (no answer)", flush=True)
        if not c.violations: return 2
    return c.finish()

if __name__ == "__main__":
    sys.exit(main())
