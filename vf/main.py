import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[0] = ROOT  # not vf/ itself
sys.dont_write_bytecode = True


def main():
    if sys.argv[1] == "replay":
        from vf import runner

        return runner.replay(sys.argv[2])
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from vf import runner

    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.run(a.property, a.tier, seed, budget=a.budget, only=a.only, verbose=a.v)


rc = main()
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)  # the killed workers must not be waited for
