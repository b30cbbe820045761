import argparse, importlib, os, sys, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from mc import core
sys.path.insert(0, core.REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.prop == "setup":
            # nothing to compile; make sure that everything the checks need is there
            import richard.core.System, sqlite3
            import glob
            for f in sorted(glob.glob(os.path.join(VERIF, "checks", "C*.py"))):
                importlib.import_module("checks." + os.path.basename(f)[:-3])
            print("setup ok")
            return 0
        mod = importlib.import_module("checks." + a.prop)
        return core.main(mod, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.replay)
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
