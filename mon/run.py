import argparse
import importlib
import os
import sys

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=float)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        ap.error("tier is quick or thorough")
    sys.path.insert(0, core.REPO)
    try:
        import pycose
        where = os.path.realpath(pycose.__file__)
        if not where.startswith(os.path.realpath(core.REPO) + os.sep):
            print("INCONCLUSIVE property=%s pycose imported from %s" % (a.prop, where))
            return 2
        mod = importlib.import_module("mon.checks." + a.prop.lower())
    except Exception:
        import traceback
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the code under test or the harness cannot be imported" % a.prop)
        return 2
    return core.run_check(mod, a.tier, a.seed, a.replay, a.limit)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
