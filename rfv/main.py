import argparse
import importlib
import os
import sys


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    from rfv import core
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    try:
        mod = importlib.import_module("checks." + a.pid)
    except Exception:
        import traceback
        tb = traceback.format_exc()
        print(tb)
        return 3
    return core.main(mod, a.tier, a.seed, a.replay, a.jobs, a.only)


if __name__ == "__main__":
    rc = cli()
    sys.stdout.flush()
    os._exit(rc)
