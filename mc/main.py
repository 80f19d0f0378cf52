import argparse
import importlib
import os
import sys
import traceback

from . import env  # noqa: F401  (installs the import machinery)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module("checks." + a.check.lower())
        chk = mod.CHECK(a.tier if a.tier in ("quick", "thorough") else "quick", seed)
        rc = chk.replay(a.replay) if a.replay else chk.main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
