import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    from mc import core

    module = importlib.import_module("mc.props." + args.property.lower())
    if args.replay:
        rc = core.replay(module, args.replay)
    else:
        rc = core.run_check(module, tier, args.seed)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
