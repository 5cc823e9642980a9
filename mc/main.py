from __future__ import annotations

import argparse
import importlib
import os
import sys

sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))


def load(pid):
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    return mod.MODEL()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    args = ap.parse_args()
    from mc import engine
    model = load(args.property)
    import modepy
    want = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
    got = os.path.realpath(modepy.__file__)
    if not got.startswith(want + os.sep):
        print(f"modepy was imported from {got}, not from {want}")
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if args.replay:
        return engine.main_replay(model, args.tier, args.replay)
    return engine.main_check(model, args.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
