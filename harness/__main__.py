import argparse
import os
import sys

from . import runner

ap = argparse.ArgumentParser(prog="harness")
ap.add_argument("what", help="property id, or a replay file")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
a = ap.parse_args()
sys.exit(runner.replay(a.what) if a.what.endswith(".json") else runner.main(a.what, a.tier, a.seed))
