#!/usr/bin/env python3
"""python3 check.py <property-id>   (VERIF_SEED, VERIF_TIER from the environment)"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.core import Ctx

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"specs.{pid}")
    ctx = Ctx(pid, tier, seed)
    level, note = mod.run(ctx)
    sys.exit(ctx.finish(level, note))

main()
