#!/usr/bin/env python3
"""Nothing to install: checks rebuild from /repo on every run. Verify that the tools are there."""
import shutil, sys
miss = [t for t in ("gcc", "gfortran", "goto-cc", "cbmc", "z3", "z3-new", "cvc5") if not shutil.which(t)]
print("missing tools:", miss if miss else "none")
sys.exit(1 if miss else 0)
