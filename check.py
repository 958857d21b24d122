#!/usr/bin/env python3
"""Decide one property: `python3 check.py ID` (VERIF_SEED, VERIF_TIER from the environment).

Exit 0: held on everything observed. Exit 1 and a VIOLATION line: broken. Exit 2: no verdict.
"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))

import common  # noqa: E402


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        return common.setup()
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    run = common.Run(prop)
    try:
        module = importlib.import_module(common.MODULES[prop])
        module.check(run)
        return run.finish()
    except common.Inconclusive as e:
        print(f"no verdict on {prop}: {e}", file=sys.stderr)
        return 2


sys.exit(main())
