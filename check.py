#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   - decides one property (see DESIGN.md)
   check.py --setup                     - builds the harness
   check.py --replay FILE               - re-executes a recorded violation"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import core, props


def main():
    if sys.argv[1] == "--setup":
        core.build_harness()
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        run = core.Run(r["property"], "quick", r.get("seed", 1))
        _, obs = run.execute([r["case"]], "replay")
        print(json.dumps({"case": r["case"], "expected": r["expected"], "observed": obs[0]}, indent=1))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = core.Run(prop, tier, seed)
    try:
        props.CHECKS[prop](run)
        return run.finish()
    except core.ToolError as e:
        if run.violations:
            return run.finish()
        print("TOOL-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
