#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree (see DESIGN.md)."""
import os, sys, traceback
import vlib, checks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") % 100000
    try:
        vlib.build_java()
        c = vlib.Check(prop, tier, seed)
        rc = checks.CHECKS[prop](c)
    except vlib.ToolError as e:
        print("TOOL ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()
