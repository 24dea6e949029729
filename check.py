#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current source by static analysis."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import glue


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        import rules
        if pid in rules.CHECKS:
            v, cov = rules.CHECKS[pid](tier)
            return glue.finish(pid, tier, "other", cov, v)
        import engine_props
        if pid in engine_props.CLAIMED:
            v, cov = engine_props.check(pid, tier)
            return glue.finish(pid, tier, "other", cov, v)
        print("no check for", pid)
        return 2
    except glue.ToolError as e:
        print("TOOL ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
