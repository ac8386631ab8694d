#!/usr/bin/env python3
"""run_check.py <property> [quick|thorough]: exit 0 held, 1 violated, 2 the machinery failed."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = vlib.Check(pid, tier, seed)
    try:
        importlib.import_module("c" + pid[1:]).run(c)
        return c.finish()
    except vlib.CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()


sys.exit(main())
