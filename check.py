#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | check.py --replay <file>"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from lib import core, build  # noqa: E402


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    pid = None
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--seed":
            seed = a[i + 1]
            i += 1
        elif a[i] == "--replay":
            return core.replay(a[i + 1])
        else:
            pid = a[i]
        i += 1
    try:
        return core.run_check(pid, tier, seed)
    except build.BuildError as e:
        print("%s: build failed\n%s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
