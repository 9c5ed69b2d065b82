#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] - run one check against /repo's working tree."""
import os
import random
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
from lib import Check, Machinery  # noqa: E402
import plans  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        getattr(plans, prop)(c)
        return c.finish()
    except Machinery as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % prop)
        return 3
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
