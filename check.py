#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import os, random, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks
from engine import Engine, CheckError


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    E = Engine(prop, tier, seed)
    try:
        checks.CHECKS[prop](E, tier, random.Random("%s/%d" % (prop, seed)))
        return E.finish(assumptions=checks.ASSUME)
    except CheckError as e:
        print("ERROR", prop, e)
        if E.violations:
            return E.finish(assumptions=checks.ASSUME)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        E.close()


sys.exit(main())
