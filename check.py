#!/usr/bin/env python3-vt
"""Entry point of all checks: check.py <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    from engine.runner import Check
    from engine.build import BuildError
    mod = importlib.import_module("checks." + prop.lower())
    c = Check(prop, tier, seed)
    try:
        rc = mod.main(c)
    except BuildError as e:
        print("ERROR: build failed\n%s" % e)
        c.errors.append(str(e))
        c.finish()
        rc = 2
    except Exception:
        traceback.print_exc()
        c.errors.append(traceback.format_exc())
        try:
            c.finish()
        except Exception:
            pass
        rc = 2
    sys.exit(rc)


main()
