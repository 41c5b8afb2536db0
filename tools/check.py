#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: runs the check of one property."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('checks.' + prop.lower())
    c = vlib.Check(prop, tier, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.run(c)
        rc = c.finish()
    except vlib.CheckError as e:
        print('CHECK ERROR', e)
        # what was found before the error stands
        rc = c.finish() if c.violations else 2
        rc = rc if rc == 1 else 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        import shutil
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)


main()
