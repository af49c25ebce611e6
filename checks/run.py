#!/usr/bin/env python3
"""run.py PROPERTY: checks one property of horcrux against /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import lib
from registry import REGISTRY


def main():
    prop = sys.argv[1]
    ctx = lib.Ctx(prop)
    try:
        for f in REGISTRY[prop]:
            f(ctx, prop)
        return lib.finish(ctx, 'model_checking')
    except lib.CheckError as e:
        print('CHECK ERROR', prop, e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        if os.environ.get('VERIF_KEEP') != '1':
            ctx.close()


sys.exit(main())
