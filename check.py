#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's tree.
Exit 0: it held on everything explored; 1: violated (VIOLATION line); 2: the
check could not be carried out."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = core.Ctx(prop, tier, seed)
    try:
        props.CHECKS[prop](ctx)
        ctx.join()
        return core.finish(ctx)
    except core.CheckError as e:
        print('ERROR: ' + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


sys.exit(main())
