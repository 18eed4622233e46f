#!/usr/bin/env python3-vt
"""usage: check.py <property id> [--tier quick|thorough] [--seed N] [--part NAME]... [--scale X] [--replay FILE]"""
import argparse, importlib, os, sys
sys.dont_write_bytecode = True
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = '/nonexistent/hypothesis'     # nothing is kept between runs
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--part', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    a = ap.parse_args()
    from pbt import core
    mod = importlib.import_module('pbt.props.' + a.prop.lower())
    if a.replay:
        return core.replay(mod.P, os.path.abspath(a.replay))
    return core.run(mod.P, a.tier, a.seed, a.part, a.scale)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(3)
