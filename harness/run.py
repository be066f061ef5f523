#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N]: decide one property for /repo's working tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

MODULES = {
    'checks_cmdline': 'C01 C02 C03 C04 C05 C06 C07 C08',
    'checks_values': 'C11 C12 C13',
    'checks_pipeline': 'C15 C16 C17 C18 C22',
    'checks_schema': 'C19 C21',
    'checks_life': 'C25',
    'checks_argparse': 'C23',
    'checks_help': 'C24',
    'checks_choices': 'C10',
    'checks_capture': 'C09',
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--keep', action='store_true', help='keep the scratch directory')
    a = ap.parse_args()
    mod = next(m for m, ids in MODULES.items() if a.property in ids.split())
    chk = core.Check(a.property, a.tier, a.seed)
    try:
        getattr(importlib.import_module(mod), a.property)(chk)
        rc = core.finish(chk)
    except Exception:
        traceback.print_exc(limit=-3)
        print('check of %s could not be completed' % a.property)
        rc = 2
    finally:
        if a.keep:
            print('scratch: ' + chk.dir)
        else:
            chk.close()
    return rc


if __name__ == '__main__':
    sys.exit(main())
