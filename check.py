#!/usr/bin/env python3
"""check.py ID quick|thorough - decide one property; exit 0 (holds), 1 (VIOLATION line), 2 (the machinery failed)"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import mc, props, extra, run as runner


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    r = runner.Run(pid, tier, seed)
    try:
        p = props.ALL[pid]()
        if hasattr(p, 'check'):
            p.check(r)
        else:
            runner.core(r, p)
        runner.known_findings(r)
        sys.exit(r.finish('model_checking', p.assumptions))
    except mc.Broken as e:
        print('the machinery failed: %s' % e)
        sys.exit(2)


main()
