#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py --replay FILE   |   check.py --list"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks

def main():
    a = sys.argv[1:]
    if a and a[0] == '--list':
        for k in sorted(checks.CHECKS): print(k)
        return 0
    if len(a) == 2 and a[0] == '--replay':
        d = json.load(open(a[1]))
        print(d['what'])
        return checks.replay(d['replay'])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    vlib.T0 = __import__('time').time()
    fn, level, _ = checks.CHECKS[prop]
    for l in vlib.known_findings():
        if l.startswith('finding: ') and ('property=%s ' % prop) in l: print('KNOWN-FINDING: ' + l[len('finding: '):])
    res = vlib.Result(prop, tier)
    try:
        fn(res, tier)
    except vlib.CompileError as e:
        res.violation('%s\n%s' % (e.what, e.log[-3000:]), dict(kind='compile', what=e.what))
    return vlib.finish(res, level)

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
