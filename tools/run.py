#!/usr/bin/env python3
"""run.py --property C07        decide a property for the current tree of /repo
   run.py --replay FILE         run a recorded violation again"""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import lib


def replay(path):
    d = json.load(open(path))
    if d['kind'] == 'server':
        import server
        return server.replay(d)
    ops = [{k: v for k, v in o.items() if k != 'r'} for o in d['ops'] if o['op'] != 'end']
    rec = lib.run_cases([ops], d['variant'], d['track'], 1)
    for l in core.describe(rec[0]):
        print(l)
    for o in rec[0]:
        if 'report' in o['r']:
            print(o['r']['report'])
    rej, _, _ = lib.check_traces(rec)
    print('rejected at operation %d' % rej[0][1] if rej else 'accepted')
    return 1 if rej else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    import suites
    ctx = core.Ctx(a.property, os.environ.get('VERIF_TIER', 'quick'))
    try:
        suites.SUITES[a.property](ctx)
        return core.finish(ctx)
    except lib.BuildError as e:
        print('ERROR: the code does not build\n%s' % e, file=sys.stderr)
        return 2
    except lib.CheckError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
