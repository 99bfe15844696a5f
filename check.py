#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough]

Exit 0: holds. Exit 1 with a VIOLATION line: broken. Exit 2: the analysis
could not be carried out.
"""

import argparse
import hashlib
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.ir import AnalysisBroken          # noqa: E402
import props                              # noqa: E402
from tasks import REPO                    # noqa: E402


class Timeout(Exception):
    pass


def run_task(job):
    """Run one analysis; never raises."""
    name, runner, arg, limit, tier = job
    t = time.time()

    def expired(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, expired)
    signal.alarm(limit)
    res = {'name': name, 'alarms': [], 'counts': {}, 'error': None,
           'functions': [], 'rules': {}, 'samples': []}
    try:
        runner(arg, res, tier)
    except Timeout:
        res['error'] = 'no result within %d s' % limit
    except AnalysisBroken as e:
        res['error'] = 'analysis broken: %s' % e
    except Exception:
        res['error'] = traceback.format_exc()
    finally:
        signal.alarm(0)
    res['wall_s'] = round(time.time() - t, 2)
    return res


def load_known(prop):
    """Known findings: lines '<property> <identity>'."""
    known = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                m = re.match(r'known: property=(\S+) (.*)$', line)
                if m and m.group(1) == prop:
                    known.append(m.group(2))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t = time.time()
    prop = props.PROPS[args.property]
    jobs = props.jobs(args.property, args.tier)
    with multiprocessing.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        results = pool.map(run_task, jobs, chunksize=1)
    found = []
    errors = []
    obligations = 0
    functions = set()
    rules = {}
    samples = []
    for r in results:
        if args.v:
            print('#', r['name'], r['wall_s'], 's', r['counts'],
                  r['error'] or '')
        if r['error']:
            errors.append('%s: %s' % (r['name'], r['error']))
        functions.update(r['functions'])
        for k, v in r['rules'].items():
            if props.selected(args.property, r['name'], k):
                rules[k] = rules.get(k, 0) + v
                obligations += v
        samples.extend(r['samples'])
        for a in r['alarms']:
            if args.v:
                print('  ', a)
            if props.selected(args.property, r['name'], a['rule']):
                found.append(dict(a, task=r['name']))
    known = load_known(args.property)
    seen = set()
    new = []
    suppressed = 0
    for a in found:
        ident = '%s:%s: %s' % (a['file'], a['func'], a['msg'])
        if ident in seen:
            continue
        seen.add(ident)
        if ident in known:
            suppressed += 1
            print('KNOWN-FINDING: property=%s %s' % (args.property, ident))
        else:
            new.append(a)
    missing = [] if (errors or new) else [
        r for r in prop.get('expect', []) if not any(
            k.startswith(r) for k in rules)]
    if missing:
        errors.append('no instance of: ' + ', '.join(missing))
    if obligations == 0 and not errors:
        errors.append('nothing was analysed')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    wall = time.time() - t
    counts = {r['name']: r['counts'] for r in results}
    ev = {
        'property': args.property,
        'tier': 'thorough' if args.tier == 'thorough' else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': prop['level'],
        'coverage': {
            'explanation': prop['explanation'],
            'obligations': obligations,
            'discharged': obligations - len(new) - suppressed
            if not errors else 0,
            'checker_cmd': 'python3 check.py ' + args.property,
            'trusted_base': props.TRUSTED.get(prop['engine'], []),
            'analyses': counts,
            'functions_analysed': sorted(functions),
            'rules': {k: rules[k] for k in sorted(rules)},
            'samples': samples[:40],
            'known_findings': suppressed,
            'errors': errors,
        },
        'assumptions': prop.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    path = os.path.join(HERE, 'evidence', args.property + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for a in new:
        print('%s:%s: in %s: %s [%s]' % (
            a['file'], a['line'], a['func'], a['msg'], a['task']))
        for s in a.get('path', []):
            print('    via %s' % s)
    if new:
        rep = os.path.join(HERE, 'evidence', args.property + '.violation.txt')
        with open(rep, 'w') as f:
            for a in new:
                f.write(json.dumps(a, sort_keys=True) + '\n')
        print('VIOLATION property=%s replay=%s' % (args.property, rep))
        return 1
    if errors:
        for e in errors:
            print('ANALYSIS-BROKEN: ' + e)
        return 2
    print('%s: %d obligations in %d functions hold (%.1f s)' % (
        args.property, obligations, len(functions), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
