"""Runs one analysis of the Python sources (pa/)."""

import importlib

from tasks import REPO


def run(what, res, tier):
    """what: (module of pa, function, argument or None)"""
    module, fn, arg = what
    m = importlib.import_module('pa.' + module)
    it = m.interp()
    f = getattr(m, fn)
    try:
        f(it) if arg is None else f(it, arg)
    finally:
        collect(it, res)


def collect(it, res):
    for a in it.alarms.values():
        a = dict(a)
        a['rule'] = a['rule'] + ': ' + a['msg']
        a['kind'] = 'python'
        res['alarms'].append(a)
    for k, v in it.rules.items():
        res['rules'][k] = v
    res['samples'] = ['%s: %s' % (res['name'], x) for x in it.samples[:6]]
    res['functions'] = sorted(it.visited)
    res['counts'] = {
        'obligations': sum(it.rules.values()),
        'functions': len(it.visited),
        'steps': it.steps,
        'loops': len(it.loops),
        'alarms': len(it.alarms),
    }


assert REPO
