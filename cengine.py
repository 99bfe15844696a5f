"""Runs one C analysis of tasks.py."""

import os

from sa import ir, interp, clib
from sa.ir import AnalysisBroken
from tasks import TASKS, REPO, HERE


def run(name, res, tier):
    harness, sources, flags = TASKS[name][:3]
    m = ir.compile_ir(
        [os.path.join(HERE, 'harness', harness)]
        + [os.path.join(REPO, s) for s in sources],
        flags,
        [os.path.join(REPO, 'c'), os.path.join(REPO, 'c/heatshrink'),
         os.path.join(HERE, 'harness'), REPO, '/usr/include/python3.12'])
    it = interp.Interp(m, clib.MODELS, repo=REPO)
    try:
        ends = it.run('entry', [], interp.State(it.at))
    finally:
        collect(it, res)
    if not ends:
        if not it.alarms:
            raise AnalysisBroken('no way through the harness')


def collect(it, res):
    for a in it.alarms.values():
        msg = a.msg
        rule = a.kind + ':' + msg
        res['alarms'].append({
            'rule': rule, 'kind': a.kind, 'file': a.file, 'line': a.line,
            'func': a.func, 'msg': msg,
            'path': ['%s:%s' % p for p in a.stack[-6:]]})
    for k, v in it.obligations.items():
        res['rules'][k] = len(v)
        for f, line, _ in sorted(v)[:1]:
            res['samples'].append('%s: %s at %s:%s' % (
                res['name'], k, f, line))
    res['functions'] = sorted(
        f for f in it.visited
        if (it.m.functions[f].file or '').startswith(it.repo))
    res['counts'] = {
        'obligations': sum(len(v) for v in it.obligations.values()),
        'functions': len(res['functions']),
        'call_sites': len(it.callsites),
        'loops_with_invariant': len(it.cuts),
        'instructions_interpreted': it.steps,
        'alarms': len(it.alarms),
    }
