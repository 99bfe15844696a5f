#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from texts.py and props.py."""

import json
import os

import props
import texts

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for id, t in texts.TEXTS.items():
            p = {
                'id': id,
                'title': t['title'],
                'statement': t['statement'],
                'quantifier': {'over': t['over'], 'text': t['quantifier']},
                'why_tests_cant': t['why'],
                'anchors': {
                    'files': t['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in t['mechanism']],
                },
            }
            if 'state' in t:
                p['anchors']['state'] = [
                    {'name': n, 'meaning': m, 'where': w}
                    for n, m, w in t['state']]
            f.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for id, t in texts.TEXTS.items():
        if id in props.PROPS and 'not_applicable' not in t:
            p = props.PROPS[id]
            checks.append({
                'property': id,
                'quick_cmd': 'python3 check.py %s' % id,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % id,
                'technique': t['technique'],
                'level': p['level'],
                'level_note': t['note'],
            })
        else:
            na.append({'property': id, 'reason': t['not_applicable']})
    man = {
        'version': 1,
        'setup_cmd': 'python3 setup.py',
        'checks': checks,
        'not_applicable': na,
        'notes': texts.NOTES,
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
