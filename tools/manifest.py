#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present and the reasons below."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
NA = TECH.pop('not_applicable')


def main():
    ids = [json.loads(l)['id']
           for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        f = os.path.join(ROOT, 'rules', i.lower() + '.py')
        if i in TECH and os.path.exists(f):
            doc = ast.get_docstring(ast.parse(open(f).read()))
            checks.append({
                'property': i,
                'quick_cmd': 'python3 check.py %s --tier quick' % i,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                'technique': TECH[i],
                'level': 'other',
                'level_note': ' '.join(doc.split()),
            })
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'no sound static check of it has been built')})
    json.dump({
        'version': 1,
        'setup_cmd': 'python3 -m compileall -q sa rules check.py',
        'checks': checks,
        'not_applicable': na,
        'notes': 'All checks are static: they parse /repo/lib/fbuild and '
                 'never run it. See DESIGN.md.',
    }, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print('%d checks, %d not applicable' % (len(checks), len(na)))


main()
