"""Write DESIGN.md from the rules, the notes and the preface."""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def path(*a):
    return os.path.join(ROOT, *a)


def notes():
    out, cur = {}, None
    with open(path('tools', 'design_notes.md')) as f:
        for line in f:
            m = re.match(r'## (\w+)', line)
            if m:
                cur = m.group(1)
                out[cur] = ''
            elif cur:
                out[cur] += line
    return {k: v.strip() for k, v in out.items()}


def rules(pid):
    p = path('rules', pid.lower() + '.py')
    with open(p) as f:
        tree = ast.parse(f.read())
    table = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and \
                getattr(n.targets[0], 'id', '') in ('T', 'RULES'):
            try:
                table = ast.literal_eval(n.value)
            except ValueError:
                pass
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == 'rule' and len(n.args) == 2:
            try:
                table[ast.literal_eval(n.args[0])] = \
                    ast.literal_eval(n.args[1])
            except ValueError:
                pass
    return ast.get_docstring(tree), table


def count(pid):
    p = path('selftest', 'cases')
    bug = same = 0
    for f in glob.glob(os.path.join(p, '*.txt')):
        with open(f) as g:
            for line in g:
                m = re.match(r'### (bug|same) (\S+)', line)
                if m and pid in m.group(2).split(','):
                    if m.group(1) == 'bug':
                        bug += 1
                    else:
                        same += 1
    return bug, same


def main():
    with open(path('tools', 'design_head.md')) as f:
        out = [f.read().rstrip(), '', '## The properties', '']
    with open(path('MANIFEST.json')) as f:
        man = json.load(f)
    claimed = {c['property']: c for c in man['checks']} \
        if 'property' in man['checks'][0] else \
        {c['id']: c for c in man['checks']}
    na = {x['property']: x['reason'] for x in man['not_applicable']}
    note = notes()
    with open(path('properties.jsonl')) as f:
        props = [json.loads(l) for l in f if l.strip()]
    for p in props:
        pid = p['id']
        out += ['### %s %s' % (pid, p['title']), '']
        if pid not in claimed:
            out += ['Not applicable: %s.' % na.get(pid, 'no check').rstrip('.'),
                    '']
            continue
        doc, table = rules(pid)
        out += [claimed[pid]['technique'][0].upper() +
                claimed[pid]['technique'][1:] + '.', '', doc, '']
        for k, v in table.items():
            out.append('* `%s`: %s' % (k, v))
        bug, same = count(pid)
        out += ['', 'Why tests cannot: %s' % p['why_tests_cant'],
                'Self-test: %d faults reported, %d edits that keep the '
                'behaviour left alone.' % (bug, same)]
        if note.get(pid):
            out += ['', note[pid]]
        out.append('')
    out += ['## Planted bugs', '',
            'Each is in `seeded/<id>/` with a demonstration; each is reported '
            'by the check of its property.', '']
    for d in sorted(glob.glob(path('seeded', '*', 'meta.json'))):
        with open(d) as f:
            m = json.load(f)
        out.append('* `%s` (caught by %s): %s. Needs: %s' % (
            os.path.basename(os.path.dirname(d)), m['property'],
            m['what_it_breaks'].rstrip('.'), m['needs']))
    out += ['', '## Findings', '',
            'Genuine defects found by reading and by the checks; `fixed` ones '
            'were repaired by a `fix:` commit in /repo, `known` ones are '
            'recorded only, because a repair would be a redesign.', '']
    with open(path('known_findings.txt')) as f:
        for line in f:
            if line.startswith(('known:', 'fixed:')):
                out.append('* ' + line.strip())
    with open(path('DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
