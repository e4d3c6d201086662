#!/usr/bin/env python3
"""Runs the checks against small edits of /repo's source in scratch copies.

selftest/cases/*.py: blocks of the form

    ### bug C02 name            (or: ### same C02,C05 name)
    --- lib/fbuild/db/backend.py
    <<<<
    old text
    ====
    new text
    >>>>

A `bug` must be reported by each property it names, a `same` must not."""
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FBUILD_SA_REPO', '/repo')


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'selftest/cases', os.environ.get(
            'CASES', '*.txt')))):
        text = open(f).read()
        for b in re.split(r'^### ', text, flags=re.M)[1:]:
            head, body = b.split('\n', 1)
            kind, props, name = head.split(None, 2)
            edits = []
            for part in re.split(r'^--- ', body, flags=re.M)[1:]:
                path, rest = part.split('\n', 1)
                for m in re.finditer(
                        r'^<<<<\n(.*?)^====\n(.*?)^>>>>$', rest,
                        flags=re.M | re.S):
                    edits.append((path.strip(), m.group(1), m.group(2)))
            out.append((kind, props.split(','), name, edits))
    return out


def run(case):
    kind, props, name, edits = case
    d = tempfile.mkdtemp(prefix='sa-case-')
    res = []
    try:
        shutil.copytree(os.path.join(REPO, 'lib'), os.path.join(d, 'lib'))
        for path, old, new in edits:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) != 1:
                return [(kind, '-', name, 'BAD EDIT: %d matches' %
                         s.count(old), '')]
            s = s.replace(old, new)
            compile(s, p, 'exec')
            open(p, 'w').write(s)
        env = dict(os.environ, FBUILD_SA_REPO=d,
                   FBUILD_SA_EVIDENCE=os.path.join(d, 'evidence'))
        for prop in props:
            r = subprocess.run(
                [sys.executable, os.path.join(ROOT, 'check.py'), prop],
                cwd=ROOT, env=env, capture_output=True, text=True)
            want = 1 if kind == 'bug' else 0
            st = 'ok' if r.returncode == want else \
                {0: 'MISSED', 1: 'FALSE ALARM'}.get(
                    r.returncode, 'NO ANSWER %d' % r.returncode)
            lines = [l for l in (r.stdout + r.stderr).splitlines()
                     if ': [' in l or 'Broken' in l or 'Error' in l]
            res.append((kind, prop, name, st, '; '.join(lines)[:300]))
    finally:
        shutil.rmtree(d)
    return res


def main():
    pats = sys.argv[1:]
    cases = [c for c in load()
             if not pats or any(p in c[1] or p in c[2] or p == c[0]
                                for p in pats)]
    if pats:
        cases = [(k, [p for p in ps if p in pats] or ps, n, e)
                 for k, ps, n, e in cases]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for res in ex.map(run, cases):
            for kind, prop, name, st, why in res:
                bad += st != 'ok'
                if st != 'ok' or '-v' in sys.argv:
                    print('%-12s %-4s %-4s %s  %s' % (st, kind, prop, name,
                                                      why))
    print('%d cases, %d bad' % (len(cases), bad))
    return bad > 0


sys.exit(main())
