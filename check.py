#!/usr/bin/env python3
"""Decide one property by static analysis of the current source in /repo.

    check.py C01 [--tier quick|thorough]

exit 0  every obligation of the property was discharged (or is a listed
        known finding)
exit 1  a line "VIOLATION property=<id> replay=<path>" per run; the file holds
        every violated obligation: rule, construct, place and reason
exit 2  the analysis could not decide
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('FBUILD_SA_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.program import AnalysisBroken, Program  # noqa: E402


class Check:
    """Collects the obligations a rule generates."""

    def __init__(self, pid, prog, tier):
        self.pid = pid
        self.prog = prog
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.obligations = []
        self.rules = {}
        self.functions = set()
        self.paths = 0
        self.states = 0
        self.notes = []
        self.assumptions = []
        self._seen = set()

    def rule(self, name, text):
        self.rules.setdefault(name, text)

    def require(self, rule, construct, ok, why='', loc=''):
        """One obligation: `rule` holds of `construct` (a name that does not
        depend on line numbers)."""
        k = (rule, construct, bool(ok), why if not ok else '')
        if k in self._seen:
            return bool(ok)
        self._seen.add(k)
        self.obligations.append({'rule': rule, 'construct': construct,
                                 'ok': bool(ok),
                                 'why': '' if ok else why, 'at': loc})
        return bool(ok)

    def explored(self, result):
        """Account for one interprocedural run."""
        it = result.interp
        self.functions |= set(it.functions_seen)
        self.paths += len(result.returns) + len(result.raises)
        self.states += getattr(it, 'steps', 0)
        return result

    def saw(self, *fis):
        for f in fis:
            self.functions.add(f.qual)

    def note(self, text):
        self.notes.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def at_least(self, rule, n):
        """A rule that found nothing to decide has decided nothing."""
        got = sum(1 for o in self.obligations if o['rule'] == rule)
        if got < n:
            self.require(rule, 'construct', False, 'nothing in the source '
                         'does this any more (%d instances found, at least '
                         '%d expected)' % (got, n), '')


def load_known():
    known = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                head, _, what = line[6:].partition(' -- ')
                d = dict(x.split('=', 1) for x in head.split())
                known[(d['property'], d['rule'], d['construct'])] = what
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    rc = 0
    ck = None
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        prog = Program()
        ck = Check(pid, prog, a.tier)
        mod.check(ck)
    except AnalysisBroken as e:
        print('%s: cannot decide: %s' % (pid, e))
        if ck is None or all(o['ok'] for o in ck.obligations):
            return 2
    except Exception:
        traceback.print_exc()
        print('%s: cannot decide: internal error' % pid)
        if ck is None or all(o['ok'] for o in ck.obligations):
            return 2

    known = load_known()
    bad, listed = [], []
    for o in ck.obligations:
        if o['ok']:
            continue
        k = (pid, o['rule'], o['construct'].replace(' ', '_'))
        if k in known:
            listed.append((k, known[k]))
        else:
            bad.append(o)

    per_rule = {}
    for o in ck.obligations:
        r = per_rule.setdefault(o['rule'], {'obligations': 0, 'violated': 0,
                                            'constructs': []})
        r['obligations'] += 1
        r['violated'] += not o['ok']
        if len(r['constructs']) < 60 and o['construct'] not in r['constructs']:
            r['constructs'].append(o['construct'])
    for name, text in ck.rules.items():
        per_rule.setdefault(name, {'obligations': 0, 'violated': 0,
                                   'constructs': []})['text'] = text
    n = len(ck.obligations)
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': pid,
        'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': (mod.__doc__ or '').strip(),
            'modules_parsed': len(prog.modules),
            'functions_in_program': len(prog.functions),
            'functions_analysed': sorted(ck.functions),
            'abstract_paths_ending': ck.paths,
            'statements_interpreted': ck.states,
            'obligations': n,
            'discharged': n - len(bad) - len(listed),
            'known_findings': len(listed),
            'rules': per_rule,
            'notes': ck.notes,
        },
        'assumptions': ck.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')

    for (p, r, c), what in sorted(set(listed)):
        print('KNOWN-FINDING: property=%s rule=%s construct=%s %s' %
              (p, r, c, what))
    if a.v:
        for o in ck.obligations:
            print('%-4s %s | %s | %s %s' % ('ok' if o['ok'] else 'BAD',
                                            o['rule'], o['construct'],
                                            o['at'], o['why']))
    if bad:
        rdir = os.path.join(EVID, 'violations')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + '.json')
        with open(path, 'w') as f:
            json.dump([dict(o, text=ck.rules.get(o['rule'], '')) for o in bad],
                      f, indent=1)
            f.write('\n')
        for o in bad[:20]:
            print('%s: %s: [%s] %s: %s' % (pid, o['at'], o['rule'],
                                           o['construct'], o['why']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    else:
        print('%s: %d obligations in %d functions hold (%d paths, %.1f s)' %
              (pid, n - len(listed), len(ck.functions), ck.paths,
               time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
