"""Every probe (the try_ and check_ functions of the builders, the tests of the
configuration and each function of them that handles an error of a call) is
followed once for each kind of error its steps could fail with.  On every path an
error other than a failed command must leave the function, and after a failed
command the answer must be no (or, for a probe that expects the command to fail,
no on success).  An answer of yes needs the steps of that probe on the path, with
every inner answer known to be yes, and an answer of no without a failure needs an
inner answer of no, a missing header or output that differs."""
from .common import *

EXEC = 'fbuild.ExecutionError'
CONFIG = 'fbuild.ConfigFailed'
FIELD = 'fbuild.config.c.AbstractFieldDescriptor'

OTHERS = ('builtins.KeyboardInterrupt', 'builtins.OSError',
          'builtins.FileNotFoundError', 'builtins.PermissionError',
          'builtins.TypeError', 'builtins.AttributeError',
          'builtins.KeyError', 'builtins.ValueError',
          'builtins.UnicodeDecodeError', 'builtins.RuntimeError',
          CONFIG)

# what must have been done for a probe of that name to answer yes
NEEDED = {
    'try_compile': ('compile',),
    'try_link_lib': ('compile', 'link_lib'),
    'try_link_exe': ('compile', 'link_exe'),
    'try_run': ('tempfile_run',),
    'tempfile_run': ('run',),
}

T = {
    'only-failures': 'an error that is not a failed command is not an answer',
    'failure-is-no': 'when a step failed the answer is no',
    'yes': 'the answer is yes only if every step of the probe succeeded',
    'no': 'the answer is no only because of a step of the probe',
    'runs': 'running a probe program compiles, links and runs it',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('what the compiler and the probe program do is not looked at')
    seen = 0
    for fi in probes(ck.prog):
        seen += probe(ck, fi)
    outputs(ck)
    runs(ck)
    for k in T:
        ck.at_least(k, 1)
    if seen < 10:
        raise AnalysisBroken('only %d probes found' % seen)


def named(fi):
    return fi.name.startswith(('try_', 'check_'))


def probes(prog):
    for fi in sorted(prog.functions.values(), key=lambda f: f.qual):
        if not fi.qual.startswith(('fbuild.builders.', 'fbuild.config.')) or \
                fi.is_lambda or fi.name in ('check_version',
                                            'guess_platform') or \
                fi.is_generator:
            continue
        if named(fi) and fi.cls is not None or \
                fi.qual == FIELD + '.__call__' or handles(fi):
            yield fi


def handles(fi):
    """Does it have a handler around a call?"""
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Try) and n.handlers and any(
                isinstance(x, ast.Call) for b in n.body
                for x in ast.walk(b)):
            return True
        if isinstance(n, ast.With) and any(
                'suppress' in ast.unparse(i.context_expr) for i in n.items):
            return True
    return False


PURE = ('join', 'format', 'decode', 'encode', 'split', 'strip', 'rstrip',
        'lstrip', 'append', 'add', 'extend', 'update', 'startswith',
        'endswith', 'match', 'group', 'items', 'keys', 'values', 'splitlines',
        'get', 'lower', 'upper', 'check', 'passed', 'failed', 'log', 'write',
        'insert', 'replace', 'copy', 'index', 'count', 'format_test', 'sub',
        'pop', 'union', 'find', 'search', 'setdefault')


class Probe(Policy):
    """ts: failed, other = which kind of error happened; steps = what was
    done; said = what was logged last"""
    track_exc = True
    max_states = 120
    exc = EXEC
    bad = None
    fi = None
    answers = True

    def ignored(self, name):
        return True

    def inline(self, fi):
        return fi.name in ('tempfile', 'tempdir') or \
            fi.name.startswith('tempfile_') and fi.name != 'tempfile_run' or \
            super().inline(fi)

    def say(self, rule, why, node):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)

    def step(self, name, recv):
        t = tail(name)
        if name == '<value>':
            return recv is not None and recv[0] in ('self', 'param', 'attr')
        if name.startswith(('builtins.', 'set.', 'aug.', 'del.', 'with.',
                            'fbuild.path.', 'os.', 'textwrap.', 'io.', 're.',
                            'fbuild.console.', 'itertools.', 'tempfile.',
                            'fbuild.record.', 'contextlib.', 'count.',
                            'shutil.', 'copy.', 'functools.',
                            'collections.')) or name in (
                                'yield', '<value>') or t in PURE:
            return False
        if name.startswith('fbuild.') and t[:1].isupper():
            # making an object of the program
            return name.startswith('fbuild.builders.')
        if name.startswith(FIELD) or recv == ('self', FIELD):
            return False
        return True

    def may_raise(self, name, recv):
        return self.step(name, recv)

    def raised(self, name, recv):
        return self.exc

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['failed'] = tail(name)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        t = tail(name)
        if t in ('passed', 'failed') and recv is not None:
            s.ts['said'] = t
        elif self.step(name, recv):
            if s.ts.get('failed') and not self.answers:
                s.ts['again'] = True
            if len(s.ts.get('steps', ())) < 6:
                s.ts['steps'] = tuple(sorted(
                    {t, *s.ts.get('steps', ())}))
            if dict(kwargs).get('ignore_error') == const(True):
                self.say('yes', 'a command that fails is ignored', node)

    def on_branch(self, s):
        return {}


def no(t):
    """Is this an answer of no?  None if it cannot be told."""
    if t[0] == 'const':
        return not t[2]
    if t[0] in ('tuple', 'list', 'set', 'new', 'comp'):
        return None
    if t[0] == 'call' or t[0] == 'attr' or t[0] == 'not':
        return None
    return None


def probe(ck, fi):
    bad = {}
    answers = named(fi) or fi.qual == FIELD + '.__call__' or \
        fi.qual.startswith('fbuild.config.')
    kinds = [k for k in OTHERS if answers or k != CONFIG]
    found = False
    for kind in kinds:
        pol = Probe()
        pol.bad, pol.exc, pol.fi = bad, kind, fi
        if not answers:
            pol.max_states, pol.answers = 8, False
        r = ck.explored(run(ck.prog, fi, pol))
        for s, t in r.returns:
            if s.ts.get('failed'):
                pol.say('only-failures', 'it answers although %s failed with '
                        '%s' % (s.ts['failed'], tail(kind)), fi.node)
    pol = Probe()
    pol.bad, pol.fi = bad, fi
    if not answers:
        pol.max_states, pol.answers = 8, False
    r = ck.explored(run(ck.prog, fi, pol))
    fails = [(s, t) for s, t in r.returns if s.ts.get('failed')]
    fine = [(s, t) for s, t in r.returns if not s.ts.get('failed')]
    found = bool(fails or fine) and any(
        s.ts.get('steps') for s, t in r.returns)
    # a probe that expects its last command to fail
    inverted = any(s.ts['failed'] == 'execute' and yes(s, t)
                   for s, t in fails) and not any(
        yes(s, t) for s, t in fine)
    for s, t in fails:
        if inverted and s.ts['failed'] == 'execute' and set(
                s.ts['steps']) & {'uncached_link_exe'}:
            continue
        if yes(s, t) and not s.ts.get('again'):
            pol.say('failure-is-no', 'it does not answer no although %s '
                    'failed' % s.ts['failed'], fi.node)
        elif s.ts.get('said') == 'passed' and not inverted and \
                not s.ts.get('again'):
            pol.say('failure-is-no', 'a failure is logged as passed', fi.node)
        elif fi.name == '__init__':
            pol.say('failure-is-no', 'it accepts a tool although %s failed' %
                    s.ts['failed'], fi.node)
    if answers and not inverted:
        for s, t in fine:
            good(pol, s, t, fi)
    rules = ['only-failures', 'failure-is-no']
    if answers:
        rules += ['yes', 'no']
    report(ck, fi, bad, rules)
    return found


def run(prog, fi, pol):
    return Interp(prog, pol).run(fi, cls=fi.cls)


def yes(s, t):
    if t[0] == 'const':
        return bool(t[2])
    k = s.holds(t)
    if k is not None:
        return k
    if t[0] == 'new':
        return s.coll.get(t, ('U',))[0] != 'E'
    return True


def inner(t):
    """Is this the answer of an inner probe?"""
    return t[0] == 'call' and (
        tail(t[1]).startswith(('try_', 'check_')) or
        tail(t[1]) == 'process_stdout')


def good(pol, s, t, fi):
    """A way the probe answered without a failure."""
    if t[0] == 'call' and inner(t):
        return
    asked = {}
    for f, p in s.facts:
        if inner(f):
            asked[f] = p
    if t[0] == 'not' or t[0] == 'cmp':
        if any(inner(x) for x in terms(t)):
            pol.say('yes', 'it answers the opposite of an inner probe',
                    fi.node)
        return
    steps = s.ts.get('steps', ())
    if yes(s, t):
        if s.ts.get('said') == 'failed':
            pol.say('yes', 'an answer of yes is logged as failed', fi.node)
        if t == const(True) or t[0] == 'const':
            if not steps:
                pol.say('yes', 'it answers yes without having tried',
                        fi.node)
            for a, p in asked.items():
                if not p:
                    pol.say('yes', 'it answers yes although %s said no' %
                            tail(a[1]), fi.node)
            if not asked and any(x.startswith(('try_', 'check_'))
                                 for x in steps):
                pol.say('yes', 'it answers yes whatever %s said' %
                        ' and '.join(steps), fi.node)
        elif any(p is False for a, p in asked.items()) and \
                t[0] == 'call':
            pol.say('yes', 'it answers yes although a step said no', fi.node)
        for w in NEEDED.get(fi.name, ()):
            if not done(w, steps):
                pol.say('yes', 'it answers yes without %s' %
                        w.replace('_', ' '), fi.node)
    else:
        if s.ts.get('said') == 'passed':
            pol.say('no', 'an answer of no is logged as passed', fi.node)
        if t[0] == 'new':
            return
        if any(p is False for p in asked.values()):
            return
        if any(a for a in s.facts if about(a[0], fi)):
            return
        pol.say('no', 'it answers no although no step of it failed', fi.node)


def about(f, fi):
    """Does this say something about a header, the output of a command or
    another test?"""
    for x in terms(f):
        if x[0] == 'attr' and (x[2] in ('header', 'dlclose', 'LoadLibrary') or
                               x[1][0] == 'self' and
                               fi.qual.startswith('fbuild.config.')):
            return True
        if x[0] == 'param' and x[1] == 'stdout':
            return True
        if x[0] == 'call' and tail(x[1]) in ('execute', 'run',
                                             'tempfile_run'):
            return True
    return False


def done(w, steps):
    return any(x in (w, 'uncached_' + w, '_' + w) or
               w == 'run' and x in ('execute', 'run', '_run')
               for x in steps)


def terms(t):
    yield t
    for x in subterms(t):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x != t:
            yield x


def report(ck, m, bad, rules):
    for rule in rules:
        got = sorted((n, w) for (k, w), n in bad.items() if k == rule)
        ck.require(rule, m.qual, not got, '; '.join(w for n, w in got),
                   '%s:%d' % (m.module.relpath, got[0][0] if got and
                              got[0][0] else m.node.lineno))
    bad.clear()


# --------------------------------------------------------------------- outputs

def outputs(ck):
    """What a test of the configuration makes of the output."""
    base = ck.prog.require_class(FIELD)
    n = 0
    for c in ck.prog.subclasses(FIELD, True):
        m = c.methods.get('process_stdout')
        if m is None:
            continue
        n += 1
        pol = Probe()
        pol.bad, pol.fi = {}, m
        pol.may_raise = lambda name, recv: False
        out = ('param', m.params[-1])
        want = ('attr', ('self', c.qual), 'stdout')
        pol.keep = lambda s: (s.holds(('cmp', 'Is', want, NONE)),
                              s.holds(want), *(
            s.holds(('cmp', 'Eq', a, b))
            for a, b in ((want, out), (out, want))))
        r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
        for s, t in r.returns:
            eq = ('cmp', 'Eq', *sorted([want, out], key=repr))
            ws = [(w.holds(('cmp', 'Is', want, NONE)) is True or
                   w.holds(want) is False, w.holds(eq))
                  for w in worlds(s)]
            if yes(s, t):
                if not (all(free or same for free, same in ws) or any(out in terms(x)
                                            for x in results(s, t))):
                    pol.say('yes', 'it answers yes whatever the program '
                            'printed', m.node)
                if s.ts.get('said') == 'failed':
                    pol.say('yes', 'an answer of yes is logged as failed',
                            m.node)
            else:
                if s.ts.get('said') == 'passed':
                    pol.say('no', 'an answer of no is logged as passed',
                            m.node)
                if any(same is not False or free for free, same in ws):
                    pol.say('no', 'it answers no although the program '
                            'printed what was expected', m.node)
        report(ck, m, pol.bad, ('yes', 'no'))
    if n < 5:
        raise AnalysisBroken('only %d tests of the configuration found' % n)


def results(s, t):
    yield t
    if t[0] == 'call':
        yield from t[3]
        for k, v in t[4]:
            yield v


# ----------------------------------------------------------- running a program

def runs(ck):
    n = 0
    for fi in sorted(ck.prog.functions.values(), key=lambda f: f.qual):
        if fi.name != 'tempfile_run' or fi.cls is None or \
                not fi.qual.startswith('fbuild.builders.'):
            continue
        pol = Probe()
        pol.bad, pol.fi = {}, fi
        r = ck.explored(run(ck.prog, fi, pol))
        if all(t == NONE and not s.ts.get('steps') for s, t in r.returns):
            # to be provided by others
            continue
        n += 1
        for s, t in r.returns:
            steps = s.ts.get('steps', ())
            if s.ts.get('failed'):
                pol.say('runs', 'it returns although %s failed' %
                        s.ts['failed'], fi.node)
                continue
            for w in ('compile', 'run'):
                if not done(w, steps):
                    pol.say('runs', 'it returns without having %s the '
                            'program' % ('run' if w == 'run' else
                                         'compiled'), fi.node)
            if t[0] != 'call' or not done('run', (tail(t[1]),)):
                pol.say('runs', 'it does not return what the program printed',
                        fi.node)
        report(ck, fi, pol.bad, ('runs', 'yes'))
    if not n:
        raise AnalysisBroken('no way to run a probe program was found')
