"""Running a command is followed on every path, with starting, feeding and
waiting for it failing in every way, interrupts included, and with the timer
firing at any moment: what the timer's function changes is unknown from the time
the timer was started.  It may return only when the command was started and
waited for, its exit status is known to be zero or ignored, it is known not to
have been interrupted, and the timer is known not to have fired; the output
returned must be that of this command.  Conversely a command that ran through
must not make it raise.  The timer must be started whenever a time limit is
given, must note that it fired before it kills the process group, and must be
cancelled on every way out; an interrupt must kill the group and go on."""
from .common import *

EXECUTE = 'fbuild.context.Context'
POPEN = 'fbuild.subprocess.killableprocess.Popen'
ASYNC = ('global', '<set by the timer>')
SIGINT = ('global', 'signal.SIGINT')

T = {
    'failed': 'a command that fails is never taken as success, unless that was asked for',
    'no-false-alarm': 'a command that succeeds returns its output',
    'output': 'the output returned is that of the command',
    'timeout': 'a command that exceeds its time limit is killed with its children and reported',
    'timer-ends': 'the timer never outlives the run',
    'interrupt': 'an interrupt kills the command with its children and goes on',
    'errors': 'the errors raised for commands are the ones callers tell apart',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    m = ck.prog.require_method(EXECUTE, 'execute')
    for p in ('timeout', 'ignore_error', 'cmd', 'input'):
        if p not in m.params + kwonly(m):
            ck.require('failed', m.qual, False, 'it has no parameter %s' % p,
                       where(m))
            return
    bad = {}
    follow(ck, m, 'builtins.KeyboardInterrupt', bad)
    follow(ck, m, '?', bad)
    for rule in T:
        if rule != 'errors':
            got = sorted((n, w) for (k, w), n in bad.items() if k == rule)
            ck.require(rule, m.qual, not got, '; '.join(w for n, w in got),
                       '%s:%d' % (m.module.relpath, got[0][0] if got and
                                  got[0][0] else m.node.lineno))
    e = ck.prog.require_class('fbuild.ExecutionError')
    t = ck.prog.require_class('fbuild.ExecutionTimedOut')
    ck.require('errors', t.qual, e in t.mro(), 'a timeout is not an '
               'execution error any more', '%s:%d' % (
                   t.module.relpath, t.node.lineno))
    ck.require('errors', e.qual, ck.prog.require_class('fbuild.Error')
               in e.mro(), 'a failing command is not a build error any more',
               '%s:%d' % (e.module.relpath, e.node.lineno))
    for k in T:
        ck.at_least(k, 1)


def kwonly(fi):
    return [a.arg for a in fi.node.args.kwonlyargs]


KEEP = {'timeout': 'tmo', 'ignore_error': 'ign'}


class Execute(Policy):
    """ts: proc = started; failed = starting or waiting failed; waited;
    armed = the timer runs; fires = what its function did; killed;
    tmo, ign, rc, int, fired = what is known of the limit, of ignoring errors,
    of the status, of an interrupted command, of the timer"""
    track_exc = True
    max_states = 12
    exc = bad = None

    def ignored(self, name):
        return True

    def say(self, rule, why, node):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)

    # -- terms

    def proc(self, t):
        if t is None:
            return False
        if t[0] == 'phi':
            return all(self.proc(x) for x in t[1:] for x in
                       (x if isinstance(x, frozenset) else [x]))
        return t[0] == 'call' and tail(t[1]) == 'Popen'

    def timer(self, t):
        return t is not None and t[0] == 'call' and tail(t[1]) == 'Timer'

    def status(self, t):
        return t[0] == 'call' and tail(t[1]) in ('wait', 'poll') and \
            self.proc(t[2]) or t[0] == 'attr' and t[2] == 'returncode' and \
            self.proc(t[1])

    def output(self, t):
        return t[0] == 'call' and tail(t[1]) == 'communicate' and \
            self.proc(t[2])

    def model(self, it, name, recv, args, kwargs, st, node):
        if tail(name) == 'Popen' and not isinstance(node, ast.Attribute):
            for k in ('timeout', 'ignore_error'):
                v = st.holds(('param', k))
                if v is not None:
                    st.ts[KEEP[k]] = v
            out = []
            for x, v in it.opaque_call(name, recv, args, kwargs, st, node,
                                       it.cur_frame):
                t = ('call', name, None, (), ())
                x = self.coarse(x)
                x.facts = x.facts | there(t)
                out.append((x, t))
            return out
        return None

    def integer(self, t):
        return self.status(t)

    def known(self, t):
        return there(t) if self.timer(t) else frozenset()

    def coarse(self, s):
        """Forget how the command line was put together."""
        keep = {}
        for k, v in s.env.items():
            if v[0] in ('const', 'closure', 'bound', 'self') or \
                    v[0] == 'param' and v[1] in ('cmd', 'input', *KEEP) or \
                    v[0] == 'call' and 'thread' in v[1] or v[0] == 'new':
                keep[k] = v
            else:
                keep[k] = ANY
        s.env = keep
        s.must = s.may = frozenset()
        s.facts = frozenset(f for f in s.facts if any(
            mentions(f[0], ('param', k)) for k in KEEP))
        return s

    # -- what is known on a path

    def on_branch(self, s):
        up = {}
        k = s.holds(('param', 'timeout'))
        if k is not None:
            up['tmo'] = k
        k = s.holds(('param', 'ignore_error'))
        if k is not None:
            up['ign'] = k
        flag = s.ts.get('flag')
        for f, p in s.facts:
            if self.status(f):
                up['rc'] = p
            elif f[0] == 'cmp' and f[1] in ('Eq', 'NotEq', 'Is', 'IsNot'):
                same = p == (f[1] in ('Eq', 'Is'))
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if self.status(a) and b == const(0):
                        up['rc'] = not same
                    elif self.status(a) and interrupted(b):
                        up['int'] = same
                    elif a == ASYNC and b[0] == 'const':
                        up['fired'] = same == bool(b[2])
            elif f[0] == 'cmp' and f[1] == 'Gt' and self.status(f[2]) and \
                    f[3] == const(0) and p:
                up['rc'] = True
            elif f == ASYNC:
                up['fired'] = p
            elif flag is not None and f[0] == 'call' and \
                    f[1] == '.is_set' and f[2] == flag:
                up['fired'] = p
            elif flag is not None and f == flag:
                up['fired'] = p
        return up

    def stale(self, s):
        """The timer may fire now."""
        cells = s.ts.get('cells')
        if not cells or not s.ts.get('armed'):
            return
        for kind, k in cells:
            if kind == 'env':
                s.env[k] = ASYNC
            elif kind == 'heap':
                s.heap[k] = ASYNC
            else:
                s.coll.pop(k, None)
        s.facts = frozenset(f for f in s.facts if not mentions(f[0], ASYNC))
        s.ts.pop('fired', None)

    # -- events

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        t = tail(name)
        if ts.get('cb'):
            self.in_timer(s, t, recv, args, kwargs, node)
            return
        if t == 'Popen':
            ts['proc'] = True
            if name != POPEN:
                self.say('interrupt', 'the command is not started in its own '
                         'process group', node)
            if not args or args[0] != ('param', 'cmd'):
                if dict(kwargs).get('args') != ('param', 'cmd'):
                    self.say('failed', 'something else than the command is '
                             'run', node)
        elif t == 'Timer':
            self.made(s, args, dict(kwargs), node, it)
        elif t == 'start' and self.timer(recv):
            ts['armed'] = True
            self.stale(s)
        elif t == 'cancel' and self.timer(recv):
            ts['armed'] = False
            ts['over'] = True
        elif t in ('communicate', 'wait') and self.proc(recv):
            self.waiting(s, t, node)
            if t == 'communicate' and not (
                    args and args[0] == ('param', 'input') or
                    dict(kwargs).get('input') == ('param', 'input')):
                self.say('output', 'the input is not given to the command',
                         node)
            ts['waited'] = True
            self.stale(s)
        elif t == 'kill' and self.proc(recv):
            self.kills(s, args, kwargs, node)

    def kills(self, s, args, kwargs, node):
        g = dict(kwargs).get('group', args[0] if args else TRUE)
        if s.holds(g) is not True:
            self.say('timeout' if s.ts.get('cb') else 'interrupt',
                     'only the command itself is killed, not its children',
                     node)
        s.ts['killed'] = True

    def waiting(self, s, t, node):
        ts = s.ts
        if ts.get('tmo') is not False and not ts.get('armed') and \
                not ts.get('over'):
            self.say('timeout', 'a time limit was given but no timer is '
                     'running while the command is waited for', node)
        if ts.get('over') and t == 'communicate':
            self.say('timeout', 'the timer is cancelled before the command '
                     'has ended', node)

    def made(self, s, args, kw, node, it):
        if not args or not mentions(args[0], ('param', 'timeout')):
            if 'interval' not in kw or not mentions(
                    kw['interval'], ('param', 'timeout')):
                self.say('timeout', 'the timer is not set to the time limit',
                         node)
        f = args[1] if len(args) > 1 else kw.get('function', NONE)
        a = args[2] if len(args) > 2 else kw.get('args', NONE)
        a = tuple(a[1:]) if a[0] in ('tuple', 'list') else ()
        x = s.copy()
        x.ts['cb'] = True
        x.ts['killed'] = False
        x.ts['fires'] = None
        before = (dict(s.env), dict(s.heap), dict(s.coll))
        self.start = before
        outs = [y for y, v in it.call(f, a, (), x, node, it.cur_frame)]
        cells, flags = set(), set()
        for y in outs:
            got, flag = changed(before, y, it.prog)
            cells |= got
            if y.ts.get('fires'):
                flags.add(y.ts['fires'])
            if not y.ts.get('killed'):
                self.say('timeout', 'the timer does not kill the command',
                         node)
        if not outs:
            self.say('timeout', 'the timer does not kill the command', node)
        if not cells and not flags:
            self.say('timeout', 'the timer does not note that it fired', node)
        s.ts['cells'] = frozenset(cells)
        if flags:
            s.ts['flag'] = sorted(flags, key=repr)[0]

    def in_timer(self, s, t, recv, args, kwargs, node):
        if t == 'set' and recv is not None:
            s.ts['fires'] = recv
        elif t in ('append', 'add') and recv is not None:
            s.ts['fires'] = recv
        elif t == 'kill' and self.proc(recv):
            cells, flag = changed(self.start, s, None)
            if not cells and not s.ts.get('fires'):
                self.say('timeout', 'the timer kills the command before it '
                         'notes that it fired: the command can be taken for '
                         'one that ended by itself', node)
            self.kills(s, args, kwargs, node)

    def on_raise(self, s, name, recv, args, node, it):
        ts = s.ts
        t = tail(name)
        if t == 'kill':
            ts['killed'] = True
            return
        if t in ('communicate', 'wait') and self.proc(recv):
            self.waiting(s, t, node)
        self.stale(s)
        ts['failed'] = True

    def may_raise(self, name, recv):
        t = tail(name)
        return t == 'Popen' or t in ('communicate', 'wait') and \
            self.proc(recv) or t == 'start' and self.timer(recv)

    def fails(self, state, name, recv, args, kwargs):
        return not state.ts.get('cb')

    def raised(self, name, recv):
        return self.exc


def there(t):
    return frozenset({(t, True), (('cmp', 'Is', t, NONE), False)})


def changed(before, y, prog):
    """The variables of others a callback changed, as (kind, key)."""
    env, heap, coll = before
    got = set()
    for k, v in env.items():
        if k in y.env and y.env[k] != v:
            got.add(('env', k))
    for k, v in y.heap.items():
        if heap.get(k) != v and not (isinstance(k[0], tuple) and
                                     k[0][0] == 'call'):
            got.add(('heap', k))
    for k, v in y.coll.items():
        if k in coll and coll[k] != v:
            got.add(('coll', k))
    return got, None


def interrupted(t):
    """-signal.SIGINT"""
    return t == const(-2) or any(x == SIGINT for x in subterms(t)) and \
        t != SIGINT


def follow(ck, m, exc, bad):
    pol = Execute()
    pol.exc, pol.bad = exc, bad
    r = ck.explored(Interp(ck.prog, pol).run(
        m, cls=ck.prog.require_class(EXECUTE)))
    say = pol.say
    for s, t in r.returns:
        ts = s.ts
        if ts.get('failed'):
            say('failed' if exc == '?' else 'interrupt',
                'it returns although %s' % (
                    'the command could not be run' if exc == '?' else
                    'it was interrupted'), m.node)
            continue
        if not ts.get('proc') or not ts.get('waited'):
            say('failed', 'it returns without running the command to its '
                'end', m.node)
            continue
        if ts.get('rc') is not False and ts.get('ign') is not True:
            say('failed', 'it returns although the command may have failed',
                m.node)
        if ts.get('rc') is not False and ts.get('int') is not False:
            say('interrupt', 'it returns although the command may have been '
                'interrupted', m.node)
        if ts.get('tmo') is not False and ts.get('fired') is not False:
            say('timeout', 'it returns although the time limit may have been '
                'exceeded', m.node)
        v = t[1:] if t[0] == 'tuple' else ()
        if not (pol.output(t) or len(v) == 2 and all(
                x[0] == 'item' and x[2] == const(i) and pol.output(x[1])
                for i, x in enumerate(v))):
            say('output', 'what it returns is not the output of the command',
                m.node)
    for s, t in r.returns + r.raises:
        if s.ts.get('armed'):
            say('timer-ends', 'the timer is not cancelled on a way out',
                m.node)
    for s, t in r.raises:
        ts = s.ts
        if ts.get('failed'):
            if exc == '?':
                continue
            if t[:2] != ('exc', exc):
                say('interrupt', 'an interrupt is turned into another error',
                    m.node)
            if ts.get('proc') and not ts.get('killed'):
                say('interrupt', 'an interrupt does not kill the command',
                    m.node)
            continue
        if not ts.get('waited') or t[0] != 'exc':
            continue
        c = tail(t[1])
        if c == 'KeyboardInterrupt':
            if ts.get('int') is not True:
                say('no-false-alarm', 'a command that was not interrupted is '
                    'taken for an interrupted one', m.node)
        elif c == 'ExecutionTimedOut':
            if ts.get('fired') is not True:
                say('no-false-alarm', 'a command is said to have timed out '
                    'that did not', m.node)
        elif ts.get('rc') is not True or ts.get('ign') is not False:
            if ts.get('fired') is not True:
                say('no-false-alarm', 'it raises %s for a command that '
                    'succeeded or whose failure was to be ignored' % c,
                    m.node)
        elif not t[1].startswith('fbuild.Execution'):
            say('errors', 'a failing command raises something else than an '
                'ExecutionError', m.node)
    if not r.returns and exc == '?':
        say('failed', 'it never returns', m.node)
