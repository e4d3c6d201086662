"""The process class is followed for systems with process groups.  Starting: what
the constructor hands to the standard one must make the child the leader of a
new session or group on every path, also with the caller's own child set-up,
which must still be called.  Killing: on every path the group of this process is
signalled unless the caller declined it, with SIGKILL unless an interrupt was
asked for, and the only error tolerated is that the process is gone.  Waiting: on
every path the exit status of this process was collected, a wait that may block
for ever is made only without a time limit or after killing, and the handling of
SIGCHLD is put back on every way out, whatever fails."""
from .common import *

POPEN = 'fbuild.subprocess.killableprocess.Popen'
MODULE = 'fbuild.subprocess.killableprocess'
ME = ('self', POPEN)
WINDOWS = ('global', MODULE + '.mswindows')

T = {
    'own-group': 'every command is started as leader of its own group',
    'set-up': 'the child set-up of the caller is still done',
    'kills-group': 'killing signals the group of the process by default',
    'kill-errors': 'only a process that is gone may make killing do nothing',
    'reaped': 'waiting collects the exit status and returns it',
    'limit': 'a process that exceeds the time limit is killed',
    'restored': 'the handling of SIGCHLD is put back on every way out',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('the branches for Windows are not looked at')
    c = ck.prog.require_class(POPEN)
    bad = {}
    start(ck, c, bad)
    kill(ck, c, bad)
    wait(ck, c, bad)
    for k in T:
        ck.at_least(k, 1)


class Posix(Policy):
    track_exc = True
    max_states = 60
    exc = '?'
    bad = None
    failing = ()

    def ignored(self, name):
        return True

    def say(self, rule, why, node):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)

    def may_raise(self, name, recv):
        return tail(name) in self.failing

    def raised(self, name, recv):
        return self.exc

    def integer(self, t):
        return t[0] == 'item' and t[1][0] == 'call' and \
            tail(t[1][1]) == 'waitpid'


def run(ck, m, c, pol):
    st = State()
    st.facts = frozenset({(WINDOWS, False), (
        ('cmp', 'Eq', *sorted([const('win32'), ('global', 'sys.platform')],
                              key=repr)), False)})
    return ck.explored(Interp(ck.prog, pol).run(m, cls=c, state=st))


def report(ck, m, bad, rules):
    for rule in rules:
        got = sorted((n, w) for (k, w), n in bad.items() if k == rule)
        ck.require(rule, m.qual, not got, '; '.join(w for n, w in got),
                   '%s:%d' % (m.module.relpath, got[0][0] if got and
                              got[0][0] else m.node.lineno))


def upper(name, recv, args, meth):
    """Is this call the method of the base class?"""
    return tail(name) == meth and (
        name == 'subprocess.Popen.' + meth and args[:1] == (ME,) or
        recv is not None and recv[0] == 'superof')


# ------------------------------------------------------------------- starting

KW = ('param', 'kwargs')


class Start(Posix):
    """ts: began = the base class was asked; in the child: lead = leads its
    own group, own = the caller's set-up was done"""

    def given(self, s, kwargs, key):
        """The value the base class gets for a keyword, None if unknown."""
        kw = dict(kwargs)
        if key in kw:
            return kw[key]
        more = kw.get('**')
        if more is None:
            return None
        if more[0] == 'call' and more[1] == 'builtins.dict':
            if key in dict(more[4]):
                return dict(more[4])[key]
            more = more[3][0] if more[3] else more
        if (more, ('idx', const(key))) in s.heap:
            return s.heap[(more, ('idx', const(key)))]
        if more[0] == 'dict':
            for x in more[1:]:
                if x[0] == 'kv' and x[1] == const(key) or \
                        x[0] == 'tuple' and x[1] == const(key):
                    return x[2]
        return dict(s.ts.get('upd', ())).get(key)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        t = tail(name)
        if ts.get('child'):
            if t in ('setsid', 'setpgrp') or t == 'setpgid' and \
                    args == (const(0), const(0)):
                ts['lead'] = True
            elif self.theirs(recv) or any(self.theirs(a) for a in args) or \
                    recv is not None and mentions(recv, self.real):
                ts['own'] = True
            return
        if t in ('pop', 'get') and args and args[0] == const('preexec_fn'):
            if t == 'pop':
                ts['taken'] = True
            self.real = ('call', name, recv, args, kwargs)
        elif name == 'del.item' and args and args[0] == const('preexec_fn'):
            ts['taken'] = True
        elif t == 'update' and kwargs:
            ts['upd'] = tuple(dict(ts.get('upd', ())) | dict(kwargs))
        elif upper(name, recv, args, '__init__'):
            self.base(s, args, kwargs, node, it)

    real = ('none',)

    def theirs(self, t):
        return t is not None and (t == self.real or t[0] == 'item' and
                                  t[2] == const('preexec_fn'))

    def base(self, s, args, kwargs, node, it):
        ts = s.ts
        if ts.get('began'):
            self.say('own-group', 'the command is started twice', node)
        ts['began'] = True
        if not any(a[0] == 'star' or mentions(a, ('param', 'args'))
                   for a in args):
            self.say('own-group', 'the arguments are not handed on', node)
        if dict(kwargs).get('**') is None:
            self.say('own-group', 'the keyword arguments are not handed on',
                     node)
        session = self.given(s, kwargs, 'start_new_session') == TRUE or \
            self.given(s, kwargs, 'process_group') == const(0)
        f = self.given(s, kwargs, 'preexec_fn')
        if session:
            if ts.get('taken') and not self.theirs(f or NONE) or \
                    f is not None and not self.theirs(f):
                self.child(s, f, node, it, False)
            return
        if f is None:
            self.say('own-group', 'the command is started in the group of '
                     'the program', node)
            return
        self.child(s, f, node, it, True)

    def child(self, s, f, node, it, lead):
        x = s.copy()
        x.ts['child'] = True
        outs = it.call(f or NONE, (), (), x, node, it.cur_frame)
        for y, v in outs:
            if lead and not y.ts.get('lead'):
                self.say('own-group', 'the child does not always become the '
                         'leader of its own group', node)
            if not y.ts.get('own') and not any(
                    self.theirs(f) and not p or f[0] == 'cmp' and
                    f[1] == 'Is' and self.theirs(f[2]) and p
                    for f, p in y.facts):
                self.say('set-up', 'the child set-up of the caller is not '
                         'done', node)


def start(ck, c, bad):
    m = c.methods.get('__init__')
    if m is None:
        ck.require('own-group', POPEN, False, 'it has no constructor of its '
                   'own: commands are started in the group of the program',
                   '%s:%d' % (c.module.relpath, c.node.lineno))
        ck.require('set-up', POPEN, True, '')
        return
    pol = Start()
    pol.bad = bad
    r = run(ck, m, c, pol)
    for s, t in r.returns:
        if not s.ts.get('began'):
            pol.say('own-group', 'nothing is started on a path', m.node)
    if not r.returns:
        pol.say('own-group', 'nothing is ever started', m.node)
    report(ck, m, bad, ('own-group', 'set-up'))


# -------------------------------------------------------------------- killing

PID = ('attr', ME, 'pid')


class Kill(Posix):
    """ts: sent = how the signal was sent"""
    failing = ('killpg', 'kill', 'getpgid', 'send_signal')

    def on_event(self, s, name, recv, args, kwargs, node, it):
        t = tail(name)
        if t == 'killpg':
            if args[0] != PID and not (
                    args[0][0] == 'call' and tail(args[0][1]) == 'getpgid' and
                    args[0][3] == (PID,)):
                self.say('kills-group', 'the group signalled is not that of '
                         'the process', node)
            self.signal(s, args[1], node)
            s.ts['sent'] = 'group'
        elif t == 'kill' and name == 'os.kill' or \
                upper(name, recv, args, t) and t in (
                    'kill', 'terminate', 'send_signal'):
            if s.holds(('param', 'group')) is not False:
                self.say('kills-group', 'only the process is signalled '
                         'although its group was to be', node)
            if name == 'os.kill':
                neg = args[0][0] == 'un' and mentions(args[0], PID)
                if args[0] != PID and not neg:
                    self.say('kills-group', 'another process is signalled',
                             node)
                self.signal(s, args[1], node)
            s.ts['sent'] = 'process'

    def signal(self, s, sig, node):
        x = tail(sig[1]) if sig[0] == 'global' else '?'
        if x == 'SIGINT' and s.holds(('param', 'sigint')) is True:
            return
        if x != 'SIGKILL':
            self.say('kills-group', 'the signal sent can be ignored by the '
                     'process', node)


def kill(ck, c, bad):
    m = ck.prog.require_method(POPEN, 'kill')
    pol = Kill()
    pol.bad = bad
    d = defaults(m)
    if d.get('group') is not True:
        pol.say('kills-group', 'the group is not signalled by default',
                m.node)
    if d.get('sigint', False):
        pol.say('kills-group', 'by default a signal is sent that can be '
                'ignored', m.node)
    for exc in ('builtins.PermissionError', 'builtins.ProcessLookupError'):
        pol.exc = exc
        r = run(ck, m, c, pol)
        for s, t in r.returns:
            if s.ts.get('sent'):
                continue
            if exc == 'builtins.PermissionError' and not gone(s):
                pol.say('kill-errors', 'a process that cannot be killed is '
                        'taken for one that is gone', m.node)
        for s, t in r.raises:
            if exc == 'builtins.ProcessLookupError' and not any(
                    mentions(f[0], ESRCH) for f in s.facts):
                pol.say('kill-errors', 'killing a process that is gone '
                        'fails', m.node)
        if not any(s.ts.get('sent') == 'group' for s, t in r.returns):
            pol.say('kills-group', 'no group is signalled', m.node)
    # a path without any failure that sends nothing
    pol.failing = ()
    for s, t in run(ck, m, c, pol).returns:
        if not s.ts.get('sent') and not any(
                f[0] == 'attr' and f[1] == ME and f[2] == 'returncode' or
                f[0] == 'cmp' and f[2] == ('attr', ME, 'returncode')
                for f, p in s.facts):
            pol.say('kills-group', 'nothing is signalled on a path', m.node)
    report(ck, m, bad, ('kills-group', 'kill-errors'))


ESRCH = ('global', 'errno.ESRCH')


def gone(s):
    return any(p and f[0] == 'cmp' and (
        f[1] == 'Eq' and ESRCH in f[2:] or
        f[1] == 'In' and set(f[3][1:]) == {ESRCH}) for f, p in s.facts)


def defaults(m):
    a = m.node.args
    out = {}
    for x, d in list(zip(reversed(a.args), reversed(a.defaults))) + \
            [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)]:
        if isinstance(d, ast.Constant):
            out[x.arg] = d.value
        elif isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and \
                isinstance(d.operand, ast.Constant):
            out[x.arg] = -d.operand.value
    return out


# -------------------------------------------------------------------- waiting

RC = ('attr', ME, 'returncode')
SIGCHLD = ('global', 'signal.SIGCHLD')


class Wait(Posix):
    """ts: sig = the handling of SIGCHLD was changed; killed; reaped"""
    failing = ('kill', 'waitpid', 'sleep', 'wait', '_handle_exitstatus')

    def unlimited(self, s):
        p = ('param', 'timeout')
        return any(
            q and f[0] == 'cmp' and f[1] in ('Eq', 'Is', 'Lt') and p in f[2:]
            and (f[2][0] == 'const' or f[3][0] == 'const')
            for f, q in s.facts)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        t = tail(name)
        if name == 'signal.signal' and args[:1] == (SIGCHLD,):
            back = args[1][0] == 'call' and (
                args[1][1] == 'signal.signal' and
                args[1][3][:1] == (SIGCHLD,) or
                args[1][1] == 'signal.getsignal' and args[1][3] == (SIGCHLD,))
            ts['sig'] = not back
        elif upper(name, recv, args, 'wait'):
            rest = args[1:] if args[:1] == (ME,) else args
            lim = dict(kwargs).get('timeout', rest[0] if rest else NONE)
            if lim == NONE:
                if not ts.get('killed') and not self.unlimited(s):
                    self.say('limit', 'the wait can last for ever although a '
                             'time limit was given', node)
                ts['reaped'] = True
        elif t == '_handle_exitstatus' and recv == ME:
            x = args[-1]
            if x[0] != 'item' or x[2] != const(1) or \
                    not self.waitpid(x[1], node):
                self.say('reaped', 'the status noted is not that of the '
                         'process', node)
            elif not ended(s, ('item', x[1], const(0))):
                self.say('reaped', 'a process that still runs is taken for '
                         'one that ended', node)
            ts['reaped'] = True
        elif t == 'kill' and recv == ME:
            ts['killed'] = True
            kw = dict(kwargs)
            si = args[1] if len(args) > 1 else kw.get('sigint', FALSE)
            g = args[0] if args else kw.get('group', TRUE)
            if si not in (FALSE, NONE):
                self.say('limit', 'a process that exceeds its limit is sent a '
                         'signal it can ignore', node)
            if g not in (TRUE, ('param', 'group')) and s.holds(
                    ('param', 'group')) is not False:
                self.say('limit', 'only the process is killed although its '
                         'group was to be', node)
        elif t == 'killpg' or name == 'os.kill':
            ts['killed'] = True

    def waitpid(self, t, node):
        if t[0] != 'call' or tail(t[1]) != 'waitpid':
            return False
        if t[3][:1] != (PID,):
            self.say('reaped', 'another process is waited for', node)
        return True

    def on_raise(self, s, name, recv, args, node, it):
        if tail(name) == 'kill':
            s.ts['killed'] = True


def ended(s, pid):
    return any(f == pid and p for f, p in s.facts) or any(
        f[0] == 'cmp' and f[1] in ('Eq',) and pid in f[2:] and (
            not p and const(0) in f[2:] or p and PID in f[2:])
        for f, p in s.facts)


def wait(ck, c, bad):
    m = ck.prog.require_method(POPEN, 'wait')
    pol = Wait()
    pol.bad = bad
    r = run(ck, m, c, pol)
    for s, t in r.returns:
        known = any(f == RC and p or f == ('cmp', 'Is', RC, NONE) and not p
                    for f, p in s.facts)
        if not s.ts.get('reaped') and not known:
            pol.say('reaped', 'it returns without having collected the exit '
                    'status', m.node)
        if t != RC and not (t[0] == 'call' and tail(t[1]) == 'wait'):
            pol.say('reaped', 'it does not return the exit status', m.node)
    for s, t in r.returns + r.raises:
        if s.ts.get('sig'):
            pol.say('restored', 'the handling of SIGCHLD is left changed',
                    m.node)
    if defaults(m).get('timeout', None) not in (-1, None):
        pol.say('limit', 'there is a time limit by default', m.node)
    if not any(s.ts.get('killed') for s, t in r.returns):
        pol.say('limit', 'the process is never killed', m.node)
    if not any(not s.ts.get('killed') and s.ts.get('reaped') and
               not pol.unlimited(s) for s, t in r.returns):
        pol.say('reaped', 'a process that ends within its time limit is '
                'not noticed', m.node)
    report(ck, m, bad, ('reaped', 'limit', 'restored'))
