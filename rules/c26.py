"""Logging is followed for each combination of log file or none, one or several
threads, inside a worker or outside, and a verbosity below, at and above the one
enabled.  On every path a message is either written to the log file exactly once,
and to the console exactly when its level is enabled, or put in the buffer of the
thread together with its level.  Flushing must write every buffered message, in
order, with the level it was logged with, and leave an empty buffer in place;
leaving a worker's task must flush on every way out and put back what was there
before.  Every write to the file or the console must be made while the logger's
lock is held, and a lock taken twice must be one that allows that.  The worker
must run its tasks inside a buffer of its own."""
from .common import *
from sa.interp import mentions
from .c21 import Base, report, terms
from .sched import Roles, Work

LOG = 'fbuild.console.Log'
ME = ('self', LOG)
FILE = ('param', '$file')
LOCKS = ('threading.Lock', 'threading.RLock', '_thread.allocate_lock',
         '_thread.RLock')

T = {
    'file': 'every message is written to the log file, once',
    'console': 'a message is written to the console when its level is enabled '
               'and only then',
    'kept': 'a buffered message is kept with its level until it is written',
    'flush': 'flushing writes every buffered message in order',
    'whole': 'the buffer of a worker stays in place until its task is done',
    'finished': 'what a worker logged is written when its task is done, on '
                'every way out',
    'locked': 'only one thread at a time writes',
    'worker': 'a worker runs its tasks inside a buffer of its own',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('threading.local gives every thread its own buffers')
    bad = {}
    c = ck.prog.require_class(LOG)
    roles = Names(ck, c)
    for name in ('log', 'check', 'passed', 'failed', 'write'):
        message(ck, c, roles, name, bad)
    flush(ck, c, roles, bad)
    finish(ck, c, roles, bad)
    inside(ck, bad)
    opened(ck, bad)
    for k in T:
        ck.at_least(k, 1)


class Names:
    """Which attributes hold the lock and the buffers of the threads."""

    def __init__(self, ck, c):
        m = ck.prog.require_method(LOG, '__init__')
        r = ck.explored(Interp(ck.prog, Base({})).run(m, cls=c))
        self.locks, self.stack = {}, None
        for o in r.obs:
            if o.name != 'set.attr' or o.recv != ME:
                continue
            name, v = o.args[0][2], o.args[1]
            if v[0] == 'call' and v[1] in LOCKS:
                self.locks[name] = v[1]
            for d in ck.prog.classes.values():
                if isinstance(v, tuple) and d.qual in repr(v) and any(
                        b == 'threading.local'
                        for k in d.mro() for b in k.external_bases()):
                    self.stack = ('attr', ME, name)
        self.shared = None
        if self.stack is None:
            # what the buffer of a task is added to
            t = ck.prog.require_method(LOG, 'log_from_thread')
            for o in ck.explored(Interp(ck.prog, Base({})).run(
                    t, cls=c)).obs:
                if tail(o.name) == 'append' and o.recv is not None and \
                        o.recv[0] == 'attr' and o.recv[1] == ME:
                    self.stack, self.shared = o.recv, o.loc
        if not self.locks or self.stack is None:
            raise AnalysisBroken('the lock or the buffers of the logger were '
                                 'not found')
        ck.require('worker', m.qual, self.shared is None, 'the buffers are '
                   'the same for all threads', self.shared or where(m))


class Logging(Base):
    """ts: held = how often the lock is held; file, cons, kept = how often the
    message was written or buffered; depth = buffers added minus removed;
    did = the part of the message loop done for this message"""
    max_states = 120
    names = None
    what = None             # terms of the message
    level = None            # its verbosity
    batch = False           # is it about one buffer, from start to end?

    def inline(self, fi):
        return fi.cls is not None and fi.cls.qual == LOG or \
            super().inline(fi)

    def lock(self, t):
        return t is not None and t[0] == 'attr' and t[1] == ME and \
            t[2] in self.names.locks

    def top(self, t):
        """Is t the buffer in use?"""
        while t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple') \
                and len(t[3]) == 1:
            t = t[3][0]
        S = self.names.stack
        return t == ('item', S, const(-1)) or t[0] == 'call' and \
            tail(t[1]) == 'pop' and t[2] == S and \
            t[3] in ((), (const(-1),))

    def element(self, t):
        """Is t taken from the buffer in use?"""
        for x in terms(t):
            if x[0] == 'elem' and self.top(x[1]):
                return True
            if x[0] == 'call' and tail(x[1]) in ('pop', 'popleft') and \
                    x[2] is not None and self.top(x[2]) and \
                    x[3] in ((const(0),), ()) and \
                    not (tail(x[1]) == 'pop' and x[3] == ()):
                return True
        return False

    def mine(self, t):
        return any(w in terms(t) for w in self.what)

    def count(self, s, k, t):
        for w in self.what:
            if w in terms(t):
                n = dict(s.ts.get(k, ()))
                n[w] = min(n.get(w, 0) + 1, 2)
                s.ts[k] = tuple(sorted(n.items(), key=repr))

    def keep(self, s):
        return (s.holds(self.names.stack),)

    def sink(self, s, name, recv, args):
        """('file'|'console', text) of a write"""
        if tail(name) in ('write', 'writelines'):
            if recv == FILE or recv == ('attr', ME, 'file'):
                return 'file', args[0]
            if name == 'sys.stdout.write' or \
                    recv == ('global', 'sys.stdout'):
                return 'console', args[0]
        if name == 'builtins.print':
            return 'console', args[0]
        if name.endswith('._write_colored_str'):
            return 'console', args[0]
        return None, None

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        S = self.names.stack
        if self.lock(recv):
            if name == 'with.enter' or tail(name) == 'acquire':
                if ts.get('held', 0) and not self.names.locks[
                        recv[2]].endswith('RLock'):
                    self.say('locked', 'the lock is taken twice, which waits '
                             'forever', node)
                if ts.get('held', 0) < 1 and ('loop' in ts or
                                              ts.get('some')):
                    ts['anew'] = True
                ts['held'] = min(ts.get('held', 0) + 1, 5)
            elif name == 'with.exit' or tail(name) == 'release':
                ts['held'] = max(ts.get('held', 0) - 1, -2)
            return
        if recv == S:
            if tail(name) in ('append', 'pop', 'clear') or name == 'del.item':
                self.turn(s)
            if tail(name) == 'append':
                ts['depth'] = min(ts.get('depth', 0) + 1, 3)
                s.facts = s.facts | {(S, True)}
            elif tail(name) == 'pop':
                ts['depth'] = max(ts.get('depth', 0) - 1, -3)
                s.facts = frozenset(f for f in s.facts if f[0] != S)
                if ts.get('depth') > 0:
                    s.facts = s.facts | {(S, True)}
                self.taken(s, ('call', name, recv, args, kwargs))
            elif name == 'set.item' and args[0] == const(-1):
                s.facts = s.facts | {(S, True)}
                ts['fresh'] = True
                ts['now'] = args[1]
            elif name == 'del.item':
                ts['depth'] = max(ts.get('depth', 0) - 1, -3)
                ts['fresh'] = True
            elif tail(name) == 'clear':
                ts['depth'] = -3
            return
        if recv is not None and name.startswith('.') and (
                self.top(recv) or recv == ts.get('now')):
            if tail(name) in ('append',):
                self.count(s, 'kept', args[0])
                if self.what and self.mine(args[0]) and \
                        self.level is not None and \
                        not any(x == self.level for x in terms(args[0])):
                    self.say('kept', 'a message is buffered without its '
                             'level', node)
            elif tail(name) == 'clear':
                if not ts.get('written'):
                    self.say('flush', 'the buffer is emptied before it is '
                             'written', node)
                ts['fresh'] = True
            elif tail(name) in ('insert', 'appendleft', 'reverse', 'sort'):
                self.say('flush', 'the order of the messages is changed',
                         node)
        where, text = self.sink(s, name, recv, args)
        if where is not None:
            if ts.get('held', 0) < 1:
                self.say('locked', 'the %s is written without holding the '
                         'lock' % ('log file' if where == 'file' else
                                   where), node)
            self.count(s, where, text)
            if any(shortened(text, lambda x: x in (self.what or ()) or
                             not self.what and x[:1] in (('elem',), ('item',)) and
                             self.element(x))):
                self.say(where, 'only a part of a message is written', node)
            if self.element(text):
                if ts.get('anew') and self.batch:
                    self.say('locked', 'the lock is given back between the '
                             'messages of a buffer', node)
                ts['some'] = True
                ts['e' + where] = min(ts.get('e' + where, 0) + 1, 2)
                if where == 'console':
                    self.shown(s, True, node)
        if name == LOG + '.flush' and recv == ME and 'loop' in ts and \
                not ts.get('fresh'):
            self.say('flush', 'the buffered messages are written again while '
                     'they are written', node)
        if name == 'yield':
            ts['done'] = True

    def turn(self, s):
        """Another buffer is in use from here on."""
        if s.ts.get('done') and self.whole(s):
            s.ts['whole'] = True
        now = ('item', self.names.stack, const(-1))
        s.facts = frozenset(f for f in s.facts if not mentions(f[0], now))

    def taken(self, s, t):
        if self.top(t):
            s.ts['fresh'] = True

    def enabled(self, s):
        """Is the level of the buffered message in hand enabled?  (as far as
        the path decides; None when the level is left out)"""
        lv = ('const', 'int', 1)
        for f, p in s.facts:
            if f[0] == 'cmp' and f[1] == 'Lt' and f[2] == lv and \
                    self.element(f[3]):
                return not p
        return None

    def shown(self, s, yes, node):
        e = self.enabled(s)
        if yes and e is None and not self.what:
            self.say('console', 'a buffered message is shown whatever its '
                     'level', node)
        if e is not None and e != yes:
            self.say('console', 'a buffered message is %s the console '
                     'although its level is %senabled' % (
                         'written to' if yes else 'not written to',
                         'not ' if yes else ''), node)

    def on_iter(self, s, E, node, it):
        if self.top(E):
            s.ts['loop'] = True
            for k in ('efile', 'econsole'):
                s.ts.pop(k, None)

    def iter_done(self, s, E, node, it):
        if not self.top(E):
            return ()
        self.one(s, node)
        return ('written',)

    def one(self, s, node):
        """A buffered message is done with."""
        if self.what:
            return
        f, c = s.ts.pop('efile', 0), s.ts.pop('econsole', 0)
        if self.file and f != 1:
            self.say('file', 'a buffered message is written to the log file '
                     '%s' % ('more than once' if f else
                             'under some conditions only'), node)
        if c > 1:
            self.say('console', 'a buffered message is shown twice', node)
        if not c:
            self.shown(s, False, node)
            if self.enabled(s) is None:
                self.say('console', 'a buffered message is not shown '
                         'whatever its level', node)

    def whole(self, s):
        """Was every message of the buffer written?"""
        if s.ts.get('whole'):
            return True
        for f, p in s.facts:
            if f[0] == 'forall' and f[2] == ('did', 'written') and \
                    self.top(f[1]):
                return True
            if f[0] == 'forall_none' and self.top(f[1]):
                return True
            if not p and self.top(f):
                return True
        return False


def start(pol, file, stack, threads, level=1):
    s = State()
    s.heap[(ME, 'verbose')] = const(1)
    s.heap[(ME, 'nocolor')] = const(False)
    s.heap[(ME, 'file')] = FILE if file else NONE
    for name in ('_threadcount', 'threadcount'):
        s.heap[(ME, name)] = const(threads)
    facts = set()
    if file:
        facts |= {(FILE, True), (('cmp', 'Is', FILE, NONE), False)}
    if stack is not None:
        facts.add((pol.names.stack, stack))
    s.facts = frozenset(facts)
    pol.file = file
    return s


LESS = ('strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines',
        'partition', 'rpartition')


def shortened(t, is_text, cut=False):
    """The places where a text taken apart ends up in t."""
    if is_text(t):
        if cut:
            yield t
        return
    if not isinstance(t, tuple):
        return
    if len(t) == 5 and t[0] == 'call' and tail(t[1]) in LESS and \
            t[2] is not None or len(t) == 3 and t[0] == 'item' and isinstance(t[2], tuple) and (
                t[2][:1] == ('slice',)):
        cut = True
    for x in t:
        if isinstance(x, tuple):
            yield from shortened(x, is_text, cut)


# --------------------------------------------------------------- the log file

KEEPING = ('strict', 'backslashreplace', 'surrogateescape', 'surrogatepass',
           'xmlcharrefreplace', 'namereplace')


def opened(ck, bad):
    """The log file can hold any text that is logged."""
    n = 0
    for fi in list(ck.prog.functions.values()):
        if fi.is_lambda or not any(
                isinstance(x, ast.Attribute) and x.attr == 'file' and
                isinstance(x.ctx, ast.Store) for x in ast.walk(fi.node)):
            continue
        for o in Interp(ck.prog, Base({})).run(fi, cls=fi.cls).obs:
            if o.name != 'set.attr' or o.args[0][2] != 'file' or \
                    'ogger' not in show(o.recv):
                continue
            v = o.args[1]
            if v[0] != 'call' or v[1] not in ('builtins.open', 'io.open',
                                              'codecs.open'):
                continue
            n += 1
            d = dict(v[4])
            pos = list(v[3])
            err = d.get('errors', pos[4] if len(pos) > 4 else NONE)
            why = None
            if err != NONE and err[0] == 'const' and err[2] not in KEEPING:
                why = 'text that cannot be encoded is left out of the log file'
            mode = d.get('mode', pos[1] if len(pos) > 1 else const('r'))
            if mode[0] == 'const' and isinstance(mode[2], str) and \
                    not set(mode[2]) & set('wax+'):
                why = 'the log file is not opened for writing'
            ck.require('file', fi.qual, why is None, why, o.loc)
    if not n:
        ck.note('no place was found that opens the log file')


# ------------------------------------------------------------------- one message

def message(ck, c, names, name, bad):
    m = ck.prog.require_method(LOG, name)
    what = [('param', p) for p in ('msg', 'result') if p in m.params]
    if name == 'check':
        cases = [(what[:1], {'result': NONE}), (what, {})]
    elif name == 'write':
        cases = [(what[:1], {}), (what[:1], {'buffer': const(False)})]
    else:
        cases = [(what[:1], {})]
    for file in (True, False):
        for threads, stack in ((1, False), (2, False), (2, True)):
            for level in (0, 1, 2):
                for what, args in cases:
                    pol = Logging(bad)
                    pol.names, pol.what = names, what
                    s = start(pol, file, stack, threads)
                    if ('param', 'result') in what:
                        s.facts = s.facts | {(
                            ('cmp', 'Is', ('param', 'result'), NONE), False)}
                    given = dict(args)
                    lv = const(level)
                    if 'verbose' in m.params or any(
                            a.arg == 'verbose' for a in
                            m.node.args.args + m.node.args.kwonlyargs):
                        given['verbose'] = lv
                        pol.level = lv
                    elif level != 1:
                        continue
                    else:
                        del s.heap[(ME, 'verbose')]
                    direct = threads == 1 or not stack or \
                        given.get('buffer') == const(False)
                    r = ck.explored(Interp(ck.prog, pol).run(
                        m, cls=c, args=given, state=s))
                    visible = level <= 1 if pol.level else None
                    for s, t in r.returns:
                        outcome(pol, m, s, direct, file, visible)
    report(ck, m, bad, ('file', 'console', 'kept', 'locked'))


def outcome(pol, m, s, direct, file, visible):
    ts = s.ts
    if ts.get('held', 0) != 0:
        pol.say('locked', 'the lock is not given back', m.node)
    for w in pol.what:
        f, c, k = (dict(ts.get(x, ())).get(w, 0)
                   for x in ('file', 'console', 'kept'))
        which = 'the message' if w[1] == 'msg' else 'the ' + w[1]
        if direct and k:
            pol.say('kept', '%s is put in a buffer although there is none '
                    'or none is wanted' % which, m.node)
        if not direct and not k and not f and file:
            pol.say('kept', '%s of a worker is lost' % which, m.node)
        if k > 1 or k and f:
            pol.say('kept', '%s is buffered and written' % which if f else
                    '%s is buffered twice' % which, m.node)
        if k:
            if c:
                pol.say('kept', '%s is buffered and shown' % which, m.node)
            continue
        if file and f != 1:
            pol.say('file', '%s is written to the log file %s' % (
                which, 'more than once' if f else
                'under some conditions only'), m.node)
        if visible is None:
            continue
        if visible and c != 1:
            pol.say('console', '%s is %s although its level is enabled' % (
                which, 'shown twice' if c else 'not shown'), m.node)
        if not visible and c:
            pol.say('console', '%s is shown although its level is not '
                    'enabled' % which, m.node)


# -------------------------------------------------------------------- the buffer

def flush(ck, c, names, bad):
    m = ck.prog.require_method(LOG, 'flush')
    for file in (True, False):
        pol = Logging(bad)
        pol.names, pol.what, pol.batch = names, (), True
        r = ck.explored(Interp(ck.prog, pol).run(
            m, cls=c, state=start(pol, file, True, 2)))
        for s, t in r.returns:
            if not pol.whole(s):
                pol.say('flush', 'it may end without having written every '
                        'buffered message, oldest first', m.node)
            if s.ts.get('depth', 0) != 0:
                pol.say('whole', 'the buffer of the thread is taken away: '
                        'what its task logs from then on is mixed with what '
                        'other threads log', m.node)
            if not s.ts.get('fresh') and not any(
                    not p and pol.top(f) for f, p in s.facts):
                pol.say('flush', 'the buffered messages are written again '
                        'the next time', m.node)
            if s.ts.get('held', 0) != 0:
                pol.say('locked', 'the lock is not given back', m.node)
    report(ck, m, bad, ('file', 'console', 'flush', 'whole', 'locked'))


class Finish(Logging):
    fail = None

    def may_raise(self, name, recv):
        return name == 'yield' and self.fail is not None

    def raised(self, name, recv):
        return self.fail

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['done'] = True
        s.ts['failed'] = True


def finish(ck, c, names, bad):
    m = ck.prog.require_method(LOG, 'log_from_thread')
    for fail in (None, '?', 'builtins.KeyboardInterrupt',
                 'builtins.SystemExit'):
        pol = Finish(bad)
        pol.names, pol.what, pol.fail = names, (), fail
        r = ck.explored(Interp(ck.prog, pol).run(
            m, cls=c, state=start(pol, True, None, 2)))
        ends = [(s, None) for s, t in r.returns] + [
            (s, e) for s, e in r.raises if e[1] == fail]
        n = 0
        for s, e in ends:
            if not s.ts.get('done'):
                continue
            n += 1
            if not pol.whole(s):
                pol.say('finished', 'what was logged is not written when the '
                        'task %s' % ('failed' if s.ts.get('failed') else
                                     'is done'), m.node)
            if s.ts.get('depth', 0) != 0:
                pol.say('finished', 'the buffer of the task is left behind'
                        if s.ts['depth'] > 0 else
                        'a buffer of another task is taken away', m.node)
            if s.ts.get('failed') and e is None:
                pol.say('finished', 'an error of the task is lost', m.node)
        if not n:
            pol.say('finished', 'it never runs the task', m.node)
    report(ck, m, bad, ('finished', 'locked'))


# -------------------------------------------------------------------- the worker

class Inside(Work):
    def on_event(self, s, name, recv, args, kwargs, node, it):
        before = s.ts.get('ran', 0)
        if name == 'with.enter' and recv[0] == 'call' and \
                tail(recv[1]) == 'log_from_thread':
            s.ts['buffer'] = True
        elif name == 'with.exit' and recv[0] == 'call' and \
                tail(recv[1]) == 'log_from_thread':
            s.ts['buffer'] = False
        super().on_event(s, name, recv, args, kwargs, node, it)
        if s.ts.get('ran', 0) != before:
            self.seen = True
            if not s.ts.get('buffer'):
                self.say('worker', 'a task is run without a buffer for what '
                         'it logs', node)


def inside(ck, bad):
    R = Roles(ck)
    m = ck.prog.require_method(R.worker.qual, 'run')
    pol = Inside()
    pol.roles, pol.bad, pol.seen = R, bad, False
    pol.run_path, pol.back_path = set(), set()
    ck.explored(Interp(ck.prog, pol).run(m, cls=R.worker))
    for k in [k for k in bad if k[0] != 'worker']:
        del bad[k]          # those are looked at elsewhere
    if not pol.seen:
        pol.say('worker', 'no task is run', m.node)
    report(ck, m, bad, ('worker',))
    # the threads share the logger that was given
    used = {o.recv[2] for o in Interp(ck.prog, Base({})).run(
        m, cls=R.worker).obs if tail(o.name) == 'log_from_thread' and
        o.recv is not None and o.recv[0] == 'attr' and o.recv[1] == R.wme}
    why = []
    for o, g in zip(R.makers, R.given):
        for a in used:
            v = g.get(a, ANY)
            none = o.state.holds(('cmp', 'Is', ('param', 'logger'), NONE))
            if none is not True and ('param', 'logger') not in set(terms(v)):
                why.append('a thread logs to something else than the logger '
                           'given')
    ck.require('worker', R.init.qual, not why and used and R.makers,
               why[0] if why else 'no logger is given to the threads',
               where(R.init))
    c = ck.prog.require_class('fbuild.context.Context')
    m = ck.prog.require_method(c.qual, '__init__')
    r = ck.explored(Interp(ck.prog, Base({})).run(m, cls=c))
    me = ('self', c.qual)
    logs = {o.args[1] for o in r.obs if o.name == 'set.attr' and
            o.recv == me and o.args[0] == const('logger')}
    made = [o for o in r.obs if o.name == R.sched.qual]
    names = R.init.params[1:] + [a.arg for a in R.init.node.args.kwonlyargs]
    for o in made:
        given = dict(zip(names, o.args))
        given.update(dict(o.kwargs))
        v = given.get('logger', NONE)
        ck.require('worker', m.qual, v in logs or v == ('attr', me, 'logger'),
                   'the threads log to something else than the logger of the '
                   'context', o.loc)
    if not made:
        ck.note('the context makes no scheduler')
