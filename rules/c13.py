"""The service thread and its clients are followed path by path, failing calls
included, with a typestate for the lock, the running flag and the message in
hand.  What the constructor makes gives the roles (queue, lock, started event);
the message a client puts into the queue and the parts of it the service touches
are matched part by part.  The client may put a message only under the lock with
the flag found true under it, must wait, without the lock, for an event made for
this request, and return the cell the service fills with the handler's result or
raise the one it fills with its error.  The service must answer every message it
takes, once the cell is filled, before it takes another one or ends on any path;
before it ends it must clear the flag and empty the queue in one hold of the
lock.  Nobody may wait for the service while holding the lock it needs."""
import ast

from .common import *

T = {
    'accepted': 'a request is queued only while the service is known, under the lock, to be running',
    'own-answer': 'a client waits for its own request and returns or raises what that one produced',
    'answered': 'every message taken is answered, after its result is stored, on every path',
    'own-result': 'what is stored as the answer is what the handler gave for this message',
    'drained': 'when the service ends it stops accepting and answers what is left, in one hold of the lock',
    'ready': 'start returns only when requests are accepted, and only the service says so',
    'in-order': 'the queue is first in, first out, and the service leaves only for the stop message or an error',
    'stop': 'stopping queues the stop message for a running service and waits for it without the lock',
    'no-wait-locked': 'nobody waits while holding the lock the service needs to end',
}
FIFO = ('queue.Queue', 'queue.SimpleQueue', 'multiprocessing.Queue')
TAKE = ('get', 'get_nowait')
LOCKS = ('threading.Lock', 'threading.RLock', 'threading.Condition',
         'threading.Semaphore', '_thread.allocate_lock')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    roles = Roles(ck)
    if roles.missing:
        ck.require('in-order', RPC, False, roles.missing,
                   where(roles.init))
        return
    flags = client_flags(ck, roles)
    svc = server(ck, roles, flags)
    client(ck, roles, flags, svc)
    others(ck, roles, flags)
    for k in T:
        ck.at_least(k, 1)


class Roles:
    def __init__(self, ck):
        self.ck = ck
        self.c = c = ck.prog.require_class(RPC)
        self.me = ('self', RPC)
        self.init = m = ck.prog.require_method(RPC, '__init__')
        r = ck.explored(Interp(ck.prog, Policy()).run(m, cls=c))
        made = {}
        for o in r.obs:
            if o.name == 'set.attr' and len(o.args) > 1 and \
                    o.args[1][0] == 'call':
                made[o.args[0][2]] = o.args[1][1]
        self.queues = {a for a, n in made.items() if 'ueue' in tail(n)}
        self.locks = {a for a, n in made.items() if n in LOCKS}
        self.events = {a for a, n in made.items() if n == 'threading.Event'}
        self.handlers = {o.args[0][2] for o in r.obs
                         if o.name == 'set.attr' and len(o.args) > 1 and
                         o.args[1] == param(m, 0)}
        self.missing = None
        if len(self.queues) != 1:
            self.missing = 'the constructor makes %d queues of requests' % \
                len(self.queues)
        elif not self.locks:
            self.missing = 'the constructor makes no lock: a request can ' \
                'slip in while the service ends'
        elif not self.handlers:
            self.missing = 'the constructor does not keep the handler'
        for a in sorted(self.queues):
            ck.require('in-order', 'queue', made[a] in FIFO,
                       'the requests are kept in a %s' % made[a], where(m))
        for o in r.obs:
            if o.name == 'set.attr' and o.args[0][2] in self.queues and \
                    o.args[1][0] == 'call':
                v = [*o.args[1][3], *dict(o.args[1][4]).values()]
                ck.require('accepted', 'queue', all(
                    x[0] == 'const' and not isinstance(x[2], str) and
                    int(x[2] or 0) <= 0 for x in v),
                    'the queue holds a limited number of requests: when the '
                    'service ends it needs the lock a caller keeps while '
                    'waiting for room', o.loc)

    def q(self, t):
        return t is not None and t[0] == 'attr' and t[1] == self.me and \
            t[2] in self.queues

    def lock(self, t):
        return t is not None and t[0] == 'attr' and t[1] == self.me and \
            t[2] in self.locks

    def stop(self, t):
        """A value that stands for the request to stop."""
        return t == NONE or t[0] == 'global' or t[0] == 'attr' and \
            t[1] in (self.me, ('global', RPC))

    def root(self, t):
        """Is t a message taken from the queue?"""
        if t[0] == 'call' and tail(t[1]) in TAKE and self.q(t[2]):
            return True
        return t[0] == 'elem' and any(self.q(x) for x in subterms(t[1]))

    def path(self, t):
        """Accessors that lead from the message to t, or None."""
        out = []
        while not self.root(t):
            if t[0] not in ('item', 'attr') or len(t) != 3:
                return None
            out.append((t[0], t[2]))
            t = t[1]
        return tuple(reversed(out))

    def is_stop(self, s):
        """Does the path know that the message in hand is the stop request?"""
        for w in worlds(s):
            for f, p in w.facts:
                if p and f[0] == 'cmp' and f[1] in ('Is', 'Eq') and (
                        self.root(f[2]) and self.stop(f[3]) or
                        self.root(f[3]) and self.stop(f[2])):
                    break
                if not p and self.root(f):
                    break
            else:
                return False
        return True


class Base(Policy):
    track_exc = True
    max_states = 600
    roles = None
    bad = None
    flags = frozenset()

    def inline(self, fi):
        return fi.cls is not None and fi.cls.qual == RPC or \
            super().inline(fi)

    def ignored(self, name):
        return True            # the typestate is all that is looked at

    def say(self, rule, why, node):
        self.bad.setdefault((rule, why), getattr(node, 'lineno', 0))

    def flag(self, t):
        return t[0] == 'attr' and t[1] == self.roles.me and \
            t[2] in self.flags

    def locking(self, s, name, recv, args, node):
        """True if the event takes or gives up the lock."""
        R = self.roles
        if not R.lock(recv):
            return False
        t = tail(name)
        if name == 'with.enter' or t == 'acquire':
            s.ts['held'] = True
            s.ts['hold'] = 'new'
            s.facts = frozenset(f for f in s.facts if not any(
                mentions(f[0], ('attr', R.me, a)) for a in self.flags))
            for a in self.flags:
                s.heap.pop((R.me, a), None)
        elif name == 'with.exit' or t == 'release':
            s.ts['held'] = False
            s.ts.pop('hold', None)
            s.ts.pop('off', None)
        else:
            return False
        return True

    def waiting(self, s, name, recv, args, kwargs, node):
        R = self.roles
        t = tail(name)
        w = t == 'wait' or t == 'join' and (recv is None or recv[0] in (
            'self', 'superof', 'attr', 'call', 'param')) or \
            t == 'get' and R.q(recv) and not nonblocking(args, kwargs)
        if t == 'join' and recv is not None and recv[0] == 'const':
            w = False
        if w and s.ts.get('held'):
            self.say('no-wait-locked', '%s() is waited for while holding '
                     'the lock the service takes in order to end' % t, node)
        return w


def nonblocking(args, kwargs):
    kw = dict(kwargs)
    b = args[0] if args else kw.get('block', TRUE)
    return b == FALSE


# ------------------------------------------------------------------ the client

class Client(Base):
    def locking(self, s, name, recv, args, node):
        return super().locking(s, name, recv, args, node)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        R, ts = self.roles, s.ts
        if self.locking(s, name, recv, args, node):
            return
        t = tail(name)
        if self.waiting(s, name, recv, args, kwargs, node):
            # a wait that gives up after a while may not have waited
            if not args and not kwargs:
                ts['waited'] = ts.get('waited', frozenset()) | {recv}
            if not ts.get('msg'):
                self.say('accepted', 'it waits for an answer to a request it '
                         'has not made', node)
        if t in ('put', 'put_nowait') and R.q(recv) and args:
            if ts.get('msg'):
                self.say('own-answer', 'the request is queued twice', node)
            ts['msg'] = args[0]
            ok = False
            for f, p in s.facts:
                if p and self.flag(f) and ts.get('held'):
                    ok = True
            if not ok:
                self.say('accepted', 'a request is queued without knowing, '
                         'under the lock, that the service is running: it '
                         'may never be taken', node)

    def may_raise(self, name, recv):
        return False


def client_flags(ck, R):
    """The attributes a client checks before it queues a request."""
    m = ck.prog.require_method(RPC, 'call')
    pol = Client()
    pol.roles, pol.bad = R, {}
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.c))
    out = set()
    for o in r.obs:
        if tail(o.name) in ('put', 'put_nowait') and R.q(o.recv):
            for f, p in o.state.facts:
                if p and f[0] == 'attr' and f[1] == R.me:
                    out.add(f[2])
    ck.require('accepted', 'flag', bool(out),
               'a request is queued without checking that the service runs',
               where(m))
    return frozenset(out)


def resolve(path, msg):
    """The client's term for the part of the message the service calls path."""
    t = msg
    for k, a in path:
        if k == 'item' and t[0] in ('tuple', 'list') and a[0] == 'const' and \
                isinstance(a[2], int) and a[2] < len(t) - 1 and not any(
                    x[0] == 'star' for x in t[1:2 + a[2]]):
            t = t[1 + a[2]]
        else:
            t = (k, t, a)
    return t


def client(ck, R, flags, svc):
    m = ck.prog.require_method(RPC, 'call')
    pol = Client()
    pol.roles, pol.bad, pol.flags = R, {}, flags
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.c))
    report(ck, pol, m, ('accepted', 'no-wait-locked', 'own-answer'))
    good, wrong = svc
    why = []
    n = 0
    for s, t in r.returns:
        msg = s.ts.get('msg')
        if not isinstance(msg, tuple):
            why.append('a path returns without having made a request')
            continue
        n += 1
        cells = {resolve(p, msg) for p in good}
        errs = {resolve(p, msg) for p in wrong}
        evs = {resolve(p, msg) for p in R.answer}
        if not evs & s.ts.get('waited', frozenset()):
            why.append('a path does not wait for the answer to its request')
        for e in evs:
            if e[0] == 'attr' and mentions(e, R.me) and not (
                    e[1][0] == 'call') or mentions(e, (
                        'attr', R.me)) or any(
                        x[:2] == ('attr', R.me) for x in subterms(e)):
                why.append('the event it waits for is kept between '
                           'requests: an answer that comes late ends the '
                           'wait for another request')
        if t not in cells:
            why.append('a path returns %s, not what the service stored' %
                       show(t)[:60])
        for w in worlds(s):
            ok = any(no_error(f, p, x) for f, p in w.facts for x in errs)
            if not ok and not errs & cells:
                why.append('a path returns although the request may have '
                           'failed')
                break
        if errs & cells:
            why.append('an exception that is the value of the operation is '
                       'not told from one it raised')
    raised = 0
    for s, e in r.raises:
        msg = s.ts.get('msg')
        if isinstance(msg, tuple):
            errs = {resolve(p, msg) for p in wrong}
            if e[0] == 'exc' and e[1] == '?':
                e = e[2]
            while e[0] == 'call' and tail(e[1]) == 'with_traceback' and e[2]:
                e = e[2]
            if any(x in errs for x in alts(e)):
                raised += 1
            elif any(x in errs for x in subterms(e)):
                why.append('another error is raised than the operation '
                           'raised')
            elif e[0] == 'exc' and 'Assertion' in str(e[1]):
                continue
    if not raised:
        why.append('the error of the operation is never raised')
    ck.require('own-answer', m.qual, not why and n > 0,
               '; '.join(sorted(set(why))), where(m))


def no_error(f, p, x):
    if f == x and not p:
        return True
    if f[0] == 'cmp' and f[1] == 'Is' and p and f[2] == x and \
            f[3][0] in ('const', 'global'):
        return True
    return f[0] == 'call' and f[1] == 'builtins.isinstance' and \
        f[3][0] == x and not p


def report(ck, pol, m, rules):
    for rule in rules:
        bad = sorted((n, w) for (k, w), n in pol.bad.items() if k == rule)
        ck.require(rule, m.qual, not bad, '; '.join(w for n, w in bad),
                   '%s:%d' % (m.module.relpath,
                              bad[0][0] if bad else m.node.lineno))


# ----------------------------------------------------------------- the service

class Server(Base):
    """ts: pending = a message is in hand; cell = its result is stored;
    ran = the handler ran for it; off = the flag was cleared in this hold of
    the lock; empty = the queue was found empty after that"""

    def on_event(self, s, name, recv, args, kwargs, node, it):
        R, ts = self.roles, s.ts
        if self.locking(s, name, recv, args, node):
            if not ts.get('held') and ts.get('empty') != 'yes':
                ts['empty'] = 'no'
            return
        self.known_stop(s)
        t = tail(name)
        if not (t == 'get' and R.q(recv)):
            self.waiting(s, name, recv, args, kwargs, node)
        elif ts.get('held') and not nonblocking(args, kwargs) and \
                not dict(kwargs).get('timeout') and \
                not found_nonempty(R, s):
            self.say('no-wait-locked', 'the service waits for a request '
                     'while it holds the lock clients need to make one',
                     node)
        if t in TAKE and R.q(recv):
            if ts.get('pending'):
                self.say('answered', 'another message is taken while one is '
                         'not answered', node)
            ts['pending'], ts['cell'], ts['ran'] = True, False, 0
            # what was known about how many are left is known no more
            s.facts = frozenset(
                f for f in s.facts if not any(
                    len(x) > 2 and x[0] == 'call' and tail(x[1]) in ('empty', 'qsize') and
                    R.q(x[2]) for x in subterms(f[0])))
            if ts.get('on') is not False:
                ts['stop'] = False
            return
        if name == 'builtins.iter' and len(args) == 2 and \
                R.stop(args[1]):
            ts['pending'] = False
            ts['stop'] = True
            return
        if recv is not None and R.is_handler(recv, name):
            if not any(R.path(x) is not None or any(
                    R.path(y) is not None for y in subterms(x))
                    for x in args + tuple(v for k, v in kwargs)):
                self.say('own-result', 'the handler is not given what the '
                         'message holds', node)
            ts['ran'] = min(ts.get('ran', 0) + 1, 2)
            if ts['ran'] > 1:
                self.say('own-result', 'the handler runs twice for one '
                         'message', node)
            ts['pending'] = True
            return
        if name == 'set.attr' and recv is not None and \
                R.path(recv) is not None and len(args) > 1:
            p = R.path(recv) + (('attr', args[0][2]),)
            v = args[1]
            if v[0] == 'call' and R.is_handler(v[2] or NONE, v[1]):
                self.good.add(p)
                ts['cell'] = True
            elif self.is_error(v):
                self.wrong.add(p)
                ts['cell'] = True
            elif not (ts.get('cell') and v == NONE):
                self.say('own-result', 'the answer stored is neither the '
                         'result nor the error of the operation', node)
            return
        if t == 'set' and recv is not None and R.path(recv) is not None and \
                not args:
            if not ts.get('cell'):
                self.say('answered', 'the client is told that its request '
                         'ended before the result is stored', node)
            R.answer.add(R.path(recv))
            ts['pending'] = False
            return
        if name == 'set.attr' and recv == R.me and len(args) > 1 and \
                args[0][2] in self.flags:
            if args[1] == TRUE:
                ts['on'] = True
            else:
                if not ts.get('held'):
                    self.say('drained', 'the service stops accepting without '
                             'the lock: a request can be queued after it '
                             'has ended', node)
                else:
                    ts['off'] = True
                ts['on'] = False
                ts['empty'] = 'no'
            return
        if t == 'set' and recv is not None and recv[0] == 'attr' and \
                recv[1] == R.me and recv[2] in R.events:
            if not ts.get('on'):
                self.say('ready', 'start is told to return before requests '
                         'are accepted', node)
            ts['ready'] = True
        if t == 'empty' and R.q(recv):
            pass

    def is_error(self, v):
        if v[0] == 'exc' or v[0] == 'call' and (
                'Error' in tail(v[1]) or 'Running' in tail(v[1]) or
                'Exception' in tail(v[1]) or 'Stopped' in tail(v[1])):
            return True
        return v[0] == 'phi' and all(self.is_error(x) for x in v[1]) or \
            v[0] in ('caught',) or \
            v[0] == 'call' and v[1] in self.roles.ck.prog.classes and any(
                ast.unparse(b).endswith(('Exception', 'Error'))
                for b in self.roles.ck.prog.classes[v[1]].node.bases)

    def known_stop(self, s):
        if s.ts.get('pending') and self.roles.is_stop(s):
            s.ts['pending'] = False
            s.ts['stop'] = True

    def on_raise(self, s, name, recv, args, node, it):
        R = self.roles
        ran = recv is not None and R.is_handler(recv, name)
        if not R.q(recv):
            s.ts['from'] = ran
        if ran:
            s.ts['ran'] = min(s.ts.get('ran', 0) + 1, 2)
            s.ts['pending'] = True
        if tail(name) in TAKE and R.q(recv):
            self.known_stop(s)
            if s.ts.get('pending'):
                self.say('answered', 'another message is taken while one is '
                         'not answered', node)
            s.ts['pending'] = False
            s.ts['failed'] = True
        else:
            s.ts.pop('failed', None)

    def on_catch(self, s, types, exc):
        if s.ts.pop('failed', None) and any(
                tail(t) == 'Empty' for t in types):
            if s.ts.get('held') and s.ts.get('off'):
                s.ts['empty'] = 'yes'

    def on_branch(self, s):
        up = {}
        if s.ts.get('pending') and self.roles.is_stop(s):
            up.update(pending=False, stop=True)
        if s.ts.get('held') and s.ts.get('off') and \
                s.ts.get('empty') != 'yes' and found_empty(self.roles, s):
            up['empty'] = 'yes'
        return up

    def may_raise(self, name, recv):
        R = self.roles
        t = tail(name)
        if recv is not None and R.is_handler(recv, name):
            return True
        if R.q(recv):
            return t in TAKE
        return name in ('sys.stdout.flush', '_thread.interrupt_main')


    def fails(self, state, name, recv, args, kwargs):
        R = self.roles
        if tail(name) in TAKE and R.q(recv):
            if state.ts.get('held') and found_nonempty(R, state):
                return False
            return tail(name) != 'get' or nonblocking(args, kwargs) or \
                len(args) > 1 or 'timeout' in dict(kwargs)
        return True


def found_nonempty(R, s):
    return found_empty(R, s, False)


def found_empty(R, s, want=True):
    for f, p in s.facts:
        if f[0] == 'call' and tail(f[1]) == 'empty' and R.q(f[2]) and \
                p == want:
            return True
        if f[0] == 'call' and tail(f[1]) == 'qsize' and R.q(f[2]) and \
                p != want:
            return True
        if f[0] == 'cmp' and f[1] == 'Eq' and p == want and \
                f[3] == const(0) and f[2][0] == 'call' and \
                tail(f[2][1]) == 'qsize' and R.q(f[2][2]):
            return True
    return False


def server(ck, R, flags):
    m = ck.prog.require_method(RPC, 'run')
    R.answer = set()

    def is_handler(t, name):
        return t[0] == 'attr' and t[1] == R.me and t[2] in R.handlers or \
            t == R.me and name.lstrip('.') in R.handlers
    R.is_handler = is_handler
    pol = Server()
    pol.roles, pol.bad, pol.flags = R, {}, flags
    pol.good, pol.wrong = set(), set()
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.c))
    ends = [(s, 'n') for s, t in r.returns] + [(s, 'x') for s, t in r.raises]
    for s, how in ends:
        pol.known_stop(s)
        if s.ts.get('pending'):
            pol.say('answered', 'the service ends with a message in hand '
                    'that is not answered: its client waits forever', m.node)
        if s.ts.get('on') is True:
            pol.say('drained', 'the service ends and still accepts requests '
                    'nobody will answer', m.node)
        elif s.ts.get('on') is False and s.ts.get('empty') != 'yes':
            pol.say('drained', 'the service ends without answering the '
                    'requests left in the queue', m.node)
        if how == 'n' and not s.ts.get('stop'):
            pol.say('in-order', 'the service ends although it was not asked '
                    'to', m.node)
    for s, e in r.raises:
        if s.ts.get('from') and e[1] == '?' and s.holds((
                'call', 'builtins.isinstance', None,
                (e, ('global', 'builtins.Exception')), ())) is not False:
            pol.say('in-order', 'the service ends where the operation raises '
                    'an ordinary error: later requests are not answered',
                    m.node)
    if not ends:
        pol.say('drained', 'the service never ends', m.node)
    if not any(s.ts.get('ready') for s, h in ends):
        pol.say('ready', 'the service never says that it is ready', m.node)
    if not pol.good or not pol.wrong:
        pol.say('own-result', 'the result or the error of the operation is '
                'not stored in the message', m.node)
    report(ck, pol, m, ('answered', 'own-result', 'drained', 'ready',
                        'in-order', 'no-wait-locked'))
    return pol.good, pol.wrong


# ------------------------------------------------------------- start and stop

class Other(Base):
    def may_raise(self, name, recv):
        return False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        R, ts = self.roles, s.ts
        if self.locking(s, name, recv, args, node):
            return
        t = tail(name)
        if t == 'start' and recv is not None and recv[0] in ('superof',
                                                             'global'):
            ts['started'] = True
        self.waiting(s, name, recv, args, kwargs, node)
        if t == 'wait' and recv is not None and recv[0] == 'attr' and \
                recv[1] == R.me and recv[2] in R.events and \
                ts.get('started'):
            ts['ready'] = True
        if t == 'join' and not R.q(recv):
            ts['joined'] = True
        if t in ('put', 'put_nowait') and R.q(recv) and args:
            if not R.stop(args[0]):
                self.say('accepted', 'a request is queued outside call()',
                         node)
            ts['put'] = True
            if not (ts.get('held') and any(
                    p and self.flag(f) for f, p in s.facts)):
                ts['blind'] = True
        if name == 'set.attr' and recv == R.me and len(args) > 1 and \
                args[0][2] in self.flags and self.fun != '__init__':
            if args[1] != FALSE:
                self.say('ready', 'something else than the service says that '
                         'it runs', node)
            elif not ts.get('held'):
                self.say('drained', 'the flag is cleared without the lock',
                         node)
        if t == 'set' and recv is not None and recv[0] == 'attr' and \
                recv[1] == R.me and recv[2] in R.events:
            self.say('ready', 'something else than the service says that it '
                     'is ready', node)


def others(ck, R, flags):
    inner = {x.attr for m in R.c.methods.values()
             for x in ast.walk(m.node) if isinstance(x, ast.Attribute) and
             isinstance(x.value, ast.Name) and x.value.id == 'self'}
    for m in sorted(R.c.methods.values(), key=lambda m: m.name):
        if m.name in ('call', 'run') or m.name.startswith('_') and \
                m.name in inner:
            continue
        pol = Other()
        pol.roles, pol.bad, pol.flags, pol.fun = R, {}, flags, m.name
        r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.c))
        report(ck, pol, m, ('accepted', 'ready', 'drained',
                            'no-wait-locked'))
        if m.name == 'start':
            ok = r.returns and all(s.ts.get('ready') for s, t in r.returns)
            ck.require('ready', m.qual + ' waits', ok,
                       'start returns before requests are accepted',
                       where(m))
        if m.name == 'join':
            why = []
            for s, t in r.returns:
                if s.ts.get('put'):
                    if not s.ts.get('joined'):
                        why.append('it does not wait for the service to end')
                elif not any(not p and f[0] == 'attr' and f[2] in flags
                             for w in worlds(s) for f, p in w.facts):
                    why.append('a path does not ask a running service to '
                               'stop')
            ck.require('stop', m.qual, not why and r.returns,
                       '; '.join(sorted(set(why))), where(m))
    ck.require('stop', 'join', 'join' in R.c.methods,
               'the service cannot be stopped', RPC)
    ck.require('ready', 'start', 'start' in R.c.methods,
               'start does not wait for the service', RPC)
