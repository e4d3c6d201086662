"""Roles and path policies for the scheduler (used by C14, C15 and C16)."""
import ast

from .common import *

MOD = 'fbuild.sched'
SCHED = MOD + '.Scheduler'
WORKER = MOD + '.WorkerThread'
TASK = MOD + '.Task'
OWNED = ('threading.RLock', 'threading.Condition')
LOCKS = OWNED + ('threading.Lock', 'threading.Semaphore',
                 'threading.BoundedSemaphore', '_thread.allocate_lock')


def attr_of(t, obj):
    return t[2] if t is not None and t[0] == 'attr' and t[1] == obj else None


class Roles:
    """Who is the queue of ready tasks, the lock, the attributes of a task."""

    def __init__(self, ck):
        self.ck = ck
        self.sched = ck.prog.require_class(SCHED)
        self.worker = ck.prog.require_class(WORKER)
        self.task = ck.prog.require_class(TASK)
        self.me = ('self', SCHED)
        self.wme = ('self', WORKER)
        m = ck.prog.require_method(SCHED, '__init__')
        self.init = m
        r = ck.explored(Interp(ck.prog, Quiet()).run(m, cls=self.sched))
        made = {}
        makers = []
        for o in r.obs:
            if o.name == 'set.attr' and o.recv == self.me:
                made[o.args[0][2]] = o.args[1]
            if o.name == WORKER:
                makers.append(o)
        self.made = made
        self.makers = makers
        self.queues = {a for a, v in made.items()
                       if v[0] == 'call' and 'ueue' in tail(v[1])}
        self.locks = {a for a, v in made.items()
                      if v[0] == 'call' and v[1] in LOCKS}
        # what the workers are given
        wm = ck.prog.require_method(WORKER, '__init__')
        self.winit = wm
        w = ck.explored(Interp(ck.prog, Quiet()).run(wm, cls=self.worker))
        self.wkeeps = {}
        for o in w.obs:
            if o.name == 'set.attr' and o.recv == self.wme and \
                    o.args[1][0] == 'param':
                self.wkeeps[o.args[0][2]] = o.args[1][1]
        names = [p for p in wm.params[1:]]
        self.given = []           # per construction: attr -> value
        for o in makers:
            a = dict(zip(names, o.args))
            a.update(dict(o.kwargs))
            self.given.append({k: self.deref(a.get(v, ANY))
                               for k, v in self.wkeeps.items()})
        self.wqueues = {k for g in self.given for k, v in g.items()
                        if attr_of(v, self.me) in self.queues}
        self.wlocks = {k for g in self.given for k, v in g.items()
                       if attr_of(v, self.me) in self.locks}
        # what a task is made of
        tm = ck.prog.require_method(TASK, '__init__')
        self.tinit = tm
        t = ck.explored(Interp(ck.prog, Quiet()).run(tm, cls=self.task))
        self.tkeeps = {}
        self.tstart = {}
        for o in t.obs:
            if o.name == 'set.attr' and o.recv == ('self', TASK):
                if o.args[1][0] == 'param':
                    self.tkeeps[o.args[0][2]] = o.args[1][1]
                else:
                    self.tstart[o.args[0][2]] = o.args[1]

    def deref(self, v):
        for a, x in self.made.items():
            if x == v and v[0] == 'call':
                return ('attr', self.me, a)
        return v

    def queue(self, t):
        return attr_of(t, self.me) in self.queues or \
            attr_of(t, self.wme) in self.wqueues or \
            t is not None and t[0] == 'attr' and t[2] in self.wqueues and \
            t[1][0] != 'self'

    def lock(self, t):
        return attr_of(t, self.me) in self.locks or \
            attr_of(t, self.wme) in self.wlocks

    def task_args(self, t):
        """The arguments of a Task(...) term by the attribute keeping them."""
        if t[0] != 'call' or t[1] != TASK:
            return None
        a = call_args(self.ck.prog, t, self.tinit.params[1:])
        return {k: a.get(p, None) for k, p in self.tkeeps.items()}


class Quiet(Policy):
    def ignored(self, name):
        return True


class SchedPolicy(Policy):
    track_exc = True
    max_states = 400
    symbolic_counts = True
    roles = None
    bad = None

    def ignored(self, name):
        return True

    def inline(self, fi):
        return fi.cls is not None and fi.cls.qual in (
            SCHED, WORKER, TASK) and fi.name not in self.stop or \
            super().inline(fi)

    stop = ()

    def may_miss(self, coll, key):
        return not (key[0] == 'const' and key[1] == 'int')

    def say(self, rule, why, node):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)

    def model(self, it, name, recv, args, kwargs, st, node):
        # methods of a task the analysis has no type for
        if name.startswith('.') and recv is not None and \
                name[1:] in self.roles.task.methods and \
                name[1:] not in ('run', '__init__') and \
                not isinstance(node, ast.Attribute):
            fi = self.roles.task.methods[name[1:]]
            if it.can_inline(fi, it.cur_frame):
                return it.call_function(fi, recv, args, kwargs,
                                        self.roles.task, None, st, node,
                                        it.cur_frame)
        return None

    def locking(self, s, name, recv):
        if not self.roles.lock(recv):
            return False
        t = tail(name)
        if name == 'with.enter' or t == 'acquire':
            s.ts['held'] = min(s.ts.get('held', 0) + 1, 3)
        elif name == 'with.exit' or t == 'release':
            s.ts['held'] = max(s.ts.get('held', 0) - 1, -3)
        else:
            return False
        return True


def nonblocking(args, kwargs):
    kw = dict(kwargs)
    b = args[0] if args else kw.get('block', TRUE)
    return b == FALSE


def report(ck, pol, m, rules):
    for rule in rules:
        bad = sorted((n, w) for (k, w), n in pol.bad.items() if k == rule)
        ck.require(rule, m.qual, not bad, '; '.join(w for n, w in bad),
                   '%s:%d' % (m.module.relpath,
                              bad[0][0] if bad and bad[0][0]
                              else m.node.lineno))


# ----------------------------------------------------------- the worker thread

class Work(SchedPolicy):
    """ts: msg = an item is in hand that is not accounted for; ran = how often
    its task ran; held = how often the lock is held"""

    def root(self, t):
        return t[0] == 'call' and tail(t[1]) in ('get', 'get_nowait') and \
            self.roles.queue(t[2])

    def path(self, t):
        out = []
        while not self.root(t):
            if t[0] not in ('item', 'attr') or len(t) != 3:
                return None
            out.append((t[0], t[2]))
            t = t[1]
        return tuple(reversed(out))

    def nothing(self, s):
        """Is the item in hand known to be no task?"""
        for w in worlds(s):
            if not any(
                    not p and self.root(f) or
                    p and f[0] == 'cmp' and f[1] in ('Is', 'Eq') and (
                        self.root(f[2]) and f[3][0] in ('const', 'global') or
                        self.root(f[3]) and f[2][0] in ('const', 'global'))
                    for f, p in w.facts):
                return False
        return True

    def settle(self, s):
        if s.ts.get('msg') and self.nothing(s):
            s.ts['msg'] = False
            s.ts['told'] = True

    def on_branch(self, s):
        if s.ts.get('msg') and self.nothing(s):
            return {'msg': False, 'told': True}
        return {}

    def take(self, s, node):
        self.settle(s)
        if s.ts.get('msg'):
            self.say('accounted', 'another task is taken while the one in '
                     'hand is not handed back', node)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        R, ts = self.roles, s.ts
        if self.locking(s, name, recv):
            return
        t = tail(name)
        if t in ('get', 'get_nowait') and R.queue(recv):
            self.take(s, node)
            if ts.get('held', 0) > 0 and not nonblocking(args, kwargs) and \
                    t == 'get':
                self.say('no-wait-locked', 'a worker waits for a task while '
                         'it holds the lock the others need to run theirs',
                         node)
            ts['msg'], ts['ran'], ts['told'] = True, 0, False
            return
        if recv is None:
            return
        p = self.path(recv)
        if name == 'set.attr' and p and not ts.get('ran') and \
                args[0][0] == 'const' and args[1] == TRUE:
            self.early.add((args[0][2], getattr(node, 'lineno', 0)))
        if p and t == 'run':
            self.run_path.add(p)
            self.ran(s, node)
        elif p and t == 'put' and args:
            q = self.path(args[0])
            if q is None:
                return
            self.back_path.add((p, q))
            self.settle(s)
            if not ts.get('msg'):
                self.say('accounted', 'a task is handed back twice', node)
            elif not ts.get('ran'):
                self.say('accounted', 'a task is handed back before it ran',
                         node)
            ts['msg'] = False

    def ran(self, s, node):
        ts = s.ts
        self.settle(s)
        if not ts.get('msg'):
            self.say('accounted', 'a task runs after it was handed back',
                     node)
        ts['ran'] = min(ts.get('ran', 0) + 1, 2)
        if ts['ran'] > 1:
            self.say('accounted', 'a task runs twice', node)
        if ts.get('held', 0) <= 0:
            self.say('locked', 'a task runs although the worker does not '
                     'hold the lock', node)

    def on_raise(self, s, name, recv, args, node, it):
        if recv is not None and self.path(recv) and tail(name) == 'run':
            self.ran(s, node)

    def may_raise(self, name, recv):
        return tail(name) == 'run' and recv is not None and \
            bool(self.path(recv))


def worker(ck, R):
    """Follow the worker thread; the policy with what was found."""
    m = ck.prog.require_method(WORKER, 'run')
    stops = set()
    sm = ck.prog.require_method(WORKER, 'shutdown')
    for o in Interp(ck.prog, Quiet()).run(sm, cls=R.worker).obs:
        if o.name == 'set.attr' and o.recv == R.wme and \
                o.args[1][0] == 'const':
            stops.add((o.args[0][2], bool(o.args[1][2])))
        if tail(o.name) == 'set' and o.recv is not None:
            stops.add((o.recv[2], True))
    pol = Work()
    pol.roles, pol.bad = R, {}
    pol.run_path, pol.back_path, pol.early = set(), set(), set()
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.worker))
    ends = [(s, False) for s, t in r.returns] + [(s, True)
                                                for s, t in r.raises]
    for s, raised in ends:
        pol.settle(s)
        if s.ts.get('msg'):
            pol.say('accounted', 'the worker ends without handing back the '
                    'task in hand: its caller waits forever', m.node)
        if s.ts.get('held', 0) != 0:
            pol.say('released', 'the worker ends with the lock %s' % (
                'held' if s.ts['held'] > 0 else 'released twice'), m.node)
        if not raised and not s.ts.get('told') and not any(
                f[0] == 'attr' and f[1] == R.wme and (f[2], p) in stops
                for f, p in s.facts):
            pol.say('worker-stays', 'the worker ends although it was not '
                    'told to', m.node)
    if not pol.run_path:
        pol.say('accounted', 'no task is run', m.node)
    if not pol.back_path:
        pol.say('accounted', 'no task is handed back', m.node)
    for p, q in pol.back_path:
        if pol.run_path - {q}:
            pol.say('accounted', 'what is handed back is not the task that '
                    'ran', m.node)
    return m, pol, r
