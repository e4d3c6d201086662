"""The worker thread, the evaluation loop, Task.run and map are followed on
every path, failing tasks included.  A worker must run each task it takes once
and hand it back to the caller it came from on every way out.  A task must end
with its result stored or, whatever was raised, with the exception stored, and
only an interrupt may end the worker.  In the evaluation loop every task put
into the queue must be counted once and every task taken back uncounted once,
the loop may end only when none is outstanding, a task's exception must be
raised, and a worker that evaluates must not block on its own queue but run what
is there.  map must make one task per input and return the results in the order
of the inputs."""
from .sched import *

T = {
    'accounted': 'a worker runs each task it takes once and hands it back on every path',
    'worker-stays': 'a failing task does not end the worker, only an interrupt or being told to',
    'outcome': 'running a task calls the function once and stores its result or whatever it raised',
    'counted': 'every task queued is waited for and every task finished is accounted for, once',
    'own-queue': 'a task is queued together with the queue its caller reads',
    'raised': 'the exception of a task is raised to the caller, and only tasks without one count as results',
    'no-self-wait': 'a worker that evaluates tasks never blocks for them but runs queued ones itself',
    'ordered': 'map makes one task per input and returns the results in input order',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    R = Roles(ck)
    m, pol, r = worker(ck, R)
    report(ck, pol, m, ('accounted', 'worker-stays'))
    exc, results = evaluate(ck, R, pol)
    outcome(ck, R, exc, mapped(ck, R))
    for k in T:
        ck.at_least(k, 1)


# -------------------------------------------------------- the evaluation loop

class Evaluate(SchedPolicy):
    """ts: owe = tasks queued minus counted; due = tasks taken back minus
    uncounted; fresh/marked; read = a queued item was read but not run"""
    counters = frozenset()
    bags = frozenset()
    max_states = 12

    def clamp(self, s, k, d):
        if s.ts.get(k) != '?':
            s.ts[k] = max(-2, min(2, s.ts.get(k, 0) + d))

    def own(self, t):
        """The queue this evaluation made for its own tasks."""
        return t is not None and t[0] == 'call' and 'ueue' in tail(t[1]) and \
            not self.roles.queue(t)

    def got(self, t):
        return t[0] == 'call' and tail(t[1]) in ('get', 'get_nowait') and \
            self.own(t[2])

    def worker(self, s):
        """Can this path be run by a worker?"""
        return s.ts.get('nested') is not False

    def on_branch(self, s):
        for f, p in s.facts:
            if f[0] == 'call' and f[1] == 'builtins.isinstance' and any(
                    x[-1] == WORKER for x in f[3]):
                return {'nested': p}
        return {}

    def sync(self, s, node):
        ts = s.ts
        if any(v[0] == 'call' for k, v in s.env.items()
               if k[1] in self.counters):
            ts['owe'] = '?'        # counted beforehand, by len() or the like
        if ts.get('owe', 0) not in (0, '?'):
            self.say('counted', 'a task is queued but not waited for'
                     if ts['owe'] > 0 else 'more tasks are waited for than '
                     'are queued', node)
        if ts.get('due', 0) not in (0, '?'):
            self.say('counted', 'a finished task is still waited for'
                     if ts['due'] > 0 else 'a task that is not finished is '
                     'not waited for any more', node)
        ts['owe'] = ts['due'] = 0

    def judged(self, s, node):
        """The task taken before this point must be dealt with."""
        g = s.ts.get('task')
        if g is None:
            return
        for w in worlds(s):
            if not any(ok(f, p, g, self.excs) for f, p in w.facts):
                self.say('raised', 'a task that failed is taken for a '
                         'finished one', node)
        s.ts['task'] = None

    def on_event(self, s, name, recv, args, kwargs, node, it):
        R, ts = self.roles, s.ts
        if self.locking(s, name, recv):
            return
        t = tail(name)
        if name in ('count.Add', 'count.Sub'):
            if recv[1] not in self.counters:
                return
            if args[0] != const(1):
                self.say('counted', 'a task is counted more than once', node)
            elif t == 'Add':
                self.clamp(s, 'owe', -1)
            else:
                self.clamp(s, 'due', -1)
            return
        if recv in self.bags:
            if t in ('add', 'append'):
                self.clamp(s, 'owe', -1)
            elif t in ('discard', 'remove', 'pop', 'popleft', 'popitem'):
                self.clamp(s, 'due', -1)
            return
        if t in ('put', 'put_nowait') and R.queue(recv) and args and \
                args[0] != NONE:
            self.clamp(s, 'owe', 1)
            self.puts.append((args[0], s, node))
            return
        if t in ('get', 'get_nowait') and self.own(recv):
            self.judged(s, node)
            self.sync(s, node)
            if self.worker(s):
                if not nonblocking(args, kwargs) and t == 'get':
                    self.say('no-self-wait', 'a worker blocks until its tasks '
                             'are done although it may be the one to run '
                             'them', node)
                elif not ts.get('helped'):
                    self.say('no-self-wait', 'a worker looks for finished '
                             'tasks without running a queued one: nobody '
                             'may be left to run them', node)
            ts['helped'] = False
            ts['task'] = ('call', name, recv, args, kwargs)
            self.clamp(s, 'due', 1)
            for k in [k for k in s.heap if mentions(k[0], ts['task'])]:
                del s.heap[k]
            return
        if t in ('get', 'get_nowait', 'read_task') and (
                R.queue(recv) or t == 'read_task'):
            if not nonblocking(args, kwargs) and t != 'get_nowait':
                self.say('no-self-wait', 'a worker that waits for its tasks '
                         'blocks until there is another one to run', node)
            if ts.get('read'):
                self.say('no-self-wait', 'a queued task is taken and never '
                         'run', node)
            ts['read'] = ('call', name, recv, args, kwargs)
            ts['helped'] = True
            return
        if t == 'run_one' and args and args[0] == ts.get('read'):
            ts['read'] = False

    def on_raise(self, s, name, recv, args, node, it):
        t = tail(name)
        if t in ('get', 'get_nowait', 'read_task') and \
                not self.own(recv):
            s.ts['helped'] = True
        if t in ('get', 'get_nowait') and self.own(recv):
            self.judged(s, node)
            self.sync(s, node)
            if not s.ts.get('helped') and self.worker(s):
                self.say('no-self-wait', 'a worker looks for finished '
                         'tasks without running a queued one: nobody '
                         'may be left to run them', node)
            s.ts['helped'] = False
            s.ts['task'] = None

    def fails(self, state, name, recv, args, kwargs):
        return tail(name) == 'get_nowait' or nonblocking(args, kwargs) or \
            len(args) > 1 or 'timeout' in dict(kwargs)

    def may_raise(self, name, recv):
        return tail(name) in ('get', 'get_nowait', 'read_task')

    def raised(self, name, recv):
        return 'queue.Empty'


def ok(f, p, g, excs):
    for x in excs:
        e = ('attr', g, x)
        if f == e and not p:
            return True
        if f[0] == 'cmp' and f[1] in ('Is', 'Eq') and p and f[2] == e and \
                f[3] == NONE:
            return True
    return False


def run_evaluate(ck, R, counters=frozenset(), excs=frozenset(), pol=None,
                 bags=frozenset()):
    m = ck.prog.require_method(SCHED, '_evaluate')
    pol = pol or Evaluate()
    pol.stop = ('run_one', 'read_task')
    pol.roles, pol.bad, pol.puts = R, {}, []
    pol.counters, pol.excs, pol.bags = counters, excs, bags
    r = Interp(ck.prog, pol).run(m, cls=R.sched)
    return m, pol, r


def failures(R, r, pol):
    """Attributes of a finished task that are raised."""
    out = set()
    for s, e in r.raises:
        for x in subterms(e):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'attr' and \
                    isinstance(x[2], str) and \
                    pol.got(x[1]):
                out.add(x[2])
    return frozenset(out)


def counters(r):
    out = set()
    for s, t in r.returns:
        for f, p in s.facts:
            for x in subterms(f):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == 'counter':
                    out.add(x[1])
    return frozenset(out)


def none_left(s, cs):
    now = {v for k, v in s.env.items() if k[1] in cs}
    now |= {v[3][0] for v in now if v[0] == 'call' and len(v[3]) == 1}

    def n(t):
        return t in now or all(
            x == const(0) or x[0] == 'counter' and x[1] in cs
            for x in alts(t))
    for f, p in s.facts:
        if n(f) and not p:
            return True
        if f[0] != 'cmp':
            continue
        x, y = (f[2], f[3]) if f[3] == const(0) else (f[3], f[2])
        if y == const(0) and n(x) and (
                f[1] == 'Eq' and p or f[1] == 'NotEq' and not p or
                f[1] == 'LtE' and p == (x is f[2]) or
                f[1] == 'Lt' and not p and x is f[3] or
                f[1] == 'Gt' and not p and x is f[2]):
            return True
    # nothing was ever queued
    return any(v == const(0) and k[1] in cs for k, v in s.env.items())


def empty_bags(s):
    """Collections known to hold nothing."""
    for f, p in s.facts:
        if f[0] == 'new' and not p:
            yield f
        n = f[2] if f[0] == 'cmp' else f
        if n[0] == 'call' and n[1] == 'builtins.len' and n[3]:
            if not p if n is f else p and f[1] == 'Eq' and f[3] == const(0):
                yield n[3][0]
    for v in s.env.values():
        if v in s.coll and s.coll[v][0] == 'E':
            yield v


def waited_for(r):
    """Collections that are empty whenever an answer is given, and are given
    tasks."""
    got = [set(empty_bags(s)) for s, t in r.returns]
    return frozenset(b for b in set().union(*got) if all(
        b in g for g in got)) if got else frozenset()


def evaluate(ck, R, work):
    m, pol, r = run_evaluate(ck, R)
    cs, ex = counters(r), failures(R, r, pol)
    bags = frozenset() if cs else waited_for(r)
    m, pol, r = run_evaluate(ck, R, cs, ex, bags=bags)
    ck.explored(r)
    if not ex:
        pol.say('raised', 'the exception of a task is never raised', m.node)
    for s, t in r.returns:
        pol.judged(s, m.node)
        pol.sync(s, m.node)
        if cs and not none_left(s, cs) or bags and not any(
                b in bags for b in empty_bags(s)):
            pol.say('counted', 'the caller may get an answer while tasks '
                    'are outstanding', m.node)
        if s.ts.get('read'):
            pol.say('no-self-wait', 'a queued task is taken and never run',
                    m.node)
    if not cs and not bags:
        ck.note('the evaluation loop keeps no counter the analysis follows: '
                'the rule counted checks nothing')
    # the shape of a queued item against what the worker does with it
    shapes = set()
    for item, s, node in pol.puts:
        for p, q in work.back_path:
            done, task = resolve(p, item), resolve(q, item)
            if not pol.own(done):
                pol.say('own-queue', 'a task is queued with %s to be handed '
                        'back to' % show(done)[:60], node)
            if resolve(q, item) == resolve(p, item):
                pol.say('own-queue', 'the queued item has no task', node)
        shapes.add(item)
    if not pol.puts:
        pol.say('own-queue', 'no task is queued', m.node)
    report(ck, pol, m, ('counted', 'raised', 'no-self-wait', 'own-queue'))
    return ex, shapes


def resolve(path, msg):
    t = msg
    for k, a in path:
        if k == 'item' and t[0] in ('tuple', 'list') and a[0] == 'const' and \
                isinstance(a[2], int) and -len(t) < a[2] < len(t) - 1:
            t = t[1 + a[2]] if a[2] >= 0 else t[a[2]]
        else:
            t = (k, t, a)
    return t


# ------------------------------------------------------------------ one task

class RunTask(SchedPolicy):
    calls = None

    def inline(self, fi):
        return Policy.inline(self, fi)

    def is_function(self, name, recv):
        me = ('self', TASK)
        if recv is None:
            return False
        return recv[0] == 'attr' and recv[1] == me or \
            recv == me and name.lstrip('.').split('.')[-1] in \
            self.roles.tkeeps

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if self.is_function(name, recv) and name not in (
                'set.attr', 'aug.Add'):
            s.ts['n'] = min(s.ts.get('n', 0) + 1, 2)
            self.calls.append((name, recv, args, kwargs))

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['n'] = min(s.ts.get('n', 0) + 1, 2)
        s.ts['failed'] = True

    def may_raise(self, name, recv):
        return self.is_function(name, recv)


def outcome(ck, R, excs, roles):
    fun, src, res = roles
    m = ck.prog.require_method(TASK, 'run')
    me = ('self', TASK)
    pol = RunTask()
    pol.roles, pol.bad, pol.calls = R, {}, []
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.task))
    for s, t in r.returns + r.raises:
        if s.ts.get('n', 0) != 1:
            pol.say('outcome', 'a path calls the function %d times' %
                    s.ts.get('n', 0), m.node)
    for name, recv, args, kwargs in pol.calls:
        f = recv if recv[0] == 'attr' else ('attr', me, tail(name))
        if f != ('attr', me, fun):
            pol.say('outcome', 'it calls %s' % show(f)[:60], m.node)
        if args != (('attr', me, src),) or kwargs:
            pol.say('outcome', 'the function is not called with its input',
                    m.node)
    for s, t in r.returns:
        e = [s.heap.get((me, x), R.tstart.get(x, NONE)) for x in excs]
        if s.ts.get('failed'):
            if not any(is_exc(x) for x in e):
                pol.say('outcome', 'what the function raised is dropped',
                        m.node)
        else:
            v = s.heap.get((me, res))
            if v is None or v[0] != 'call':
                pol.say('outcome', 'the result is not stored', m.node)
            if any(x != NONE for x in e):
                pol.say('outcome', 'a call that succeeded looks failed',
                        m.node)
    for s, t in r.raises:
        e = [s.heap.get((me, x), R.tstart.get(x, NONE)) for x in excs]
        if not any(is_exc(x) for x in e):
            pol.say('outcome', 'some of what the function may raise leaves '
                    'the task without its exception stored: the caller takes '
                    'it for finished', m.node)
        if not only_interrupt(s, t):
            pol.say('worker-stays', 'an exception of the task, not only an '
                    'interrupt, ends the worker that ran it', m.node)
    for x in excs:
        if R.tstart.get(x, NONE) != NONE or x in R.tkeeps:
            pol.say('outcome', 'a task starts with an exception set', m.node)
    report(ck, pol, m, ('outcome', 'worker-stays'))


def is_exc(t):
    return t[0] in ('exc', 'caught') or t[0] == 'phi' and all(
        is_exc(x) for x in t[1])


def only_interrupt(s, t):
    if t[0] == 'exc' and tail(str(t[1])) in ('KeyboardInterrupt',
                                             'SystemExit') and \
            tail(str(t[1])) == 'KeyboardInterrupt':
        return True
    for f, p in s.facts:
        if p and f[0] == 'call' and f[1] == 'builtins.isinstance' and \
                'KeyboardInterrupt' in show(f[3][1]):
            return True
        if p and f[0] == 'cmp' and 'KeyboardInterrupt' in show(f):
            return True
    return False


# ------------------------------------------------------------------------ map

def mapped(ck, R):
    """The attributes of a task that keep the function, the input and the
    result, read off map."""
    m = ck.prog.require_method(SCHED, 'map')
    pol = SchedPolicy()
    pol.stop = ('_evaluate',)
    pol.roles, pol.bad = R, {}
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.sched))
    why = []
    fun, src, res = None, None, None
    f, x = param(m, 0), param(m, 1)
    for o in r.obs:
        a = None
        if o.name == TASK:
            a = R.task_args(('call', TASK, None, o.args, o.kwargs))
        if a:
            fs = [k for k, v in a.items() if v == f]
            ss = [k for k, v in a.items() if v is not None and
                  is_element(v, x)]
            if not fs or not ss:
                why.append('a task is not made of the function and an input')
            else:
                fun, src = fs[0], ss[0]
    if fun is None and not why:
        why.append('no task is made')
    why += comps(R, r, x)
    n = 0
    for s, t in r.returns:
        n += 1
        got, w = in_order(R, s, t, x)
        res = got or res
        why += w
    ck.require('ordered', m.qual, not why and n > 0,
               '; '.join(sorted(set(why))), where(m))
    return fun or 'function', src or 'src', res or 'result'


def comps(R, r, x):
    """Every task made is evaluated: what is evaluated has one per input."""
    why = []
    n = 0
    for o in r.obs:
        if tail(o.name) != '_evaluate':
            continue
        n += 1
        t = sequence(o.args[0] if o.args else NONE, o.state)
        if t is None or t[1] is None or not is_whole(t[1], x):
            why.append('what is evaluated is not one task per input')
    if not n:
        why.append('nothing is evaluated')
    return why


def sequence(t, s, depth=0):
    """(element, iterable) if t lists one element per item, in order."""
    while t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple') and \
            len(t[3]) == 1:
        t = t[3][0]
    if t[0] == 'comp' and t[1] in ('list', 'gen'):
        return (t[2], t[3] if not t[4] else None)
    sq = s.heap.get((t, '$seq')) if s is not None else None
    if t[0] == 'new' and t in s.coll:
        e, must, may = s.coll[t]
        items = {i for i in (may or ()) if isinstance(i, tuple)}
        its = set()
        for i in items:
            for y in subterms(i):
                if isinstance(y, tuple) and len(y) == 2 and y[0] == 'elem':
                    its.add(y[1])
        if len(its) == 1:
            E = next(iter(its))
            skipped = any(f[0] == 'forall' for f, p in s.facts if False)
            return (next(iter(items)), E)
    return None


def is_whole(E, x):
    while E[0] == 'call' and E[1] in (
            'builtins.enumerate', 'builtins.list', 'builtins.tuple',
            'builtins.iter', 'builtins.zip') and E[3]:
        if E[1] == 'builtins.zip':
            return any(is_whole(y, x) for y in E[3])
        E = E[3][0]
    if E[0] == 'call' and E[1] == 'builtins.range' and len(E[3]) == 1 and \
            E[3][0][0] == 'call' and E[3][0][1] == 'builtins.len':
        return is_whole(E[3][0][3][0], x)
    return E == x


def is_element(v, x):
    """Is v the value of an iteration over all of x?"""
    if v[0] == 'elem':
        return v[1] == x or is_whole(v[1], x) and v[1][0] == 'call' and \
            v[1][1] in ('builtins.list', 'builtins.tuple', 'builtins.iter')
    if v[0] == 'item' and v[1][0] == 'elem' and v[1][1][0] == 'call':
        E = v[1][1]
        if E[1] == 'builtins.enumerate':
            return v[2] == const(1) and is_whole(E, x)
        if E[1] == 'builtins.zip' and v[2][0] == 'const':
            i = v[2][2]
            return i < len(E[3]) and is_whole(E[3][i], x)
    if v[0] == 'item' and is_whole(v[1], x) and v[2][0] == 'elem' and \
            is_whole(v[2][1], x):
        return True
    return False


def is_position(v, x):
    if v[0] == 'item' and v[1][0] == 'elem' and v[2] == const(0):
        E = v[1][1]
        return E[0] == 'call' and E[1] == 'builtins.enumerate' and \
            is_whole(E, x)
    if v[0] == 'elem' and v[1][0] == 'call' and v[1][1] == 'builtins.range':
        return is_whole(v[1], x)
    return v[0] == 'counter'


def in_order(R, s, t, x):
    """The attribute returned for each task, and what is wrong."""
    sq = sequence(t, s)
    if sq is None:
        return None, ['it does not return one result per task but %s' %
                      show(t)[:60]]
    e, E = sq
    if E is None:
        return None, ['some results are left out']
    if e[0] == 'attr':
        base, res = e[1], e[2]
    else:
        return None, ['it does not return the results of the tasks']
    if base != ('elem', E):
        if base[0] == 'call' and base[1] == TASK:
            return res, []
        return res, ['it returns something else than the results of the '
                     'tasks in their order']
    # the tasks themselves, in the order they were made
    if made(E, s, x):
        return res, []
    # sorted by the attribute that keeps the position
    if E[0] == 'call' and E[1] == 'builtins.sorted':
        kw = dict(E[4])
        k = kw.get('key')
        if 'reverse' in kw and kw['reverse'] != FALSE:
            return res, ['the results are in reverse order']
        a = key_attr(R.ck.prog, k)
        inner = E[3][0]
        if inner[0] == 'call' and tail(inner[1]) == '_evaluate':
            inner = inner[3][0]
        q = sequence(inner, s)
        if a and q and q[0][0] == 'call':
            args = R.task_args(q[0])
            if args and args.get(a) is not None and \
                    is_position(args[a], x):
                return res, []
        return res, ['the results are not sorted by the position of the '
                     'input']
    if E[0] == 'call' and tail(E[1]) == '_evaluate':
        return res, ['the results are in the order in which the tasks '
                     'finished']
    if E[0] == 'new':
        return res, []           # sorted in place, see below
    return res, ['the order of the results is not that of the inputs']


def made(E, s, x):
    q = sequence(E, s)
    return q is not None and q[1] is not None and is_whole(q[1], x)


def key_attr(prog, k):
    if k is None:
        return None
    if k[0] == 'call' and k[1] == 'operator.attrgetter' and \
            len(k[3]) == 1 and k[3][0][0] == 'const':
        return k[3][0][2]
    fi = prog.functions.get(k[1]) if k[0] == 'closure' else None
    if fi is not None and isinstance(fi.node, ast.Lambda) and \
            isinstance(fi.node.body, ast.Attribute):
        return fi.node.body.attr
    return None
