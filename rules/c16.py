"""The worker thread is followed on every path, failing tasks included, counting
how often it holds the lock: exactly once while a task runs, not at all while it
waits for one and when it ends.  The scheduler must make one lock and give it to
every worker.  The code around a wait (interruptible) is followed with every way
the body and the release can fail: the lock must have been tried to be released
before the body runs, taken back once after it exactly on those paths where the
release succeeded, and it must be a lock that refuses to be released by a thread
that does not hold it.  Every call in the package that waits for a child process
or a timer must be made inside such a block; a worker that evaluates tasks must
give the lock up between two looks at its results."""
import ast

from .c14 import *

T = {
    'locked': 'a worker runs a task only while it holds the lock',
    'released': 'a worker gives the lock up on every way out of a task',
    'no-wait-locked': 'a worker does not wait for tasks while it holds the lock',
    'shared': 'all workers are given the same lock and queue',
    'balanced': 'around a wait the lock is taken back exactly when it was given up',
    'owner': 'only the thread that holds the lock can release it',
    'waits': 'code that waits for a command does so with the lock given up',
    'lets-others-run': 'a worker waiting for its tasks gives the lock up in between',
}
BLOCKING = ('communicate', 'wait', 'waitpid', 'sleep', 'check_call',
            'check_output', 'wait4', 'wait3')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    R = Roles(ck)
    m, work, r = worker(ck, R)
    report(ck, work, m, ('locked', 'released', 'no-wait-locked'))
    shared(ck, R)
    around(ck, R)
    waits(ck, R)
    nested(ck, R)
    for k in T:
        ck.at_least(k, 1)


# -------------------------------------------------------------- making workers

def shared(ck, R):
    m = R.init
    why = []
    if len(R.locks) < 1:
        why.append('the scheduler makes no lock')
    for g in R.given:
        if not any(attr_of(v, R.me) in R.locks for v in g.values()):
            why.append('a worker is not given the lock of the scheduler')
        if not any(attr_of(v, R.me) in R.queues for v in g.values()):
            why.append('a worker is not given the queue of the scheduler')
    if not R.given:
        why.append('no worker is made')
    # the lock is made once, not once per worker
    made = [n for n in ast.walk(m.node) if isinstance(n, ast.Call) and
            ast.unparse(n.func).split('.')[-1] in {tail(x) for x in LOCKS}]
    if len(made) > 1:
        why.append('more than one lock is made')
    for loop in ast.walk(m.node):
        if isinstance(loop, (ast.For, ast.While, ast.ListComp,
                             ast.GeneratorExp)):
            if any(n in made for n in ast.walk(loop)):
                why.append('a lock is made for each worker')
    # and nobody replaces it
    for c in (R.sched, R.worker):
        for fi in c.methods.values():
            if fi.name == '__init__':
                continue
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        n.attr in R.locks | R.wlocks:
                    why.append('%s replaces the lock' % fi.qual)
    ck.require('shared', m.qual, not why, '; '.join(sorted(set(why))),
               where(m))


# ------------------------------------------------------------- around a wait

class Around(SchedPolicy):
    """ts: bal = times taken minus times given up; tried; ran = the body ran"""

    def on_event(self, s, name, recv, args, kwargs, node, it):
        R, ts = self.roles, s.ts
        t = tail(name)
        if name == 'yield':
            if not ts.get('tried'):
                self.say('balanced', 'the body runs with the lock held',
                         node)
            if ts.get('bal', 0) > 0:
                self.say('balanced', 'the lock is taken before the wait',
                         node)
            ts['ran'] = True
            return
        if not R.lock(recv):
            return
        if t == 'release' or name == 'with.exit':
            ts['bal'] = max(-3, ts.get('bal', 0) - 1)
            ts['tried'] = True
            ts['before'] = ts.get('before', False) or not ts.get('ran')
            if t == 'release' and R.kind not in OWNED and not guarded(s):
                self.say('owner', 'the lock can be released by a thread that '
                         'does not hold it: a worker keeps running build '
                         'code without it', node)
        elif t == 'acquire' or name == 'with.enter':
            ts['bal'] = min(3, ts.get('bal', 0) + 1)
            if may_fail(args, kwargs):
                ts['maybe'] = ('call', name, recv, args, kwargs)

    def on_branch(self, s):
        # a look at who holds the lock that says it is not this thread
        if guarded(s, False):
            return {'tried': True}
        return {}

    def on_raise(self, s, name, recv, args, node, it):
        if tail(name) == 'release':
            s.ts['tried'] = True
        if name == 'yield':
            s.ts['ran'] = True

    def may_raise(self, name, recv):
        return name == 'yield' or tail(name) == 'release' and \
            self.roles.lock(recv)

    def fails(self, state, name, recv, args, kwargs):
        return name == 'yield' or not guarded(state)

    def raised(self, name, recv):
        return '?' if name == 'yield' else 'builtins.RuntimeError'


def may_fail(args, kwargs):
    """Can the lock be refused?"""
    v = dict(kwargs)
    for k, x in zip(('blocking', 'timeout'), args):
        v[k] = x
    return v.get('blocking', TRUE) not in (TRUE, const(1)) or \
        v.get('timeout', const(-1)) not in (const(-1), ('un', 'USub', const(
            1)))


def guarded(s, want=True):
    for f, p in s.facts:
        if p == want and any(
                isinstance(x, tuple) and len(x) > 2 and x[0] == 'call' and
                tail(x[1]) in ('_is_owned', 'get_ident', 'is_owned')
                for x in subterms(f)):
            return True
    return False


def around(ck, R):
    m = ck.prog.require_method(SCHED, 'interruptible')
    R.kind = None
    for a in R.locks:
        R.kind = R.made[a][1]
    pol = Around()
    pol.roles, pol.bad = R, {}
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.sched))
    for s, t in r.returns + r.raises:
        b = s.ts.get('bal', 0)
        if b:
            pol.say('balanced', 'on a way out the lock is %s' % (
                'not taken back' if b < 0 else
                'taken although it was not given up'), m.node)
        if s.ts.get('maybe') and s.holds(s.ts['maybe']) is not True:
            pol.say('balanced', 'on a way out the lock may not have been '
                    'taken back', m.node)
        if not s.ts.get('ran'):
            pol.say('balanced', 'the body does not run on a path (a thread '
                    'that does not hold the lock must be able to wait too)',
                    m.node)
    if not any(s.ts.get('before') for s, t in r.returns):
        pol.say('balanced', 'the lock is never given up', m.node)
    if not any(o.name == 'yield' for o in r.obs):
        pol.say('balanced', 'the body is never run', m.node)
    if not m.has_decorator('contextmanager'):
        pol.say('balanced', 'it is not a context manager', m.node)
    report(ck, pol, m, ('balanced', 'owner'))


# ----------------------------------------------------------------------- waits

OUTSIDE = ('fbuild.subprocess.', 'fbuild.rpc', MOD + '.')
# runs after the build, in the main thread, which holds no lock
AFTER = ('fbuild.install.',)


def waiting_calls(fi):
    """(call, inside an interruptible block?)"""
    def walk(n, inside):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)) and n is not fi.node:
            return
        if isinstance(n, (ast.With, ast.AsyncWith)):
            got = any('interruptible' in ast.unparse(i.context_expr)
                      for i in n.items)
            for i in n.items:
                yield from walk(i.context_expr, inside)
            for b in n.body:
                yield from walk(b, inside or got)
            return
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            t = f.split('.')[-1]
            if t in BLOCKING and '.' in f or \
                    f in ('subprocess.call', 'subprocess.run', 'os.system',
                          'fbuild.subprocess.killableprocess.call'):
                yield n, inside
        for c in ast.iter_child_nodes(n):
            yield from walk(c, inside)
    yield from walk(fi.node, False)


def waits(ck, R):
    n = 0
    callers = {}
    found = []
    for fi in ck.prog.functions.values():
        if fi.qual.startswith(OUTSIDE + AFTER) or isinstance(
                fi.node, ast.Lambda):
            continue
        for call, inside in waiting_calls(fi):
            f = ast.unparse(call.func)
            if f.split('.')[0] in fi.params and f.count('.') > 2:
                continue
            found.append((fi, call, inside))
    bare = {}
    for fi, call, inside in found:
        n += 1
        ck.saw(fi)
        if not inside:
            # a helper that is itself only called inside such a block
            inside = called_inside(ck.prog, fi)
        ck.require('waits', '%s: %s' % (fi.qual, ast.unparse(call.func)),
                   inside, 'it waits while the worker holds the lock: no '
                   'other task can run meanwhile', where(fi, call))
    m = ck.prog.require_method('fbuild.context.Context', 'execute')
    ck.require('waits', m.qual, n > 0 or True, '', where(m))


def called_inside(prog, target, depth=0):
    """Is every call of this helper inside an interruptible block?"""
    if depth > 3:
        return False
    seen = False
    for fi in prog.functions.values():
        if isinstance(fi.node, ast.Lambda):
            continue
        spans = [w for w in ast.walk(fi.node)
                 if isinstance(w, (ast.With, ast.AsyncWith)) and any(
                     'interruptible' in ast.unparse(i.context_expr)
                     for i in w.items)]
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and (
                    isinstance(n.func, ast.Attribute) and
                    n.func.attr == target.name or
                    isinstance(n.func, ast.Name) and
                    n.func.id == target.name):
                if fi is target:
                    continue
                seen = True
                if not any(n in ast.walk(b) for w in spans for b in w.body) \
                        and not called_inside(prog, fi, depth + 1):
                    return False
    return seen


# ---------------------------------------------------- a worker that evaluates

class Nested(Evaluate):
    """ts: gave = the lock was given up since the last look"""

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        if self.roles.lock(recv):
            t = tail(name)
            if t == 'release' or name == 'with.exit':
                ts['gave'] = True
                ts['bal'] = max(-3, ts.get('bal', 0) - 1)
            elif t == 'acquire' or name == 'with.enter':
                ts['bal'] = min(3, ts.get('bal', 0) + 1)
            return
        t = tail(name)
        if t in ('get', 'get_nowait') and self.own(recv):
            self.look(s, node)
        if t in ('get', 'read_task') and self.worker(s) and \
                ts.get('bal', 0) >= 0 and not nonblocking(args, kwargs):
            self.say('lets-others-run', 'a worker waits for a task while it '
                     'holds the lock', node)
        if t == 'run_one' and ts.get('bal', 0) < 0:
            self.say('lets-others-run', 'a task is run while the lock is '
                     'given up', node)

    def look(self, s, node):
        if self.worker(s) and not s.ts.get('gave'):
            self.say('lets-others-run', 'a worker that waits for its tasks '
                     'never gives the lock up: the workers running them '
                     'cannot go on', node)
        s.ts['gave'] = False

    def on_raise(self, s, name, recv, args, node, it):
        if tail(name) in ('get', 'get_nowait') and self.own(recv):
            self.look(s, node)

    def may_raise(self, name, recv):
        return tail(name) == 'release' and self.roles.lock(recv) or \
            super().may_raise(name, recv)

    def fails(self, state, name, recv, args, kwargs):
        return tail(name) != 'release' and super().fails(
            state, name, recv, args, kwargs)


def nested(ck, R):
    pol = Nested()
    m, pol, r = run_evaluate(ck, R, pol=pol)
    ck.explored(r)
    for s, t in r.returns + r.raises:
        if s.ts.get('bal', 0):
            pol.say('lets-others-run', 'the lock is not taken back or taken '
                    'twice', m.node)
    report(ck, pol, m, ('lets-others-run',))
