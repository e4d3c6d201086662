"""The evaluation loop and map_with_dependencies are followed on every path.  A
task may be queued only where it is known that it was not queued before and that
every task it depends on is done; only a task that was taken back may be marked
done; after each finished task those that depend on it must be considered again;
and the loop may return only if every task has a result, otherwise the loop
error is raised.  In map_with_dependencies every dependency found for an input
must be registered with its task before the tasks are evaluated, and the results
must be listed by walking inputs and dependencies, dependencies first and each
once, never in the order in which tasks finished."""
from .c14 import *
from . import c14

T = {
    'ready-only': 'a task is queued only when all it depends on is done',
    'once': 'a task that was queued is marked and never queued again',
    'done-when-finished': 'a task counts as done only after it was taken back',
    'dependents': 'after a task finished everything that depends on it is considered',
    'loop-reported': 'an answer is returned only when every task has a result, otherwise the loop is reported',
    'declared': 'every dependency of an input is registered before the tasks are evaluated',
    'result-order': 'results list dependencies first, each once, independent of completion order',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    R = Roles(ck)
    m, work, r = worker(ck, R)
    R.items = work.back_path
    deps = declared(ck, R)
    done = loop(ck, R, deps)
    marked(ck, R, work, done)
    for k in T:
        ck.at_least(k, 1)


# ------------------------------------------------------- map_with_dependencies

class Declare(SchedPolicy):
    """ts: over = iterables a loop went over; first = not listed before;
    put = the tasks were evaluated"""
    stop = ('_evaluate',)
    max_states = 12
    deps_of = staticmethod(lambda E: False)

    def on_loop(self, s, E, node, it):
        s.ts['over'] = s.ts.get('over', frozenset()) | {E}

    def on_iter(self, s, E, node, it):
        if self.deps_of(E):
            s.ts['in'] = E
            s.ts['linked'] = False

    def iter_done(self, s, E, node, it):
        if self.deps_of(E):
            s.ts['in'] = None
            d = elem(E)
            if not s.ts.get('linked') and not all(
                    self.unknown(w, d) for w in worlds(s)):
                self.say('declared', 'a dependency that is an input itself is '
                         'passed over', node)
        return ()

    def unknown(self, w, d):
        """Is the dependency known to be no input, or registered already?"""
        for f, p in w.facts:
            if f[0] == 'cmp' and f[1] == 'In' and (
                    f[2] == d and not p or p and mentions(f[2], d)):
                return True
            if mentions(f, d) and any(
                    isinstance(x, tuple) and len(x) > 3 and x[0] == 'call' and
                    tail(x[1]) == 'get' for x in subterms(f)):
                return (f[0] == 'cmp' and f[1] == 'Is' and p and f[3] == NONE
                        ) or f[0] == 'call' and not p
        return False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        t = tail(name)
        if ts.get('in') and t in ('append', 'add', 'extend', 'update') and \
                args and mentions(args[0], elem(ts['in'])):
            ts['linked'] = True
        if t == '_evaluate':
            if ts.get('in'):
                self.say('declared', 'the other dependencies of an input are '
                         'passed over after one that is left out', node)
            self.runs.append((args[0] if args else NONE, s, node))
            ts['runs'] = min(ts.get('runs', 0) + 1, 3)
        elif t in ('append', 'add', 'extend', 'update') and args and \
                recv is not None and recv[0] == 'attr':
            self.links.append((recv, args[0], s, node))
        elif t == 'add' and args and recv is not None or \
                name == 'set.item' and recv is not None:
            x = args[0]
            for w in worlds(s):
                if not any(f[0] == 'cmp' and f[1] == 'In' and not p and
                           f[2] == x for f, p in w.facts):
                    return
            ts['first'] = x
        elif t in ('append', 'extend') and args and recv is not None and \
                recv[0] == 'new':
            self.lists.append((recv, args[0], s, node, t))
        elif args and ('<locals>' in name or name.startswith(SCHED + '.')):
            self.calls.append((name, args, it.cur_frame.fi
                               if it.cur_frame else None))

    def may_raise(self, name, recv):
        return False


def declared(ck, R):
    m = ck.prog.require_method(SCHED, 'map_with_dependencies')
    pol = Declare()
    pol.roles, pol.bad = R, {}
    pol.runs, pol.links, pol.lists, pol.calls = [], [], [], []
    dep, fun, srcs = param(m, 0), param(m, 1), param(m, 2)
    pol.deps_of = lambda E: E[0] == 'attr' and (
        E[1][0] == 'elem' and any(
            y[0] == 'call' and tail(y[1]) == '_evaluate' and mentions(y, dep)
            for y in subterms(E[1]) if isinstance(y, tuple) and len(y) > 3) or
        E[1][0] == 'call' and E[1][1] == TASK and dep in E[1][3])
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.sched))
    probe = {}
    src_attr = None
    for o in r.obs:
        if o.name != TASK:
            continue
        a = R.task_args(('call', TASK, None, o.args, o.kwargs)) or {}
        for f in (dep, fun):
            if f in a.values():
                ss = [k for k, v in a.items()
                      if v is not None and is_element(v, srcs)]
                probe.setdefault(f, set()).add(bool(ss))
                src_attr = ss[0] if ss else src_attr
    for f, what in ((dep, 'dependencies'), (fun, 'function')):
        if probe.get(f) != {True}:
            pol.say('declared', 'there is no task for each input to run the '
                    '%s' % what, m.node)
    # what finding the dependencies gave
    def finds(t):
        return t[0] == 'call' and tail(t[1]) == '_evaluate' and any(
            dep == x for x in subterms(t))

    def found(x):
        """An element of the result of a task that finds dependencies."""
        for y in subterms(x):
            if isinstance(y, tuple) and len(y) == 2 and y[0] == 'elem' and \
                    y[1][0] == 'attr' and base_of(y[1][1]):
                return y[1][1]
        return None

    def base_of(x):
        return x[0] == 'elem' and any(
            finds(z) for z in subterms(x[1]) if isinstance(z, tuple) and
            len(z) > 3) or x[0] == 'call' and x[1] == TASK and \
            dep in x[3]
    D = set()
    for recv, v, s, node in pol.links:
        t = found(v)
        if t is None:
            continue
        if not (mentions(recv[1], ('attr', t, src_attr)) or
                recv[1] == t or mentions(recv[1], t)):
            pol.say('declared', 'a dependency is registered with another '
                    'task than the one it was found for', node)
        elif v[0] == 'attr' or v[0] == 'elem':
            pol.say('declared', 'what is registered is not the task of the '
                    'dependency', node)
        else:
            D.add(recv[2])
            if s.ts.get('runs', 0) > 1:
                pol.say('declared', 'dependencies are registered after the '
                        'tasks were evaluated', node)
    for o in r.obs:
        # task.dependencies = [...]
        if o.name == 'set.attr' and len(o.args) > 1 and \
                o.args[0][2] not in R.tkeeps:
            t = found(o.args[1])
            if t is not None:
                D.add(o.args[0][2])
    if not D:
        pol.say('declared', 'no dependency found is registered with a task',
                m.node)
    last = [(a, s, n) for a, s, n in pol.runs
            if not any(dep == x for x in subterms(a))]
    if not last:
        pol.say('declared', 'the function is not evaluated', m.node)
    for a, s, node in last:
        if not any(finds(x) for E in s.ts.get('over', ()) for x in
                   subterms(E) if isinstance(x, tuple) and len(x) > 3):
            pol.say('declared', 'the tasks are evaluated before their '
                    'dependencies are registered', node)
    order(ck, R, m, pol, r, D, srcs, fun)
    report(ck, pol, m, ('declared', 'result-order'))
    return frozenset(D)


def order(ck, R, m, pol, r, D, srcs, fun):
    n = 0
    # functions that list a task by visiting what it depends on first
    visits = {q for q, args, fi in pol.calls
              if fi is not None and q == fi.qual}
    loops = any(isinstance(x, ast.While) for x in ast.walk(m.node))
    for o in r.obs:
        if o.name == TASK or o.recv is None:
            continue
    for recv, v, s, node, t in pol.lists:
        if not (v[0] == 'attr' or t == 'extend'):
            continue
        if not any(recv == x or mentions(x, recv)
                   for z, x in r.returns):
            continue
        n += 1
        X = v[1] if v[0] == 'attr' else v
        if any(isinstance(x, tuple) and len(x) > 3 and x[0] == 'call' and
               tail(x[1]) == '_evaluate' for x in subterms(v)):
            pol.say('result-order', 'results are listed in the order in which '
                    'tasks finished', node)
            continue
        if any(isinstance(x, tuple) and len(x) == 2 and x[0] == 'elem' and
               is_set(x[1]) for x in subterms(v)):
            pol.say('result-order', 'results are listed in the order of a '
                    'set, which differs between runs', node)
        if visits:
            if not any(E[0] == 'attr' and E[1] == X and E[2] in D
                       for E in s.ts.get('over', ())):
                pol.say('result-order', 'a result is listed before those of '
                        'the tasks it depends on', node)
            if s.ts.get('first') != X:
                pol.say('result-order', 'the result of a task may be listed '
                        'more than once', node)
        elif not loops:
            pol.say('result-order', 'results are listed without visiting '
                    'what a task depends on first', node)
    for s, t in r.returns:
        if t[0] == 'comp' or t[0] == 'call':
            n += 1
            E = t[3] if t[0] == 'comp' else t
            if any(isinstance(x, tuple) and len(x) > 3 and x[0] == 'call' and
                   tail(x[1]) == '_evaluate' for x in subterms(E)) or \
                    is_whole(E, srcs) or not loops and not visits:
                pol.say('result-order', 'results are listed without visiting '
                        'what a task depends on first', m.node)
    if not n:
        pol.say('result-order', 'no results are returned', m.node)


# --------------------------------------------------------- the evaluation loop

class Ready(Evaluate):
    """ts: fresh = known not to be queued yet; marked = marked as queued;
    queued = queued but not marked; walked = dependents considered of"""
    deps = frozenset()
    flags = frozenset()
    done = frozenset()

    def given(self, s, t, it):
        """The state with what the conditions of a comprehension say about
        an element of its result."""
        states = [s]
        for _ in range(3):
            if not (t[0] == 'elem' and t[1][0] == 'comp' and t[1][2][0] ==
                    'elem'):
                break
            E = t[1]
            for c in E[4]:
                nxt = []
                for x in states:
                    nxt += it.assume(substitute(c, E[2], t), True, x)
                states = nxt
            break
        return [w for x in states for w in worlds(x)]

    def ready(self, w, t):
        for f, p in w.facts:
            if f[0] == 'attr' and f[1] == t and f[2] in self.deps and not p:
                return True
            if f[0] == 'forall_none' and f[1][0] == 'attr' and \
                    f[1][1] == t and f[1][2] in self.deps:
                return True
            if f[0] == 'forall' and f[1][0] == 'attr' and f[1][1] == t and \
                    f[1][2] in self.deps and f[2][0] == 'attr' and \
                    f[2][1] == elem(f[1]) and f[2][2] in self.done and \
                    f[3] is True and p:
                return True
            if f[0] == 'cmp' and p and any(
                    x == ('attr', t, d) for d in self.deps
                    for x in subterms(f)) and const(0) in (f[2], f[3]) and \
                    f[1] == 'Eq':
                return True
            if p and f[0] == 'call' and tail(f[1]) == 'issuperset' and any(
                    mentions(f, ('attr', t, d)) for d in self.deps):
                return True
        return False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        R, ts = self.roles, s.ts
        t = tail(name)
        if name == 'set.item' and recv is not None and len(args) > 1 and \
                args[0][0] == 'elem' and args[0][1][0] == 'attr' and \
                args[0][1][2] in self.deps and not mentions(
                    args[1], recv) and args[1][0] in (
                    'new', 'list', 'set', 'tuple') and not all(any(
                        f[0] == 'cmp' and f[1] == 'In' and not p and
                        f[2] == args[0] for f, p in w.facts)
                        for w in worlds(s)):
            self.say('dependents', 'the tasks that depend on another are '
                     'forgotten when one more does', node)
        if name == 'set.attr' and recv is not None and len(args) > 1 and \
                args[0][0] == 'const':
            a = args[0][2]
            if args[1] == TRUE:
                self.set.add((a, recv))
                if a in self.done and recv != ts.get('mine'):
                    ts['cancel'] = True
                if a in self.flags:
                    if all(any(f == ('attr', recv, a) and not p
                               for f, p in w.facts)
                           for w in self.given(s, recv, it)):
                        ts['fresh'] = recv
                    ts['marked'] = recv
                    if ts.get('queued') == recv:
                        ts['queued'] = None
            return super().on_event(s, name, recv, args, kwargs, node, it)
        if t in ('put', 'put_nowait') and R.queue(recv) and args and \
                args[0] != NONE:
            self.check_marked(s, node)
            for p, q in R.items:
                x = resolve(q, args[0])
                if not all(self.ready(w, x) for w in self.given(s, x, it)):
                    self.say('ready-only', 'a task is queued although what '
                             'it depends on may not be done', node)
                if ts.get('marked') != x:
                    ts['queued'] = x
                    if self.known_fresh(s, x, it):
                        ts['fresh'] = x
                if x[0] == 'elem' and whole_param(x[1]):
                    ts['fresh'] = x
                if ts.get('fresh') != x:
                    self.say('once', 'a task is queued although it may have '
                             'been queued before', node)
                ts['fresh'] = None
                ts['marked'] = None
        if t in ('get', 'get_nowait') and self.own(recv):
            self.check_marked(s, node)
            self.considered(s, node)
            super().on_event(s, name, recv, args, kwargs, node, it)
            ts['mine'] = ts['task']
            ts['walked'] = None
            if ts.get('cancel'):
                self.say('done-when-finished', 'a task counts as done before '
                         'it was taken back', node)
            return
        super().on_event(s, name, recv, args, kwargs, node, it)

    def known_fresh(self, s, x, it):
        return all(any(f[0] == 'attr' and f[1] == x and f[2] in self.flags
                       and not p for f, p in w.facts)
                   for w in self.given(s, x, it))

    def on_raise(self, s, name, recv, args, node, it):
        if tail(name) in ('get', 'get_nowait') and self.own(recv):
            self.considered(s, node)
            s.ts['mine'] = None
        super().on_raise(s, name, recv, args, node, it)

    def check_marked(self, s, node):
        if s.ts.get('queued'):
            self.say('once', 'a task that was queued is not marked: it may '
                     'be queued again', node)
        s.ts['queued'] = None

    def considered(self, s, node):
        g = s.ts.get('mine')
        if g is not None and s.ts.get('walked') != g:
            self.say('dependents', 'a task finished and those that depend on '
                     'it are not considered', node)

    def on_loop(self, s, E, node, it):
        g = s.ts.get('mine')
        if g is None:
            return
        if mentions(E, g) or whole_param(E):
            # over the dependents: only then is it looked at who can run
            if any(isinstance(x, ast.Call) for b in node.body
                   for x in ast.walk(b)):
                s.ts['walked'] = g
                self.walks.append((E, g))


def whole_param(E):
    return E[0] == 'param' or E[0] == 'comp' and E[2] == ('elem', E[3]) and \
        E[3][0] == 'param' or E[0] == 'call' and E[1] == 'builtins.list' and \
        E[3] and E[3][0][0] == 'param'


def loop(ck, R, deps):
    flags, done = frozenset(), frozenset()
    for i in range(3):
        pol = Ready()
        pol.deps, pol.flags, pol.done = deps, flags, done
        pol.set, pol.walks = set(), []
        m, pol, r = run_evaluate(
            ck, R, frozenset(), R.excs if i else frozenset(), pol)
        if i == 0:
            R.excs = failures(R, r, pol)
            done = frozenset(a for a, x in pol.set if pol.got(x))
            flags = frozenset(a for a, x in pol.set) - done
            if not done:
                # marked by the worker or by the task itself
                done = frozenset(a for a, v in R.tstart.items()
                                 if v == FALSE) - flags
            continue
        break
    ck.explored(r)
    registered = False
    for o in r.obs:
        if tail(o.name) in ('append', 'add') and o.args and \
                o.recv is not None and any(
                    isinstance(x, tuple) and len(x) == 2 and x[0] == 'elem'
                    and x[1][0] == 'attr' and x[1][2] in deps and
                    x[1][1] == o.args[0] for x in subterms(o.recv)):
            registered = True
    direct = any(whole_param(E) for E, g in pol.walks)
    if not registered and not direct:
        pol.say('dependents', 'it is not kept which tasks depend on which',
                m.node)
    for s, t in r.returns:
        pol.check_marked(s, m.node)
        pol.considered(s, m.node)
        if s.ts.get('cancel'):
            pol.say('done-when-finished', 'tasks that did not run count as '
                    'done', m.node)
        if not all(complete(w, pol) for w in worlds(s)):
            pol.say('loop-reported', 'an answer is returned although some '
                    'tasks may never have run', m.node)
    if not any('DependencyLoop' in show(e) or 'Loop' in str(e)
               for s, e in r.raises):
        pol.say('loop-reported', 'a dependency loop is not reported', m.node)
    if not pol.walks:
        pol.say('dependents', 'tasks that depend on a finished one are never '
                'considered', m.node)
    report(ck, pol, m, ('ready-only', 'once', 'done-when-finished',
                        'dependents', 'loop-reported'))
    return pol.done


class Marks(SchedPolicy):
    """ts: ran = the function of the task was called"""

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if recv is not None and (
                name[:1] == '.' and name[1:] in self.functions or
                recv[0] == 'attr' and recv[2] in self.functions):
            s.ts['ran'] = True
        if name == 'set.attr' and recv == ('self', TASK) and \
                args[0][0] == 'const' and args[0][2] in self.done and \
                args[1] != FALSE and not s.ts.get('ran'):
            self.say('done-when-finished', 'a task counts as done before '
                     'its function was called', node)


def marked(ck, R, work, done):
    """Neither the worker nor the task says it is done before it ran."""
    rule = 'done-when-finished'
    for a, line in sorted(work.early):
        ck.require(rule, R.worker.qual, a not in done,
                   'the worker marks a task as done before it ran',
                   'line %d' % line)
    for p in sorted(work.run_path):
        m = R.task.find_method('run')
        pol = Marks()
        pol.roles, pol.bad, pol.done = R, {}, done
        pol.functions = {k for k, p in R.tkeeps.items() if p == 'function'} \
            or set(R.tkeeps)
        ck.explored(Interp(ck.prog, pol).run(m, cls=R.task))
        report(ck, pol, m, (rule,))
        break


def complete(w, pol):
    for f, p in w.facts:
        if f[0] == 'cmp' and f[1] == 'Eq' and p and all(
                x[0] == 'call' and x[1] == 'builtins.len'
                for x in (f[2], f[3])):
            a, b = f[2][3][0], f[3][3][0]
            if a[0] == 'param' or b[0] == 'param':
                return True
        if f[0] == 'forall' and whole_param(f[1]) and f[2][0] == 'attr' and \
                f[2][2] in pol.done and f[3] is True:
            return True
        if f[0] == 'comp' and not p and whole_param(f[3]):
            return True
    return False


def is_set(E):
    return E[0] in ('comp', 'new') and E[1] == 'set' or \
        E[0] == 'call' and E[1] in ('builtins.set', 'builtins.frozenset')
