"""Interprocedural dataflow over the syntax tree, with trace partitioning.

The engine computes, for every program point of an entry function (callees of
the same package are analysed in their calling context unless the rule treats
them as opaque), a finite set of abstract states.  A state holds

  env    variable -> origin term                 (reaching definition)
  facts  branch conditions known to hold         (term, polarity)
  must   events that happened on every path      may: on some path
  coll   what has been put into local collections
  ts     a rule's typestate

States are merged by set intersection/union at joins; loops run to a fixpoint.
A `for` loop that finishes turns what held for its element on every iteration
into a `forall` fact.  Nothing is executed and no solver is consulted.
"""

import ast
import builtins
import os

from .program import (AnalysisBroken, ClassInfo, FunctionInfo, Module, dotted,
                      walk_scope)
from .terms import *
from . import terms as T

CAP = 40

def dotted_name(n):
    if isinstance(n, ast.Attribute):
        b = dotted_name(n.value)
        return b and b + '.' + n.attr
    return n.id if isinstance(n, ast.Name) else None


def var_of(c, name):
    return getattr(c, 'assigns', {}).get(name)


MUTATORS = {'append', 'add', 'insert', 'extend', 'update', 'pop', 'remove',
            'discard', 'clear', 'setdefault', 'popitem', 'appendleft',
            'extendleft', 'popleft', 'sort', 'reverse', 'add_all'}

SAFE_BUILTINS = {'isinstance', 'issubclass', 'len', 'hasattr', 'callable',
                 'id', 'type', 'repr', 'bool', 'super', 'vars', 'locals',
                 'globals', 'iter', 'zip', 'enumerate', 'range', 'reversed',
                 'map', 'filter', 'list', 'set', 'tuple', 'frozenset', 'dict',
                 'str', 'object', 'print', 'any', 'all', 'sorted', 'max', 'min'}

COPYING = {'builtins.list', 'builtins.set', 'builtins.tuple',
           'builtins.frozenset', 'builtins.sorted', 'builtins.iter',
           'builtins.dict', 'builtins.reversed'}


_baseline = None


def baseline_functions():
    """Functions that existed when the rules were confirmed by hand."""
    global _baseline
    if _baseline is None:
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                            'baseline_functions.txt')
        with open(path) as f:
            _baseline = frozenset(l.strip() for l in f if l.strip())
    return _baseline


def meet_facts(a, b):
    """What holds in both.  Where one side has ('forall_none', E) it holds
    vacuously for all of E, so what the other side knows of E survives."""
    out = a & b
    for x, y in ((a, b), (b, a)):
        every = [f for f in y if f[0][0] == 'forall' and f not in out]
        if not every:
            continue
        none = {f[0][1] for f in x if f[0][0] == 'forall_none'}
        for f in every:
            E = f[0][1]
            if E in none or (E, False) in x or (
                    E[0] == 'call' and E[1] in COPYING and len(E[3]) == 1
                    and (E[3][0], False) in x):
                out |= {f}
    return out


ADDING = {'append', 'add', 'insert', 'extend', 'update', 'setdefault',
          'appendleft', 'extendleft', 'add_all', 'set.item'}
ORDERING = {'sort', 'reverse'}


def forget(s, o, how):
    """What was known of the size and the contents of o changed."""
    if how in ORDERING or not s.facts:
        return
    size = ('call', 'builtins.len', None, (o,), ())
    gone = set()
    for f, p in s.facts:
        if f == o:
            if not (p and how in ADDING):
                gone.add((f, p))
        elif f[0] == 'cmp' and f[1] == 'In' and f[3] == o:
            if not (p and how in ADDING):
                gone.add((f, p))
        elif f[0] == 'cmp' and (f[2] == size or f[3] == size):
            gone.add((f, p))
    if gone:
        s.facts = s.facts - gone
        if (o, False) in gone and how in ('append', 'add', 'insert',
                                          'appendleft', 'set.item'):
            s.facts = s.facts | {(o, True)}


def empties(s):
    return frozenset(k for k, v in s.coll.items() if v[0] == 'E')


class State:
    __slots__ = ('env', 'heap', 'coll', 'facts', 'must', 'may', 'foralls',
                 'ts', '_key')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.coll = {}
        self.facts = frozenset()
        self.must = frozenset()
        self.may = frozenset()
        self.foralls = {}
        self.ts = {}
        self._key = None

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.coll = dict(self.coll)
        s.facts = self.facts
        s.must = self.must
        s.may = self.may
        s.foralls = dict(self.foralls)
        s.ts = dict(self.ts)
        return s

    def soft_key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()),
                frozenset(self.coll.items()), self.must,
                frozenset(self.ts.items()))

    def key(self):
        if self._key is None:
            self._key = (self.soft_key(), self.facts, self.may,
                         frozenset(self.foralls.items()))
        return self._key

    # -- queries -----------------------------------------------------------

    def holds(self, t):
        """True / False / None (unknown) truthiness of t in this state."""
        k = t[0]
        if k == 'const':
            return bool(t[2])
        if k in ('closure', 'bound', 'ctor'):
            return True
        if k == 'bin' and t[1] == 'Div' and t[3][0] == 'const' and \
                t[3][1] == 'str' and t[3][2]:
            return True         # a path
        if k == 'not':
            r = self.holds(t[1])
            return None if r is None else not r
        if k == 'and':
            rs = [self.holds(x) for x in t[1:]]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if k == 'or':
            rs = [self.holds(x) for x in t[1:]]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if k == 'phi':
            rs = {self.holds(x) for x in t[1]}
            return rs.pop() if len(rs) == 1 else None
        if (t, True) in self.facts:
            return True
        if (t, False) in self.facts:
            return False
        if k == 'new':
            c = self.coll.get(t)
            if c is not None:
                if c[0] == 'E':
                    return False
                if c[0] == 'N':
                    return True
        if k in ('tuple', 'list', 'set', 'dict'):
            if not any(x[0] == 'star' for x in t[1:]):
                return len(t) > 1
        if k == 'cmp':
            if t[1] == 'Is' and t[3] == NONE:
                x = t[2]
                if x == NONE:
                    return True
                if x[0] in ('const', 'new', 'tuple', 'list', 'set', 'dict',
                            'closure', 'bound', 'comp', 'fstr', 'ctor'):
                    return False
                if x[0] == 'phi':
                    rs = {self.holds(('cmp', 'Is', a, NONE)) for a in x[1]}
                    if len(rs) == 1:
                        return rs.pop()
                    return None
                if self.holds(x) is True:
                    return False
            if t[2][0] == 'const' and t[3][0] == 'const':
                try:
                    a, b = t[2][2], t[3][2]
                    if t[1] == 'Eq':
                        return a == b
                    if t[1] == 'Is':
                        return t[2] == t[3]
                    if t[1] == 'Lt':
                        return a < b
                except TypeError:
                    pass
            if t[1] == 'Eq' and t[2] == t[3]:
                return True
            if t[1] == 'Is' and t[2] == t[3] and t[2][0] != 'const':
                return True
            if t[1] == 'Is' and t[2][0] == 'const' and t[3][0] == 'const':
                return t[2] == t[3]
        return None

    def foralls_known(self):
        """[(iterable, literal-term, polarity)]"""
        out = []
        for t, p in self.facts:
            if t[0] == 'forall' and p:
                out.append((t[1], t[2], t[3]))
        return out


class Obs:
    """One recorded event occurrence, with the state before it."""
    __slots__ = ('name', 'recv', 'args', 'kwargs', 'state', 'node', 'fi',
                 'chain', 'result')

    def __init__(self, name, recv, args, kwargs, state, node, fi, chain):
        self.name = name
        self.recv = recv
        self.args = args
        self.kwargs = kwargs
        self.state = state
        self.node = node
        self.fi = fi
        self.chain = chain

    @property
    def loc(self):
        return '%s:%d' % (self.fi.module.relpath,
                          getattr(self.node, 'lineno', 0))

    def arg(self, i, name=None):
        for k, v in self.kwargs:
            if k == name:
                return v
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def ev(self):
        return (self.name, self.recv, self.args, self.kwargs)


class OverBudget(AnalysisBroken):
    """There are too many paths to follow."""


class Frame:
    def __init__(self, fid, fi, cls, static_parent):
        self.fid = fid
        self.fi = fi
        self.cls = cls
        self.static_parent = static_parent


class Policy:
    """What a rule wants followed, ignored and watched."""
    track_exc = False
    max_depth = 10
    max_states = CAP
    opaque = ()
    transparent = ('fbuild.path.Path.',)
    quiet = ('fbuild.console.Log.', 'builtins.print', 'builtins.isinstance',
             'builtins.len', 'builtins.repr', 'builtins.issubclass',
             'builtins.hasattr', 'builtins.str', 'builtins.callable',
             'time.time', '.format', '.join', 'builtins.list',
             'builtins.set', 'builtins.tuple', 'builtins.frozenset',
             'builtins.all', 'builtins.any', 'builtins.sorted',
             'builtins.iter', 'builtins.enumerate', 'builtins.zip',
             'builtins.super', 'itertools.', 'warnings.')

    unroll_dicts = False

    def inline(self, fi):
        """Follow this callee?  Rules name what they follow; a function that
        did not exist when the rules were written (a helper somebody has
        extracted) is always followed, so that moving code into it changes
        nothing for the rule."""
        q = fi.qual
        if '<locals>' in q or '<lambda>' in q:
            return True
        if any(q == p or (p.endswith('.') and q.startswith(p))
               for p in self.opaque):
            return False
        if any(q == p or (p.endswith('.') and q.startswith(p))
               for p in self.transparent):
            return True
        return q not in baseline_functions()

    def model(self, it, name, recv, args, kwargs, state, node):
        return None

    def known(self, t):
        """Literals a rule assumes about the result of a call."""
        return None

    def attr_type(self, base, attr):
        """Class held by an attribute, where a rule fixes it."""
        return None

    def ignored(self, name):
        return any(name == q or (q.endswith('.') and name.startswith(q)) or
                   (q.startswith('.') and name == q) for q in self.quiet)

    def may_miss(self, coll, key):
        """Can there be no item for this key?"""
        return True

    symbolic_counts = False    # integers counted up and down are not followed

    def on_loop(self, state, iterable, node, it):
        """A for loop over iterable starts (it may have no iteration)."""

    def integer(self, t):
        """Is this term known to be a number?"""
        return False

    def on_iter(self, state, iterable, node, it):
        """An iteration of a for loop starts."""

    def iter_done(self, state, iterable, node, it):
        """An iteration ends normally: labels that become facts
        ('forall', iterable, ('did', label), True) when all end so."""
        return ()

    def fails(self, state, name, recv, args, kwargs):
        """Can this call, of those that may raise, do so in this state?"""
        return True

    def may_lack(self, obj, attr):
        """May getattr(obj, 'attr') fail?"""
        return False

    def may_raise(self, name, recv):
        if name.startswith('builtins.') and name[9:] in SAFE_BUILTINS:
            return False
        if name.startswith('.') and name[1:] in (
                'append', 'add', 'extend', 'update', 'clear', 'discard',
                'setdefault', 'items', 'keys', 'values', 'copy', 'set',
                'is_set', 'union', 'difference', 'intersection', 'startswith',
                'endswith', 'strip', 'rstrip', 'lstrip', 'replace', 'split',
                'format', 'join', 'ljust', 'getvalue'):
            return False
        if name.startswith('itertools.') or name.startswith('set.') or \
                name.startswith('del.') or name.startswith('aug.'):
            return False
        if name.startswith('fbuild.console.Log.'):
            return False
        if name in ('time.time', 'threading.current_thread',
                    'threading.Event', 'threading.Lock', 'queue.Queue',
                    'threading.Event.set', 'queue.Queue.put',
                    'queue.LifoQueue.put', 'io.BytesIO', 'io.StringIO',
                    'queue.Queue.task_done', 'queue.LifoQueue.task_done'):
            return False
        return True

    def on_event(self, state, name, recv, args, kwargs, node, it):
        """May update state.ts in place (state is a private copy)."""

    def raised(self, name, recv):
        """The exception class the call raises, or ? for any."""
        if tail(name) == 'get_nowait':
            return 'queue.Empty'
        return '?'

    def keep(self, state):
        """Something about a path that keeps it from being merged with
        others."""
        return None

    def on_branch(self, state):
        """Typestate updates (a dictionary) due to a condition just decided;
        the state itself must be left alone."""
        return None

    def on_catch(self, state, types, exc):
        """Typestate change on entry to an except clause for the types."""

    def on_raise(self, state, name, recv, args, node, it):
        """Typestate change when the event fails instead of completing."""


class Out:
    __slots__ = ('normal', 'ret', 'brk', 'cont')

    def __init__(self, normal=()):
        self.normal = list(normal)
        self.ret = []
        self.brk = []
        self.cont = []


class Result:
    def __init__(self, returns, raises, obs, interp):
        self.returns = returns       # [(state, term)]
        self.raises = raises         # [(state, exc term)]
        self.obs = obs
        self.interp = interp

    def events(self, *names):
        out = []
        for o in self.obs:
            for n in names:
                if o.name == n or (n.startswith('*.') and
                                   tail(o.name) == n[2:]):
                    out.append(o)
                    break
        return out


class Budget(Exception):
    pass


class Interp:
    def __init__(self, program, policy=None, budget=400000):
        self.guarded = {}       # comprehension -> what its elements can be
        self.prog = program
        self.pol = policy or Policy()
        self.frames = {}
        self.obs = []
        self.recording = True
        self.cur_raises = []
        self.try_depth = 0
        # copies that are changed later: not as empty as what was copied
        self.changed_copies = set()
        self.catch_attr = 0
        self.yield_handlers = {}
        self.exc_stack = []
        self.steps = 0
        self.budget = budget
        self.functions_seen = set()
        self.cur_frame = None

    # ------------------------------------------------------------------ entry

    def run(self, fi, cls=None, args=None, state=None, closure_of=None):
        """Analyse one function as an entry point.  Where that would take too
        long, with fewer paths kept apart."""
        kept = {k: v.copy() if isinstance(v, (dict, set, list)) else v
                for k, v in self.__dict__.items()}
        for most in (12, 4):
            try:
                return self.run_once(fi, cls, args, state and state.copy(),
                                     closure_of)
            except OverBudget:
                if self.pol.max_states <= most:
                    continue
                self.pol.max_states = most
                for k, v in kept.items():
                    self.__dict__[k] = v.copy() \
                        if isinstance(v, (dict, set, list)) else v
        return self.run_once(fi, cls, args, state, closure_of)

    def run_once(self, fi, cls=None, args=None, state=None, closure_of=None):
        import sys
        if sys.getrecursionlimit() < 20000:
            sys.setrecursionlimit(20000)
        st = state or State()
        fid = ('top', fi.qual)
        if cls is None and fi.cls is not None:
            cls = fi.cls
        sp = None
        o = fi.outer
        if o is not None:
            sp = ('outer', o.qual)
            self._outer_frames(o, cls)
        self.frames[fid] = Frame(fid, fi, cls, sp)
        a = fi.node.args
        params = fi.params
        for i, p in enumerate(params):
            if args and p in args:
                st.env[(fid, p)] = args[p]
            elif i == 0 and fi.cls is not None and not fi.is_static:
                st.env[(fid, p)] = ('self', cls.qual)
            else:
                st.env[(fid, p)] = ('param', p)
        for x in a.kwonlyargs:
            st.env[(fid, x.arg)] = (args or {}).get(x.arg, ('param', x.arg))
        if a.vararg:
            st.env[(fid, a.vararg.arg)] = (args or {}).get(
                a.vararg.arg, ('param', '*' + a.vararg.arg))
        if a.kwarg:
            st.env[(fid, a.kwarg.arg)] = (args or {}).get(
                a.kwarg.arg, ('param', '**' + a.kwarg.arg))
        self.cur_raises = raises = []
        self.functions_seen.add(fi.qual)
        fr = self.frames[fid]
        if fi.is_lambda:
            rets = self.eval(fi.node.body, st, fr)
        else:
            out = self.exec_block(fi.node.body, [st], fr)
            rets = out.ret + [(s, NONE) for s in out.normal]
        return Result(self.merge_pairs(rets), self.merge_pairs(raises),
                      self.obs, self)

    def _outer_frames(self, fi, cls):
        fid = ('outer', fi.qual)
        if fid in self.frames:
            return
        sp = None
        if fi.outer is not None:
            self._outer_frames(fi.outer, cls)
            sp = ('outer', fi.outer.qual)
        self.frames[fid] = Frame(fid, fi, fi.cls or cls, sp)

    # ----------------------------------------------------------------- merging

    def join(self, a, b):
        s = State()
        for k in set(a.env) & set(b.env):
            s.env[k] = a.env[k] if a.env[k] == b.env[k] else \
                phi([a.env[k], b.env[k]])
        for k in set(a.heap) & set(b.heap):
            if k[1] == '$seq' and a.heap[k] != b.heap[k]:
                continue
            s.heap[k] = a.heap[k] if a.heap[k] == b.heap[k] else \
                phi([a.heap[k], b.heap[k]])
        for k in set(a.coll) & set(b.coll):
            x, y = a.coll[k], b.coll[k]
            e = x[0] if x[0] == y[0] else 'U'
            s.coll[k] = (e, x[1] & y[1], x[2] | y[2])
        for k in set(a.coll) ^ set(b.coll):
            x = a.coll.get(k) or b.coll.get(k)
            s.coll[k] = ('U', frozenset(), x[2])
        s.facts = meet_facts(a.facts, b.facts)
        s.must = a.must & b.must
        s.may = a.may | b.may
        for k in set(a.foralls) | set(b.foralls):
            x, y = a.foralls.get(k), b.foralls.get(k)
            if x is None or y is None:
                s.foralls[k] = x if x is not None else y
            elif x == 'TOP':
                s.foralls[k] = y
            elif y == 'TOP':
                s.foralls[k] = x
            else:
                s.foralls[k] = x & y
        for k in set(a.ts) & set(b.ts):
            if a.ts[k] == b.ts[k]:
                s.ts[k] = a.ts[k]
            else:
                s.ts[k] = 'CONFLICT'
        return s

    def same(self, s):
        """States that agree on this are merged."""
        return s.soft_key(), self.pol.keep(s)

    def merge(self, states):
        if len(states) <= 1:
            return list(states)
        soft = {}
        order = []
        for s in states:
            k = self.same(s)
            if k in soft:
                t = soft[k]
                if t.facts == s.facts and t.foralls == s.foralls and \
                        t.may == s.may:
                    continue
                n = t.copy()
                n.facts = meet_facts(t.facts, s.facts)
                n.may = t.may | s.may
                j = self.join(t, s)
                n.foralls = j.foralls
                soft[k] = n
            else:
                soft[k] = s
                order.append(k)
        out = [soft[k] for k in order]
        if len(out) <= self.pol.max_states:
            return out
        return self.squeeze(out)

    def merge_either(self, states):
        """Merge the ways to decide a condition, remembering that one of them
        was taken."""
        groups = {}
        for s in states:
            groups.setdefault(self.same(s), []).append(s)
        out = []
        for g in groups.values():
            m = self.merge(g)
            if len(g) > 1 and len(m) == 1:
                n = m[0].copy()
                diffs = frozenset(frozenset(
                    f for f in x.facts - n.facts if f[0][0] not in
                    ('forall', 'forall_none', 'disj')) for x in g)
                if all(diffs) and len(diffs) > 1 and \
                        max(map(len, diffs)) <= 8:
                    n.facts = n.facts | {(('disj', diffs), True)}
                m = [n]
            out.extend(m)
        return self.merge(out)

    def squeeze(self, states):
        for keyf in (lambda s: (frozenset(s.ts.items()), s.must, empties(s)),
                     lambda s: (frozenset(s.ts.items()), empties(s)),
                     lambda s: (frozenset(s.ts.items()), s.must),
                     lambda s: (frozenset(s.ts.items()),)):
            groups = {}
            order = []
            for s in states:
                k = keyf(s)
                if k in groups:
                    groups[k] = self.join(groups[k], s)
                else:
                    groups[k] = s
                    order.append(k)
            states = [groups[k] for k in order]
            if len(states) <= self.pol.max_states:
                return states
        return states

    def merge_pairs(self, pairs):
        groups = {}
        order = []
        for s, t in pairs:
            if t not in groups:
                groups[t] = []
                order.append(t)
            groups[t].append(s)
        out = []
        for t in order:
            for s in self.merge(groups[t]):
                out.append((s, t))
        return out

    # ------------------------------------------------------------- statements

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise OverBudget('analysis budget exceeded (%d steps)' %
                                 self.budget)

    def exec_block(self, stmts, states, fr):
        out = Out()
        cur = list(states)
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                self.tick()
                o = self.exec_stmt(s, st, fr)
                nxt.extend(o.normal)
                out.ret.extend(o.ret)
                out.brk.extend(o.brk)
                out.cont.extend(o.cont)
            cur = self.merge(nxt)
        out.normal = cur
        if len(out.ret) > 8:
            out.ret = self.merge_pairs(out.ret)
        if len(out.brk) > 4:
            out.brk = self.merge(out.brk)
        if len(out.cont) > 4:
            out.cont = self.merge(out.cont)
        return out

    def exec_stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return Out([st])
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return Out([st])

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, st, fr, None)
        return Out([x for x, _ in self.eval(s.value, st, fr)])

    def do_yield(self, node, st, fr, target):
        h = self.yield_handlers.get(fr.fid)
        outs = []
        res = self.eval(node.value, st, fr) if node.value is not None \
            else [(st, NONE)]
        for x, t in res:
            if h is None:
                if self.pol.may_raise('yield', None) and \
                        (self.try_depth or self.pol.track_exc) and \
                        self.pol.fails(x, 'yield', None, (t,), ()):
                    # what is done with the value may fail
                    r = x.copy()
                    if not self.pol.ignored('yield'):
                        r.may = r.may | {('try', 'yield', None, (t,), ())}
                    self.pol.on_raise(r, 'yield', None, (t,), node, self)
                    self.cur_raises.append(
                        (r, ('exc', self.pol.raised('yield', None), NONE)))
                x = self.event(x, 'yield', None, (t,), (), node, fr)
                outs.append(x)
                continue
            o = h(x, t)
            outs.extend(o.normal)
            for kind in ('ret', 'brk', 'cont'):
                for item in getattr(o, kind):
                    y, v = item if kind == 'ret' else (item, None)
                    y = y.copy()
                    y.env[(fr.fid, '$pending')] = ('pending', kind,
                                                   v or NONE)
                    outs.append(y)
        if target is not None:
            return [(y, ANY) for y in outs]
        return Out(outs)

    def s_Assign(self, s, st, fr):
        if self.pol.symbolic_counts and len(s.targets) == 1 and \
                isinstance(s.targets[0], ast.Name) and \
                isinstance(s.value, ast.BinOp) and \
                isinstance(s.value.op, (ast.Add, ast.Sub)) and \
                isinstance(s.value.left, ast.Name) and \
                s.value.left.id == s.targets[0].id:
            return self.s_AugAssign(ast.copy_location(ast.AugAssign(
                s.targets[0], s.value.op, s.value.right), s), st, fr)
        if isinstance(s.value, ast.Yield):
            pairs = self.do_yield(s.value, st, fr, True)
        else:
            pairs = self.eval(s.value, st, fr)
        out = []
        for x, t in pairs:
            cur = [x]
            for tgt in s.targets:
                nxt = []
                for y in cur:
                    nxt.extend(self.assign(tgt, t, y, fr))
                cur = nxt
            out.extend(cur)
        return Out(out)

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return Out([st])
        out = []
        for x, t in self.eval(s.value, st, fr):
            out.extend(self.assign(s.target, t, x, fr))
        return Out(out)

    def s_AugAssign(self, s, st, fr):
        load = ast.copy_location(_as_load(s.target), s.target)
        out = []
        op = type(s.op).__name__
        for x, a in self.eval(load, st, fr):
            for y, b in self.eval(s.value, x, fr):
                one = self.singles(y, b) if a in y.coll else None
                if one and len(one) == 1 and op in ('Add', 'BitOr') and \
                        a[1] in ('list', 'set'):
                    # the same as adding these
                    for z, _ in self.builtin(
                            '.append' if op == 'Add' else '.add', a,
                            (one[0],), (), y, s, fr):
                        out.append(z)
                    continue
                if a in y.coll and op in ('Add', 'BitOr'):
                    y = self.event(y, '.__iadd__', a, (b,), (), s, fr)
                    y = self.coll_add(y, a, ('all', b))
                    out.append(y)
                    if not isinstance(s.target, ast.Name):
                        continue
                    continue
                if self.pol.symbolic_counts and op in ('Add', 'Sub') and \
                        isinstance(s.target, ast.Name) and (
                            all(x[0] == 'counter' or x[0] == 'const' and
                                x[1] == 'int' or x[0] == 'call' and
                                x[1] in ('builtins.len', 'builtins.sum')
                                for x in alts(a))):
                    # how often is not followed, only that it is counted
                    t = ('counter', s.target.id)
                    y = self.event(y, 'count.' + op, t, (b,), (), s, fr)
                    y = y.copy()
                    y.facts = frozenset(f for f in y.facts
                                        if not mentions(f[0], t))
                    out.extend(self.assign(s.target, t, y, fr))
                    continue
                y = self.event(y, 'aug.' + op, a, (b,), (), s, fr)
                out.extend(self.assign(s.target, self.mkbin(op, a, b), y, fr))
        return Out(out)

    def singles(self, st, b):
        """The elements of a display that is used up where it stands."""
        if b[0] in ('tuple', 'list'):
            es = b[1:]
        elif b[0] == 'new' and (b, '$seq') in st.heap and \
                not self._mutated(st, b):
            es = st.heap[(b, '$seq')][1:]
        elif b[:2] == ('new', 'set') and b in st.coll and \
                st.coll[b][1] == st.coll[b][2] and len(st.coll[b][1]) == 1:
            (i,) = st.coll[b][1]
            return (i[1],) if i[0] == 'one' else None
        else:
            return None
        return None if any(x[0] == 'star' for x in es) else es

    def s_Return(self, s, st, fr):
        o = Out()
        if s.value is None:
            o.ret = [(st, NONE)]
        else:
            o.ret = list(self.eval(s.value, st, fr))
        return o

    def s_Break(self, s, st, fr):
        o = Out()
        o.brk = [st]
        return o

    def s_Continue(self, s, st, fr):
        o = Out()
        o.cont = [st]
        return o

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            e = self.exc_stack[-1] if self.exc_stack else ('exc', '?', NONE)
            self.cur_raises.append((st, e))
            return Out()
        for x, t in self.eval(s.exc, st, fr):
            if s.cause is not None:
                for y, _ in self.eval(s.cause, x, fr):
                    self.cur_raises.append((y, self.mkexc(t)))
            else:
                self.cur_raises.append((x, self.mkexc(t)))
        return Out()

    def mkexc(self, t):
        if t[0] == 'exc':
            return t
        if t[0] == 'call':
            return ('exc', t[1], t)
        if t[0] == 'global':
            return ('exc', t[1], t)
        return ('exc', '?', t)

    def s_Assert(self, s, st, fr):
        tr, fa = self.cond(s.test, st, fr)
        if self.try_depth or self.pol.track_exc:
            for f in fa:
                self.cur_raises.append(
                    (f, ('exc', 'builtins.AssertionError', NONE)))
        return Out(tr)

    def s_If(self, s, st, fr):
        tr, fa = self.cond(s.test, st, fr)
        o = Out()
        a = self.exec_block(s.body, self.merge(tr), fr)
        b = self.exec_block(s.orelse, self.merge(fa), fr)
        o.normal = self.merge(a.normal + b.normal)
        for k in ('ret', 'brk', 'cont'):
            setattr(o, k, getattr(a, k) + getattr(b, k))
        return o

    def s_While(self, s, st, fr):
        return self._loop([st], fr, s, None, None)

    def s_For(self, s, st, fr):
        o = Out()
        groups = {}
        order = []
        for x, t in self.eval(s.iter, st, fr):
            t = self.iter_term(t, x)
            for t in alts(t) if t[0] == 'phi' and all(
                    a[0] == 'tuple' and self.unrollable(a) is not None
                    for a in alts(t)) else (t,):
                if t not in groups:
                    groups[t] = []
                    order.append(t)
                groups[t].append(x)
        for t in order:
            items = self.unrollable(t)
            if items is None and self.pol.unroll_dicts:
                items = self.keyed(t, groups[t])
            if items is not None:
                r = self._unroll(items, groups[t], fr, s)
            else:
                r = self._loop(groups[t], fr, s, t, s.target)
            o.normal += r.normal
            for k in ('ret', 'brk', 'cont'):
                getattr(o, k).extend(getattr(r, k))
        o.normal = self.merge(o.normal)
        return o

    s_AsyncFor = s_For

    def iter_term(self, t, st):
        while t[0] == 'call' and t[1] in ('builtins.iter',) and \
                len(t[3]) == 1:
            t = t[3][0]
        return t

    def unrollable(self, t):
        if t[0] in ('tuple', 'list') and 1 < len(t) <= 7 and \
                all(x[0] in ('const', 'tuple', 'attr', 'bound', 'param',
                         'global') for x in t[1:]):
            return list(t[1:])
        if t[0] == 'tuple' and 1 < len(t) <= 4 and \
                all(x[0] not in ('star', 'phi', 'any', 'elem', 'new')
                    for x in t[1:]):
            return list(t[1:])
        return None

    def keyed(self, t, states):
        """The items of a dictionary all of whose keys are known."""
        view = t[1] if t[0] == 'call' and t[1] in ('.items', '.keys',
                                                   '.values') else None
        d = t[2] if view else t
        got = {st.coll.get(d) for st in states}
        if len(got) != 1 or None in got or d[0] != 'new' or d[1] != 'dict':
            return None
        _, must, may = got.pop()
        if must != may or not 0 < len(may) <= 4 or not all(
                x[0] == 'kv' and x[1][0] == 'const' for x in may):
            return None
        return [('tuple', x[1], x[2]) if view == '.items' else
                x[2] if view == '.values' else x[1]
                for x in sorted(may, key=repr)]

    def _unroll(self, items, states, fr, s):
        o = Out()
        cur = states
        for it in items:
            nxt = []
            for st in cur:
                nxt.extend(self.assign(s.target, it, st.copy(), fr))
            b = self.exec_block(s.body, self.merge(nxt), fr)
            o.ret += b.ret
            o.brk += b.brk
            cur = self.merge(b.normal + b.cont)
        e = self.exec_block(s.orelse, cur, fr)
        o.normal = self.merge(e.normal + o.brk)
        o.brk = []
        o.ret += e.ret
        o.brk += e.brk
        o.cont += e.cont
        return o

    def _kill_elem(self, st, e, keep_may=True):
        n = st.copy()
        n.facts = frozenset(f for f in st.facts if not mentions(f[0], e))
        n.must = frozenset(m for m in st.must if not mentions(m, e))
        return n

    def _loop(self, states, fr, s, E, target):
        """Fixpoint of a for (E is the iterable's term) or while loop."""
        lid = (fr.fid, id(s))
        e = elem(E) if E is not None else None
        entry = []
        if E is not None:
            states = [st.copy() for st in states]
            for st in states:
                self.pol.on_loop(st, E, s, self)
        for st in states:
            n = st.copy()
            n.foralls[lid] = 'TOP'
            entry.append(n)
        head = self.merge(entry)
        saved_rec, saved_raises = self.recording, self.cur_raises

        def one_pass(head):
            o = Out()
            exits = []
            starts = []
            if E is not None:
                for h in head:
                    b = self._kill_elem(h, e)
                    self.pol.on_iter(b, E, s, self)
                    starts.extend(self.assign(target, e, b, fr))
                exits = list(head)
            else:
                for h in head:
                    tr, fa = self.cond(s.test, h, fr)
                    starts.extend(tr)
                    exits.extend(fa)
            b = self.exec_block(s.body, self.merge(starts), fr)
            back = []
            for x in b.normal + b.cont:
                n = x.copy()
                if E is not None:
                    got = frozenset(
                        [('lit',) + f for f in x.facts if mentions(f[0], e)
                         and f[0][0] != 'forall'] +
                        [('did', m) for m in x.must if mentions(m, e)] +
                        [('did', m) for m in
                         self.pol.iter_done(n, E, s, self)] +
                        [('did', ('gone', f[0][3], (f[0][2],), ()))
                         for f in x.facts if f[0][0] == 'cmp' and
                         f[0][1] == 'In' and not f[1] and mentions(f[0], e)])
                    old = x.foralls.get(lid, 'TOP')
                    n.foralls[lid] = got if old == 'TOP' else (old & got)
                    n = self._kill_elem(n, e)
                back.append(n)
            return b, back, exits

        try:
            self.recording = False
            for i in range(12):
                self.cur_raises = []
                b, back, exits = one_pass(head)
                new = self.merge(entry + head + back)
                if i >= 4:
                    new = self.squeeze(new) if len(new) > 6 else new
                if i >= 6:
                    new = [self._join_all(new)] if i >= 9 else \
                        self.squeeze_by_ts(new)
                if {x.key() for x in new} == {x.key() for x in head}:
                    break
                head = new
            else:
                head = [self._join_all(head)]
        finally:
            self.recording, self.cur_raises = saved_rec, saved_raises

        b, back, exits = one_pass(head)
        o = Out()
        done = []
        for x in exits:
            n = x.copy()
            if E is not None:
                n = self._kill_elem(n, e)
                F = n.foralls.pop(lid, 'TOP')
                if F != 'TOP':
                    extra = set()
                    for f in F:
                        if f[0] == 'lit':
                            extra.add((('forall', E, f[1], f[2]), True))
                        else:
                            extra.add((('forall', E, ('did', f[1]), True),
                                       True))
                    n.facts = n.facts | extra
                else:
                    # no iteration completed: E is empty or every iteration
                    # leaves the loop, so anything holds for all of E
                    n.facts = n.facts | {(('forall_none', E), True)}
            else:
                n.foralls.pop(lid, None)
            done.append(n)
        # An element seen nowhere: the loop may run zero times; the TOP state
        # of the entry carries vacuous truth, so give it the foralls of the
        # others (vacuously true for an empty iterable).
        if E is not None and len(done) > 1:
            gained = [frozenset(f for f in x.facts if f[0][0] == 'forall' and
                                f[0][1] == E) for x in done
                      if not any(f[0] == ('forall_none', E) for f in x.facts)]
            common = frozenset.intersection(*gained) if gained else frozenset()
            for x in done:
                if any(f[0] == ('forall_none', E) for f in x.facts):
                    x.facts = x.facts | common
                    x._key = None
        e2 = self.exec_block(s.orelse, self.merge(done), fr)
        for x in b.brk:
            x.foralls.pop(lid, None)
        o.normal = self.merge(e2.normal + b.brk)
        o.ret = b.ret + e2.ret
        o.brk = e2.brk
        o.cont = e2.cont
        return o

    def _join_all(self, states):
        r = states[0]
        for s in states[1:]:
            r = self.join(r, s)
        return r

    def squeeze_by_ts(self, states):
        groups = {}
        for s in states:
            k = (frozenset(s.ts.items()), empties(s))
            groups[k] = self.join(groups[k], s) if k in groups else s
        return list(groups.values())

    def s_With(self, s, st, fr):
        return self._with(s, 0, st, fr)

    s_AsyncWith = s_With

    def _with(self, s, i, st, fr):
        if i == len(s.items):
            return self.exec_block(s.body, [st], fr)
        item = s.items[i]
        gen = self._ctxmanager(item.context_expr, st, fr)
        if gen is not None:
            fi, pairs = gen
            o = Out()
            for x, (recv, args, kwargs, cls, sp) in pairs:
                def body(y, t, item=item):
                    outs = Out()
                    ys = [y]
                    if item.optional_vars is not None:
                        ys = self.assign(item.optional_vars, t, y.copy(), fr)
                    for z in ys:
                        r = self._with(s, i + 1, z, fr)
                        outs.normal += r.normal
                        outs.ret += r.ret
                        outs.brk += r.brk
                        outs.cont += r.cont
                    return outs
                r = self._run_ctxmanager(fi, recv, args, kwargs, cls, sp, x,
                                         item.context_expr, fr, body)
                for k in ('normal', 'ret', 'brk', 'cont'):
                    getattr(o, k).extend(getattr(r, k))
            o.normal = self.merge(o.normal)
            return o
        o = Out()
        for x, t in self.eval(item.context_expr, st, fr):
            x = self.event(x, 'with.enter', t, (), (), item.context_expr, fr)
            xs = [x]
            if item.optional_vars is not None:
                xs = self.assign(item.optional_vars, ('entered', t), x, fr)
            saved = self.cur_raises
            for y in xs:
                self.cur_raises = mine = []
                r = self._with(s, i + 1, y, fr)
                self.cur_raises = saved

                def leave(z):
                    return self.event(z, 'with.exit', t, (), (),
                                      item.context_expr, fr)
                o.normal += [leave(z) for z in r.normal]
                o.ret += [(leave(z), v) for z, v in r.ret]
                o.brk += [leave(z) for z in r.brk]
                o.cont += [leave(z) for z in r.cont]
                for z, v in self.merge_pairs(mine):
                    z = leave(z)
                    types = self.swallows(t)
                    if types is None:
                        saved.append((z, v))
                        continue
                    _, caught, rest = self.match_types(types, v)
                    if caught is not None:
                        w = z.copy()
                        self.pol.on_catch(w, types, caught)
                        o.normal.append(w)
                    if rest is not None:
                        saved.append((z, rest))
        o.normal = self.merge(o.normal)
        return o

    def swallows(self, t):
        """The classes of exception a context manager swallows, or None."""
        if t[0] != 'call' or t[1] != 'contextlib.suppress':
            return None
        out = []
        for a in t[3]:
            if a[0] == 'star':
                a = a[1]
            for x in a[1] if a[0] in ('tuple', 'list') else [a]:
                out.append(x[1] if x[0] == 'global' else '?')
        return out

    def _ctxmanager(self, expr, st, fr):
        if not isinstance(expr, ast.Call):
            return None
        fi = None
        pairs = []
        for x, f in self.eval(expr.func, st, fr):
            f = self.resolve_callee(f)
            if f is None or f[0] is None:
                return None
            kind, recv, target, cls, sp = f
            if not isinstance(target, FunctionInfo) or \
                    not target.is_generator or \
                    not target.has_decorator('contextmanager') or \
                    not self.pol.inline(target):
                return None
            fi = target
            for y, args, kwargs in self.eval_args(expr, x, fr):
                pairs.append((y, (recv, args, kwargs, cls, sp)))
        if fi is None:
            return None
        return fi, pairs

    def _run_ctxmanager(self, fi, recv, args, kwargs, cls, sp, st, node, fr,
                        body):
        fid = fr.fid + (('w', node.lineno, node.col_offset, fi.qual),)
        self.frames[fid] = Frame(fid, fi, cls, sp)
        st = self.bind(fi, fid, recv, args, kwargs, st.copy())
        self.yield_handlers[fid] = body
        self.functions_seen.add(fi.qual)
        r = self.exec_block(fi.node.body, [st], self.frames[fid])
        del self.yield_handlers[fid]
        o = Out()
        for x in r.normal + [y for y, _ in r.ret]:
            p = x.env.get((fid, '$pending'))
            x = self.drop_frame(x, fid)
            if p is None:
                o.normal.append(x)
            elif p[1] == 'ret':
                o.ret.append((x, p[2]))
            elif p[1] == 'brk':
                o.brk.append(x)
            else:
                o.cont.append(x)
        return o

    def s_Try(self, s, st, fr):
        saved = self.cur_raises
        self.cur_raises = raised = []
        self.try_depth += 1
        attr = any(self._handler_catches(h, ('AttributeError',), fr)
                   for h in s.handlers)
        self.catch_attr += attr
        try:
            body = self.exec_block(s.body, [st], fr)
        finally:
            self.try_depth -= 1
            self.catch_attr -= attr
        total = Out()
        if s.finalbody:
            self.try_depth += 1
        pend = []             # raises still to propagate
        self.cur_raises = pend
        try:
            el = self.exec_block(s.orelse, body.normal, fr)
            total.normal += el.normal
            for k in ('ret', 'brk', 'cont'):
                getattr(total, k).extend(getattr(body, k))
                getattr(total, k).extend(getattr(el, k))
            remaining = self.merge_pairs(raised)
            for h in s.handlers:
                nxt = []
                enter = []
                for x, e in remaining:
                    m, caught, rest = self.match_exc(h, e, fr)
                    if caught is not None:
                        enter.append((x, caught))
                    if rest is not None:
                        nxt.append((x, rest))
                remaining = nxt
                for x, e in self.merge_pairs(enter):
                    y = x.copy()
                    self.pol.on_catch(y, self._handler_types(h, fr), e)
                    if h.name:
                        v = e[2] if e[1] == '?' and e[2] != NONE else e
                        y.env[(fr.fid, h.name)] = v
                    self.exc_stack.append(e)
                    r = self.exec_block(h.body, [y], fr)
                    self.exc_stack.pop()
                    total.normal += r.normal
                    for k in ('ret', 'brk', 'cont'):
                        getattr(total, k).extend(getattr(r, k))
            pend.extend(remaining)
        finally:
            if s.finalbody:
                self.try_depth -= 1
            self.cur_raises = saved
        if not s.finalbody:
            saved.extend(pend)
            total.normal = self.merge(total.normal)
            return total
        o = Out()

        def fin(states):
            r = self.exec_block(s.finalbody, states, fr)
            o.ret += r.ret
            o.brk += r.brk
            o.cont += r.cont
            return r.normal
        o.normal = fin(self.merge(total.normal))
        for x, t in self.merge_pairs(total.ret):
            o.ret += [(y, t) for y in fin([x])]
        o.brk += fin(self.merge(total.brk)) if total.brk else []
        o.cont += fin(self.merge(total.cont)) if total.cont else []
        for x, e in self.merge_pairs(pend):
            for y in fin([x]):
                saved.append((y, e))
        return o

    def _handler_types(self, h, fr):
        if h.type is None:
            return ['builtins.BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            n = dotted(t)
            out.append(fr.fi.module.resolve_dotted(n) if n else '?')
        return out

    def _handler_catches(self, h, names, fr):
        for t in self._handler_types(h, fr):
            if tail(t) in names:
                return True
        return False

    def exc_supers(self, name):
        """Absolute names of all superclasses of an exception class."""
        c = self.prog.classes.get(self.prog.canonical(name))
        if c is not None:
            out = [k.qual for k in c.mro()]
            for b in c.external_bases():
                out += self.exc_supers(b)
            return out
        if name.startswith('builtins.'):
            t = getattr(builtins, name[9:], None)
            if isinstance(t, type):
                return ['builtins.' + k.__name__ for k in t.__mro__]
        known = {'queue.Empty': 'builtins.Exception',
                 'pickle.UnpicklingError': 'builtins.Exception',
                 '_thread.error': 'builtins.RuntimeError',
                 'sqlite3.IntegrityError': 'builtins.Exception',
                 'threading.ThreadError': 'builtins.RuntimeError',
                 'select.error': 'builtins.OSError',
                 'os.error': 'builtins.OSError',
                 'subprocess.CalledProcessError': 'builtins.Exception'}
        if name in known:
            return [name] + self.exc_supers(known[name])
        return [name, '?', 'builtins.Exception', 'builtins.BaseException']

    def match_exc(self, h, e, fr):
        """-> (_, caught exc or None, remaining exc or None)"""
        return self.match_types(self._handler_types(h, fr), e)

    def match_types(self, types, e):
        name = e[1]
        if not types:
            return 'no', None, e
        if 'builtins.BaseException' in types:
            return 'yes', e, None
        if name.startswith('?'):
            if name == '?base':        # escaped `except Exception`
                hits = [t for t in types if self.exc_supers(t) and
                        'builtins.Exception' not in self.exc_supers(t)]
                if hits:
                    return 'maybe', ('exc', hits[0], e[2]), e
                return 'no', None, e
            if 'builtins.Exception' in types:
                return 'maybe', e, ('exc', '?base', e[2])
            c = types[0] if len(types) == 1 else '?'
            return 'maybe', ('exc', c, e[2]), e
        sup = self.exc_supers(name)
        for t in types:
            t = self.prog.canonical(t)
            if t in sup:
                return 'yes', e, None
            if tail(t) == 'error' and t == '_thread.error' and \
                    'builtins.RuntimeError' in sup:
                return 'yes', e, None
        # the raised class may be a superclass of the handler's
        for t in types:
            if name in self.exc_supers(t):
                return 'maybe', ('exc', t, e[2]), e
        return 'no', None, e

    def s_FunctionDef(self, s, st, fr):
        fi = self.prog.by_node.get(s)
        n = st.copy()
        n.env[(fr.fid, s.name)] = ('closure', fi.qual, fr.fid)
        return Out([n])

    def s_ClassDef(self, s, st, fr):
        n = st.copy()
        ci = self.prog.by_node.get(s)
        n.env[(fr.fid, s.name)] = ('global', ci.qual) if ci else ANY
        return Out([n])

    def s_Import(self, s, st, fr):
        n = st.copy()
        for al in s.names:
            if al.asname:
                n.env[(fr.fid, al.asname)] = ('global', al.name)
            else:
                h = al.name.split('.')[0]
                n.env[(fr.fid, h)] = ('global', h)
        return Out([n])

    def s_ImportFrom(self, s, st, fr):
        n = st.copy()
        base = self.prog._import_base(fr.fi.module, s) if s.level else s.module
        for al in s.names:
            n.env[(fr.fid, al.asname or al.name)] = \
                ('global', self.prog.canonical(base + '.' + al.name))
        return Out([n])

    def s_Delete(self, s, st, fr):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Subscript):
                    for y, o in self.eval(t.value, x, fr):
                        for z, k in self.eval_index(t.slice, y, fr):
                            if (self.try_depth or self.pol.track_exc) and \
                                    not isinstance(t.slice, ast.Slice):
                                w = z.copy()
                                w.may = w.may | {
                                    ('try', 'del.item', o, (k,), ())}
                                w.must = w.must | {('gone', o, (k,), ())}
                                self.cur_raises.append(
                                    (w, ('exc', 'builtins.KeyError', NONE)))
                            nxt.append(self.event(z, 'del.item', o, (k,), (),
                                                  s, fr))
                elif isinstance(t, ast.Attribute):
                    for y, o in self.eval(t.value, x, fr):
                        y = self.event(y, 'del.attr', o, (const(t.attr),), (),
                                       s, fr)
                        y = y.copy()
                        y.heap.pop((o, t.attr), None)
                        nxt.append(y)
                else:
                    y = x.copy()
                    if isinstance(t, ast.Name):
                        y.env.pop((fr.fid, t.id), None)
                    nxt.append(y)
            cur = nxt
        return Out(cur)

    # -------------------------------------------------------------- assignment

    def assign(self, tgt, t, st, fr):
        if isinstance(tgt, ast.Name):
            n = st.copy()
            owner = self.owner(tgt.id, fr)
            if owner is None:
                g = ('global', fr.fi.module.name + '.' + tgt.id)
                n = self.event(n, 'set.global', None,
                               (const(g[1]), t), (), tgt, fr)
                n.heap[(g, '$')] = t
            else:
                n.env[(owner, tgt.id)] = t
            return [n]
        if isinstance(tgt, ast.Starred):
            return self.assign(tgt.value, t, st, fr)
        if isinstance(tgt, (ast.Tuple, ast.List)):
            cur = [st]
            elts = tgt.elts
            star = [i for i, x in enumerate(elts)
                    if isinstance(x, ast.Starred)]
            for i, x in enumerate(elts):
                if star and i >= star[0]:
                    if i == star[0]:
                        if t[0] in ('tuple', 'list') and \
                                not any(z[0] == 'star' for z in t[1:]):
                            hi = len(t) - (len(elts) - i - 1)
                            v = ('list',) + t[1 + i:hi]
                        else:
                            v = ('rest', t, i)
                    else:
                        neg = i - len(elts)
                        v = self.index(t, const(neg))
                else:
                    v = self.index(t, const(i))
                nxt = []
                for y in cur:
                    nxt.extend(self.assign(x, v, y, fr))
                cur = nxt
            return cur
        if isinstance(tgt, ast.Attribute):
            out = []
            for y, o in self.eval(tgt.value, st, fr):
                y = self.event(y, 'set.attr', o, (const(tgt.attr), t), (),
                               tgt, fr)
                y = y.copy()
                a = ('attr', o, tgt.attr)
                y.facts = frozenset(f for f in y.facts
                                    if not mentions(f[0], a))
                y.heap[(o, tgt.attr)] = t
                out.append(y)
            return out
        if isinstance(tgt, ast.Subscript):
            out = []
            for y, o in self.eval(tgt.value, st, fr):
                for z, k in self.eval_index(tgt.slice, y, fr):
                    z = self.event(z, 'set.item', o, (k, t), (), tgt, fr)
                    z = self.coll_add(z, o, ('kv', k, t))
                    z = z.copy()
                    z.heap[(o, ('idx', k))] = t
                    out.append(z)
            return out
        return [st]

    def owner(self, name, fr):
        """fid of the frame whose variable `name` is, or None for a global."""
        f = fr
        while f is not None:
            if name in f.fi.locals:
                return f.fid
            f = self.frames.get(f.static_parent)
        if name.startswith('$'):
            return fr.fid
        # comprehension variables live in the frame that evaluates them
        return None

    # ------------------------------------------------------------- collections

    def coll_add(self, st, obj, item):
        n = st.copy()
        old = n.coll.get(obj)
        if old is None:
            old = ('U', frozenset(), frozenset())
        e = 'N' if item[0] in ('one', 'kv') else \
            (old[0] if old[0] == 'N' else 'U')
        if item[0] == 'all':
            h = st.holds(item[1])
            if h is True:
                e = 'N'
            elif h is False:
                e = old[0]
        n.coll[obj] = (e, old[1] | {item}, old[2] | {item})
        if old[0] != e:
            n.facts = frozenset(f for f in n.facts if f[0] != obj)
        return n

    def coll_clear(self, st, obj):
        n = st.copy()
        n.coll[obj] = ('E', frozenset(), frozenset())
        return n

    # ------------------------------------------------------------- conditions

    def cond(self, node, st, fr):
        """-> (states where true, states where false)"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            alive = [st]
            decided = []
            for v in node.values:
                nxt = []
                for x in alive:
                    tr, fa = self.cond(v, x, fr)
                    if isand:
                        nxt.extend(tr)
                        decided.extend(fa)
                    else:
                        nxt.extend(fa)
                        decided.extend(tr)
                alive = self.merge(nxt)
            decided = self.merge_either(decided)
            return (alive, decided) if isand else (decided, alive)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            tr, fa = self.cond(node.operand, st, fr)
            return fa, tr
        tr, fa = [], []
        for x, t in self.eval(node, st, fr):
            tr.extend(self.assume(t, True, x))
            fa.extend(self.assume(t, False, x))
        return list(map(self.branched, tr)), list(map(self.branched, fa))

    def branched(self, s):
        up = self.pol.on_branch(s)
        if not up:
            return s
        n = s.copy()
        n.ts.update(up)
        return n

    def norm_lit(self, t, pol):
        """Normalise a literal: -> (term, polarity)."""
        while True:
            if t[0] == 'not':
                t, pol = t[1], not pol
                continue
            if t[0] == 'call' and t[1] == 'builtins.bool' and len(t[3]) == 1:
                t = t[3][0]
                continue
            if t[0] == 'call' and t[1] == 'builtins.len' and len(t[3]) == 1:
                t = t[3][0]
                continue
            if t[0] == 'cmp':
                op, a, b = t[1], t[2], t[3]
                if op == 'Eq':
                    for u, v in ((a, b), (b, a)):
                        if v == const(0) and u[0] == 'call' and \
                                u[1] == 'builtins.len':
                            t, pol = u[3][0], not pol
                            break
                        if v == FALSE and u[0] in ('call', 'cmp'):
                            break
                    else:
                        return t, pol
                    if t[0] == 'cmp':
                        return t, pol
                    continue
                if op == 'Lt' and a == const(0) and b[0] == 'call' and \
                        b[1] == 'builtins.len':
                    t = b[3][0]
                    continue
                if op == 'Lt' and b == const(1) and a[0] == 'call' and \
                        a[1] == 'builtins.len':
                    t, pol = a[3][0], not pol
                    continue
                if op == 'Is' and b == NONE and a[0] == 'call' and \
                        a[1] == 'builtins.next' and len(a[3]) == 2 and \
                        a[3][1] == NONE and a[3][0][0] == 'comp':
                    t, pol = ('call', 'builtins.any', None,
                              (a[3][0],), ()), not pol
                    continue
            if t[0] == 'call' and t[1] in COPYING and len(t[3]) == 1 and \
                    t not in self.changed_copies:
                t = t[3][0]
                continue
            if t[0] == 'call' and t[1] in ('builtins.any', 'builtins.all') \
                    and len(t[3]) == 1 and t[3][0][0] in (
                        'tuple', 'list', 'set') and len(t[3][0]) > 1 and \
                    not any(x[0] == 'star' for x in t[3][0][1:]):
                t = ('or' if t[1] == 'builtins.any' else 'and',) + \
                    t[3][0][1:]
                continue
            return t, pol

    def conj(self, t, pol):
        """Literals implied by t having truth value pol (a conjunction)."""
        t, pol = self.norm_lit(t, pol)
        if (t[0] == 'and' and pol) or (t[0] == 'or' and not pol):
            out = []
            for x in t[1:]:
                out.extend(self.conj(x, pol))
            return out
        return [(t, pol)]

    def assume(self, t, pol, st):
        t, pol = self.norm_lit(t, pol)
        h = st.holds(t)
        if h is not None:
            return [st] if h == pol else []
        k = t[0]
        if (k == 'and' and pol) or (k == 'or' and not pol):
            cur = [st]
            for x in t[1:]:
                nxt = []
                for y in cur:
                    nxt.extend(self.assume(x, pol, y))
                cur = nxt
            return cur
        if k in ('and', 'or'):
            out = []
            cur = [st]
            for x in t[1:]:
                nxt = []
                for y in cur:
                    out.extend(self.assume(x, pol, y))
                    nxt.extend(self.assume(x, not pol, y))
                cur = nxt
            return self.merge_either(out)
        if k == 'phi':
            out = []
            for a in alts(t):
                out.extend(self.assume(a, pol, st))
            return self.merge_either(out)
        if k == 'any':
            return [st]
        extra = {(t, pol)}
        # quantified conditions
        body = None
        if k == 'call' and t[1] in ('builtins.any', 'builtins.all') and \
                t[3] and t[3][0][0] == 'comp':
            c = t[3][0]
            if t[1] == 'builtins.any' and not pol:
                body = (c, ('and',) + tuple(c[4]) + (c[2],)
                        if c[4] else c[2], False)
            elif t[1] == 'builtins.all' and pol:
                body = (c, c[2] if not c[4] else
                        ('or', ('not', ('and',) + tuple(c[4])), c[2]), True)
        elif k == 'comp' and t[1] in ('list', 'set', 'dict') and t[4] \
                and not pol:
            body = (t, ('and',) + tuple(t[4]) if len(t[4]) > 1 else t[4][0],
                    False)
        if body is not None:
            c, lit, p = body
            bodies = [lit]
            if c in self.guarded and c is not t:
                # what the element is depends on what holds of it
                bodies = []
                for facts, e in self.guarded[c]:
                    g = tuple(f if q else ('not', f)
                              for f, q in sorted(facts, key=repr))
                    bodies.append(('or',) + tuple(
                        f if not q else ('not', f) for f, q in
                        sorted(facts, key=repr)) + (e,) if p
                        else ('and',) + g + (e,))
            for lit in bodies:
                for l, q in self.conj(lit, p):
                    extra.add((('forall', c[3], l, q), True))
        if k == 'new' and t in st.coll:
            n = st.copy()
            c = n.coll[t]
            n.coll[t] = ('N' if pol else 'E', c[1], c[2])
            n.facts = n.facts | extra
            # nothing was in what was put into it either
            out = [n]
            for i in sorted(c[1], key=repr) if not pol else ():
                if i[0] == 'all' and i[1] != t and i[1][0] == 'comp':
                    x = ('comp', 'list') + i[1][2:]
                    out = [z for y in out for z in self.assume(x, False, y)]
            return out
        if k == 'cmp' and t[1] == 'Is' and t[3] == NONE and pol:
            if (t[2], True) in st.facts:
                return []
            extra.add((t[2], False))
        if pol and k != 'cmp':
            f = (('cmp', 'Is', t, NONE), False)
            if (f[0], True) in st.facts:
                return []
            extra.add(f)
        n = st.copy()
        n.facts = n.facts | extra
        return self.propagate(n)

    def propagate(self, st):
        """Use the alternatives known to hold: those refuted are dropped, and
        the last one left holds."""
        for f, p in list(st.facts):
            if f[0] != 'disj':
                continue
            alive = [d for d in f[1]
                     if not any(st.holds(a) is (not q) for a, q in d)]
            if not alive:
                return []
            if len(alive) == 1:
                st.facts = (st.facts - {(f, p)}) | alive[0]
        return [st]

    # ------------------------------------------------------------- expressions

    def eval(self, node, st, fr):
        self.tick()
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return [(st, ANY)]
        return m(node, st, fr)

    def eval_list(self, nodes, st, fr):
        cur = [(st, ())]
        for n in nodes:
            nxt = []
            for x, ts in cur:
                for y, t in self.eval(n, x, fr):
                    nxt.append((y, ts + (t,)))
            cur = nxt
        return cur

    def e_Constant(self, n, st, fr):
        return [(st, const(n.value))]

    def e_Name(self, n, st, fr):
        f = fr
        while f is not None:
            k = (f.fid, n.id)
            if k in st.env:
                return [(st, st.env[k])]
            if n.id in f.fi.locals:
                if f.fid[0] == 'outer':
                    return [(st, ('free', f.fi.qual, n.id))]
                if f is fr:
                    # possibly unbound here; keep going as unknown
                    return [(st, ('unbound', n.id))]
                return [(st, ('free', f.fi.qual, n.id))]
            f = self.frames.get(f.static_parent)
        m = fr.fi.module
        name = m.resolve_dotted(n.id)
        g = ('global', name)
        if (g, '$') in st.heap:
            return [(st, st.heap[(g, '$')])]
        return [(st, self.global_value(g))]

    def global_value(self, g):
        name = g[1]
        mod, _, var = name.rpartition('.')
        m = self.prog.modules.get(mod)
        if m is not None and var in m.assigns and var not in m.defs:
            vs = m.assigns[var]
            if len(vs) == 1 and isinstance(vs[0], ast.Constant) and \
                    not self._reassigned(m, var):
                return const(vs[0].value)
        if name == 'builtins.None':
            return NONE
        return g

    def _reassigned(self, m, var):
        key = ('gl', m.name, var)
        c = self.prog._canon
        if key not in c:
            c[key] = any(isinstance(n, ast.Global) and var in n.names
                         for n in ast.walk(m.tree))
        return c[key]

    def e_NamedExpr(self, n, st, fr):
        out = []
        for x, t in self.eval(n.value, st, fr):
            for y in self.assign(n.target, t, x, fr):
                out.append((y, t))
        return out

    def e_Attribute(self, n, st, fr):
        out = []
        for x, t in self.eval(n.value, st, fr):
            out.extend(self.load_attr(x, t, n.attr, n, fr))
        return out

    def load_attr(self, st, t, attr, node, fr):
        if t[0] == 'phi':
            out = []
            for a in alts(t):
                out.extend(self.load_attr(st, a, attr, node, fr))
            return out
        if (t, attr) in st.heap:
            return [(st, st.heap[(t, attr)])]
        if t[0] == 'global':
            full = self.prog.canonical(t[1] + '.' + attr)
            g = ('global', full)
            if (g, '$') in st.heap:
                return [(st, st.heap[(g, '$')])]
            return [(st, self.global_value(g))]
        if t[0] == 'super':
            c = self.prog.classes.get(t[1])
            after = self.prog.classes.get(t[2])
            meth = c.find_method(attr, after=after) if c else None
            if meth is not None:
                return [(st, ('bound', t[3], meth.qual, c.qual))]
            return [(st, ('attr', ('superof', t[3], t[2]), attr))]
        cq = self.type_of(t)
        c = self.prog.classes.get(cq) if cq else None
        if c is not None:
            meth = c.find_method(attr)
            if meth is not None:
                if meth.has_decorator('property', 'cacheproperty'):
                    if meth.has_decorator('property') and \
                            self.pol.inline(meth):
                        return self.call_function(meth, t, (), (), c, None,
                                                  st, node, fr)
                    return [(st, ('attr', t, attr))]
                if not meth.has_decorator('setter', 'getter'):
                    return [(st, ('bound', t, meth.qual, c.qual))]
        if self.catch_attr and t[0] not in ('self', 'global'):
            self.cur_raises.append(
                (self._with_fact(st, ('hasattr', t, attr), False),
                 ('exc', 'builtins.AttributeError', NONE)))
        return [(st, ('attr', t, attr))]

    def _with_fact(self, st, t, pol):
        n = st.copy()
        n.facts = n.facts | {(t, pol)}
        return n

    def type_of(self, t):
        k = t[0]
        if k == 'self':
            return t[1]
        if k == 'typed':
            return t[2]
        if k == 'call':
            d = self.prog.classes.get(t[1])
            if d is not None:
                return t[1]
            return self.pol_type(t)
        if k == 'entered':
            return self.type_of(t[1])
        if k == 'attr':
            base = self.type_of(t[1])
            o = self.pol.attr_type(base, t[2])
            if o is not None:
                return o
            s = self.prog.attr_class(base, t[2]) if base else None
            if not s:
                s = self.prog.attr_class(None, t[2])
                if base and s:
                    # known class without such an attribute assignment:
                    # only trust the global table if it is unambiguous
                    pass
            if s:
                if len(s) == 1:
                    return next(iter(s))
                return self._common_base(s)
            return None
        if k == 'param' and t[1] == 'ctx':
            return 'fbuild.context.Context'
        if k == 'bin' and t[1] in ('Div', 'Add'):
            a = self.type_of(t[2])
            if a == 'fbuild.path.Path':
                return a
            b = self.type_of(t[3])
            if t[1] == 'Div' and b == 'fbuild.path.Path':
                return b
            return None
        if k == 'phi':
            s = {self.type_of(a) for a in t[1] if a != NONE}
            return s.pop() if len(s) == 1 else None
        return None

    def pol_type(self, t):
        return None

    def _common_base(self, quals):
        cs = [self.prog.classes.get(q) for q in quals]
        if any(c is None for c in cs):
            return None
        common = None
        for k in cs[0].mro():
            if all(k in c.mro() for c in cs):
                common = k
                break
        return common.qual if common else None

    def e_Subscript(self, n, st, fr):
        out = []
        for x, o in self.eval(n.value, st, fr):
            for y, k in self.eval_index(n.slice, x, fr):
                if (o, ('idx', k)) in y.heap:
                    out.append((y, y.heap[(o, ('idx', k))]))
                    continue
                table = self.table(y, o)
                if table is not None:
                    out.extend(self.choose(y, o, k, table))
                    continue
                v = self.index(o, k)
                if v[0] == 'item' and k[0] != 'slice' and \
                        (self.try_depth or self.pol.track_exc) and \
                        self.pol.may_miss(o, k):
                    self.cur_raises.append(
                        (self._with_fact(y, ('cmp', 'In', k, o), False),
                         ('exc', 'builtins.KeyError', NONE)))
                out.append((y, v))
        return out

    def table(self, st, o):
        """What a dictionary of functions and classes holds, by constant key,
        as long as nothing else can be in it."""
        if o in st.coll:
            n, must, may = st.coll[o]
            if o[:2] != ('new', 'dict') or must != may or any(
                    i[0] != 'kv' for i in may):
                return None
            t = {i[1]: i[2] for i in may}
            return t if len(t) == len(may) and self._callables(t) else None
        node = m = None
        if o[0] == 'global':
            mod, _, var = o[1].rpartition('.')
            m = self.prog.modules.get(mod)
            if m is not None and var not in m.defs:
                vs = m.assigns.get(var, ())
                node = vs[0] if len(vs) == 1 else None
        elif o[0] == 'attr' and o[1][0] == 'self':
            c = self.prog.classes.get(o[1][1])
            for b in c.mro() if c is not None else ():
                if var_of(b, o[2]) is not None:
                    node, m = var_of(b, o[2]), b.module
                    break
            var = o[2]
        if not isinstance(node, ast.Dict) or self._changed(m, var):
            return None
        t = {}
        for k, v in zip(node.keys, node.values):
            n = dotted_name(v)
            if not isinstance(k, ast.Constant) or n is None:
                return None
            t[const(k.value)] = ('global', m.resolve_dotted(n))
        return t if self._callables(t) else None

    def _callables(self, t):
        return bool(t) and all(
            k[0] == 'const' and (v[0] in ('closure', 'bound') or
                                 v[0] == 'global' and (
                                     v[1] in self.prog.classes or
                                     v[1] in self.prog.functions))
            for k, v in t.items())

    def _changed(self, m, var):
        """Is a table of a module written to anywhere in the module?"""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global) and var in n.names or \
                    isinstance(n, ast.Subscript) and \
                    not isinstance(n.ctx, ast.Load) and \
                    (dotted_name(n.value) or '').split('.')[-1] == var or \
                    isinstance(n, ast.Attribute) and n.attr in MUTATORS and \
                    (dotted_name(n.value) or '').split('.')[-1] == var:
                return True
        return False

    def choose(self, st, o, k, table, default=None):
        out = []
        if k in table:
            return [(st, table[k])]
        cur = [st]
        if k[0] != 'const':
            for c in sorted(table, key=repr):
                nxt = []
                for y in cur:
                    for z in self.assume(('cmp', 'Eq', k, c), True, y):
                        out.append((z, table[c]))
                    nxt.extend(self.assume(('cmp', 'Eq', k, c), False, y))
                cur = nxt
        for y in cur:
            if y.holds(('cmp', 'In', k, o)) is True:
                continue
            if default is not None:
                out.append((y, default))
            elif self.try_depth or self.pol.track_exc:
                self.cur_raises.append(
                    (self._with_fact(y, ('cmp', 'In', k, o), False),
                     ('exc', 'builtins.KeyError', NONE)))
        return out

    def eval_index(self, node, st, fr):
        if isinstance(node, ast.Index):        # pragma: no cover (py<3.9)
            node = node.value
        if isinstance(node, ast.Slice):
            parts = []
            cur = [(st, ())]
            for p in (node.lower, node.upper, node.step):
                nxt = []
                for x, ts in cur:
                    if p is None:
                        nxt.append((x, ts + (NONE,)))
                    else:
                        for y, t in self.eval(p, x, fr):
                            nxt.append((y, ts + (t,)))
                cur = nxt
            return [(x, ('slice',) + ts) for x, ts in cur]
        return self.eval(node, st, fr)

    def index(self, o, k):
        if o[0] in ('tuple', 'list') and k[0] == 'const' and \
                isinstance(k[2], int) and not isinstance(k[2], bool) and \
                not any(x[0] == 'star' for x in o[1:]):
            i = k[2]
            n = len(o) - 1
            if -n <= i < n:
                return o[1:][i]
        if o[0] == 'phi':
            return phi([self.index(a, k) for a in o[1]])
        if o[0] in ('tuple', 'list') and k[0] == 'slice' and \
                all(x == NONE or (x[0] == 'const') for x in k[1:]) and \
                not any(x[0] == 'star' for x in o[1:]):
            sl = slice(*[x[2] for x in k[1:]])
            try:
                return (o[0],) + tuple(o[1:][sl])
            except TypeError:
                pass
        return ('item', o, k)

    def e_Tuple(self, n, st, fr):
        return [(x, ('tuple',) + ts)
                for x, ts in self.eval_list(n.elts, st, fr)]

    def e_List(self, n, st, fr):
        out = []
        for x, ts in self.eval_list(n.elts, st, fr):
            out.append(self.new_coll(x, 'list', ts, n, fr))
        return out

    def e_Set(self, n, st, fr):
        out = []
        for x, ts in self.eval_list(n.elts, st, fr):
            out.append(self.new_coll(x, 'set', ts, n, fr))
        return out

    def new_coll(self, st, kind, ts, node, fr):
        t = ('new', kind, (fr.fid, node.lineno, node.col_offset))
        n = st.copy()
        items = frozenset(('all', x[1]) if x[0] == 'star' else ('one', x)
                          for x in ts)
        e = 'E' if not ts else ('N' if any(x[0] != 'star' for x in ts)
                                else 'U')
        n.coll[t] = (e, items, items)
        n.heap[(t, '$seq')] = ('list',) + ts
        n.facts = frozenset(f for f in n.facts if not mentions(f[0], t))
        n.must = frozenset(f for f in n.must if not mentions(f, t))
        return (n, t)

    def e_Dict(self, n, st, fr):
        cur = [(st, ())]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for x, ts in cur:
                if k is None:
                    for y, t in self.eval(v, x, fr):
                        nxt.append((y, ts + (('dstar', t),)))
                else:
                    for y, a in self.eval(k, x, fr):
                        for z, b in self.eval(v, y, fr):
                            nxt.append((z, ts + (('kv', a, b),)))
            cur = nxt
        out = []
        for x, ts in cur:
            t = ('new', 'dict', (fr.fid, n.lineno, n.col_offset))
            y = x.copy()
            items = frozenset(('all', i[1]) if i[0] == 'dstar' else i
                              for i in ts)
            y.coll[t] = ('E' if not ts else 'N', items, items)
            if any(i[0] == 'dstar' for i in ts):
                # which of several mappings wins
                y.heap[(t, '$order')] = ('list',) + ts
            for i in ts:
                if i[0] == 'kv':
                    y.heap[(t, ('idx', i[1]))] = i[2]
            out.append((y, t))
        return out

    def e_Starred(self, n, st, fr):
        return [(x, ('star', t)) for x, t in self.eval(n.value, st, fr)]

    def e_JoinedStr(self, n, st, fr):
        return [(x, ('fstr',) + ts)
                for x, ts in self.eval_list(n.values, st, fr)]

    def e_FormattedValue(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def mkbin(self, op, a, b):
        if a[0] == 'const' and b[0] == 'const' and op in ('Add', 'Sub', 'Mult'):
            try:
                v = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y,
                     'Mult': lambda x, y: x * y}[op](a[2], b[2])
                if not isinstance(v, (str, bytes)) or len(v) < 2000:
                    return const(v)
            except Exception:
                pass
        if op == 'Add' and a[0] in ('tuple', 'list') and a[0] == b[0]:
            return a + b[1:]
        if op in ('BitOr', 'BitAnd'):
            if a[0] == 'const' and b[0] == 'const' and a[1] == b[1] == 'bool':
                return const(a[2] | b[2] if op == 'BitOr' else a[2] & b[2])
            for x, y in ((a, b), (b, a)):
                if y[0] == 'const' and y[1] == 'bool':
                    if x[0] == 'phi' and all(
                            z[0] == 'const' and z[1] == 'bool'
                            for z in x[1]):
                        got = {self.mkbin(op, z, y) for z in x[1]}
                        return got.pop() if len(got) == 1 else \
                            ('phi', frozenset(got))
        return ('bin', op, a, b)

    def e_BinOp(self, n, st, fr):
        out = []
        for x, a in self.eval(n.left, st, fr):
            for y, b in self.eval(n.right, x, fr):
                out.append((y, self.mkbin(type(n.op).__name__, a, b)))
        return out

    def e_UnaryOp(self, n, st, fr):
        out = []
        for x, a in self.eval(n.operand, st, fr):
            if isinstance(n.op, ast.Not):
                h = x.holds(a)
                out.append((x, const(not h) if h is not None and
                            a[0] == 'const' else ('not', a)))
            elif isinstance(n.op, ast.USub) and a[0] == 'const' and \
                    isinstance(a[2], (int, float)):
                out.append((x, const(-a[2])))
            else:
                out.append((x, ('un', type(n.op).__name__, a)))
        return out

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        kind = 'and' if isand else 'or'

        def rec(i, st):
            node = n.values[i]
            if i == len(n.values) - 1:
                return self.eval(node, st, fr)
            out = []
            for x, t in self.eval(node, st, fr):
                h = x.holds(t)
                if h is not None:
                    if h == isand:
                        out.extend(rec(i + 1, x))
                    else:
                        out.append((x, t))
                    continue
                rest = rec(i + 1, x)
                if len(rest) == 1 and self._same(rest[0][0], x):
                    r = rest[0][1]
                    parts = (t,) + (r[1:] if r[0] == kind else (r,))
                    out.append((rest[0][0], (kind,) + parts))
                else:
                    for y in self.assume(t, not isand, x):
                        out.append((y, t))
                    for y in self.assume(t, isand, x):
                        out.extend(rec(i + 1, y))
            return out
        return rec(0, st)

    def _same(self, a, b):
        return a is b or (a.must == b.must and a.coll == b.coll and
                          a.heap == b.heap and a.env == b.env and
                          a.ts == b.ts and a.facts == b.facts)

    def mkcmp(self, op, a, b):
        if op == 'NotEq':
            return ('not', self.mkcmp('Eq', a, b))
        if op == 'IsNot':
            return ('not', self.mkcmp('Is', a, b))
        if op == 'NotIn':
            return ('not', self.mkcmp('In', a, b))
        if op == 'Gt':
            return self.mkcmp('Lt', b, a)
        if op in ('GtE', 'LtE') and any(
                x[0] == 'call' and x[1] in ('builtins.set',
                                            'builtins.frozenset') or
                x[0] == 'new' and x[1] == 'set' for x in (a, b)):
            # sets are not totally ordered
            return ('cmp', 'LtE') + ((b, a) if op == 'GtE' else (a, b))
        if op == 'GtE':
            return ('not', self.mkcmp('Lt', a, b))
        if op == 'LtE':
            return ('not', self.mkcmp('Lt', b, a))
        if op == 'Eq' and repr(a) > repr(b):
            a, b = b, a
        if op == 'Is' and a[0] == 'const' and b[0] != 'const':
            a, b = b, a
        if op == 'Eq':
            for x, y in ((a, b), (b, a)):
                if y == const(0) and self.pol.integer(x):
                    return ('not', x)
        if op == 'Is' and b == NONE and all(
                x[0] == 'global' and (x[1] in self.prog.classes or
                                      x[1] in self.prog.functions)
                for x in (a[1] if a[0] == 'phi' else (a,))):
            return const(False)
        return ('cmp', op, a, b)

    def e_Compare(self, n, st, fr):
        out = []
        for x, ts in self.eval_list([n.left] + n.comparators, st, fr):
            parts = []
            for i, op in enumerate(n.ops):
                parts.append(self.mkcmp(type(op).__name__, ts[i], ts[i + 1]))
            t = parts[0] if len(parts) == 1 else ('and',) + tuple(parts)
            out.append((x, t))
        return out

    def e_IfExp(self, n, st, fr):
        tr, fa = self.cond(n.test, st, fr)
        out = []
        for x in self.merge(tr):
            out.extend(self.eval(n.body, x, fr))
        for x in self.merge(fa):
            out.extend(self.eval(n.orelse, x, fr))
        return self.merge_pairs(out)

    def e_Lambda(self, n, st, fr):
        fi = self.prog.by_node.get(n)
        if fi is None:
            return [(st, ANY)]
        return [(st, ('closure', fi.qual, fr.fid))]

    def e_Yield(self, n, st, fr):
        return self.do_yield(n, st, fr, True)

    def _comp(self, n, kind, elts, st, fr):
        """Comprehension with one or more generators."""
        g = n.generators[0]
        out = []
        for x, E in self.eval(g.iter, st, fr):
            E = self.iter_term(E, x)
            e = elem(E)
            saved = {}
            names = set()
            for a in n.generators:
                for q in ast.walk(a.target):
                    if isinstance(q, ast.Name):
                        names.add(q.id)
            inner = self._kill_elem(x, e)
            inner = self._bind_comp(g.target, e, inner, fr)
            sts = [inner]
            conds = []
            iters = [E]
            gens = n.generators
            for gi, a in enumerate(gens):
                if gi > 0:
                    nxt = []
                    E2 = None
                    for y in sts:
                        for z, E2 in self.eval(a.iter, y, fr):
                            z = self._bind_comp(a.target, elem(E2), z, fr)
                            nxt.append(z)
                    sts = nxt
                    if E2 is not None:
                        iters.append(E2)
                for c in a.ifs:
                    nxt = []
                    for y in sts:
                        for z, ct in self.eval(c, y, fr):
                            if ct not in conds:
                                conds.append(ct)
                            nxt.extend(self.assume(ct, True, z))
                    sts = nxt
            ets = []
            pairs = []
            may = x.may
            for y in sts:
                for z, ts in self.eval_list(elts, y, fr):
                    pairs.append((z, ts[0]))
                    ets.append(ts[0] if len(ts) == 1 else ('pair',) + ts)
                    may = may | z.may
            et = phi(ets) if ets else ANY
            base = inner.facts
            alternatives = [
                (frozenset(v for v in z.facts - base
                           if v[0][0] not in ('disj', 'forall')), t)
                for z, t in pairs]
            it = iters[0] if len(iters) == 1 else ('nest',) + tuple(iters)
            y = x.copy()
            y.may = may
            # events that happened for every element
            if sts and not conds and len(iters) == 1:
                common = None
                for z0 in sts:
                    for z, _ in self.eval_list_quiet(elts, z0, fr):
                        m = frozenset(v for v in z.must if mentions(v, e))
                        common = m if common is None else common & m
                y.facts = y.facts | {(('forall', E, ('did', m), True), True)
                                     for m in (common or ())}
            out.append((y, ('comp', kind, et, it, tuple(conds))))
            if len(set(ets)) > 1:
                self.guarded[out[-1][1]] = alternatives
        return out

    def eval_list_quiet(self, elts, st, fr):
        r, self.recording = self.recording, False
        saved, self.cur_raises = self.cur_raises, []
        try:
            return self.eval_list(elts, st, fr)
        finally:
            self.recording = r
            self.cur_raises = saved

    def _bind_comp(self, tgt, t, st, fr):
        n = st.copy()

        def bind(tg, v):
            if isinstance(tg, ast.Name):
                n.env[(fr.fid, tg.id)] = v
            elif isinstance(tg, (ast.Tuple, ast.List)):
                for i, q in enumerate(tg.elts):
                    bind(q, self.index(v, const(i)))
            elif isinstance(tg, ast.Starred):
                bind(tg.value, v)
        bind(tgt, t)
        return n

    def e_ListComp(self, n, st, fr):
        return self._comp(n, 'list', [n.elt], st, fr)

    def e_SetComp(self, n, st, fr):
        return self._comp(n, 'set', [n.elt], st, fr)

    def e_GeneratorExp(self, n, st, fr):
        return self._comp(n, 'gen', [n.elt], st, fr)

    def _dict_of(self, n, g, st, E, fr):
        cur = [(st, ())]
        for c in E[1:]:
            nxt = []
            for x, ts in cur:
                x = self._bind_comp(g.target, c, x, fr)
                for z, p in self.eval_list([n.key, n.value], x, fr):
                    nxt.append((z, ts + (('kv', p[0], p[1]),)))
            cur = nxt
        out = []
        for x, ts in cur:
            t = ('new', 'dict', (fr.fid, n.lineno, n.col_offset))
            y = x.copy()
            y.coll[t] = ('N', frozenset(ts), frozenset(ts))
            for i in ts:
                y.heap[(t, ('idx', i[1]))] = i[2]
            for q in ast.walk(g.target):
                k = (fr.fid, getattr(q, 'id', None))
                if k in st.env:
                    y.env[k] = st.env[k]
                else:
                    y.env.pop(k, None)
            out.append((y, t))
        return out

    def e_DictComp(self, n, st, fr):
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs:
            # over a fixed list of names it is a display
            its = self.eval(g.iter, st, fr)
            if len(its) == 1:
                x, E = its[0]
                if E[0] in ('tuple', 'list') and 1 < len(E) <= 9 and \
                        all(i[0] == 'const' for i in E[1:]):
                    return self._dict_of(n, g, x, E, fr)
        return self._comp(n, 'dict', [n.key, n.value], st, fr)

    # ------------------------------------------------------------------- calls

    def eval_args(self, n, st, fr):
        """-> [(state, args, kwargs)]"""
        out = []
        for x, ts in self.eval_list(n.args, st, fr):
            args = []
            for t in ts:
                if t[0] == 'star' and t[1][0] in ('tuple', 'list'):
                    args.extend(t[1][1:])
                elif t[0] == 'star' and t[1][0] == 'new' and \
                        (t[1], '$seq') in x.heap and \
                        not self._mutated(x, t[1]):
                    args.extend(x.heap[(t[1], '$seq')][1:])
                else:
                    args.append(t)
            cur = [(x, ())]
            for kw in n.keywords:
                nxt = []
                for y, ks in cur:
                    for z, t in self.eval(kw.value, y, fr):
                        if kw.arg is None:
                            if t[0] == 'dict' and all(
                                    i[0] == 'kv' and i[1][0] == 'const'
                                    for i in t[1:]):
                                nxt.append((z, ks + tuple(
                                    (i[1][2], i[2]) for i in t[1:])))
                            elif t[0] == 'kwpack':
                                nxt.append((z, ks + t[1:]))
                            else:
                                nxt.append((z, ks + (('**', t),)))
                        else:
                            nxt.append((z, ks + ((kw.arg, t),)))
                cur = nxt
            for y, ks in cur:
                out.append((y, tuple(args), tuple(sorted(ks, key=repr))))
        return out

    def _mutated(self, st, t):
        c = st.coll.get(t)
        seq = st.heap.get((t, '$seq'))
        if c is None or seq is None:
            return True
        items = frozenset(('all', x[1]) if x[0] == 'star' else ('one', x)
                          for x in seq[1:])
        return items != c[2]

    def resolve_callee(self, f):
        """-> (kind, recv, FunctionInfo/ClassInfo/None, cls, static parent)"""
        k = f[0]
        if k == 'closure':
            fi = self.prog.functions.get(f[1])
            cls = None
            pf = self.frames.get(f[2])
            if pf is not None:
                cls = pf.cls
            return ('closure', None, fi, cls, f[2])
        if k == 'bound':
            fi = self.prog.functions.get(f[2])
            cls = self.prog.classes.get(f[3])
            recv = f[1]
            if fi is not None and fi.is_static:
                return ('static', None, fi, cls, None)
            return ('bound', recv, fi, cls, None)
        if k == 'global':
            d = self.prog.lookup(f[1])
            if isinstance(d, FunctionInfo):
                return ('global', None, d, d.cls, None)
            if isinstance(d, ClassInfo):
                return ('class', None, d, d, None)
            return ('ext', None, None, None, None)
        return (None, None, None, None, None)

    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args and fr.cls is not None:
            f = fr
            while f is not None and f.fi.cls is None:
                f = self.frames.get(f.static_parent)
            if f is not None and f.fi.params:
                recv = st.env.get((f.fid, f.fi.params[0]),
                                  ('self', fr.cls.qual))
                return [(st, ('super', fr.cls.qual, f.fi.cls.qual, recv))]
        out = []
        for x, f in self.eval(n.func, st, fr):
            for g in alts(f):
                for y, args, kwargs in self.eval_args(n, x, fr):
                    out.extend(self.call(g, args, kwargs, y, n, fr))
        return out if len(out) < 12 else self.merge_pairs(out)

    def call(self, f, args, kwargs, st, node, fr):
        kind, recv, target, cls, sp = self.resolve_callee(f)
        # class-attribute call of a method through its class
        if kind == 'global' and target.cls is not None and \
                not target.is_static:
            if target.is_classmethod:
                recv = ('global', target.cls.qual)
            elif args:
                recv, args = args[0], args[1:]
                cq = self.type_of(recv)
                c = self.prog.classes.get(cq) if cq else None
                if c is not None and target.cls in c.mro():
                    cls = c
        if f == ('global', 'builtins.iter') and len(args) == 2 and \
                args[0][0] in ('closure', 'bound', 'partial'):
            # iter(callable, sentinel) calls it for every element
            out = []
            for x, v in self.call(args[0], (), (), st, node, fr):
                out.extend(self.opaque_call('builtins.iter', None, args, (),
                                            x, node, fr))
            return out
        if f[0] == 'partial':
            return self.call(f[1], f[2] + args,
                             tuple(sorted(f[3] + kwargs, key=repr)), st, node,
                             fr)
        if target is not None and isinstance(target, FunctionInfo):
            name = target.qual
        elif isinstance(target, ClassInfo):
            name = target.qual
        elif f[0] == 'global':
            name = f[1]
        elif f[0] == 'attr':
            recv = f[1]
            tq = self.type_of(recv)
            name = (tq + '.' + f[2]) if tq and tq not in self.prog.classes \
                else '.' + f[2]
        else:
            name = '<value>'
            recv = f
        self.cur_frame = fr
        m = self.pol.model(self, name, recv, args, kwargs, st, node)
        if m is not None:
            return m
        b = self.builtin(name, recv, args, kwargs, st, node, fr)
        if b is not None:
            return b
        if isinstance(target, FunctionInfo) and self.can_inline(target, fr):
            return self.call_function(target, recv, args, kwargs, cls, sp, st,
                                      node, fr)
        return self.opaque_call(name, recv, args, kwargs, st, node, fr)

    def can_inline(self, fi, fr):
        if fi.is_generator:
            return False
        if len(fr.fid) > self.pol.max_depth:
            return False
        if any(isinstance(p, tuple) and p[-1] == fi.qual for p in fr.fid) or \
                fr.fid[:2] == ('top', fi.qual):
            return False
        bad = [d for d in fi.decorator_names
               if tail(d) not in ('staticmethod', 'classmethod', 'property',
                                  'wraps', 'abstractmethod')]
        if bad and '<locals>' not in fi.qual:
            return False
        if bad:
            return False
        return self.pol.inline(fi)

    def opaque_call(self, name, recv, args, kwargs, st, node, fr,
                    result=None):
        t = result or ('call', name, recv, args, kwargs)
        if self.pol.may_raise(name, recv) and \
                (self.try_depth or self.pol.track_exc) and \
                self.pol.fails(st, name, recv, args, kwargs):
            r = st.copy()
            ev = (name, recv, args, kwargs)
            if not self.pol.ignored(name):
                r.may = r.may | {('try',) + ev}
            if name in ('.pop', 'dict.pop') and len(args) == 1:
                r.must = r.must | {('gone', recv, args, ())}
            self.pol.on_raise(r, name, recv, args, node, self)
            self.cur_raises.append((r, ('exc', self.pol.raised(name, recv),
                                    NONE)))
        n = self.event(st, name, recv, args, kwargs, node, fr)
        if any(mentions(f[0], t) for f in n.facts):
            n = n.copy()
            n.facts = frozenset(f for f in n.facts if not mentions(f[0], t))
        known = self.pol.known(t)
        if known:
            n = n.copy()
            n.facts = n.facts | known
        return [(n, t)]

    def event(self, st, name, recv, args, kwargs, node, fr):
        n = st.copy()
        if self.recording:
            self.obs.append(Obs(name, recv, args, kwargs, st, node, fr.fi,
                                fr.fid))
        ev = (name, recv, args, kwargs)
        if not self.pol.ignored(name):
            n.must = n.must | {ev}
            n.may = n.may | {ev}
        if name in ('del.item', '.pop', 'dict.pop') and recv is not None and \
                args and len(args) < 3:
            n.must = n.must | {('gone', recv, args[:1], ())}
        elif name == 'set.item':
            n.must = n.must - {('gone', recv, args[:1], ())}
        self.pol.on_event(n, name, recv, args, kwargs, node, self)
        if recv is not None and (
                name[0] == '.' and name[1:] in MUTATORS or
                name in ('del.item', 'set.item')):
            forget(n, recv, name if name[0] != '.' else name[1:])
        return n

    def builtin(self, name, recv, args, kwargs, st, node, fr):
        if name == '.get' and recv is not None and args:
            table = self.table(st, recv)
            if table is not None:
                return self.choose(st, recv, args[0], table,
                                   args[1] if len(args) > 1 else NONE)
        if name.startswith('.') and recv is not None:
            meth = name[1:]
            if recv in st.coll and meth in MUTATORS:
                n = self.event(st, name, recv, args, kwargs, node, fr)
                if recv[0] == 'call':
                    self.changed_copies.add(recv)
                if meth in ('append', 'add', 'appendleft') and args:
                    n = self.coll_add(n, recv, ('one', args[0]))
                    if meth == 'append' and (recv, '$seq') in n.heap and \
                            len(n.heap[(recv, '$seq')]) < 40:
                        n.heap[(recv, '$seq')] += (args[0],)
                elif meth == 'insert' and len(args) > 1:
                    n = self.coll_add(n, recv, ('one', args[1]))
                    if (recv, '$seq') in n.heap:
                        del n.heap[(recv, '$seq')]
                elif meth in ('extend', 'update'):
                    for a in args:
                        n = self.coll_add(n, recv, ('all', a))
                        if (recv, '$seq') in n.heap:
                            n.heap[(recv, '$seq')] += (('star', a),)
                    for k, v in kwargs:
                        n = self.coll_add(n, recv, ('kv', const(k), v))
                elif meth == 'setdefault' and args:
                    v = args[1] if len(args) > 1 else NONE
                    n = self.coll_add(n, recv, ('kv', args[0], v))
                elif meth == 'clear':
                    n = self.coll_clear(n, recv)
                elif meth in ('pop', 'remove', 'popitem', 'discard',
                              'popleft'):
                    c = n.coll[recv]
                    n.coll[recv] = ('U', frozenset(), c[2])
                    n.heap.pop((recv, '$seq'), None)
                    n.facts = frozenset(f for f in n.facts if f[0] != recv)
                    if meth in ('pop', 'remove', 'popleft', 'popitem') and \
                            (self.try_depth or self.pol.track_exc) and \
                            len(args) < 2:
                        self.cur_raises.append(
                            (st, ('exc', 'builtins.KeyError', NONE)))
                return [(n, ('call', name, recv, args, kwargs))]
            return None
        if name == 'builtins.getattr' and len(args) >= 2 and \
                args[1][0] == 'const' and isinstance(args[1][2], str):
            if len(args) == 2:
                if (self.try_depth or self.pol.track_exc) and \
                        self.pol.may_lack(args[0], args[1][2]):
                    self.cur_raises.append(
                        (st, ('exc', 'builtins.AttributeError', NONE)))
                return self.load_attr(st, args[0], args[1][2], node, fr)
            return [(st, phi([('attr', args[0], args[1][2]), args[2]]))]
        if name == 'builtins.setattr' and len(args) == 3 and \
                args[1][0] == 'const':
            n = self.event(st, 'set.attr', args[0], (args[1], args[2]), (),
                           node, fr)
            n.heap[(args[0], args[1][2])] = args[2]
            return [(n, NONE)]
        if name == 'builtins.hasattr' and len(args) == 2 and \
                args[1][0] == 'const':
            return [(st, ('hasattr', args[0], args[1][2]))]
        if name in ('builtins.set', 'builtins.list', 'builtins.dict') and \
                not args and not kwargs:
            return [self.new_coll(st, name[9:], (), node, fr)]
        if name == 'collections.defaultdict' or \
                (name in ('collections.deque', 'collections.OrderedDict') and
                 not args):
            return [self.new_coll(st, 'dict', (), node, fr)]
        if name in ('builtins.set', 'builtins.list') and len(args) == 1 and \
                not kwargs:
            # a fresh, mutable copy
            t = ('call', name, None, args, kwargs)
            n = st.copy()
            if t not in n.coll:
                it = frozenset({('all', args[0])})
                n.coll[t] = ('U', it, it)
            return [(n, t)]
        if name == 'builtins.tuple' and len(args) == 1 and \
                args[0][0] in ('tuple', 'list'):
            return [(st, ('tuple',) + args[0][1:])]
        if name == 'builtins.map' and len(args) == 2:
            f, E = args
            e = elem(E)
            k = self._kill_elem(st, e)
            res = self.call(f, (e,), (), k, node, fr) if f[0] in (
                'closure', 'bound', 'global') else [(k, ANY)]
            y = st.copy()
            for z, _ in res:
                y.may = y.may | z.may
            return [(y, ('comp', 'gen', phi([t for _, t in res]), E, ()))]
        if name == 'builtins.filter' and len(args) == 2:
            f, E = args
            e = elem(E)
            if f == NONE:
                ct = e
            else:
                res = self.call(f, (e,), (), st, node, fr)
                ct = phi([t for _, t in res])
            return [(st, ('comp', 'gen', e, E, (ct,)))]
        if name == 'functools.partial' and args:
            return [(st, ('partial', args[0], args[1:], kwargs))]
        if name == 'sys.exit' or name == 'builtins.exit':
            n = self.event(st, name, recv, args, kwargs, node, fr)
            self.cur_raises.append(
                (n, ('exc', 'builtins.SystemExit',
                     args[0] if args else NONE)))
            return []
        if name in ('os._exit', 'os.abort'):
            self.event(st, name, recv, args, kwargs, node, fr)
            return []
        return None

    def bind(self, fi, fid, recv, args, kwargs, st):
        a = fi.node.args
        params = fi.params
        vals = list(args)
        if fi.cls is not None and not fi.is_static and recv is not None:
            vals = [recv] + vals
        kw = dict((k, v) for k, v in kwargs if k != '**')
        dstar = [v for k, v in kwargs if k == '**']
        bound = {}
        star = None
        for i, p in enumerate(params):
            if star is not None:
                bound[p] = kw.pop(p, ('item', star[0], const(i - star[1])))
                continue
            if i < len(vals):
                if vals[i][0] == 'star':
                    star = (vals[i][1], i)
                    bound[p] = kw.pop(p, ('item', star[0], const(0)))
                else:
                    bound[p] = vals[i]
            elif p in kw:
                bound[p] = kw.pop(p)
            elif dstar:
                bound[p] = ('item', dstar[0], const(p))
            else:
                bound[p] = self.default(fi, p)
        for x in a.kwonlyargs:
            if x.arg in kw:
                bound[x.arg] = kw.pop(x.arg)
            elif dstar:
                bound[x.arg] = ('item', dstar[0], const(x.arg))
            else:
                bound[x.arg] = self.default(fi, x.arg)
        if a.vararg:
            if star is not None:
                extra = vals[star[1] + 1:]
                if star[1] >= len(params):
                    bound[a.vararg.arg] = ('tuple',) + tuple(
                        vals[len(params):])
                else:
                    bound[a.vararg.arg] = ('rest', star[0],
                                           len(params) - star[1])
            else:
                rest = vals[len(params):]
                if len(rest) == 1 and rest[0][0] == 'star':
                    bound[a.vararg.arg] = rest[0][1]
                else:
                    bound[a.vararg.arg] = ('tuple',) + tuple(rest)
        if a.kwarg:
            if dstar and not kw:
                bound[a.kwarg.arg] = dstar[0]
            else:
                bound[a.kwarg.arg] = ('kwpack',) + tuple(
                    sorted(kw.items(), key=repr)) + tuple(
                        ('**', d) for d in dstar)
        for p, v in bound.items():
            st.env[(fid, p)] = v
        return st

    def default(self, fi, p):
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if p in params:
            i = params.index(p) - (len(params) - len(a.defaults))
            d = a.defaults[i] if i >= 0 else None
        else:
            ks = [x.arg for x in a.kwonlyargs]
            d = a.kw_defaults[ks.index(p)] if p in ks else None
        if d is None:
            return ('missing', p)
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, ast.Tuple) and not d.elts:
            return ('tuple',)
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) and \
                not getattr(d, 'elts', getattr(d, 'keys', None)):
            return ('default', fi.qual, p)
        n = dotted(d)
        if n:
            return ('global', fi.module.resolve_dotted(n))
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and \
                isinstance(d.operand, ast.Constant):
            return const(-d.operand.value)
        return ('default', fi.qual, p)

    def call_function(self, fi, recv, args, kwargs, cls, sp, st, node, fr):
        fid = fr.fid + ((getattr(node, 'lineno', 0),
                         getattr(node, 'col_offset', 0), fi.qual),)
        if cls is None:
            cls = fi.cls
        if sp is None and fi.outer is not None:
            # nested function reached by name: its defining frame is on the
            # chain of the caller
            f = fr
            while f is not None and f.fi is not fi.outer:
                f = self.frames.get(f.static_parent)
            sp = f.fid if f is not None else None
        self.frames[fid] = Frame(fid, fi, cls, sp)
        self.functions_seen.add(fi.qual)
        n = self.bind(fi, fid, recv, args, kwargs, st.copy())
        f2 = self.frames[fid]
        if fi.is_lambda:
            rets = self.eval(fi.node.body, n, f2)
        else:
            saved = self.cur_raises
            o = self.exec_block(fi.node.body, [n], f2)
            rets = o.ret + [(x, NONE) for x in o.normal]
        out = []
        for x, t in rets:
            keep = any(s[0] == 'closure' for s in subterms(t)
                       if isinstance(s, tuple) and s and
                       isinstance(s[0], str))
            out.append((x if keep else self.drop_frame(x, fid), t))
        return self.merge_pairs(out)

    def drop_frame(self, st, fid):
        n = st.copy()
        n.env = {k: v for k, v in st.env.items() if k[0] != fid}
        return n


def _as_load(t):
    import copy
    c = copy.deepcopy(t)
    for x in ast.walk(c):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return c
