"""Shared pieces of the rules: the database policy and small term queries."""

import ast

from sa.interp import Interp, Policy, State
from sa.program import AnalysisBroken
from sa.terms import *
from sa.terms import show, tail, subterms

DB = 'fbuild.db.database.Database'
BE = 'fbuild.db.backend.Backend'
CACHE = 'fbuild.db.cache_backend.CacheBackend'
PICKLE = 'fbuild.db.pickle_backend.PickleBackend'
SQLITE = 'fbuild.db.sqlite_backend.SqliteBackend'
RPC = 'fbuild.rpc.RPC'


class DbPolicy(Policy):
    """Follows Database.call into the store: a request to the service thread is
    the call of the operation it names."""
    inline_rpc = ('prepare',)
    follow = ('prepare', 'check_call_files', 'check_external_files',
              'check_call_file')
    engine = None

    def inline(self, fi):
        if fi.cls is not None and fi.name in self.follow and \
                fi.qual not in self.opaque and \
                any(c.qual == BE for c in fi.cls.mro()):
            return True
        return super().inline(fi)

    def attr_type(self, base, attr):
        return self.engine if attr == '_backend' else None

    def model(self, it, name, recv, args, kwargs, st, node):
        if name == RPC + '.call' and args:
            f = args[0]
            op = tail(f[2]) if f[0] == 'bound' else \
                f[2] if f[0] == 'attr' else '?'
            fr = it.cur_frame
            if op in self.inline_rpc and f[0] == 'bound':
                n = it.event(st, 'rpc:' + op, f[1], args[1:], kwargs, node,
                             fr)
                return it.call(f, args[1:], kwargs, n, node, fr)
            return it.opaque_call('rpc:' + op, f[1] if len(f) > 1 else None,
                                  args[1:], kwargs, st, node, fr)
        if tail(name) in ('find_call', 'check_function') and \
                name.startswith('fbuild.db.'):
            # contract (decided by lookup-by-arguments / C02): what is not
            # dirty has an id
            out = []
            find = tail(name) == 'find_call'
            for s, t in it.opaque_call(name, recv, args, kwargs, st, node,
                                       it.cur_frame):
                d, k = ('item', t, const(0)), ('item', t, const(1))
                none = ('cmp', 'Is', k, NONE)
                for y in it.assume(d, False, s):
                    for z in it.assume(none, False, y):
                        out.append((z, ('tuple', FALSE, k) + (
                            (('item', t, const(2)),) if find else ())))
                for y in it.assume(d, True, s):
                    out.append((y, ('tuple', TRUE, NONE, NONE) if find
                                else ('tuple', TRUE, k)))
            return out
        return None

    def on_event(self, state, name, recv, args, kwargs, node, it):
        if user_call((name, recv, args, kwargs)):
            state.ts['run'] = 'once' if state.ts.get('run', 'no') == 'no' \
                else 'again'


def is_call_of(t, *names):
    """t is the result of an opaque call of one of these (tail names)."""
    return isinstance(t, tuple) and len(t) == 5 and t[0] == 'call' and \
        tail(t[1].split(':')[-1]) in names


def part_of_call(t, name, index=None):
    """t is item `index` of (or the whole) result of calling `name`."""
    if index is None:
        return is_call_of(t, name)
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'item' and \
        t[2] == const(index) and is_call_of(t[1], name)


def strip_copy(t):
    from sa.interp import COPYING
    while isinstance(t, tuple) and t and t[0] == 'call' and \
            t[1] in COPYING and len(t[3]) == 1:
        t = t[3][0]
    return t


def facts_about(s, pred):
    return [(t, p) for t, p in s.facts
            if t[0] not in ('forall', 'forall_none', 'disj') and pred(t)]


def one_of(s, pred):
    """pred(literal, polarity) is known for some literal, or for each of the
    alternatives one of which is known to hold."""
    for t, p in s.facts:
        if t[0] == 'disj':
            alive = [d for d in t[1]
                     if not any((a, not q) in s.facts for a, q in d)]
            if all(any(pred(a, q) for a, q in d) for d in alive):
                return True
        elif t[0] not in ('forall', 'forall_none') and pred(t, p):
            return True
    return False


def refuted(s, pred):
    """Some condition matching pred is known to be false in this state."""
    return any(not p for t, p in facts_about(s, pred))


def established(s, pred):
    return any(p for t, p in facts_about(s, pred))


def events_in(evs, *names):
    return [e for e in evs if e[0] != 'try' and
            tail(e[0].split(':')[-1]) in names]


def contexts(prog, quals):
    return [prog.require_function(q) for q in quals]


def calls_in(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            yield n


def find_calls(t, *names):
    """Every opaque call of one of these inside a term."""
    return [x for x in subterms(t) if is_call_of(x, *names)]


def call_args(prog, t, params):
    """The arguments of a call term by parameter name."""
    out = {}
    for p, a in zip(params, t[3]):
        out[p] = a
    for k, v in t[4]:
        out[k] = v
    return out


def leaves(E, st=None, depth=0):
    """The collections an iterable is made of: chain(a, b), a | b,
    a.union(b), list(a), [*a, *b], ..."""
    from sa.interp import COPYING
    if not isinstance(E, tuple) or depth > 8:
        return [E]
    k = E[0]
    if k == 'call' and st is not None and E in st.coll:
        # a copy, and what was put into it
        out = []
        for i in st.coll[E][1]:
            out.extend(leaves(i[1], st, depth + 1) if i[0] == 'all' else
                       [('single', i[1])])
        return out or [E]
    if k == 'call':
        nm = tail(E[1])
        if E[1] == 'itertools.chain' or E[1] in COPYING:
            out = []
            for a in E[3]:
                out.extend(leaves(a, st, depth + 1))
            return out
        if nm == 'from_iterable' and len(E[3]) == 1:
            return leaves(E[3][0], st, depth + 1)
        if nm in ('union', 'copy') and E[2] is not None:
            out = leaves(E[2], st, depth + 1)
            for a in E[3]:
                out.extend(leaves(a, st, depth + 1))
            return out
    if k == 'bin' and E[1] in ('BitOr', 'Add'):
        return leaves(E[2], st, depth + 1) + leaves(E[3], st, depth + 1)
    if k in ('tuple', 'list', 'set'):
        out = []
        for x in E[1:]:
            if x[0] == 'star':
                out.extend(leaves(x[1], st, depth + 1))
            else:
                out.append(('single', x))
        return out
    if k == 'new' and st is not None and E in st.coll:
        out = []
        for it in st.coll[E][1]:
            if it[0] == 'all':
                out.extend(leaves(it[1], st, depth + 1))
            else:
                out.append(('single', it[1]))
        return out or [E]
    return [E]


def quantified(s):
    """[(leaf collection, element term, literal, polarity)] known in s, with
    literal None for a collection known to be empty here."""
    out = []
    for t, p in s.facts:
        if not p:
            continue
        if t[0] == 'forall' and t[2][0] != 'did':
            for l in leaves(t[1], s):
                out.append((l, ('elem', t[1]), t[2], t[3]))
        elif t[0] == 'forall_none':
            for l in leaves(t[1], s):
                out.append((l, None, None, None))
    return out


def all_known(s, coll, pred):
    """Is pred(literal, polarity, element) known for all of coll?"""
    for l, e, lit, pol in quantified(s):
        if l == coll and (lit is None or pred(lit, pol, e)):
            return True
    if coll[0] == 'single':
        for t, p in s.facts:
            if t[0] != 'forall' and pred(t, p, coll[1]):
                return True
    return s.holds(coll) is False


EXISTS = ('exists', 'isfile')


def exists_lit(lit, pol, e):
    """lit says that the path e exists."""
    if not pol or lit[0] != 'call':
        return False
    return lit[1] in ('os.path.exists', 'os.path.isfile',
                      'fbuild.path.Path.exists', 'fbuild.path.Path.isfile') \
        and as_path(lit[3][0] if lit[3] else lit[2]) == e


def as_path(t):
    """Path(x), str(x), os.fspath(x) name the same file as x."""
    while isinstance(t, tuple) and t and t[0] == 'call' and len(t[3]) == 1 \
            and t[1] in ('fbuild.path.Path', 'builtins.str', 'os.fspath'):
        t = t[3][0]
    return t


def same_eq(lit, pol, p1, p2):
    """lit says x == y with p1(x) and p2(y)."""
    if not pol or lit[0] != 'cmp' or lit[1] != 'Eq':
        return False
    a, b = lit[2], lit[3]
    return (p1(a) and p2(b)) or (p1(b) and p2(a))


def user_call(e):
    """An event that is the run of the cached function."""
    if e[0] == 'try':
        return user_call(e[1:])
    nm, recv, args = e[0], e[1], e[2]
    return recv is not None and (nm == '<value>' or nm.startswith('.')) and \
        mentions(recv, ('param', 'function')) and \
        any(a[0] == 'star' for a in args)


def where(fi, node=None):
    n = node if node is not None else fi.node
    return '%s:%d' % (fi.module.relpath, getattr(n, 'lineno', 0))


def engines(prog):
    """Every storage engine."""
    return sorted(c.qual for c in prog.subclasses(BE, proper=True))


def database_run(ck, engine=None, **opts):
    """Database.call with the query of the store inlined."""
    P = type('P', (DbPolicy,), dict(opts, engine=engine))
    P.max_states = opts.get('max_states', 150)
    it = Interp(ck.prog, P())
    cls = ck.prog.require_class(DB)
    fi = ck.prog.require_method(DB, 'call')
    st = State()
    st.ts['run'] = 'no'
    return fi, ck.explored(it.run(fi, cls=cls, state=st))


def ran(s):
    """How often the function certainly ran on this path: no once again, or
    ? if that is not known."""
    r = s.ts.get('run', 'no')
    return r if r in ('no', 'once', 'again') else '?'


class SqlPolicy(Policy):
    max_states = 150
    """The rows of fetchall()/fetchone() are those of the statement executed
    last."""

    def model(self, it, name, recv, args, kwargs, st, node):
        if name in ('.execute', '.executemany', 'sqlite3.Cursor.execute',
                    'sqlite3.Cursor.executemany',
                    'sqlite3.Connection.execute',
                    'sqlite3.Connection.executemany'):
            n = '.' + tail(name)
            t = ('call', n, recv, args, kwargs)
            out = it.opaque_call(n, recv, args, kwargs, st, node,
                                 it.cur_frame, t)
            for s, _ in out:
                s.ts['sql'] = t
            return out
        if tail(name) in ('fetchall', 'fetchone') and not args:
            q = st.ts.get('sql')
            if isinstance(q, tuple):
                return [(st, ('call', '.' + tail(name), q, (), ()))]
        return None


def sql_text(t):
    return t[2] if t[0] == 'const' and isinstance(t[2], str) else None


def sql_of(t):
    """Statements of an execute event or call term (name, recv, args...)."""
    from sa import sql
    if t[0] == 'call':
        t = t[1:]
    if tail(t[0]) not in ('execute', 'executemany', 'executescript') or \
            not t[2]:
        return None
    s = sql_text(t[2][0])
    return sql.parse(s) if s is not None else None


def sql_param(t, n):
    """The value bound to the n-th ? of an execute term."""
    if t[0] == 'call':
        t = t[1:]
    if len(t[2]) < 2:
        return None
    a = t[2][1]
    if a[0] in ('tuple', 'list') and n < len(a) - 1:
        return a[1 + n]
    return None


def query_of(t):
    """The execute call term that rows come from."""
    t = strip_copy(t)
    if t[0] == 'call' and tail(t[1]) in ('fetchall', 'fetchone') and \
            t[2] is not None:
        return t[2]
    if t[0] == 'call' and tail(t[1]) == 'execute':
        return t
    return None


def row_column(t):
    """(execute term, statement, column name, row term) of a result value."""
    if t[0] != 'item' or t[2][0] != 'const' or \
            not isinstance(t[2][2], int):
        return None
    row = t[1]
    src = None
    if row[0] == 'elem':
        src = row[1]
    elif row[0] == 'item':
        src = row[1]
    elif row[0] == 'call' and tail(row[1]) == 'fetchone':
        src = row
    if src is None:
        return None
    q = query_of(src)
    if q is None:
        return None
    ss = sql_of(q)
    if not ss or len(ss) != 1 or ss[0].kind != 'select':
        return None
    k = t[2][2]
    if not 0 <= k < len(ss[0].cols):
        return None
    return q, ss[0], ss[0].cols[k].split('.')[-1].lower(), row


def emptiness(s, pred):
    """{True} / {False} / both / none: what the path found out about whether
    the collection (or optional value) pred picks is empty."""
    out = set()
    for f, p in s.facts:
        if f[0] in ('forall', 'forall_none', 'disj'):
            continue
        if pred(f):
            out.add(not p)
        elif f[0] == 'cmp' and f[1] == 'Is' and f[3] == NONE and pred(f[2]):
            out.add(p)
        elif f[0] == 'cmp' and len(f) == 4:
            op, a, b = f[1:]
            if a[0] == 'const':
                a, b = b, a
                op = {'Gt': 'Lt', 'Lt': 'Gt', 'GtE': 'LtE',
                      'LtE': 'GtE'}.get(op, op)
            if b[0] != 'const' or not (
                    a[0] == 'call' and tail(a[1]) == 'len' and a[3] and
                    pred(a[3][0])):
                if not (b in (('list',), ('tuple',)) and pred(a)):
                    continue
                b = const(0)
            k = (op, b[2])
            if k in (('Eq', 0), ('Lt', 1), ('LtE', 0)):
                out.add(p)
            elif k in (('Gt', 0), ('GtE', 1), ('NotEq', 0)):
                out.add(not p)
            elif k[0] == 'Eq' and p:
                out.add(False)
    return out


def worlds(s, cap=64):
    """The state split by its disjunctions: one copy per way to satisfy
    them."""
    out = [frozenset(f for f in s.facts if f[0][0] != 'disj')]
    for f, p in s.facts:
        if f[0] == 'disj' and p and len(out) * len(f[1]) <= cap:
            out = [w | d for w in out for d in f[1]]
    res = []
    for w in out:
        x = s.copy()
        x.facts = w
        res.append(x)
    return res


def unload(t):
    """x for a value restored from its stored form x."""
    while t[0] == 'call' and len(t[3]) >= 1 and \
            tail(t[1]) in ('_pickle_loads', 'pickle_loads', 'loads'):
        t = t[3][-1]
    return t


def undump(t):
    """x for the stored form of a value x."""
    while t[0] == 'call' and len(t[3]) >= 1 and \
            tail(t[1]) in ('_pickle_dumps', 'pickle_dumps', 'dumps',
                           'Binary'):
        t = t[3][-1]
    return t


def method_owners(prog, name, base=BE):
    """The engine classes with a method `name` of their own."""
    out = []
    for c in prog.subclasses(base, proper=True):
        if name in c.methods:
            out.append((c, c.methods[name]))
    return out


def run_method(ck, c, m, policy=None, **kw):
    it = Interp(ck.prog, policy or SqlPolicy())
    r = ck.explored(it.run(m, cls=c, **kw))
    r.returns = [(s, whole_row(t)) for s, t in r.returns]
    return r


def whole_row(t):
    """A whole row of a query, column by column."""
    src = None
    if t[0] == 'elem':
        src = t[1]
    elif t[0] == 'item' and t[2][0] == 'const' and isinstance(t[2][2], int) and \
            not (t[1][0] == 'call' and tail(t[1][1]) == 'fetchone'):
        src = t[1]
    elif t[0] == 'call' and tail(t[1]) == 'fetchone':
        src = t
    q = query_of(src) if src is not None else None
    ss = sql_of(q) if q is not None else None
    if not ss or len(ss) != 1 or ss[0].kind != 'select' or (
            len(ss[0].cols) < 2):
        return t
    return ('tuple',) + tuple(('item', t, const(k))
                              for k in range(len(ss[0].cols)))


def param(fi, i):
    """The i-th parameter of a method after self."""
    ps = fi.params
    return ('param', ps[i + 1]) if i + 1 < len(ps) else ('param', '?')
