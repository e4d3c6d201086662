"""For every storage engine (the subclasses of the base store) the operations
the base class leaves open must be there, with parameters the base class and
Database can call, and every path must answer in the shape the callers unpack.
What a save operation puts into the tables (SQL text with its parameters, or
dictionary writes) is matched, role by role, with what the find operation takes
out, including its transformation; a path that finds nothing answers the agreed
"not found".  The id a save operation returns must name the record it wrote.
The engine names are enumerated from the options and followed through the
selection in Database and the table of default state files."""
import ast
import re

from .common import *
from . import store, c04, c06
from sa import sql

T = {
    'complete': 'every engine has every operation, callable with the arguments the others take',
    'shape': 'an operation answers in the same shape on every path in every engine',
    'same-role': 'what was stored for a role is what is found for it, under the same key',
    'not-found': 'an operation that finds nothing answers the agreed way, and only then',
    'ids': 'the id a save operation returns is that of the record it wrote',
    'lookup-by-arguments': 'a call is found exactly by its function and equal arguments, with its own id and result',
    'stores-arguments-and-result': 'the record written for a call holds its arguments and result',
    'stored': 'discovered files are stored under their call in their role',
    'found-again': 'discovered files are found where they were stored',
    'exact': 'tables tell any two names, and any two pairs of ids, apart, and keep texts as they are',
    'names': 'every engine name offered is accepted and has a default state file',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    prog = ck.prog
    cs = [c for c in prog.subclasses(BE, proper=True)]
    ck.require('complete', 'engines', len(cs) >= 3,
               'only %d storage engines' % len(cs), '')
    complete(ck, cs)
    shape(ck, cs)
    store.roundtrip(ck, 'same-role')
    missing(ck, cs)
    ids(ck, cs)
    c06.lookup(ck, 'lookup-by-arguments')
    c06.stores(ck)
    for c in cs:
        c04.stored(ck, c)
        exact(ck, c)
    names(ck)
    for k in T:
        ck.at_least(k, 1)


FUZZY = re.compile(r'(?i)\b(like|glob|regexp|match|soundex|lower|upper|trim|'
                   r'collate\s+(nocase|rtrim))\b')


def exact(ck, c):
    """How the tables compare and keep what is put into them."""
    from .c07 import statements
    own = [m for b in c.mro() for m in getattr(b, 'methods', {}).values()]
    tabs, seen, keys = {}, 0, set()
    for m in own:
        for st, x in statements(ck.prog, m):
            seen += 1
            w = FUZZY.search(st.text)
            ck.require('exact', '%s: compares' % m.qual, not w,
                       'the table is searched or defined with %s: names that '
                       'differ would be the same' % (w and w.group(0)),
                       where(m, x))
            tabs.update((n, (d, m, x)) for n, d in sql.schema([st]).items())
            for s in (st, *st.unions, *([st.query] if st.query else ())):
                keys |= {a.split('.')[-1].lower() for a, op, v in s.where
                         if op == '='}
    for n, (d, m, x) in sorted(tabs.items()):
        fks = {col for col, ref, rc, act in d['fks']}
        for u in d['unique']:
            u = {y.split('.')[-1] for y in u}
            ck.require('exact', '%s: %s(%s)' % (c.qual, n, ','.join(sorted(
                u))), not u & fks and u & keys or len(fks) > 1 and fks <= u or
                not u & fks and n in str(u) or bool(
                    u & ids_of(tabs, n)),
                'at most one record of %s is kept for each %s' % (
                    n, ', '.join(sorted(u))), where(m, x))
        for col, decl in d['cols'].items():
            ty = ' '.join(decl[:1])
            text = any(w in col for w in ('name', 'digest', 'dependents'))
            ck.require('exact', '%s: %s.%s' % (c.qual, n, col),
                       not text or not re.match(
                           r'int|num|real|float|doub|dec|bool|date', ty),
                       'the column %s of %s turns texts that look like '
                       'numbers into numbers' % (col, n), where(m, x))
    if not seen:
        ck.require('exact', '%s: no tables' % c.qual, True, '', '')


def ids_of(tabs, n):
    """The columns that number the records of a table."""
    return {rc for d, m, x in tabs.values() for col, ref, rc, act in d['fks']
            if ref == n} | ({'id'} & set(tabs[n][0]['cols']))


def left_open(m):
    """the method only raises NotImplementedError"""
    body = [x for x in m.node.body if not (
        isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and \
        'NotImplementedError' in ast.dump(body[0])


def open_ops(prog):
    return {n: m for n, m in prog.require_class(BE).methods.items()
            if left_open(m)}


def complete(ck, cs):
    rule = 'complete'
    prog = ck.prog
    ops = open_ops(prog)
    ck.require(rule, BE, len(ops) >= 10, 'only %d operations are left to the '
               'engines' % len(ops), '')
    for c in cs:
        for n, b in ops.items():
            m = c.find_method(n)
            ok = m is not None and not left_open(m)
            ck.require(rule, '%s.%s' % (c.qual, n), ok,
                       'the engine lacks the operation', where(m or b))
            if ok and n not in ('_connect', 'close'):
                signature(ck, rule, c, b, m)
        # what an engine overrides of the rest must stay callable, too
        for k in c.mro():
            for n, m in getattr(k, 'methods', {}).items():
                b = prog.require_class(BE).methods.get(n)
                if b is not None and k.qual != BE and n not in ops and \
                        not n.startswith('__'):
                    signature(ck, rule, c, b, m)


def signature(ck, rule, c, b, m):
    x, y = b.node.args, m.node.args
    need = len(y.posonlyargs + y.args) - len(y.defaults)
    has = len(y.posonlyargs + y.args)
    want = len(x.posonlyargs + x.args)
    least = want - len(x.defaults)
    ok = (need <= least and (has >= want or y.vararg is not None) and
          not [k for k, d in zip(y.kwonlyargs, y.kw_defaults) if d is None])
    if x.vararg is None and has != want and y.vararg is None:
        ok = ok and has > want and len(y.defaults) >= has - want
    ck.require(rule, '%s.%s: parameters' % (c.qual, m.name), ok,
               'cannot be called with the arguments of %s' % b.qual,
               where(m))


def arities(prog):
    """operation -> length of the tuple its callers unpack"""
    out = {}
    for fi in prog.functions.values():
        if fi.cls is None or not any(b.qual == BE for b in fi.cls.mro()):
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) \
                    and isinstance(x.value.func, ast.Attribute) and \
                    isinstance(x.value.func.value, ast.Name) and \
                    x.value.func.value.id == 'self' and \
                    isinstance(x.targets[0], ast.Tuple):
                out.setdefault(x.value.func.attr, set()).add(
                    len(x.targets[0].elts))
    return out


def shape(ck, cs):
    rule = 'shape'
    ar = arities(ck.prog)
    ops = open_ops(ck.prog)
    for n in sorted(ops):
        if n not in ar:
            continue
        for c in cs:
            m = c.find_method(n)
            if m is None or left_open(m):
                continue
            ck.require(rule, '%s: callers' % n, len(ar[n]) == 1,
                       'unpacked into %s values' % sorted(ar[n]), where(m))
            r = run_method(ck, c, m)
            for s, t in r.returns:
                for y in alts(t):
                    ok = y[0] == 'tuple' and len(y) - 1 in ar[n] or \
                        y[0] in ('item', 'call') and row_of(y, ar[n])
                    ck.require(rule, '%s.%s' % (c.qual, n), ok,
                               'answers %s where %s values are unpacked' % (
                                   show(y)[:60], sorted(ar[n])), where(m))
    for n in sorted(ops):
        if n in ar or n in ('_connect', 'close'):
            continue
        for c in cs:
            m = c.find_method(n)
            if m is None or left_open(m):
                continue
            r = run_method(ck, c, m)
            for s, t in r.returns:
                for y in alts(t):
                    k = kind(n, y, s)
                    ck.require(rule, '%s.%s' % (c.qual, n), k,
                               'answers %s' % show(y)[:60], where(m))


def row_of(y, n):
    """a whole row of a query with that many columns"""
    for q in subterms(y):
        if isinstance(q, tuple) and q and q[0] == 'call':
            ss = sql_of(q) if tail(q[1]) == 'execute' else None
            if ss and len(ss) == 1 and ss[0].kind == 'select':
                return len(ss[0].cols) in n
    return True     # a stored tuple


def kind(n, y, s):
    """scalar operations: sets of names, lists of names, truth values, ids"""
    if n.startswith('find_external'):
        return setlike(y, s)
    if n in ('find_callers',):
        return y[0] in ('list', 'tuple', 'new', 'comp', 'set') or (
            y[0] == 'call' and tail(y[1]) in (
                'list', 'tuple', 'set', 'frozenset', 'sorted'))
    if n.startswith('delete_'):
        return y[0] in ('const', 'cmp', 'call', 'bin', 'any', 'attr',
                        'not') and y != NONE and not setlike(y, s)
    if n.startswith('find_'):
        return y[0] != 'tuple'
    return True


def setlike(y, s):
    if y[0] == 'phi':
        return all(setlike(x, s) for x in y[1])
    if y[0] in ('set',):
        return True
    if y[0] == 'call' and (tail(y[1]) in ('frozenset', 'set', 'union')):
        return True
    if y[0] == 'comp' and y[1] in ('set', 'SetComp'):
        return True
    if y[0] == 'new':
        return y[1] in ('set', 'frozenset')
    if y[0] == 'call' and tail(y[1]) == 'get':
        return True
    return y[0] in ('item',) and store.mem_path(y) is not None


ROLES = (('find_function', 'digest', 1), ('find_file', 'digest', 2),
         ('find_file', 'mtime', 1))


def missing(ck, cs):
    """All parts of an answer are found, or none is."""
    rule = 'not-found'
    for c in cs:
        m = c.find_method('find_call')
        if m is not None and not left_open(m):
            r = run_method(ck, c, m)
            for s, t in r.returns:
                if t[0] == 'tuple' and len(t) > 1 and \
                        s.holds(t[1]) is not False:
                    ck.require(rule, '%s.find_call: every record' % c.qual,
                               not first_only(s, param(m, 1)),
                               'a call is "not found" after a record of '
                               'another one, without looking at the others',
                               where(m))
        for n, parts in (('find_function', (0, 1)), ('find_file', (1, 2)),
                         ('find_call_file', None)):
            m = c.find_method(n)
            if m is None or left_open(m):
                continue
            r = run_method(ck, c, m)
            both = set()
            for s, t in r.returns:
                vals = [t] if parts is None else \
                    [t[1 + i] for i in parts] if t[0] == 'tuple' and \
                    len(t) > 1 + max(parts) else None
                if vals is None:
                    both |= {True}
                    continue
                if all(defaulted(x) for x in vals):
                    both |= {True, False}
                    continue
                gone = [x == NONE or s.holds(('cmp', 'Is', x, NONE)) is True
                        for x in vals]
                ck.require(rule, '%s.%s' % (c.qual, n),
                           all(gone) or not any(gone),
                           'a path answers (%s)' % ', '.join(
                               show(x)[:40] for x in vals), where(m))
                both.add(any(gone))
                if any(gone):
                    ck.require(rule, '%s.%s: nothing stored' % (c.qual, n),
                               nothing(s), 'a path answers "not found" '
                               'without having found nothing', where(m))
            ck.require(rule, '%s.%s: both' % (c.qual, n),
                       both >= {True} if parts is None else True in both,
                       'never answers "not found"', where(m))


def first_only(s, bound):
    """a record that is not the call's own has been enough to give up"""
    return any(f[0] == 'cmp' and f[1] == 'Eq' and not p and any(
        x == bound and any(z[0] == 'elem' for z in subterms(y)
                           if isinstance(z, tuple) and z)
        for x, y in ((f[2], f[3]), (f[3], f[2]))) for f, p in s.facts)


def defaulted(x):
    """part of table.get(key, (None, ...))"""
    i = None
    if x[0] == 'item' and x[2][0] == 'const':
        i, x = x[2][2], x[1]
    if x[0] != 'call' or tail(x[1]) != 'get' or \
            store.mem_path(x[2] or ANY) is None:
        return False
    d = x[3][1] if len(x[3]) > 1 else NONE
    return d == NONE if i is None else (
        d[0] == 'tuple' and i + 1 < len(d) and d[i + 1] == NONE)


def nothing(s):
    """the path looked and found nothing: no row, no key"""
    if True in emptiness(s, lambda f: query_of(f) is not None):
        return True
    for f, p in s.facts:
        if f[0] == 'cmp' and f[1] == 'In' and not p and \
                store.mem_path(f[3]) is not None:
            return True
        if f[0] == 'cmp' and f[1] == 'Is' and p and f[3] == NONE:
            return True
    return any(e[0] == 'try' for e in s.may) or s.ts.get('caught') or \
        no_success(s)


def no_success(s):
    # reading a key that is not there leaves by the handler; the engine keeps
    # no event for a plain subscript, so the absence of a query is enough
    return not any(sql_of(e) for e in s.must if e[0] != 'try')


def ids(ck, cs):
    rule = 'ids'
    for c in cs:
        for n, idp in (('save_function', 0), ('save_call', 0),
                       ('save_file', 0)):
            m = c.find_method(n)
            if m is None or left_open(m):
                continue
            r = run_method(ck, c, m, LenPolicy())
            own = param(m, idp)
            for s, t in r.returns:
                for y in alts(t):
                    ck.require(rule, '%s.%s' % (c.qual, n),
                               names_record(s, y, m, own),
                               'returns %s' % show(y)[:60], where(m))


class LenPolicy(SqlPolicy):
    """Remembers whether the length was taken before or after appending."""

    def on_event(self, state, name, recv, args, kwargs, node, it):
        super().on_event(state, name, recv, args, kwargs, node, it)
        if name == '.append':
            state.ts['appended'] = True
        elif name == 'builtins.len':
            state.ts['len'] = 'after' if state.ts.get('appended') else \
                'before'


def names_record(s, y, m, own):
    rows = [st for e in s.must for st in (sql_of(e) or ())]
    if rows:
        ins = [st for st in rows if st.kind == 'insert']
        up = [(e, st) for e in s.must for st in (sql_of(e) or ())
              if st.kind == 'update']
        if y[0] == 'attr' and y[2] == 'lastrowid':
            return bool(ins)
        if y == own:
            return not ins and all(
                any(isinstance(p, tuple) and p[0] == 'param' and
                    sql_param(e, p[1]) == own for p in st.eq().values())
                for e, st in up) and bool(up)
        return False
    # in memory: the key it was stored under
    key = None
    wrote = [e for e in s.must if e[0] in ('set.item', '.append') and
             e[1] is not None]
    if y[0] == 'tuple' and len(y) == 3:
        fun, i = y[1], y[2]
        top = [p for e in wrote if e[0] == 'set.item'
               for p in [store.mem_place(e, s)] if p]
        for e in wrote:
            p = store.mem_path(e[1])
            if p is None:
                # appended to a list that was fetched
                continue
            if not same_fun(p[1][0] if p[1] else
                            (e[2][0] if e[2] else ANY), fun):
                continue
            if e[0] == 'set.item' and p[1] and e[2][0] == i:
                return True
            if e[0] == '.append' and i[0] == 'bin' and i[1] == 'Sub' and \
                    i[3] == const(1) and is_len(i[2], e[1]) and \
                    s.ts.get('len') == 'after':
                return True
            if e[0] == '.append' and is_len(i, e[1]) and \
                    s.ts.get('len') == 'before':
                return True
            if e[0] == 'set.item' and not p[1]:
                # a new list with this call as its only element
                v = e[2][1]
                one = v[0] == 'list' and len(v) == 2 or (
                    v[0] == 'new' and len(s.coll.get(v, (0, (), ()))[2]) ==
                    1)
                if one and i == const(0):
                    return True
        return False
    for e in wrote:
        p = store.mem_place(e, s) if e[0] == 'set.item' else None
        if p and p[1] and p[1][-1] == y:
            return True
    return False


def same_fun(k, fun):
    return k == fun or both_names(k) and both_names(fun)


def both_names(k):
    return k == ('param', 'fun_id') or (
        k[0] == 'item' and k[1][0] == 'param' and k[2] == const(0))


def is_len(t, coll):
    return t[0] == 'call' and tail(t[1]) == 'len' and t[3] == (coll,)


# --- engine names ------------------------------------------------------------

def literal_names(prog, mod, node, depth=0):
    """strings of a constant collection, also by name"""
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
        v = [e.value for e in node.elts if isinstance(e, ast.Constant)]
        return v if len(v) == len(node.elts) else None
    if isinstance(node, ast.Dict):
        v = [e.value for e in node.keys if isinstance(e, ast.Constant)]
        return v if len(v) == len(node.keys) else None
    if isinstance(node, ast.Call) and node.args and isinstance(
            node.func, ast.Name) and node.func.id in ('tuple', 'list',
                                                      'sorted', 'set'):
        return literal_names(prog, mod, node.args[0], depth)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) \
            and node.func.attr == 'keys':
        return literal_names(prog, mod, node.func.value, depth)
    if isinstance(node, (ast.Name, ast.Attribute)) and depth < 3:
        name = node.id if isinstance(node, ast.Name) else node.attr
        mods = [mod] if isinstance(node, ast.Name) else []
        mods += [m for m in prog.modules.values() if m is not mod]
        for m in mods:
            for st in m.tree.body:
                if isinstance(st, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == name
                        for t in st.targets):
                    return literal_names(prog, m, st.value, depth + 1)
    return None


def names(ck):
    rule = 'names'
    prog = ck.prog
    mod = prog.require_module('fbuild.options')
    offered, node = None, None
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Call) and any(
                isinstance(a, ast.Constant) and a.value ==
                '--database-engine' for a in x.args):
            node = x
    ck.require(rule, 'fbuild.options', node is not None,
               'no option selects the storage engine', '')
    if node is None:
        return
    kw = {k.arg: k.value for k in node.keywords}
    if 'choices' in kw:
        offered = literal_names(prog, mod, kw['choices'])
    d = kw.get('default')
    if offered is None:
        ck.require(rule, 'fbuild.options: choices', False,
                   'any name is offered', '')
        return
    if isinstance(d, ast.Constant):
        ck.require(rule, 'default', d.value in offered,
                   'the default engine %r is not offered' % d.value, '')
    db = prog.require_class(DB)
    init = prog.require_method(DB, '__init__')
    used = {}
    for n in offered:
        it = Interp(prog, SqlPolicy())
        r = ck.explored(it.run(init, cls=db, args={'engine': const(n)}))
        made = set()
        for s, t in r.returns:
            b = s.heap.get((('self', DB), '_backend'), NONE)
            made.add(b[1] if b[0] == 'call' else None)
        ok = len(made) == 1 and None not in made and prog.classes.get(
            next(iter(made))) in list(prog.subclasses(BE, proper=True))
        ck.require(rule, 'engine %s' % n, ok and r.returns,
                   'selecting %r makes %s' % (n, sorted(map(str, made))),
                   where(init))
        if ok:
            used.setdefault(next(iter(made)), []).append(n)
    for q, ns in used.items():
        ck.require(rule, 'engine of ' + ', '.join(ns), len(ns) == 1,
                   '%s all select %s' % (', '.join(ns), q), where(init))
    cx = prog.require_module('fbuild.context')
    for fi in prog.functions.values():
        if fi.module is not cx:
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Subscript) and isinstance(
                    x.slice, ast.Attribute) and \
                    x.slice.attr == 'database_engine':
                ks = literal_names(prog, cx, x.value)
                ck.require(rule, fi.qual + ': state file',
                           ks is not None and set(offered) <= set(ks),
                           'no default state file for %s' % ', '.join(
                               sorted(set(offered) - set(ks or ()))),
                           where(fi, x))
