"""Every path of the operations that delete a function or a file is enumerated
in every storage engine.  In the dictionaries of the in-memory engines, each
table that holds something under the function (or file) must have lost that
entry, or been found without it, on every path; tables keyed by something else
must have lost it in every element of a complete loop.  In the SQL engine the
rows of each table that depends on a deleted row must go: by an explicit delete
of exactly those rows, or through a chain of ON DELETE CASCADE references that
is in force because every way to open the database turns foreign keys on.  The
answer must be true exactly on the paths that found something, and it is
followed through Database to the command line, which must raise exactly when it
was false."""
import ast

from .common import *
from .effects import mem_tables, operations, reach, statements, tables_of
from . import store
from sa import sql

T = {
    'function-forgotten': 'deleting a function removes every record kept for it and its calls',
    'file-forgotten': 'deleting a file removes every digest recorded for it',
    'cascade-in-force': 'the references that remove dependent rows are in force on every connection',
    'answer': 'the operation answers true exactly when there was something to delete',
    'passed-on': 'the request reaches the store with the name given and its answer comes back',
    'reported': 'the command line reports an error exactly when there was nothing to delete',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    n = 0
    for c in ck.prog.subclasses(BE):
        fm, xm = c.find_method('delete_function'), c.find_method('delete_file')
        if c.qual == BE:
            continue
        n += 1
        tabs = mem_tables(ck.prog, c)
        if tabs:
            memory(ck, c, tabs, fm, 'function')
            memory(ck, c, tabs, xm, 'file')
        else:
            relational(ck, c, fm, xm)
    ck.require('function-forgotten', 'engines', n >= 3,
               'only %d storage engines found' % n, '')
    through(ck)
    command(ck)
    for k in T:
        ck.at_least(k, 1)


class Exc(SqlPolicy):
    track_exc = True
    max_states = 400

    def may_raise(self, name, recv):
        return tail(name) in ('pop', 'remove') and super().may_raise(name,
                                                                    recv)


# --- tables in memory --------------------------------------------------------

def layout(ck, c, tabs):
    """table -> position of the function and of the file among its keys"""
    out = {}
    prog = ck.prog
    for name, cid in (('save_function', None), ('save_call', 'call_id'),
                      ('save_call_file', 'call_id'),
                      ('save_external_files', 'call_id'),
                      ('save_file', None)):
        m = c.find_method(name)
        r = Interp(prog, SqlPolicy()).run(m, cls=c)
        for o in r.obs:
            if o.name not in ('set.item', '.setdefault') or o.recv is None:
                continue
            e = (o.name, o.recv, o.args, o.kwargs)
            p = store.mem_place(e, o.state)
            if p is None or p[0] not in tabs:
                continue
            for i, k in enumerate(p[1]):
                if fun_key(k):
                    out.setdefault(p[0], {})['function'] = i
                elif k[0] == 'param' and k[1] in ('file_id', 'file_name'):
                    out.setdefault(p[0], {})['file'] = i
    return out


def fun_key(k):
    return k[0] == 'param' and k[1] in ('fun_name', 'fun_id') or (
        k[0] == 'item' and k[1] == ('param', 'call_id') and
        k[2] == const(0))


def memory(ck, c, tabs, m, what):
    rule = what + '-forgotten'
    lay = layout(ck, c, tabs)
    loc = where(m)
    key = ('param', m.params[1])
    r = ck.explored(Interp(ck.prog, Exc()).run(m, cls=c))
    if not r.returns:
        ck.require(rule, '%s: %s' % (c.qual, m.name), False, 'never returns',
                   loc)
    for t in sorted(tabs):
        pos = lay.get(t, {}).get(what)
        if pos is None:
            if what == 'function' and 'file' not in lay.get(t, {}):
                ck.require(rule, '%s: %s' % (c.qual, t), False, 'nothing is '
                           'ever stored in it under a function', loc)
            continue
        bad = [s for s, x in r.returns if not gone(s, t, pos, key)]
        ck.require(rule, '%s: %s' % (c.qual, t), not bad,
                   'a path leaves what %s holds for the %s' % (t, what), loc)
    for s, x in r.returns:
        found = [e for e in s.must if e[0] in ('del.item', '.pop') and
                 e[2] and e[2][0] == key and table_of(e[1]) in tabs and
                 (e[0] == 'del.item' or len(e[2]) == 1)] + [
            f for f, p in s.facts if p and f[0] == 'cmp' and f[1] == 'In' and
            f[2] == key and table_of(f[3]) in tabs]
        maybe = [e for e in s.may if e[0] in ('del.item', '.pop') and e[2] and
                 (table_of(e[1]) in tabs or e[2][0] == key)]
        vals = [y[2] for y in alts(x) if y[0] == 'const']
        odd = [y for y in alts(x) if y[0] != 'const']
        if odd:
            # an expression over what was found
            ck.require('answer', '%s: %s' % (c.qual, m.name), all(
                speaks_of(y, tabs, key, s) for y in odd),
                'answers %s' % show(x)[:60], loc)
            continue
        ck.require('answer', '%s: %s: found' % (c.qual, m.name),
                   not found or all(vals), 'a path that deleted something '
                   'answers that there was nothing', loc)
        ck.require('answer', '%s: %s: nothing' % (c.qual, m.name),
                   not any(vals) or found or maybe or not_empty(s, tabs, key),
                   'a path that deleted nothing answers that there was '
                   'something', loc)


def speaks_of(t, tabs, key, s):
    return any(
        y[0] == 'cmp' and y[1] == 'In' and y[2] == key and
        table_of(y[3]) in tabs or
        y[0] == 'call' and tail(y[1]) in ('pop', 'get') and y[3] and
        y[3][0] == key and table_of(y[2]) in tabs or
        y[0] == 'call' and tail(y[1]) == 'len'
        for y in subterms(t) if isinstance(y, tuple) and y and
        isinstance(y[0], str) and len(y) > 3) or t[0] == 'any'


def not_empty(s, tabs, key):
    return any(p and speaks_of(f, tabs, key, s) for f, p in s.facts
               if isinstance(f[0], str) and f[0] not in (
                   'forall', 'forall_none', 'disj')) or any(
        not p and f[0] == 'cmp' and f[1] in ('Is', 'Eq') and
        speaks_of(f, tabs, key, s) for f, p in s.facts)


def table_of(t):
    for y in subterms(t):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == 'attr' and \
                y[1][0] == 'self':
            return y[2]
    return None


def gone(s, t, pos, key):
    """On the path s, table t has nothing for the key at that level."""
    root = None
    for e in s.must:
        if e[0] == 'gone' and e[1] is not None and e[2][0] == key:
            p = store.mem_path(e[1])
            if pos == 0 and p == (t, ()):
                return True
    for f, pol in s.facts:
        if f[0] == 'cmp' and f[1] == 'In' and not pol and f[2] == key:
            p = store.mem_path(f[3])
            if pos == 0 and p == (t, ()):
                return True
    for e in s.must:
        if e[0] == 'set.attr' and e[2] and table_of_attr(e) == t and \
                filtered(e[2][-1], t, pos, key):
            return True
    if pos == 1:
        for f, pol in s.facts:
            if f[0] == 'forall_none' and of_table(f[1], t):
                return True
            if f[0] != 'forall' or not of_table(f[1], t):
                continue
            lit = f[2]
            E = f[1]
            if lit[0] == 'did' and lit[1][0] == 'gone' and \
                    lit[1][2][0] == key and value_of(lit[1][1], E, t):
                return True
            if lit[0] == 'cmp' and lit[1] == 'In' and lit[2] == key and \
                    f[3] is False and value_of(lit[3], E, t):
                return True
    return False


def table_of_attr(e):
    if e[1] is not None and e[1][0] == 'self' and e[2][0][0] == 'const':
        return e[2][0][2]
    return e[1][2] if e[1] is not None and e[1][0] == 'attr' and \
        len(e[1]) == 3 else None


def filtered(t, tab, pos, key):
    """a copy of the table without the key"""
    t = strip_copy(t)
    if t[0] != 'comp' or not of_table(t[3], tab) or pos != 0:
        return False
    return any(c[0] == 'cmp' and c[1] == 'NotEq' and key in c[2:] or
               c[0] == 'not' and c[1][0] == 'cmp' and c[1][1] == 'Eq' and
               key in c[1][2:] for c in t[4])


def of_table(E, t):
    """E runs over all of the table"""
    E = strip_copy(E)
    if E[0] == 'call' and tail(E[1]) in ('items', 'values', 'keys') and \
            E[2] is not None and not E[3]:
        E = strip_copy(E[2])
    return store.mem_path(E) == (t, ())


def value_of(x, E, t):
    """x is the value of the element of the table"""
    e = ('elem', E)
    kind = tail(strip_copy(E)[1]) if strip_copy(E)[0] == 'call' else 'keys'
    if kind == 'items':
        return x == ('item', e, const(1)) or keyed(x, t, ('item', e,
                                                          const(0)))
    if kind == 'values':
        return x == e
    return keyed(x, t, e)


def keyed(x, t, k):
    return x[0] == 'item' and x[2] == k and store.mem_path(x[1]) == (t, ())


# --- tables in the database --------------------------------------------------

def schema(ck, c):
    out = {}
    for b in c.mro():
        for m in getattr(b, 'methods', {}).values():
            for st, x in statements(ck.prog, m):
                out.update(sql.schema([st]))
    return out


def relational(ck, c, fm, xm):
    prog = ck.prog
    sch = schema(ck, c)
    own = {n: tables_of(prog, c, n) for n in (
        'save_function', 'save_call', 'save_file', 'save_call_file')}
    fk = {}
    for t, d in sch.items():
        for col, ref, rc, act in d['fks']:
            fk.setdefault(ref, []).append((t, col, rc, act))
    on = in_force(ck, c)

    def closure(tab):
        """tables whose rows go with those of tab: by cascade"""
        out, todo = set(), [tab]
        while todo:
            x = todo.pop()
            for t, col, rc, act in fk.get(x, ()):
                if act == 'cascade' and on and t not in out:
                    out.add(t)
                    todo.append(t)
        return out

    def dependent(tab):
        """tables that refer to tab, directly or not"""
        out, todo = set(), [tab]
        while todo:
            x = todo.pop()
            for t, col, rc, act in fk.get(x, ()):
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return out
    for m, saver, rule in ((fm, 'save_function', 'function-forgotten'),
                           (xm, 'save_file', 'file-forgotten')):
        loc = where(m)
        roots = own[saver]
        ck.require(rule, '%s: tables' % c.qual, len(roots) == 1,
                   '%s writes the tables %s' % (saver, sorted(roots)), loc)
        if len(roots) != 1:
            continue
        root = next(iter(roots))
        need = dependent(root)
        ck.require(rule, '%s: %s: dependents' % (c.qual, m.name),
                   own['save_call_file'] <= need and (
                       saver == 'save_file' or own['save_call'] <= need),
                   'the tables of calls do not refer to %s' % root, loc)
        key = ('param', m.params[1])
        r = ck.explored(Interp(prog, SqlPolicy()).run(m, cls=c))
        for s, x in r.returns:
            deletes(ck, rule, c, m, s, root, need, closure, key, sch, loc)
            answer(ck, c, m, s, x, root, key, loc)


def in_force(ck, c):
    """Every way to connect turns the references on."""
    rule = 'cascade-in-force'
    m = c.find_method('_connect')
    r = ck.explored(Interp(ck.prog, Setup()).run(m, cls=c))
    ok = bool(r.returns)
    for s, x in r.returns:
        on = False
        for e in s.must:
            for st in sql_of(e) or ():
                w = ' '.join(st.text.lower().replace('=', ' = ').replace(
                    '(', ' = ').replace(')', '').split())
                if w.startswith('pragma foreign_keys ='):
                    on = w.split('=')[1].strip() in ('on', '1', 'true', 'yes')
        ok = ok and on
    ck.require(rule, c.qual, ok, 'a path connects without turning the '
               'references between tables on', where(m))
    return ok


class Setup(SqlPolicy):
    def inline(self, fi):
        return fi.cls is not None and any(
            b.qual == BE for b in fi.cls.mro()) or super().inline(fi)


def names_row(w, key, s, want):
    """the column condition picks the rows of this name"""
    return w == key


def column_value(e, st, col):
    p = st.eq().get(col)
    if isinstance(p, tuple) and p[0] == 'param':
        return sql_param(e, p[1])
    return None


def deletes(ck, rule, c, m, s, root, need, closure, key, sch, loc):
    name = '%s: %s' % (c.qual, m.name)
    hit = {}
    for e in s.must:
        for st in sql_of(e) or ():
            if st.kind == 'delete':
                hit.setdefault(st.table, []).append((e, st))
    removed = False
    for e, st in hit.get(root, ()):
        cols = st.eq()
        if len(cols) != 1 or st.disjunctive:
            continue
        v = column_value(e, st, next(iter(cols)))
        removed = removed or v == key or from_lookup(v, root, key)
    if not removed:
        # nothing there
        absent = emptiness(s, lambda f: rows_of(f, root, key) or
                           from_lookup(f, root, key)) == {True}
        ck.require(rule, name + ': ' + root, absent, 'a path does not delete '
                   'the row of %s with that name, and has not found that '
                   'there is none' % root, loc)
        return
    ck.require(rule, name + ': ' + root, True, '', loc)
    covered = closure(root)
    for t in sorted(need):
        ok = t in covered
        why = 'rows of %s that belong to it stay' % t
        if not ok:
            for e, st in hit.get(t, ()):
                ok = ok or explicit(e, st, root, key, sch, s)
        ck.require(rule, '%s: %s' % (name, t), ok, why, loc)


def rows_of(t, root, key):
    """the rows a query of the table by that name found"""
    q = query_of(t)
    if q is None:
        return False
    ss = sql_of(q)
    if not ss or ss[0].kind != 'select':
        return False
    st, e = ss[0], q
    if root not in st.tables and root != st.table:
        return False
    return any(column_value(e, st, k) == key for k in st.eq())


def from_lookup(v, root, key):
    """an id read from the row of that name"""
    if v is None or v[0] != 'item':
        return False
    rc = row_column(v)
    if rc is None:
        return any(isinstance(y, tuple) and len(y) == 5 and y[0] == 'call' and
                   tail(y[1]) in ('find_function', 'find_file') and
                   y[3][:1] == (key,) for y in subterms(v))
    return any(rows_of(y, root, key) for y in subterms(v)
               if isinstance(y, tuple))


def explicit(e, st, root, key, sch, s):
    """an explicit delete of the rows that belong to the deleted one"""
    refs = {col: ref for col, ref, rc, act in sch[st.table]['fks']}
    for col in st.eq():
        v = column_value(e, st, col)
        if refs.get(col) == root and (v == key or
                                      from_lookup(v, root, key)):
            return True
    return False


def answer(ck, c, m, s, x, root, key, loc):
    name = '%s: %s' % (c.qual, m.name)
    for y in alts(x):
        if y[0] == 'const':
            got = emptiness(s, lambda f: rows_of(f, root, key) or
                            from_lookup(f, root, key))
            found, missing = got == {False}, got == {True}
            ck.require('answer', name, found if y[2] else missing,
                       'a path answers %s without having found that' % y[2],
                       loc)
            continue
        counts = any(isinstance(z, tuple) and len(z) == 3 and
                     z[0] == 'attr' and z[2] == 'rowcount'
                     for z in subterms(y))
        ok = counts and truth(y) and last_is_delete(m, root)
        if not counts:
            ok = any(rows_of(z, root, key) for z in subterms(y)
                     if isinstance(z, tuple))
        ck.require('answer', name, ok, 'answers %s' % show(y)[:60], loc)


def truth(y):
    """a test that the count is positive"""
    if y[0] == 'cmp':
        op, a, b = y[1:]
        if a[0] == 'const':
            a, b = b, a
            op = {'Gt': 'Lt', 'Lt': 'Gt', 'GtE': 'LtE',
                  'LtE': 'GtE'}.get(op, op)
        return b[0] == 'const' and (op, b[2]) in (
            ('Gt', 0), ('GtE', 1), ('NotEq', 0), ('Eq', 1))
    if y[0] == 'call' and tail(y[1]) == 'bool':
        return truth(y[3][0]) or y[3][0][0] == 'attr'
    return y[0] == 'attr'


def last_is_delete(m, root):
    """The statement before the count is read deletes from the table (the
    count belongs to the last statement)."""
    last = None
    for x in ast.walk(m.node):
        if isinstance(x, ast.Attribute) and x.attr == 'rowcount':
            last = x
    if last is None:
        return False
    best = None
    for x in ast.walk(m.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                x.func.attr in ('execute', 'executemany',
                                'executescript') and \
                (x.lineno, x.col_offset) < (last.lineno, last.col_offset):
            if best is None or (x.lineno, x.col_offset) > (best.lineno,
                                                           best.col_offset):
                best = x
    if best is None:
        return False
    for y in ast.walk(best.args[0] if best.args else best):
        if isinstance(y, ast.Constant) and isinstance(y.value, str):
            for st in sql.parse(y.value):
                return st.kind == 'delete' and st.table == root
    return True


# --- up to the command line --------------------------------------------------

def through(ck):
    rule = 'passed-on'
    d = ck.prog.require_class(DB)
    for name in ('delete_function', 'delete_file'):
        m = ck.prog.require_method(DB, name)
        pol = DbPolicy()
        pol.inline_rpc = ()
        r = ck.explored(Interp(ck.prog, pol).run(m, cls=d))
        key = ('param', m.params[1])
        for s, t in r.returns:
            ok = t[0] == 'call' and t[1] == 'rpc:' + name and \
                tuple(t[3]) + tuple(v for k, v in t[4]) == (key,)
            ck.require(rule, m.qual, ok, 'answers %s' % show(t)[:80],
                       where(m))
        ck.require(rule, m.qual + ': returns', r.returns, 'never returns',
                   where(m))


class MainPolicy(Policy):
    track_exc = True

    def may_raise(self, name, recv):
        return False


def command(ck):
    rule = 'reported'
    prog = ck.prog
    n = 0
    for fi in prog.functions.values():
        if not fi.module.name == 'fbuild.main':
            continue
        ops = {f.attr for f in ast.walk(fi.node)
               if isinstance(f, ast.Attribute) and
               f.attr in ('delete_function', 'delete_file') and
               isinstance(f.value, ast.Attribute) and f.value.attr == 'db'}
        for op in sorted(ops):
            n += 1
            one_command(ck, rule, fi, op)
    ck.require(rule, 'fbuild.main', n >= 2, 'the requests to delete are not '
               'made', '')


def one_command(ck, rule, fi, op):
    it = Interp(ck.prog, MainPolicy())
    r = ck.explored(it.run(fi))
    loc = where(fi)
    seen = set()
    for kind, outs in (('return', r.returns), ('raise', r.raises)):
        for s, t in outs:
            ev = [e for e in s.must if e[0] != 'try' and tail(e[0]) == op]
            if not ev:
                continue
            e = ev[0]
            given = e[2][0] if e[2] else ANY
            ck.require(rule, '%s: %s: name' % (fi.qual, op),
                       given[0] == 'attr' and given[2] == op,
                       'deletes %s' % show(given)[:60], loc)
            c = [f for f, p in s.facts if f[0] == 'call' and
                 tail(f[1]) == op]
            pol = {p for f, p in s.facts if f[0] == 'call' and
                   tail(f[1]) == op}
            seen |= {(kind, p) for p in pol}
            if kind == 'return':
                ck.require(rule, '%s: %s: success' % (fi.qual, op),
                           pol == {True}, 'a path ends as a success without '
                           'having found that something was deleted', loc)
                ck.require(rule, '%s: %s: value' % (fi.qual, op), all(
                    y in (NONE, const(0), FALSE) for y in alts(t)),
                    'ends with %s' % show(t)[:40], loc)
            else:
                ck.require(rule, '%s: %s: error' % (fi.qual, op),
                           pol == {False}, 'a path reports an error although '
                           'something was deleted', loc)
                ck.require(rule, '%s: %s: kind' % (fi.qual, op),
                           build_error(ck.prog, t), 'raises %s' %
                           show(t)[:60], loc)
    ck.require(rule, '%s: %s' % (fi.qual, op),
               ('return', True) in seen and ('raise', False) in seen,
               'the answer of the store makes no difference', loc)


def build_error(prog, t):
    """an error that ends the program with a message and a nonzero status"""
    return t[0] == 'exc' and isinstance(t[1], str) and (
        t[1] in ('builtins.SystemExit', 'fbuild.Error') or
        t[1] in prog.classes and any(
            b.qual == 'fbuild.Error' for b in prog.classes[t[1]].mro()
            if hasattr(b, 'qual')))
