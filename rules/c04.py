"""The walk over the running calls is checked to reach every frame of
Database.call and to update, under no other condition, the two local variables
that the same function hands to the store; on every path those variables are
fresh sets from before the run until they are saved.  Every path that answers a
nested call from the store passes its discovered files on.  The recording of
discovered files is followed into the tables of every engine (rows per
discovered file from the SQL text and the data given with it, or dictionary
writes) and matched with the lookups, the check of discovered sources is
enumerated including the path of a file that cannot be read, and the call graph
of the query is searched for anything that removes records."""
import ast

from .common import *
from .store import *

T = {
    'reaches-every-running-call': 'a reported file is added to the sets of every cached call in progress on the thread, whatever the iterable it comes in',
    'collected-then-saved': 'what was reported during the run is in fresh sets that are handed to the store together with the result',
    'passed-on': 'a call answered from the store reports its discovered files to the calls in progress',
    'saved-with-result': 'every path that records a result records the discovered files with it',
    'stored': 'an engine stores every discovered source and output of a call under that call, and a digest for every discovered source',
    'found-again': 'an engine finds the discovered files of a call where it stored them',
    'checked': 'every discovered source of a call is compared before the call is reused, and one that cannot be read counts as changed',
    'kept': 'looking for changes never removes the record that a call depends on a file',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('the interpreter hands out, as the local variables of a frame, '
              'the objects those variables hold')
    names = report(ck)
    collected(ck, names)
    passed_on(ck)
    with_result(ck)
    for c in ck.prog.subclasses(BE, proper=True):
        stored(ck, c)
    checked(ck)
    kept(ck)
    for k in T:
        ck.at_least(k, 1)


def elem_facts(s, elems=None):
    out = []
    for f, p in s.facts:
        if f[0] in ('forall', 'forall_none', 'disj'):
            continue
        es = [x for x in outer(f) if x[0] == 'elem']
        if not es or (elems and not any(e in elems for e in es)):
            continue
        if f[0] == 'cmp' and f[1] == 'Is' and f[3] == NONE and not p:
            continue
        if f[0] == 'call' and tail(f[1]) == 'isinstance' and p:
            continue
        out.append((f, p))
    return out


def outer(t):
    """subterms, but not those inside a comprehension"""
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, (tuple, frozenset)):
            continue
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
            if x[0] == 'comp':
                continue
        todo.extend(x)


# -- reporting ---------------------------------------------------------------

def report(ck):
    rule = 'reaches-every-running-call'
    m = ck.prog.require_method(DB, 'add_external_dependencies_to_call')
    c = ck.prog.require_class(DB)
    r = run_method(ck, c, m)
    loc = where(m)
    got = {}
    for o in r.obs:
        if o.recv is None or o.recv[0] != 'item' or \
                o.recv[1][0] != 'attr' or o.recv[1][2] != 'f_locals' or \
                o.recv[2][0] != 'const':
            continue
        if tail(o.name) not in ('update', 'aug.BitOr', 'BitOr'):
            ck.require(rule, m.qual + ': update', False,
                       'does %s with the set' % o.name, o.loc)
            continue
        key = o.recv[2][2]
        for p in ('srcs', 'dsts'):
            a = ('param', p)
            for arg in o.args:
                u = arg
                while u[0] == 'call' and len(u[3]) == 1 and u != a:
                    u = u[3][0]
                if u == a:
                    got[p] = key
                    ck.require(rule, '%s: %s materialised' % (m.qual, p),
                               arg != a, 'a generator is used up by the '
                               'first running call', o.loc)
        for f, p in o.state.facts:
            if f[0] in ('forall', 'forall_none', 'disj'):
                continue
            ok = (f[0] == 'cmp' and f[1] in ('Eq', 'Is') and p and
                  any(x[0] == 'attr' and x[2] == 'f_code' for x in f[2:])
                  and any(code_of_call(x) for x in f[2:])) or \
                (f[0] == 'cmp' and f[3] == NONE and not p) or \
                (f[0] == 'call' and tail(f[1]) == 'currentframe') or \
                (p and f[0] != 'cmp') or \
                (f in (('param', 'srcs'), ('param', 'dsts')) and p)
            ck.require(rule, m.qual + ': condition', ok,
                       'only adds the files if %s is %s' % (
                           show(f)[:80], p), o.loc)
        ck.require(rule, m.qual + ': running calls', any(
            f[0] == 'cmp' and f[1] in ('Eq', 'Is') and p and
            any(code_of_call(x) for x in f[2:])
            for f, p in o.state.facts),
            'does not look for the frames of Database.call', o.loc)
    for p in ('srcs', 'dsts'):
        ck.require(rule, '%s: %s' % (m.qual, p), p in got,
                   'the %s never reach a running call' % p, loc)
    ck.require(rule, m.qual + ': apart', len(set(got.values())) == len(got),
               'sources and outputs go to the same set', loc)
    # the loop visits every frame
    n = 0
    for fi in [ck.prog.functions[q] for q in r.interp.functions_seen
               if q in ck.prog.functions] or [m]:
        for loop in ast.walk(fi.node):
            if not isinstance(loop, ast.While):
                continue
            adv = [x for x in ast.walk(loop) if isinstance(x, ast.Attribute)
                   and x.attr == 'f_back']
            if not adv:
                continue
            n += 1
            top = [x for b in loop.body for x in ([b] if isinstance(
                b, (ast.Assign, ast.AnnAssign)) else [])
                if any(y in adv for y in ast.walk(x))] or any(
                y in adv for y in ast.walk(loop.test))
            ck.require(rule, fi.qual + ': next frame', top,
                       'some frame does not lead to the next one',
                       where(fi, loop))
            for x in ends(loop):
                ck.require(rule, fi.qual + ': all frames', False,
                           'the walk over the frames may end early',
                           where(fi, x))
    ck.require(rule, m.qual + ': walk', n, 'does not walk over the frames',
               loc)
    return got


def code_of_call(t):
    return t[0] == 'attr' and t[2] == '__code__' and any(
        isinstance(y, str) and (y == 'call' or y.endswith('Database.call'))
        for x in subterms(t) if isinstance(x, tuple) for y in x)


def ends(loop):
    """break/return/continue statements of a loop not under "no more"."""
    def none_test(t):
        return (isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)) or \
            (isinstance(t, ast.Compare) and len(t.ops) == 1 and
             isinstance(t.ops[0], ast.Is) and
             isinstance(t.comparators[0], ast.Constant) and
             t.comparators[0].value is None)
    out = []

    def walk(body, inner):
        for x in body:
            if isinstance(x, (ast.Break, ast.Continue)) and not inner:
                out.append(x)
            elif isinstance(x, ast.Return):
                out.append(x)
            elif isinstance(x, ast.If):
                if not none_test(x.test):
                    walk(x.body, inner)
                walk(x.orelse, inner)
            else:
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(x, f, None)
                    if isinstance(b, list):
                        walk(b, inner or isinstance(x, (ast.For, ast.While)))
                for h in getattr(x, 'handlers', ()):
                    walk(h.body, inner)
    walk(loop.body, False)
    return out


# -- collecting --------------------------------------------------------------

SHRINK = ('clear', 'discard', 'remove', 'pop', 'difference_update',
          'intersection_update', 'symmetric_difference_update')


def collected(ck, names):
    rule = 'collected-then-saved'
    fi, r = database_run(ck, None, inline_rpc=())
    m = ck.prog.require_method(BE, 'cache')
    top = ('top', fi.qual)
    for o in r.obs:
        u = user_call((o.name, o.recv, o.args, o.kwargs))
        if not u and o.name != 'rpc:cache':
            continue
        for p, role in (('srcs', 'external_srcs'),
                        ('dsts', 'external_dsts')):
            var = names.get(p)
            if var is None:
                continue
            t = o.state.env.get((top, var))
            if u:
                ck.require(rule, '%s: %s is fresh' % (fi.qual, var),
                           t is not None and (t[0] == 'new' or is_empty(t)),
                           'the function runs while %s is %s' % (
                               var, show(t)[:60] if t else 'unset'), o.loc)
                continue
            a = call_args(ck.prog, ('call', o.name, o.recv, o.args,
                                    o.kwargs), m.params[1:]).get(role, ANY)
            ck.require(rule, '%s: %s saved' % (fi.qual, role),
                       t is not None and strip_copy(a) == strip_copy(t) and
                       (t[0] == 'new' or is_empty(t)),
                       'hands %s to the store as the %s' % (
                           show(a)[:60], role), o.loc)
            for e in o.state.may:
                if e[0] != 'try' and e[1] == t and tail(e[0]) in SHRINK:
                    ck.require(rule, '%s: %s complete' % (fi.qual, role),
                               False, 'takes something out of %s before it '
                               'is saved' % var, o.loc)


def is_empty(t):
    return t[0] == 'call' and t[1] in ('builtins.set',) and not t[3]


def passed_on(ck):
    rule = 'passed-on'
    for eng in engines(ck.prog):
        fi, r = database_run(ck, eng)
        tag = '%s with %s' % (fi.qual, eng.rsplit('.', 1)[-1])
        for s, t in r.returns:
            if ran(s) != 'no':
                continue
            for p, find in (('srcs', 'find_external_srcs'),
                            ('dsts', 'find_external_dsts')):
                ok = refuted(s, lambda x: is_call_of(strip_copy(x), find))
                for e in s.must:
                    if tail(e[0]) == 'add_external_dependencies_to_call':
                        a = dict(e[3]).get(p)
                        ok = ok or a is not None and any(
                            is_call_of(x, find) for x in leaves(a, s))
                ck.require(rule, '%s: %s' % (tag, p), ok,
                           'a path answers from the store without reporting '
                           'the discovered %s to the running calls' % p,
                           where(fi))


def with_result(ck):
    rule = 'saved-with-result'
    for c, m in method_owners(ck.prog, 'cache', BE) + [
            (ck.prog.require_class(BE),
             ck.prog.require_method(BE, 'cache'))]:
        r = run_method(ck, c, m)
        loc = where(m)
        if m.cls.qual != BE:
            for s, t in r.returns:
                ck.require(rule, m.qual, any(
                    tail(e[0]) == 'cache' or
                    tail(e[0]) == 'save_external_files' for e in s.must),
                    'a path records nothing', loc)
            continue
        want = tuple(('param', p) for p in ('external_srcs',
                                            'external_dsts'))
        for s, t in r.returns:
            ok = False
            for e in s.must:
                if tail(e[0]) == 'save_external_files':
                    a = call_args(ck.prog, ('call',) + tuple(e[:4]),
                                  ('call_id', 'srcs', 'dsts'))
                    ok = ok or (
                        is_call_of(a.get('call_id', ANY), 'save_call') and
                        (strip_copy(a.get('srcs', ANY)),
                         strip_copy(a.get('dsts', ANY))) == want)
            ck.require(rule, m.qual, ok, 'a path records the result without '
                       'the discovered files', loc)


# -- the engines -------------------------------------------------------------

def file_of(x, e):
    """x is the id under which the store knows the file e."""
    if x[0] == 'select':
        return x[1] == 'file' and [c.lower() for c in x[2]][-1:] == [
            'file_id'] and x[3] == (('file_name', e),)
    for n, i in (('add_file', 1), ('find_file', 0), ('check_call_file', 1)):
        if part_of_call(x, n, i):
            return e in x[1][3]
    return is_call_of(x, 'save_file') and e in x[3]


def digest_now(x, e):
    return any(part_of_call(x, n, i) and e in x[1][3]
               for n, i in (('add_file', 3), ('check_call_file', 2)))


def base(E):
    return strip_copy(E)


def complete(s, coll):
    """The path went through all of coll (or it is empty)."""
    if s.holds(coll) is False:
        return True
    return any(f[0] in ('forall', 'forall_none') and base(f[1]) == coll
               for f, p in s.facts)


def only_dirty(conds, e=None):
    return all(part_of_call(x, 'check_call_file', 0) for x in conds)


def stored(ck, c):
    rule = 'stored'
    m = c.find_method('save_external_files')
    fs, fd = c.find_method('find_external_srcs'), \
        c.find_method('find_external_dsts')
    if BE in (m.cls.qual, fs.cls.qual, fd.cls.qual):
        ck.require(rule, c.qual, False, 'the engine lacks the operation',
                   where(m))
        return
    r = run_method(ck, c, m)
    call, srcs, dsts = param(m, 0), param(m, 1), param(m, 2)
    loc = where(m)
    placed = {}
    for s, t in r.returns:
        rows = row_writes(s, ('insert', 'insert-ignore', 'insert-abort'))
        for what, coll, f in (('sources', srcs, fs), ('outputs', dsts, fd)):
            ok = s.holds(coll) is False or any(
                x[0] == 'forall_none' and base(x[1]) == coll
                for x, p in s.facts)
            for st, v, keys, E, conds in rows:
                if E is None or base(E) != coll or conds:
                    continue
                e = [x for x in (('elem', E), ('elem', coll))
                     if any(mentions(y, x) for y in v.values())]
                if not e or st.table in ('file', 'callfile'):
                    continue
                if any(file_of(y, e[0]) or y == e[0] for y in v.values()) \
                        and call in v.values():
                    ok = True
                    placed.setdefault(what, set()).add((
                        st.table, frozenset(
                            k for k, y in v.items() if y == call),
                        frozenset(k for k, y in v.items() if y != call)))
            for ev in s.must:
                if ev[0] == 'set.item' and len(ev[2]) == 2:
                    p = mem_place(ev, s)
                    if p and strip_copy(ev[2][1]) == coll and key_of(
                            p[1], call):
                        ok = True
                        placed.setdefault(what, set()).add(p)
            ck.require(rule, '%s: %s of %s' % (m.qual, what, c.name), ok,
                       'a path does not store every discovered file of the '
                       'call', loc)
        # a digest for every discovered source
        ok = s.holds(srcs) is False or any(
            x[0] == 'forall_none' and base(x[1]) == srcs for x, p in s.facts)
        for row, E, conds in digest_rows(s, call):
            e = ('elem', E)
            if base(E) == srcs and only_dirty(conds) and \
                    file_of(row[0], e) and digest_now(row[1], e):
                ok = True
        if not ok and complete(s, srcs):
            # recorded inside the loop, possibly only if different
            for o in r.obs:
                for st, v, keys, E, conds in obs_rows(o):
                    es = [x for y in v.values() for x in subterms(y)
                          if isinstance(x, tuple) and x and x[0] == 'elem'
                          and base(x[1]) == srcs]
                    if es and st == 'callfile' and only_dirty(
                            [f for f, p in elem_facts(o.state)]) and \
                            call in v.values() and any(
                            file_of(y, es[0]) for y in v.values()) and any(
                            digest_now(y, es[0]) for y in v.values()):
                        ok = True
        ck.require(rule, '%s: digests of %s' % (m.qual, c.name), ok,
                   'a path does not record a digest for every discovered '
                   'source', loc)
    # what was stored for the call before goes in any case
    for s, t in r.returns:
        for what in sorted(placed):
            ok = False
            for pl in placed[what]:
                for ev in s.must:
                    if ev[0] == 'try':
                        continue
                    ok = ok or any(d.kind == 'delete' and d.table == pl[0]
                                   for d in sql_of(ev) or ())
                    if ev[0] in ('set.item', 'del.item') or \
                            tail(ev[0]) == 'pop':
                        p = mem_place(ev, s)
                        ok = ok or p is not None and p[0] == pl[0]
            ck.require(rule, '%s: replaces the %s' % (m.qual, what), ok,
                       'a path leaves the %s discovered by an earlier run '
                       'with the call' % what, loc)
    # and first
    for o in r.obs:
        for st in sql_of((o.name, o.recv, o.args)) or ():
            if st.kind == 'insert' and not st.replace and \
                    st.table.startswith('external'):
                gone = any(
                    d.kind == 'delete' and d.table == st.table and
                    sorted(d.eq()) == ['call_id']
                    for ev in o.state.must if ev[0] != 'try'
                    for d in sql_of(ev) or ())
                ck.require(rule, '%s: replaces %s' % (m.qual, st.table),
                           gone, 'adds to the files discovered by an '
                           'earlier run', o.loc)
            if st.kind == 'delete' and st.table.startswith('external'):
                late = any(
                    d.kind.startswith('insert') and d.table == st.table
                    for ev in o.state.may if ev[0] != 'try'
                    for d in sql_of(ev) or ())
                eq = st.eq()
                ck.require(rule, '%s: deletes from %s' % (
                    m.qual, st.table), not late and
                    list(eq) == ['call_id'] and sql_param(
                        (o.name, o.recv, o.args), 0) == call,
                    'removes files just discovered or those of another call',
                    o.loc)
    for what, f in (('sources', fs), ('outputs', fd)):
        found(ck, c, f, what, placed.get(what, set()), call)


def key_of(keys, call):
    """the keys of an in-memory table name the call"""
    ks = [k for k in keys]
    parts = [('item', call, const(0)), ('item', call, const(1))]
    return ks == parts or ks == [call]


def digest_rows(s, call):
    """[((file id, digest), collection, conditions)] recorded for the call"""
    out = []
    for st, v, keys, E, conds in row_writes(s, ('insert',)):
        if st.table == 'callfile' and E is not None and \
                v.get('call_id') == call:
            out.append(((v.get('file_id', ANY), v.get('file_digest', ANY)),
                        E, conds))
    for e in s.must:
        if tail(e[0]) == 'save_call_files' and len(e[2]) == 2 and \
                e[2][0] == call:
            for row, E, conds in data_rows(e[2][1], s):
                if row[0] == 'tuple' and len(row) == 4:
                    out.append(((row[1], row[3]), E, conds))
    for f, p in s.facts:
        if f[0] == 'forall' and p and f[2][0] == 'did':
            e = f[2][1]
            if tail(e[0]) == 'save_call_file' and len(e[2]) == 3 and \
                    e[2][0] == call:
                out.append(((e[2][1], e[2][2]), f[1], ()))
    return out


def obs_rows(o):
    if tail(o.name) == 'save_call_file' and len(o.args) == 3:
        yield 'callfile', dict(enumerate(o.args)), {}, None, ()
    if tail(o.name) == 'execute':
        for st in sql_of((o.name, o.recv, o.args)) or ():
            if st.kind == 'insert':
                yield st.table, {k: sql_param((o.name, o.recv, o.args), p[1])
                                 or ANY for k, p in st.sets.items()
                                 if isinstance(p, tuple)}, {}, None, ()


def found(ck, c, f, what, placed, call):
    rule = 'found-again'
    r = run_method(ck, c, f)
    key = param(f, 0)
    loc = where(f)
    n = 0
    for s, t in r.returns:
        for a in alts(t):
            if is_missing(a, s):
                continue
            n += 1
            p = mem_path(a)
            if p is not None:
                ok = key_of(p[1], key) and any(
                    len(q) == 2 and q[0] == p[0] for q in placed)
                ck.require(rule, '%s: %s' % (f.qual, what), ok,
                           'returns %s' % show(a)[:80], loc)
                continue
            u = strip_copy(a)
            E = u
            elt = None
            if u[0] == 'comp' and not u[4]:
                elt, E = u[2], u[3]
            elif u[0] == 'new':
                for elt, E, _ in data_rows(u, s):
                    break
            q = query_of(E)
            ok = False
            for st in (sql_of(q) or () if q else ()):
                cols = [x.split('.')[-1].lower() for x in st.cols]
                tabs = [x.lower() for x in st.tables]
                eq = st.eq()
                ok = st.kind == 'select' and cols == ['file_name'] and \
                    'file' in tabs and not st.limit and \
                    not st.disjunctive and [
                        x.lower() for x in st.using] == ['file_id'] and \
                    list(eq) == ['call_id'] and \
                    sql_param(q, eq['call_id'][1]) == key and any(
                        len(pl) == 3 and pl[0] in tabs for pl in placed) \
                    and len(tabs) == 2 and (
                        elt is None or elt == ('item', ('elem', E),
                                               const(0)))
            ck.require(rule, '%s: %s' % (f.qual, what), ok,
                       'returns %s' % show(a)[:80], loc)
    ck.require(rule, '%s: some %s' % (f.qual, what), n,
               'never finds any', loc)


# -- the check before reuse --------------------------------------------------

def checked(ck):
    rule = 'checked'
    m = ck.prog.require_method(BE, 'check_external_files')
    r = run_method(ck, ck.prog.require_class(BE), m)
    call = param(m, 0)
    loc = where(m)
    for s, t in r.returns:
        if t[0] != 'tuple' or len(t) != 4:
            ck.require(rule, m.qual, False, 'returns %s' % show(t)[:80], loc)
            continue
        if s.holds(call) is False or s.holds(
                ('cmp', 'Is', call, NONE)) is True:
            continue
        for i, find in ((1, 'find_external_srcs'), (2, 'find_external_dsts')):
            x = strip_copy(t[i])
            ck.require(rule, '%s: %s' % (m.qual, find),
                       is_call_of(x, find) and x[3] == (call,) or
                       is_missing(x, s) and s.holds(x) is False,
                       'returns %s' % show(x)[:80], loc)
    looked = entry = gone = False
    for o in r.obs:
        if tail(o.name) == 'check_call_file' and len(o.args) == 2 and \
                o.args[0] == call and o.args[1][0] == 'elem' and \
                is_call_of(strip_copy(o.args[1][1]), 'find_external_srcs'):
            bad = [f for f, p in elem_facts(o.state)
                   if not exists_lit(f, True, o.args[1])]
            looked = looked or not bad
            ck.require(rule, m.qual + ': every source', not bad,
                       'compares a source only if %s' % '; '.join(
                           show(f)[:60] for f in bad), o.loc)
        if tail(o.name) in ('append', 'add') and o.args and \
                o.args[0][0] == 'tuple' and len(o.args[0]) == 4:
            a = o.args[0]
            ef = elem_facts(o.state)
            if part_of_call(a[1], 'check_call_file', 1) and \
                    part_of_call(a[3], 'check_call_file', 2):
                bad = [f for f, p in ef
                       if not (p and part_of_call(f, 'check_call_file', 0))
                       and not exists_lit(f, True, a[1][1][3][1])]
                entry = entry or not bad
                ck.require(rule, m.qual + ': changed', not bad,
                           'takes a changed source as changed only if %s' %
                           '; '.join(show(f)[:60] for f in bad), o.loc)
            elif a[2][0] == 'elem' or any(x[0] == 'elem' for x in a[1:]):
                bad = [f for f, p in ef if not (
                    not p and exists_lit(f, True, a[2]))]
                gone = gone or not bad
    ck.require(rule, m.qual + ': compared', looked,
               'does not compare every discovered source', loc)
    ck.require(rule, m.qual + ': reported', entry,
               'does not report the changed sources', loc)
    ck.require(rule, m.qual + ': gone', gone,
               'does not count a discovered source that cannot be read as '
               'changed', loc)
    for x in ast.walk(m.node):
        if isinstance(x, ast.Try):
            for h in x.handlers:
                ok = any(isinstance(y, ast.Raise) or (
                    isinstance(y, ast.Call) and isinstance(
                        y.func, ast.Attribute) and
                    y.func.attr in ('append', 'add', 'extend'))
                    for b in h.body for y in ast.walk(b)) or any(
                    isinstance(y, ast.Assign) for b in h.body
                    for y in ast.walk(b))
                ck.require(rule, m.qual + ': failure', ok, 'ignores a '
                           'discovered source that cannot be read',
                           where(m, h))
        if isinstance(x, ast.For) and any(
                isinstance(y, (ast.Break, ast.Return))
                for b in x.body for y in ast.walk(b)):
            # ending early is fine if what was found is dirty already
            for o in r.returns:
                pass
    # the answer of the query is the answer of the check
    q = ck.prog.require_method(BE, 'prepare')
    r = run_method(ck, ck.prog.require_class(BE), q)
    for s, t in r.returns:
        if t[0] != 'tuple':
            continue
        for i, x in enumerate(t[-3:]):
            cid = t[4] if len(t) == 10 else ANY
            ok = part_of_call(x, 'check_external_files', i) or (
                is_missing(x, s) and (
                    cid == NONE or s.holds(cid) is False or
                    s.holds(('cmp', 'Is', cid, NONE)) is True))
            ck.require(rule, '%s: %d' % (q.qual, i), ok,
                       'answers %s' % show(x)[:60], where(q))


# -- nothing is forgotten ----------------------------------------------------

def kept(ck):
    rule = 'kept'
    prog = ck.prog
    for c in prog.subclasses(BE, proper=True):
        fks = cascades(prog, c)
        for m, via in reach(prog, c, 'prepare'):
            for what, node in removals(prog, c, m, fks):
                ck.require(rule, '%s: %s' % (c.name, m.qual), False,
                           'looking for changes %s' % what, where(m, node))
            ck.require(rule, '%s: %s' % (c.name, m.qual), True)
        for m, via in reach(prog, c, 'save_external_files', 'save_call_files',
                            'save_call', 'save_function'):
            for what, node in removals(prog, c, m, fks, own=True):
                ck.require(rule, '%s: %s' % (c.name, m.qual), False,
                           'recording a call %s' % what, where(m, node))
            ck.require(rule, '%s: %s' % (c.name, m.qual), True)


def reach(prog, c, *starts):
    """Methods of the engine c reachable through self.x() / super().x()."""
    seen, todo, out = set(), [], []
    for s in starts:
        m = c.find_method(s)
        if m is not None:
            todo.append((m, s))
    while todo:
        m, via = todo.pop()
        if m.qual in seen:
            continue
        seen.add(m.qual)
        out.append((m, via))
        for x in ast.walk(m.node):
            if not isinstance(x, ast.Attribute):
                continue
            if isinstance(x.value, ast.Name) and x.value.id in ('self',
                                                                'cls'):
                n = c.find_method(x.attr)
                if n is not None:
                    todo.append((n, m.name))
            elif isinstance(x.value, ast.Call) and isinstance(
                    x.value.func, ast.Name) and x.value.func.id == 'super':
                for b in m.cls.mro()[1:]:
                    if x.attr in b.methods:
                        todo.append((b.methods[x.attr], m.name))
                        break
    return out


def strings(m):
    for x in ast.walk(m.node):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            yield x


def cascades(prog, c):
    """table -> tables that lose rows when one of its rows is removed"""
    from sa import sql
    fk = {}
    for b in c.mro():
        for m in getattr(b, 'methods', {}).values():
            for x in strings(m):
                if 'create' in x.value.lower() and 'table' in x.value.lower():
                    for t, d in sql.schema(sql.parse(x.value)).items():
                        for col, ref, rc, act in d['fks']:
                            if act == 'cascade':
                                fk.setdefault(ref, set()).add(t)
    return fk


def removals(prog, c, m, fks, own=False):
    from sa import sql
    DOC = ast.get_docstring(m.node, clean=False)
    for x in strings(m):
        if x.value == DOC or not x.value.strip():
            continue
        w = x.value.split()[0].lower()
        if w not in ('delete', 'insert', 'replace', 'update', 'drop'):
            continue
        for st in sql.parse(x.value):
            if st.kind == 'delete':
                if own and st.table.startswith('external') and \
                        list(st.eq()) == ['call_id']:
                    continue
                yield 'removes rows of %s' % st.table, x
            elif st.replace and fks.get(st.table):
                yield 'replaces rows of %s, which takes those of %s along' \
                    % (st.table, ', '.join(sorted(fks[st.table]))), x
            elif st.kind == 'other':
                yield 'does %s' % st.text[:60], x
    TABLES = ('_call_files', '_external_srcs', '_external_dsts',
              '_function_calls', '_functions')

    def table(n):
        for y in ast.walk(n):
            if isinstance(y, ast.Attribute) and y.attr in TABLES:
                return y.attr
        return None
    for x in ast.walk(m.node):
        if isinstance(x, ast.Delete):
            for t in x.targets:
                if table(t):
                    yield 'removes from %s' % table(t), x
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                x.func.attr in ('pop', 'popitem', 'clear') and \
                table(x.func.value):
            yield 'removes from %s' % table(x.func.value), x
        if isinstance(x, ast.Assign):
            for t in x.targets:
                for y in ast.walk(t):
                    if isinstance(y, ast.Attribute) and y.attr in TABLES and \
                            isinstance(y.ctx, ast.Store):
                        yield 'replaces %s' % y.attr, x
                if isinstance(t, ast.Subscript) and isinstance(
                        t.value, ast.Attribute) and t.value.attr in (
                        '_call_files', '_external_srcs', '_external_dsts'):
                    yield 'replaces all entries of %s' % t.value.attr, x
