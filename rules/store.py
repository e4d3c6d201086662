"""What each storage engine writes and reads: the place (table and column, or
attribute and keys) every value of an operation goes to or comes from."""
from .common import *

# operation pairs: (save, roles of its parameters, find, roles of its
# parameters, roles of its result)
PAIRS = [
    ('save_function', ('id', 'name', 'digest', 'dependents'),
     'find_function', ('name',), ('id', 'digest', 'dependents')),
    ('save_call_file', ('call', 'file', 'digest'),
     'find_call_file', ('call', 'file'), 'digest'),
    ('save_file', ('id', 'name', 'mtime', 'digest'),
     'find_file', ('name',), ('id', 'mtime', 'digest')),
]


def rename(t, fi, roles):
    m = {('param', p): ('role', r) for p, r in zip(fi.params[1:], roles)}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in m:
            return m[x]
        return tuple(go(y) for y in x)
    return go(t)


def mem_path(t):
    """(attribute of the engine, keys) of a place in its tables."""
    keys = []
    while True:
        t = strip_copy(t)
        if t[0] == 'item':
            keys.append(t[2])
            t = t[1]
        elif t[0] == 'call' and tail(t[1]) in ('setdefault', 'get') and \
                t[2] is not None and t[3]:
            keys.append(t[3][0])
            t = t[2]
        elif t[0] == 'attr' and t[1][0] == 'self':
            return t[2], tuple(reversed(keys))
        elif t[0] == 'elem' and t[1][0] == 'call' and \
                tail(t[1][1]) == 'items' and t[1][2] is not None:
            # for k, v in table.items()
            keys.append(('each',))
            t = t[1][2]
        else:
            return None


def mem_place(e, s):
    """(attribute, keys) a set.item event writes to; a new dictionary that
    was put into a table is part of the table."""
    keys = [e[2][0]]
    recv = e[1]
    for _ in range(3):
        p = mem_path(recv)
        if p is not None:
            return p[0], p[1] + tuple(reversed(keys))
        for f in s.must:
            if f[0] == 'set.item' and len(f[2]) == 2 and f[2][1] == recv:
                keys.append(f[2][0])
                recv = f[1]
                break
        else:
            return None
    return None


def cuts(t):
    """Is this a text that is not split everywhere?"""
    return t[0] == 'call' and (
        tail(t[1]) in ('split', 'rsplit') and len(t[3]) + len(t[4]) > 1 and
        const(-1) not in t[3] or
        tail(t[1]) in ('partition', 'rpartition'))


def encode(t):
    """(transformation, value) of what is stored for a value."""
    how = []
    while True:
        u = strip_copy(t)
        if u != t:
            t = u
            continue
        if t[0] == 'call' and t[1] == '.join' and t[2] is not None and t[3]:
            how.append(('sep', t[2]))
            t = t[3][0]
        elif cuts(t) and t[2] is not None:
            how.append('cut only in places')
            t = t[2]
        elif t[0] == 'call' and t[1] == '.split' and t[2] is not None:
            how.append(('sep', t[3][0] if t[3] else NONE))
            t = t[2]
        elif undump(t) != t or unload(t) != t:
            how.append('pickle')
            t = undump(unload(t))
        elif t[0] == 'or' and len(t) == 3:
            t = t[1]
        else:
            return tuple(how), t


def writes(s, fi, roles):
    """[(place, key roles, {slot: (how, role term)}, statement)] certainly
    written on the path s."""
    out = []
    for e in s.must:
        if e[0] == 'try':
            continue
        for st in sql_of(e) or ():
            if st.kind not in ('insert', 'update'):
                continue
            v = {}
            for k, p in st.sets.items():
                if isinstance(p, tuple) and p[0] == 'param':
                    x = sql_param(e, p[1])
                    v[k] = encode(rename(x, fi, roles)) if x else ((), ANY)
                else:
                    v[k] = ((), ANY)
            keys = {}
            for k, p in st.eq().items():
                if isinstance(p, tuple) and p[0] == 'param':
                    keys[k] = rename(sql_param(e, p[1]) or ANY, fi, roles)
            out.append((st.table, keys, v, st))
        if e[0] == 'set.item' and e[1] is not None and len(e[2]) == 2:
            p = mem_place(e, s)
            if p is None:
                continue
            val = e[2][1]
            v = {}
            if val[0] in ('tuple', 'list'):
                for i, x in enumerate(val[1:]):
                    v[i] = encode(rename(x, fi, roles))
            else:
                v[None] = encode(rename(val, fi, roles))
            out.append((p[0], tuple(rename(k, fi, roles) for k in p[1]), v,
                        None))
    return out


def read(t, fi, roles):
    """(how, place, keys, slot) of a value that comes from the tables."""
    how, t = encode(t)
    rc = row_column(t)
    if rc is not None:
        q, st, col, row = rc
        keys = {}
        for k, p in st.eq().items():
            if isinstance(p, tuple) and p[0] == 'param':
                keys[k] = rename(sql_param(q, p[1]) or ANY, fi, roles)
        return how, st.table, keys, col, st
    p = mem_path(t)
    if p is None:
        return None
    return how, p[0], tuple(rename(k, fi, roles) for k in p[1]), 'mem', None


def is_missing(t, s):
    """The answer for "no such record"."""
    x = strip_copy(t)
    return x == NONE or (x[0] in ('tuple', 'list', 'set', 'dict', 'comp')
                         and len(x) == 1) or (
        x[0] == 'call' and x[1] in ('builtins.frozenset', 'builtins.set',
                                    'builtins.tuple', 'builtins.list',
                                    'builtins.dict') and not x[3]) or (
        x[0] == 'new' and s.holds(x) is False)


def roundtrip(ck, rule, pairs=None):
    """What find returns in a role is what save stored in that role, under
    the keys save used."""
    for c in ck.prog.subclasses(BE, proper=True):
        for save, sr, find, fr, res in PAIRS:
            if pairs and save not in pairs:
                continue
            sv, fd = c.find_method(save), c.find_method(find)
            if sv is None or fd is None or sv.cls.qual == BE or \
                    fd.cls.qual == BE:
                ck.require(rule, '%s.%s/%s' % (c.qual, save, find), False,
                           'the engine lacks the operation',
                           where(sv or fd or ck.prog.require_method(
                               BE, save)))
                continue
            pair(ck, rule, c, sv, sr, fd, fr, res)


def pair(ck, rule, c, sv, sr, fd, fr, res):
    place = {}          # role -> set of (table, slot, how)
    keyed = {}          # table -> set of keys it is stored under
    r = run_method(ck, c, sv)
    want = [x for x in sr if x in (res if isinstance(res, tuple)
                                   else (res,)) and x != 'id']
    for s, t in r.returns:
        ws = writes(s, sv, sr)
        got = set()
        for table, keys, v, st in ws:
            for slot, (how, x) in v.items():
                if x[0] == 'role':
                    place.setdefault(x[1], set()).add((table, slot, how))
                    got.add(x[1])
            if st is None:
                keyed.setdefault(table, set()).add(keys)
            elif st.kind == 'update':
                ok = any(k in ('id', 'name') for k in [
                    x[1] for x in keys.values() if x[0] == 'role'])
                ck.require(rule, sv.qual + ': which record', ok or not (
                    set(v) & set(k for k in v)), 'updates every record',
                    where(sv))
        for w in want:
            ck.require(rule, '%s: %s' % (sv.qual, w), w in got,
                       'a path does not store the %s it was given' % w,
                       where(sv))
    r = run_method(ck, c, fd)
    rs = res if isinstance(res, tuple) else (res,)
    seen = set()
    for s, t in r.returns:
        vals = list(t[1:]) if isinstance(res, tuple) and t[0] == 'tuple' \
            else [t]
        if len(vals) != len(rs):
            if is_missing(t, s):
                continue
            ck.require(rule, fd.qual, t[0] == 'call', 'returns %s' %
                       show(t)[:80], where(fd))
            continue
        for role, x in zip(rs, vals):
            if role == 'id' or is_missing(x, s):
                continue
            for y in alts(x):
                if is_missing(y, s):
                    continue
                g = read(y, fd, fr)
                if g is None:
                    ck.require(rule, '%s: %s' % (fd.qual, role), False,
                               'returns %s as the %s' % (show(y)[:60], role),
                               where(fd))
                    continue
                seen.add(role)
                how, table, keys, col, st = g
                ok = False
                why = 'returns %s as the %s' % (show(y)[:80], role)
                for tb, slot, h in place.get(role, ()):
                    if tb != table:
                        continue
                    if h != how:
                        why = 'the %s is stored as %s and read as %s' % (
                            role, hows(h), hows(how))
                        continue
                    if st is not None:
                        ok = ok or slot == col
                        continue
                    for ks in keyed.get(table, ()):
                        full = ks if slot is None else ks + (const(slot),)
                        ok = ok or tuple(map(idname, keys)) == tuple(
                            map(idname, full))
                ck.require(rule, '%s: %s' % (fd.qual, role), ok, why,
                           where(fd))
                if st is not None:
                    # found under what it was stored under
                    for k, v in keys.items():
                        if v[0] == 'role' and v[1] not in ('id',):
                            p = {(a, b) for a, b, h in
                                 place.get(v[1], ())}
                            ck.require(
                                rule, '%s: %s by %s' % (fd.qual, role, k),
                                (table, k) in p or not p,
                                'looks for the %s in column %s' % (v[1], k),
                                where(fd))
                    need = [x for x in fr if x != 'id']
                    have = {v[1] for v in keys.values() if v[0] == 'role'}
                    ck.require(rule, '%s: %s keys' % (fd.qual, role),
                               set(need) <= have and not st.disjunctive,
                               'finds the %s without comparing the %s' % (
                                   role, ', '.join(sorted(
                                       set(need) - have))), where(fd))
    for role in rs:
        if role != 'id':
            ck.require(rule, '%s: found %s' % (fd.qual, role), role in seen,
                       'never returns a stored %s' % role, where(fd))


def idname(k):
    """in the in-memory tables the id of a record is its name"""
    if k in (('role', 'id'), ('role', 'name')):
        return ('role', 'key')
    return k


def hows(h):
    return ', '.join(x if isinstance(x, str) else 'joined with %s' %
                     show(x[1]) for x in h) or 'it is'


def reduce_rows(row, E, conds):
    """A comprehension over another one is one over what that one is over."""
    from sa.interp import COPYING
    for _ in range(6):
        b = E
        while b[0] == 'call' and b[1] in COPYING and len(b[3]) == 1 and \
                b[3][0][0] == 'comp':
            b = b[3][0]
        if b[0] != 'comp':
            break
        row = subst(row, ('elem', E), b[2])
        conds = tuple(subst(c, ('elem', E), b[2]) for c in conds) + b[4]
        E = b[3]
    return row, E, conds


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(subst(x, old, new) for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, old, new) for x in t)
    return t


def data_rows(t, s, depth=0):
    """[(row, collection it is made for each element of, conditions)] of the
    rows handed to executemany."""
    from sa.interp import COPYING
    out = []
    u = t
    if depth > 4:
        return out
    while u[0] == 'call' and u[1] in COPYING and len(u[3]) == 1 and \
            u not in s.coll:
        u = u[3][0]
    if u[0] == 'comp':
        if u[2][0] == 'phi':
            return [reduce_rows(r, u[3], u[4] + (('cond',),))
                    for r in u[2][1]]
        return [reduce_rows(u[2], u[3], u[4])]
    for f, p in s.facts:
        if f[0] == 'forall' and p and f[2][0] == 'did' and \
                f[2][1][1] in (t, u) and tail(f[2][1][0]) in ('append',
                                                              'add') \
                and f[2][1][2]:
            out.append(reduce_rows(f[2][1][2][0], f[1], ()))
    if u[0] in ('tuple', 'list', 'set'):
        out += [(x, ('single', x), ()) for x in u[1:] if x[0] != 'star']
    return out


def row_writes(s, kinds=('insert',)):
    """[(statement, {column: value}, [keys], collection, conditions)] of every
    row certainly written on the path s; collection is None for one row."""
    out = []

    def one(st, row, E, conds):
        def val(p):
            if isinstance(p, tuple) and p[0] == 'param':
                return row[1 + p[1]] if row[0] in ('tuple', 'list') and \
                    p[1] + 1 < len(row) else ANY
            if hasattr(p, 'where'):
                ks = {k: val(v) for k, v in p.eq().items()}
                return ('select', p.table, tuple(p.cols),
                        tuple(sorted(ks.items())))
            return ANY
        v = {k: val(p) for k, p in st.sets.items()}
        out.append((st, v, {k: val(p) for k, p in st.eq().items()}, E,
                    conds))

    def event(e, E):
        for st in sql_of(e) or ():
            if st.kind not in kinds:
                continue
            d = e[2][1] if len(e[2]) > 1 else ('tuple',)
            if tail(e[0]) == 'executemany':
                for row, C, conds in data_rows(d, s):
                    one(st, row, C if E is None else E, conds)
            else:
                one(st, d, E, ())
    for e in s.must:
        if e[0] != 'try':
            event(e, None)
    for f, p in s.facts:
        if f[0] == 'forall' and p and f[2][0] == 'did':
            event(f[2][1], f[1])
    return out
