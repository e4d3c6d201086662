"""Equality is followed from the arguments of a call to the comparison with
the stored ones: the normalisation and binding of arguments is checked to
carry every positional, keyword, defaulted and variadic value (each return
path of normalize_args and bind_args, each loop element), the comparison in
every storage engine is checked to be an equality between the whole bound
arguments and the stored ones of the same record, object equality is checked
on every path that answers "equal", and the function name to contain its
module, its own name and its class."""
import ast

from .common import *

T = {
    'lookup-by-arguments': 'a store lookup answers "found" only for a record of the same function whose bound arguments equal the given ones, with the id and result of that record',
    'stores-arguments-and-result': 'the record written for a call holds the bound arguments and the result of that call in the places the lookup reads them from',
    'leftover-arguments': 'normalize_args returns only when every positional and keyword argument has been put in its result (or raises)',
    'every-parameter-bound': 'bind_args puts the value of every positional, keyword-only and variadic parameter in the bound arguments',
    'object-equality': 'two persistent objects compare equal only if they are the same object, or have the same kind and agree on every attribute of both',
    'value-equality': 'libraries, executables and what a configuration found compare equal only if they have the same kind and agree on every attribute they are made with',
    'function-name': 'the name a function is remembered under contains its module and its own name, and its class if it is a method',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('values compare equal (==) only if the function treats them '
              'alike')
    lookup(ck, 'lookup-by-arguments')
    stores(ck)
    normalize(ck)
    bind(ck)
    equality(ck)
    values(ck)
    naming(ck)
    for k in T:
        ck.at_least(k, 1)


def role(t, fun_id):
    """What part of which stored call record a term is."""
    t = unload(t)
    rc = row_column(t)
    if rc is not None:
        q, s, col, row = rc
        if s.table != 'call' or s.unions:
            return None
        eq = s.eq()
        p = eq.get('fun_id')
        if not (isinstance(p, tuple) and p[0] == 'param' and
                sql_param(q, p[1]) == fun_id):
            return None
        return {'call_bound': 'bound', 'call_result': 'result',
                'call_id': 'id'}.get(col), row
    # in-memory table: self._function_calls[fun_id][i] = (bound, result)
    if t[0] == 'item' and t[2] in (const(0), const(1)):
        rec = t[1]
        tab = None
        if rec[0] == 'item' and rec[1][0] == 'elem' and \
                rec[2] == const(1) and \
                is_call_of(rec[1][1], 'enumerate'):
            tab = rec[1][1][3][0]
            row = rec[1]
        elif rec[0] == 'elem':
            tab = rec[1]
            row = rec
        elif rec[0] == 'item':
            tab = rec[1]
            row = rec
        if tab is not None and is_calls_table(tab, fun_id):
            return ('bound', 'result')[t[2][2]], row
        if rec[0] == 'elem' and t[2] == const(0) and \
                is_call_of(rec[1], 'enumerate') and \
                is_calls_table(rec[1][3][0], fun_id):
            return 'id', rec
    if t[0] == 'elem' and t[1][0] == 'call' and t[1][1] == 'builtins.range':
        return 'id', None
    return None


def is_calls_table(t, fun_id):
    t = strip_copy(t)
    if t[0] == 'item':
        return t[2] == fun_id and t[1][0] == 'attr' and \
            t[1][2] == '_function_calls'
    return t[0] == 'call' and tail(t[1]) in ('get', 'setdefault') and \
        t[3] and t[3][0] == fun_id and t[2] is not None and \
        t[2][0] == 'attr' and t[2][2] == '_function_calls'


def lookup(ck, rule):
    n = 0
    for c, m in method_owners(ck.prog, 'find_call'):
        r = run_method(ck, c, m)
        loc = where(m)
        fun_id, bound = param(m, 0), param(m, 1)
        hit = False
        for s, t in r.returns:
            if t[0] != 'tuple' or len(t) != 4:
                ck.require(rule, m.qual, False, 'does not answer (dirty, id, '
                           'result) but %s' % show(t)[:80], loc)
                continue
            d = s.holds(t[1])
            if d is True:
                continue
            hit = True
            cand = []
            for l, p in s.facts:
                if p and l[0] == 'cmp' and l[1] == 'Eq':
                    for x, y in ((l[2], l[3]), (l[3], l[2])):
                        if x == bound:
                            ro = role(y, fun_id)
                            if ro and ro[0] == 'bound':
                                cand.append(ro[1])
            ck.require(rule, m.qual + ': arguments compared', cand,
                       'answers "found" without having found the given '
                       'arguments equal to the stored ones of a call of this '
                       'function', loc)
            ro = role(t[3], fun_id)
            ck.require(rule, m.qual + ': result of the same record',
                       ro and ro[0] == 'result' and
                       (not cand or ro[1] in cand),
                       'answers with %s' % show(t[3])[:100], loc)
            i = t[2]
            if i[0] == 'tuple' and len(i) == 3:
                ok = i[1] == fun_id
                i = i[2]
            else:
                ok = True
            ro = role(i, fun_id)
            ck.require(rule, m.qual + ': id of the same record',
                       ok and ro and ro[0] == 'id' and
                       (not cand or ro[1] in cand or ro[1] is None),
                       'answers with the id %s' % show(t[2])[:100], loc)
        ck.require(rule, m.qual, True)
        n += 1
    if not n:
        ck.require(rule, 'find_call', False, 'no storage engine looks up a '
                   'call')


def stores(ck):
    rule = 'stores-arguments-and-result'
    for c, m in method_owners(ck.prog, 'save_call'):
        r = run_method(ck, c, m)
        bound, result = param(m, 2), param(m, 3)
        loc = where(m)
        for s, t in r.returns:
            wrote = False
            for e in s.must:
                ss = sql_of(e)
                for st in ss or ():
                    if st.table != 'call' or st.kind not in ('insert',
                                                             'update'):
                        continue
                    v = {k: undump(sql_param(e, p[1]) or ANY)
                         for k, p in st.sets.items()
                         if isinstance(p, tuple)}
                    ok = v.get('call_result') == result and \
                        v.get('call_bound', bound) == bound
                    if st.kind == 'insert':
                        ok = ok and v.get('call_bound') == bound and \
                            v.get('fun_id') == param(m, 1)
                    else:
                        w = st.eq().get('call_id')
                        ok = ok and isinstance(w, tuple) and \
                            sql_param(e, w[1]) == param(m, 0)
                    wrote = wrote or ok
                    ck.require(rule, m.qual + ': ' + st.kind, ok,
                               'the record is written as %s' % st.text[:80],
                               loc)
                if e[0] in ('set.item', '.append', '.insert') and e[2]:
                    for a in e[2]:
                        for x in [a] + [
                                i[1] for i in (s.coll.get(a) or
                                               (0, (), ()))[2]]:
                            if x == ('tuple', bound, result):
                                wrote = True
                if e[0] in ('set.item',) and any(
                        a[0] in ('list',) and a[1:] == (
                            ('tuple', bound, result),) for a in e[2]):
                    wrote = True
            ck.require(rule, m.qual, wrote,
                       'a path does not record (arguments, result)', loc)


def spec_attr(t, name):
    """getfullargspec(...).name, possibly sliced"""
    while t[0] == 'item' and t[2][0] == 'slice':
        t = t[1]
    t = strip_copy(t)
    return t[0] == 'attr' and t[2] == name and t[1][0] == 'call' and \
        tail(t[1][1]) in ('getfullargspec',)


def normalize(ck):
    rule = 'leftover-arguments'
    fi = ck.prog.require_function('fbuild.functools.normalize_args')
    it = Interp(ck.prog, SqlPolicy())
    r = ck.explored(it.run(fi))
    loc = where(fi)
    A, K = ('param', fi.params[1]), ('param', fi.params[2])

    def kw(t):
        return strip_copy(t) == K or (
            t[0] == 'call' and t[1] == '.copy' and t[2] == K)

    for s, t in r.returns:
        empty = s.holds(A) is False and s.holds(K) is False
        if empty:
            continue
        if t[0] != 'tuple' or len(t) != 3:
            ck.require(rule, fi.qual, False, 'returns %s' % show(t)[:80], loc)
            continue
        # keyword arguments
        ok = False
        for e in s.must:
            if tail(e[0]) == 'update' and e[2] and kw(e[2][0]) and \
                    e[1] == t[2]:
                ok = True
        if t[2][0] == 'call' and kw(t[2]):
            ok = True
        for f, p in s.facts:
            if f[0] == 'forall' and f[2][0] == 'did':
                E, ev = f[1], f[2][1]
                if ev[0] == 'set.item' and ev[1] == t[2] and E[0] == 'call' \
                        and tail(E[1]) == 'items' and kw(E[2]) and \
                        ev[2] == (('item', ('elem', E), const(0)),
                                  ('item', ('elem', E), const(1))):
                    ok = True
                if ev[0] == 'set.item' and ev[1] == t[2] and kw(E) and \
                        ev[2][0] == ('elem', E):
                    ok = True
        c = s.coll.get(t[2])
        if c and any(i[0] == 'all' and kw(i[1]) for i in c[1]):
            ok = True
        ck.require(rule, fi.qual + ': keyword', ok,
                   'a path returns although keyword arguments that match no '
                   'parameter were neither kept nor refused', loc)
    positional(ck, rule, fi, r, A)
    # each parameter consumes its own argument
    loops = 0
    for o in r.obs:
        if tail(o.name) not in ('append',) or not o.args:
            continue
        if o.recv is None or o.recv[0] != 'new':
            continue
        a = o.args[0]
        es = [x for x in subterms(a) if isinstance(x, tuple) and
              x and x[0] == 'elem']
        ks = {('call', '.pop'), }
        ok = False
        if a[0] == 'item' and a[1] == A:
            ok = True
        elif a[0] == 'call' and tail(a[1]) in ('pop', 'get') and \
                a[2] is not None and kw(a[2]):
            ok = True
        elif a[0] == 'item' and kw(a[1]):
            ok = True
        elif mentions_spec(a, 'defaults'):
            ok = True
        elif a[0] == 'item' and o.state.coll.get(a[1], ' ')[0] == 'E':
            ok = True            # defaults or []: no such element
        if es or a[0] in ('item', 'call'):
            loops += 1
            ck.require(rule, fi.qual + ': each parameter', ok,
                       'binds a parameter to %s' % show(a)[:80], o.loc)
        if ok and mentions_spec(a, 'defaults'):
            # a default is used only when nothing was passed for it
            has = not any(
                f[0] == 'cmp' and p and f[1] == 'Lt' and
                f[3] == ('call', 'builtins.len', None, (A,), ())
                for f, p in o.state.facts)
            ck.require(rule, fi.qual + ': defaults', has,
                       'takes the default although an argument was given',
                       o.loc)


def spec_terms(r):
    out = set()
    for s, t in r.returns + r.raises:
        for f, p in s.facts:
            for x in subterms(f):
                if isinstance(x, tuple) and x and x[0] == 'call' and \
                        tail(x[1]) == 'getfullargspec':
                    out.add(x)
    return out


def given(spec, **attrs):
    """Literals: these attributes of the argument specification are set
    (True) or missing (False)."""
    out = set()
    for k, v in attrs.items():
        a = ('attr', spec, k)
        out |= {(('cmp', 'Is', a, NONE), not v), (a, v)}
    return out


class Assuming(SqlPolicy):
    def __init__(self, lits):
        super().__init__()
        self.lits = frozenset(lits)

    def known(self, t):
        return frozenset(l for l in self.lits if mentions(l[0], t))


def assuming(ck, fi, lits):
    st = State()
    st.facts = frozenset(st.facts) | frozenset(lits)
    it = Interp(ck.prog, Assuming(lits))
    return ck.explored(it.run(fi, state=st))


def positional(ck, rule, fi, r, A):
    la = ('call', 'builtins.len', None, (A,), ())
    loc = where(fi)
    took = False
    for o in r.obs:
        if tail(o.name) in ('extend', 'append') and o.args and \
                is_tail_of(o.args[0], A):
            took = True
        if o.name.startswith('aug') and any(is_tail_of(x, A)
                                            for x in o.args):
            took = True
    for s, t in r.returns:
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] == 'item' and \
                    is_tail_of(x, A):
                took = True
        c = s.coll.get(strip_copy(t[1])) if t[0] == 'tuple' and len(t) > 1 \
            else None
        if c and any(i[0] == 'all' and is_tail_of(i[1], A) for i in c[2]):
            took = True
    ck.require(rule, fi.qual + ': variadic', took,
               'positional arguments beyond the positional parameters are '
               'never put in the result', loc)
    for spec in spec_terms(r):
        lits = given(spec, varargs=False) | {(A, True)}
        args = ('attr', spec, 'args')
        for n in (args, ('item', args, ('slice', const(1), NONE, NONE))):
            ln = ('call', 'builtins.len', None, (n,), ())
            lits |= {(('cmp', 'Lt', ln, la), True),
                     (('cmp', 'LtE', la, ln), False)}
        r2 = assuming(ck, fi, lits)
        refuses = any(
            f[0] == 'cmp' and la in (f[2], f[3]) and p is not None and
            not any(isinstance(x, tuple) and x and x[0] in ('elem', 'phi')
                    for x in subterms(f)) and
            (f, p) not in lits
            for s, t in r2.raises for f, p in s.facts)
        ck.require(rule, fi.qual + ': positional',
                   refuses or not r2.returns,
                   'a function without variadic parameter is called although '
                   'more positional arguments than positional parameters '
                   'were given', loc)


def mentions_spec(t, name):
    return any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'attr' and
               x[2] == name and isinstance(x[1], tuple) and
               x[1][0] == 'call' and tail(x[1][1]) == 'getfullargspec'
               for x in subterms(t))


def is_tail_of(t, A):
    t = strip_copy(t)
    return t[0] == 'item' and strip_copy(t[1]) == A and t[2][0] == 'slice'


def bind(ck):
    rule = 'every-parameter-bound'
    fi = ck.prog.require_function('fbuild.functools.bind_args')
    it = Interp(ck.prog, SqlPolicy())
    r = ck.explored(it.run(fi))
    loc = where(fi)
    def na(t, i):
        return any(part_of_call(x, 'normalize_args', i)
                   for x in subterms(t))

    for spec in spec_terms(r):
        lits = given(spec, varargs=True, varkw=True)
        for s, t in assuming(ck, fi, lits).returns:
            c = s.coll.get(t)
            if not c:
                ck.require(rule, fi.qual, t[0] == 'call',
                           'returns %s' % show(t)[:80], loc)
                continue
            must = [i for i in c[1] if i[0] == 'kv']
            ok = {
                'varargs': any(spec_attr(k, 'varargs') and na(v, 0) and
                               whole_rest(v) for _, k, v in must),
                'varkw': any(spec_attr(k, 'varkw') and na(v, 1)
                             for _, k, v in must),
                'positional': every(s, c, t, 'args', lambda v: na(v, 0)),
                'kwonly': every(s, c, t, 'kwonlyargs', lambda v: na(v, 1)),
            }
            for k, v in ok.items():
                ck.require(rule, '%s: %s' % (fi.qual, k), v,
                           'a path leaves the %s arguments out of the bound '
                           'arguments' % k, loc)
    for o in r.obs:
        if o.name == 'set.item' and len(o.args) == 2 and \
                spec_key(o.args[0], 'args') and na(o.args[1], 0):
            v = o.args[1]
            paired = any(is_call_of(x, 'zip', 'enumerate') or x[0] == 'item'
                         for x in subterms(v) if isinstance(x, tuple) and x)
            z = [x for x in subterms(v) if isinstance(x, tuple) and x and
                 is_call_of(x, 'zip')]
            order = all(mentions_spec(x[3][0], 'args') or
                        not any(is_call_of(y, 'iter') for y in x[3])
                        for x in z if x[3])
            ck.require(rule, fi.qual + ': paired', paired,
                       'parameters are paired with %s' % show(v)[:80], o.loc)
            ck.require(rule, fi.qual + ': order', order,
                       'the arguments are taken from the iterator before it '
                       'is known that there is a parameter left: the first '
                       'variadic argument is lost', o.loc)
    # nothing leaves the bound arguments again but the inner function
    for o in r.obs:
        if tail(o.name) in ('pop', 'popitem', 'clear') or \
                o.name == 'del.item':
            key = o.args[0] if o.args else None
            inner = key == const('__FBUILD_INNER')
            kwonly = key is not None and spec_key(key, 'kwonlyargs')
            ck.require(rule, fi.qual + ': removal', inner or kwonly,
                       'removes %s from the arguments' %
                       (show(key) if key else 'something'), o.loc)


def every(s, c, t, name, value):
    """every element of spec.<name> has got its value in dictionary t"""
    for f, p in s.facts:
        if f[0] == 'forall_none' and loops_over(f[1], name):
            return True
        if f[0] == 'forall' and f[2][0] == 'did' and p and \
                loops_over(f[1], name):
            e = f[2][1]
            if e[0] == 'set.item' and e[1] == t and \
                    spec_key(e[2][0], name) and value(e[2][1]):
                return True
    # a comprehension or update with pairs
    return any(i[0] == 'all' and (mentions_spec(i[1], name) or value(i[1]))
               for i in c[1]) or any(
        i[0] == 'kv' and spec_key(i[1], name) and value(i[2]) and
        i[1][0] != 'elem' for i in c[1])


def loops_over(E, name):
    return mentions_spec(E, name)


def spec_key(t, name):
    """an element of getfullargspec(...).name"""
    if t[0] == 'elem':
        return spec_attr(t[1], name)
    if t[0] == 'item' and t[1][0] == 'elem' and \
            is_call_of(t[1][1], 'zip', 'enumerate'):
        return any(spec_attr(a, name) for a in t[1][1][3])
    return False


def whole_rest(t):
    """all that is left of an iterator, or a slice from the parameters on"""
    t = strip_copy(t)
    return not (t[0] == 'item' and t[2][0] == 'const' and
                not part_of_call(t, 'normalize_args', 0))


def absent(s, name):
    return any((f[0] == 'cmp' and f[1] == 'Is' and f[3] == NONE and p and
                spec_attr(f[2], name)) or (not p and spec_attr(f, name))
               for f, p in s.facts)


def equality(ck):
    rule = 'object-equality'
    prog = ck.prog
    for c in prog.subclasses('fbuild.db.PersistentObject'):
        m = c.methods.get('__eq__')
        if m is None or '<' in c.qual:
            continue
        it = Interp(prog, Policy())
        r = ck.explored(it.run(m, cls=c))
        me, other = ('self', c.qual), ('param', m.params[1])
        root = c.qual == 'fbuild.db.PersistentObject'
        for s, t in [(y, t) for s, t in r.returns
                     if t != ('global', 'builtins.NotImplemented')
                     for y in it.assume(t, True, s)]:
            if s.holds(('cmp', 'Is', me, other)) is True or \
                    s.holds(('cmp', 'Is', other, me)) is True:
                ck.require(rule, m.qual + ': identity', True)
                continue
            facts = s.facts
            ck.require(rule, m.qual + ': kind', same_kind(ck, facts, me, other),
                       'answers "equal" for objects of different kinds',
                       where(m))
            if not root:
                continue
            cover = set()
            for f, p in facts:
                if f[0] == 'cmp' and f[1] == 'Eq' and p:
                    a = {strip_copy(f[2]), strip_copy(f[3])}
                    if a == {dict_of(me), dict_of(other)} or \
                            a == {vars_of(me), vars_of(other)}:
                        cover |= {me, other}
                E = None
                if f[0] == 'forall' and p and f[2][0] == 'cmp' and \
                        f[2][1] == 'Eq' and f[3]:
                    E = f[1]
                    ab = {owner_of_attr(f[2][2], E),
                          owner_of_attr(f[2][3], E)}
                    if ab != {me, other}:
                        continue
                elif f[0] == 'forall_none':
                    E = f[1]
                if E is not None:
                    for l in leaves(E, s):
                        k = keys_of(l)
                        if k in (me, other):
                            cover.add(k)
            lens = any(f[0] == 'cmp' and f[1] == 'Eq' and p and
                       keys_len(f[2]) and keys_len(f[3]) and
                       {keys_len(f[2]), keys_len(f[3])} == {me, other}
                       for f, p in facts)
            if cover and lens:
                cover = {me, other}
            ck.require(rule, m.qual + ': attributes', cover >= {me, other},
                       'answers "equal" without comparing every attribute of '
                       'both objects', where(m))


def own_attributes(c):
    """The attributes a class gives its objects when they are made."""
    out = {}
    for n in ('__new__', '__init__'):
        m = c.methods.get(n)
        if m is None:
            continue
        me = {'self', m.params[0]} if n == '__init__' else {'self'} | {
            t.id for x in ast.walk(m.node) if isinstance(x, ast.Assign) and
            isinstance(x.value, ast.Call) and
            ast.unparse(x.value.func).endswith('__new__')
            for t in x.targets if isinstance(t, ast.Name)}
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Store) and isinstance(x.value, ast.Name) and \
                    x.value.id in me:
                out.setdefault(x.attr, m)
    return out


def values(ck):
    """Libraries, programs and what a configuration found out are arguments
    of calls, too."""
    rule = 'value-equality'
    prog = ck.prog
    kept = {c.qual for c in prog.subclasses('fbuild.db.PersistentObject')}
    whole = set()
    for q, c in sorted(prog.classes.items(),
                       key=lambda x: ('__eq__' not in x[1].methods, x[0])):
        if q in kept or '<' in q or any(
                'contribute_to_class' in b.methods for b in c.mro()):
            # what describes a field is never an argument
            continue
        m = c.methods.get('__eq__')
        above = [b for b in c.mro()[1:] if '__eq__' in b.methods]
        text = any(b.qual in ('fbuild.path.Path', 'builtins.str')
                   for b in c.mro()[1:])
        mine = own_attributes(c)
        if m is None:
            if above and above[0].qual in whole:
                # compares whatever attributes there are
                continue
            if (above or text) and mine:
                ck.require(rule, c.qual, False, 'objects with different %s '
                           'compare equal' % ', '.join(sorted(mine)),
                           where(next(iter(mine.values()))))
            continue
        r = ck.explored(Interp(prog, Policy()).run(m, cls=c))
        me, other = ('self', c.qual), ('param', m.params[1])
        need = set(mine)
        whole.add(q)
        for b in c.mro()[1:]:
            need |= set(own_attributes(b))
        n = 0
        for s, t in [(y, t) for s, t in r.returns
                     if t != ('global', 'builtins.NotImplemented')
                     for y in Interp(prog, Policy()).assume(t, True, s)]:
            n += 1
            if s.holds(('cmp', 'Is', me, other)) is True or \
                    s.holds(('cmp', 'Is', other, me)) is True:
                continue
            have = set()
            up = False
            for f, p in s.facts:
                if not p:
                    continue
                if f[0] == 'call' and tail(f[1]) == '__eq__':
                    up = True
                    b = above[0] if above else None
                    if b is not None:
                        for x in b.mro():
                            have |= set(own_attributes(x))
                if f[0] == 'cmp' and f[1] == 'Eq':
                    for a, b in zip(parts_eq(of_class(prog, c, f[2], me, other)),
                                    parts_eq(of_class(prog, c, f[3], me, other))):
                        if a[0] == b[0] == 'attr' and a[2] == b[2] and \
                                {a[1], b[1]} == {me, other}:
                            have.add(a[2])
                        if {a, b} in ({dict_of(me), dict_of(other)},
                                      {vars_of(me), vars_of(other)}):
                            have |= need | {'__dict__'}
            if '__dict__' not in have:
                whole.discard(q)
            ck.require(rule, m.qual + ': kind', same_kind(
                ck, s.facts, me, other) or up and above,
                'answers "equal" for objects of different kinds', where(m))
            ck.require(rule, m.qual + ': text', not text or up or any(
                p and f[0] == 'cmp' and f[1] == 'Eq' and
                {strip_str(f[2]), strip_str(f[3])} == {me, other}
                for f, p in s.facts),
                'answers "equal" for different paths', where(m))
            ck.require(rule, m.qual, need <= have,
                       'answers "equal" without comparing the %s' %
                       ', '.join(sorted(need - have)), where(m))
        ck.require(rule, m.qual + ': reachable', n, 'never answers "equal"',
                   where(m))


def strip_str(t):
    while t[0] == 'call' and t[1] == 'builtins.str' and len(t[3]) == 1:
        t = t[3][0]
    return t


def of_class(prog, c, t, me, other):
    """What a method or property of the class gives for one of the two."""
    t = strip_copy(t)
    if t[0] == 'call' and t[1].startswith('.') and t[2] in (me, other) and \
            not t[3] and not t[4]:
        obj, m = t[2], c.find_method(t[1][1:])
    elif t[0] == 'attr' and t[1] in (me, other):
        obj, m = t[1], c.find_method(t[2])
        if m is not None and not m.node.decorator_list:
            return t
    else:
        return t
    if m is None or len(m.params) != 1:
        return t
    got = {x for s, x in Interp(prog, Policy()).run(m, cls=c).returns}
    if len(got) != 1:
        return t
    return substitute(got.pop(), me, obj)


def parts_eq(t):
    t = strip_copy(t)
    if t[0] in ('tuple', 'list'):
        return [y for x in t[1:] for y in parts_eq(x)]
    return [t]


def dict_of(x):
    return ('attr', x, '__dict__')


def vars_of(x):
    return ('call', 'builtins.vars', None, (x,), ())


def keys_of(l):
    l = strip_copy(l)
    if l[0] == 'call' and tail(l[1]) in ('keys', 'items') and \
            l[2] is not None:
        l = l[2]
    if l[0] == 'attr' and l[2] == '__dict__':
        return l[1]
    if l[0] == 'call' and l[1] == 'builtins.vars' and l[3]:
        return l[3][0]
    return None


def keys_len(t):
    if t[0] == 'call' and t[1] == 'builtins.len':
        return keys_of(t[3][0])
    return keys_of(t)


def owner_of_attr(t, E):
    e = ('elem', E)
    keys = (e, ('item', e, const(0)))
    if t[0] == 'call' and t[1] == 'builtins.getattr' and t[3] and \
            len(t[3]) == 2 and t[3][1] in keys:
        return t[3][0]
    if t[0] == 'item' and t[1][0] == 'attr' and t[1][2] == '__dict__' and \
            t[2] in keys:
        return t[1][1]
    if t == ('item', e, const(1)) and E[0] == 'call' and \
            tail(E[1]) == 'items':
        return keys_of(E)
    return None


def shared(ck, t):
    """Are there several kinds of objects that are instances of this?"""
    if t[0] != 'global' or t[1] not in ck.prog.classes:
        return True
    c = ck.prog.classes[t[1]]
    return any(x is not c and c in x.mro()
               for x in ck.prog.classes.values())


def same_kind(ck, facts, me, other):
    for f, p in facts:
        if not p:
            continue
        if f[0] == 'call' and f[1] == 'builtins.isinstance' and \
                len(f[3]) == 2 and f[3][0] in (me, other):
            if {f[3][0], kind(f[3][1])} == {me, other}:
                return True
            if not shared(ck, f[3][1]):
                return True
        if f[0] == 'cmp' and f[1] in ('Is', 'Eq'):
            if all(kind(x) for x in (f[2], f[3])) and \
                    {kind(f[2]), kind(f[3])} == {me, other}:
                return True
    return False


def kind(t):
    if t[0] == 'call' and t[1] == 'builtins.type' and t[3]:
        return t[3][0]
    if t[0] == 'attr' and t[2] == '__class__':
        return t[1]
    return None


def naming(ck):
    rule = 'function-name'
    fi = ck.prog.require_method(DB, '_find_function_name')
    it = Interp(ck.prog, Policy())
    r = ck.explored(it.run(fi, cls=ck.prog.require_class(DB)))
    loc = where(fi)
    for s, t in r.returns:
        name = t[1] if t[0] == 'tuple' and len(t) > 1 else ANY
        for a in alts(name):
            at = {x[2] for x in subterms(a) if isinstance(x, tuple) and
                  len(x) == 3 and x[0] == 'attr' and
                  isinstance(x[2], str)}
            uses = {'module': '__module__' in at, 'name': bool(
                at & {'__name__', '__qualname__'})}
            for k, v in uses.items():
                ck.require(rule, '%s: %s' % (fi.qual, k), v,
                           'a function is remembered as %s' % show(a)[:100],
                           loc)
            plain = is_plain(s)
            if plain:
                continue
            # a method: class name and own name
            owners = {x for x in subterms(a) if isinstance(x, tuple) and
                      len(x) == 3 and x[0] == 'attr' and
                      x[2] in ('__name__', '__qualname__')}
            creation = any(p and f[0] == 'cmp' and f[1] == 'Eq' and
                           const('__call_super__') in (f[2], f[3])
                           for f, p in s.facts)
            ck.require(rule, fi.qual + ': class', len(owners) >= 2 or creation
                       or '__qualname__' in at,
                       'a method is remembered as %s' % show(a)[:100], loc)


def is_plain(s):
    """path of a plain function: not a method and no owning class"""
    return any(not p and f[0] == 'call' and tail(f[1]) == 'ismethod'
               for f, p in s.facts) and any(
        p and f[0] == 'cmp' and f[1] == 'Is' and f[3] == NONE
        for f, p in s.facts)
