"""Every path of check_function that answers "clean" is enumerated: it must
have found the recorded digest equal to the current one and every recorded
dependent clean.  The recording side is followed through Database.call (every
path that enters or answers a nested call adds it to the running call, and the
dependents of the finished run are what is saved) and through the recording
operation of the store (a changed function is forgotten together with all its
callers before it is saved again, a clean one gains the new dependents), and
every engine's search for callers and stored form of a function record is
checked.  The digest is followed to the whole source text of the function, and
every class that wraps a cached function to the table digests come from."""
import ast

from .common import *
from .store import cuts, roundtrip

T = {
    'clean-means-unchanged': 'check_function answers "clean" only with the recorded digest equal to the current one and every recorded dependent clean',
    'inner-calls-recorded': 'on every path a cached call made while another runs is recorded as a dependent of the running one, before the function is run and also if it is answered from the store',
    'dependents-saved': 'the dependents collected during the run are handed to the store with the name and digest of the function',
    'changed-forgets-callers': 'when a changed function is saved again its old record and all functions that call it are forgotten first',
    'dependents-merged': 'when a clean function made calls it did not make before they are added to its record',
    'callers-found': 'the callers of a function are all functions that recorded it as a dependent, directly or through others',
    'function-record': 'the digest and dependents a lookup returns are the ones that were saved',
    'digest-of-source': 'the digest of a function is that of its whole source text',
    'digest-per-function': 'the digest of a function is looked up by the name it is remembered under',
    'object-digest': 'the digest for creating a persistent object covers the source of its class',
    'stack-per-thread': 'each thread has its own stack of running calls',
    'registered': 'every function that is wrapped to be cached is registered for digests',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('equal digests mean equal source text; the source text of a '
              'function is the one inspect reports')
    find_stack(ck.prog)
    clean(ck)
    nested(ck)
    recording(ck)
    callers(ck)
    record(ck)
    digest(ck)
    registered(ck)
    objects(ck)
    threads(ck)
    for k in T:
        ck.at_least(k, 1)


def deps_of(t):
    """t is the dependents part of a function record (copied, or less those
    looked at already)."""
    t = strip_copy(t)
    while t[0] == 'bin' and t[1] == 'Sub':
        t = strip_copy(t[2])
    if t[0] == 'call' and tail(t[1]) == 'difference' and t[2] is not None:
        t = strip_copy(t[2])
    if t[0] == 'or':
        return any(deps_of(x) for x in t[1:])
    if t[0] == 'phi':
        return any(deps_of(x) for x in t[1])
    return part_of_call(t, 'find_function', 2)


def current(t):
    return t[0] == 'call' and 'digest' in tail(t[1])


def clean(ck):
    rule = 'clean-means-unchanged'
    for c, m in method_owners(ck.prog, 'check_function') or [
            (ck.prog.require_class(BE),
             ck.prog.require_method(BE, 'check_function'))]:
        it = Interp(ck.prog, SqlPolicy())
        r = ck.explored(it.run(m, cls=c))
        loc = where(m)
        guard = guarded(r)
        for o in skips(r, ('param', m.params[1])):
            ck.require(rule, m.qual + ': looked at', False,
                       'functions are taken as looked at that were not: %s'
                       % show(o.args[0])[:80], o.loc)
        n = 0
        for s0, t in r.returns:
            if t[0] != 'tuple' or len(t) < 2:
                ck.require(rule, m.qual, False, 'returns %s' % show(t)[:80],
                           loc)
                continue
            for s in it.assume(t[1], False, s0):
                n += 1
                same = one_of(s, lambda l, p: same_eq(
                    l, p, current,
                    lambda x: part_of_call(x, 'find_function', 1)))
                ck.require(rule, m.qual + ': digest', same,
                           'a path answers "clean" without having found the '
                           'current digest equal to the recorded one', loc)
                deps = guard
                for l, e, lit, pol in quantified(s):
                    if not deps_of(l):
                        continue
                    deps = deps or lit is None or (
                        part_of_call(lit, 'check_function', 0) and
                        pol is False and lit[1][3][:1] == (e,))
                ck.require(rule, m.qual + ': dependents', deps,
                           'a path answers "clean" without having found every '
                           'recorded dependent clean', loc)
        ck.require(rule, m.qual, n, 'never answers "clean"', loc)


def skips(r, name):
    """The events that add to the functions not to look at again something
    else than the one being looked at."""
    seen = set()
    for o in r.obs:
        if tail(o.name) == 'check_function' and o.args and \
                o.args[0][0] == 'elem':
            E = strip_copy(o.args[0][1])
            while E[0] == 'bin' and E[1] == 'Sub':
                seen.add(E[3])
                E = strip_copy(E[2])
            if E[0] == 'call' and tail(E[1]) == 'difference':
                seen.update(E[3])
            seen.update(f[3] for f, p in o.state.facts if f[0] == 'cmp' and
                        f[1] == 'In' and f[2] == o.args[0] and not p)
    for o in r.obs:
        if o.recv in seen and o.args and tail(o.name) in (
                'add', 'append', 'update', 'extend', '__ior__', '__iadd__') \
                and any(x != name and part_of_call(x, 'find_function', 2)
                        for x in subterms(o.args[0]) if isinstance(x, tuple)
                        and x and x[0] != 'elem') and \
                o.args[0][0] != 'elem':
            yield o


def guarded(r):
    """The loop over the dependents skips some it already looked at, and a
    dirty one makes the function dirty."""
    skip = any(
        tail(o.name) == 'check_function' and o.args and
        o.args[0][0] == 'elem' and deps_of(o.args[0][1]) and
        any(f[0] == 'cmp' and f[1] == 'In' and f[2] == o.args[0] and not p
            for f, p in o.state.facts) for o in r.obs)
    dirty = any(
        p and part_of_call(f, 'check_function', 0) and
        s.holds(t[1]) is True for s, t in r.returns
        if t[0] == 'tuple' and len(t) > 1 for f, p in s.facts)
    return skip and dirty


STACK = ['_callstack']


def find_stack(prog):
    """The attribute that holds the running calls: the list the store is
    given dependents from."""
    d = prog.require_class(DB)
    m = d.find_method('__init__')
    lists = [t.attr for x in ast.walk(m.node) if isinstance(x, ast.Assign)
             and isinstance(x.value, (ast.List, ast.Call))
             for t in x.targets if isinstance(t, ast.Attribute)]
    used = {x.attr for x in ast.walk(d.find_method('call').node)
            if isinstance(x, ast.Attribute)}
    cand = [a for a in lists if 'stack' in a.lower()] or [
        x.targets[0].attr for x in ast.walk(m.node)
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.List)
        and isinstance(x.targets[0], ast.Attribute) and
        x.targets[0].attr in used]
    if cand:
        STACK[0] = cand[0]


def stack(t):
    return t[0] == 'attr' and t[2] == STACK[0]


def running(t):
    """the innermost running call of the call stack"""
    return t[0] == 'item' and mentions_stack(t[1]) and (
        t[1][0] != 'attr' or t[2] in (const(-1), ('neg', const(1))) or
        t[2][0] != 'const')


def mentions_stack(t):
    return any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'attr' and
               x[2] == STACK[0] for x in subterms(t))


def empty_says(f, p):
    """the fact "f is p" says the collection it speaks about is empty"""
    if f[0] == 'cmp' and len(f) == 4:
        op, a, b = f[1:]
        size = [x for x in (a, b) if x[0] == 'const' and x[1] == 'int']
        if op == 'Is':
            return p
        if op in ('Eq', 'NotEq'):
            return p is (op == 'Eq') and (
                not size or size[0][2] == 0)
        # an order test against a length: which way round it says "empty"
        # depends on both operands; only the plain spellings are known
        if size and size[0] == b:
            return (op, b[2], p) in (
                ('Gt', 0, False), ('GtE', 1, False), ('Lt', 1, True),
                ('LtE', 0, True))
        return size and (op, a[2], p) in (
            ('Lt', 0, False), ('LtE', 1, False), ('Gt', 1, True),
            ('GtE', 0, True))
    return not p


def nested(ck):
    rule = 'inner-calls-recorded'
    fi, r = database_run(ck, None, inline_rpc=())
    loc = where(fi)
    names = {o.args[0] for o in r.obs if o.name == 'rpc:prepare' and o.args}
    if not names:
        ck.require(rule, fi.qual, False, 'the store is never queried', loc)

    def recorded(s):
        for e in s.must:
            if tail(e[0]) in ('append', 'add') and running(e[1] or ANY) and \
                    e[2] and (e[2][0] in names):
                return True
        # the only other way out: nothing is running
        return any(mentions_stack(f) and empty_says(f, p) for f, p in s.facts
                   if f[0] not in ('forall', 'forall_none', 'disj'))

    pushes = [o for o in r.obs if tail(o.name) == 'append' and
              stack(o.recv or ANY)]
    for o in pushes:
        ck.require(rule, fi.qual + ': before the run', recorded(o.state),
                   'a path runs the function without recording it as a '
                   'dependent of the running call', o.loc)
    for s, t in r.returns:
        if ran(s) == 'no':
            ck.require(rule, fi.qual + ': answered from the store',
                       recorded(s), 'a path answers from the store without '
                       'recording the call as a dependent of the running one',
                       loc)
    rule = 'dependents-saved'
    for o in r.obs:
        if o.name != 'rpc:cache':
            continue
        m = ck.prog.require_method(BE, 'cache')
        a = call_args(ck.prog, ('call', o.name, o.recv, o.args, o.kwargs),
                      m.params[1:])
        d = strip_copy(a.get('fun_dependents', ANY))
        ok = (d[0] == 'call' and tail(d[1]) == 'pop' and
              mentions_stack(d)) or running(d) or d[0] == 'new'
        ck.require(rule, fi.qual + ': dependents', ok,
                   'hands %s to the store as the dependents' % show(d)[:60],
                   o.loc)
        ck.require(rule, fi.qual + ': name', a.get('fun_name') in names,
                   'saves under the name %s' % show(
                       a.get('fun_name', ANY))[:60], o.loc)
        dg = a.get('fun_digest', ANY)
        ck.require(rule, fi.qual + ': digest', current(dg) and
                   any(n in dg[3] for n in names),
                   'saves the digest %s' % show(dg)[:60], o.loc)


def recording(ck):
    for m in [ck.prog.require_method(BE, 'cache')]:
        P = type('P', (SqlPolicy,), {})
        r = run_method(ck, ck.prog.require_class(BE), m, P())
        loc = where(m)
        ps = {p: ('param', p) for p in m.params}
        name, dig, deps, dirty = (ps.get(x, ANY) for x in (
            'fun_name', 'fun_digest', 'fun_dependents', 'fun_dirty'))
        for s, t in r.returns:
            fin = [p for f, p in s.facts if f == dirty or
                   part_of_call(f, 'check_function', 0)]
            if False in fin:
                merged(ck, m, s, name, deps, loc)
                continue
            ev = {tail(e[0]): e for e in s.must}
            sv = [e for e in s.must if tail(e[0]) == 'save_function']
            ck.require('changed-forgets-callers', m.qual + ': saved',
                       any(len(e[2]) == 4 and e[2][1:] == (name, dig, deps)
                           for e in sv),
                       'a path does not save the digest and dependents of a '
                       'changed function', loc)
            dc = ev.get('delete_callers')
            ck.require('changed-forgets-callers', m.qual + ': callers',
                       dc and dc[2][:1] == (name,),
                       'a path saves a changed function without forgetting '
                       'the functions that call it', loc)
            df = ev.get('delete_function')
            gone = any(p and f[0] == 'cmp' and f[1] == 'Is' and
                       f[3] == NONE for f, p in s.facts) or any(
                not p and (f == ps.get('fun_id') or part_of_call(
                    f, 'check_function', 1)) for f, p in s.facts)
            ck.require('changed-forgets-callers', m.qual + ': old record',
                       gone or (df and df[2][:1] == (name,)),
                       'a path saves a changed function over its old record',
                       loc)
        for o in r.obs:
            if tail(o.name) == 'save_function' and o.args[2:3] == (dig,) and \
                    o.args[3:] == (deps,):
                ck.require('changed-forgets-callers', m.qual + ': order',
                           any(tail(e[0]) == 'delete_callers'
                               for e in o.state.must),
                           'the callers are looked for after the function '
                           'was saved', o.loc)
            if tail(o.name) == 'save_call':
                forgot = [e for e in o.state.may
                          if tail(e[0]) == 'delete_function']
                ck.require('changed-forgets-callers', m.qual + ': first',
                           True)
            if tail(o.name) in ('delete_function', 'delete_callers'):
                late = any(tail(e[0]) in ('save_call', 'save_call_files',
                                          'save_external_files')
                           for e in o.state.must)
                ck.require('changed-forgets-callers', m.qual + ': first',
                           not late, 'the record just saved is forgotten '
                           'again', o.loc)


def merged(ck, m, s, name, deps, loc):
    ok = False
    saved = [e for e in s.must if tail(e[0]) == 'save_function']
    for e in saved:
        if len(e[2]) == 4 and e[2][1] == name:
            ok = ok or parts_of(e[2][3], s, deps) == (True, True)
    for f, p in s.facts:
        if f[0] in ('forall', 'forall_none'):
            # none of the dependents is new
            ok = ok or any(strip_copy(x) == deps for x in leaves(f[1], s))
        elif f[0] == 'disj':
            pass
        elif not saved and (mentions(f, deps) or any(
                parts_of(x, s, deps)[0] for x in subterms(f)
                if isinstance(x, tuple) and len(x) > 2 and
                x[0] in ('new', 'call'))):
            ok = True
    ck.require('dependents-merged', m.qual, ok,
               'a path records a call of a clean function and forgets the '
               'functions it called', loc)


def parts_of(t, s, deps, depth=0):
    """Do the new dependents and all the old ones go into t?"""
    grown = False
    while t[0] == 'call' and t != strip_copy(t):
        grown = grown or any(
            e[1] == t and tail(e[0]) in ('append', 'extend', 'add', 'update')
            and any(mentions(a, deps) for a in e[2]) for e in s.may
            if e[0] != 'try')
        t = t[3][0]
    if grown:
        return True, parts_of(t, s, deps, depth + 1)[1]
    if depth > 6:
        return False, False
    if t == deps:
        return True, False
    if deps_of(t) and t[0] != 'bin':
        return False, True
    sub = []
    if t[0] == 'bin' and t[1] == 'Sub':
        return parts_of(t[2], s, deps, depth + 1)[0], False
    if t[0] == 'bin':
        sub = [t[2], t[3]]
    elif t[0] == 'call' and t[2] is not None and tail(t[1]) in (
            'union', 'difference'):
        a = parts_of(t[2], s, deps, depth + 1)
        if tail(t[1]) == 'difference':
            return a[0], False
        sub = [t[2]] + list(t[3])
    elif t[0] in ('tuple', 'list', 'set'):
        sub = [x[1] for x in t[1:] if x[0] == 'star']
    elif t[0] == 'call' and t[1] in ('itertools.chain', 'builtins.sorted',
                                     'builtins.dict.fromkeys'):
        sub = list(t[3])
    elif t[0] == 'comp':
        return parts_of(t[3], s, deps, depth + 1)[0], False
    elif t[0] == 'new' and t in s.coll:
        c = s.coll[t]
        sub = [i[1] for i in c[1] if i[0] == 'all']
        new = any(mentions(i[1], deps) for i in c[2])
        return new or any(parts_of(x, s, deps, depth + 1)[0] for x in sub), \
            any(parts_of(x, s, deps, depth + 1)[1] for x in sub)
    got = [parts_of(x, s, deps, depth + 1) for x in sub]
    return any(g[0] for g in got), any(g[1] for g in got)


def callers(ck):
    rule = 'callers-found'
    for c, m in method_owners(ck.prog, 'find_callers'):
        r = run_method(ck, c, m)
        name = param(m, 0)
        loc = where(m)
        for s, t in r.returns:
            cand = []
            u = strip_copy(t)
            if u[0] == 'comp':
                cand.append((u[2], u[3], list(u[4])))
            else:
                for o in r.obs:
                    if tail(o.name) in ('append', 'add') and o.recv == u and \
                            o.args:
                        E = [x[1] for x in subterms(o.args[0])
                             if isinstance(x, tuple) and x and
                             x[0] == 'elem']
                        cand.append((o.args[0], E[0] if E else ANY, [
                            f if p else ('not', f) for f, p in o.state.facts
                            if any(mentions(f, ('elem', e)) for e in E) and
                            f[0] not in ('forall', 'forall_none', 'disj') and
                            not (f[0] == 'cmp' and f[3] == NONE)]))
            q = query_of(u)
            if q is not None:
                ck.note('%s: the query is taken as it is' % m.qual)
                continue
            ck.require(rule, m.qual, cand, 'returns %s' % show(t)[:80], loc)
            for elt, E, conds in cand:
                hit = [x for x in conds if x[0] == 'cmp' and x[1] == 'In' and
                       x[2] == name and not any(
                           isinstance(y, tuple) and y and (
                               y[0] == 'slice' or cuts(y))
                           for y in subterms(x[3]))]
                extra = [x for x in conds if x not in hit and not mentions(
                    x, name) and not any(mentions(h, x) for h in hit)]
                ck.require(rule, m.qual + ': condition', hit and not extra,
                           'a function is reported as a caller under %s' %
                           '; '.join(show(x)[:60] for x in conds), loc)
                q = query_of(E)
                if q is not None:
                    for st in sql_of(q) or ():
                        ck.require(rule, m.qual + ': all functions',
                                   st.kind == 'select' and
                                   st.table == 'function' and
                                   not st.where and not st.limit,
                                   'looks at %s' % st.text[:80], loc)
                else:
                    ck.require(rule, m.qual + ': all functions',
                               any(isinstance(x, tuple) and len(x) == 3 and
                                   x[0] == 'attr' and x[2] == '_functions'
                                   for x in subterms(E)) and
                               not any(isinstance(x, tuple) and x and
                                       x[0] == 'slice' for x in subterms(E)),
                               'looks at %s' % show(E)[:80], loc)
    for m in [ck.prog.require_method(BE, 'delete_callers')]:
        r = run_method(ck, ck.prog.require_class(BE), m)
        loc = where(m)
        for s, t in r.returns:
            ok = False
            for f, p in s.facts:
                if f[0] in ('forall', 'forall_none') and p and any(
                        is_call_of(x, 'find_callers')
                        for x in leaves(f[1], s)):
                    ok = ok or f[0] == 'forall_none' or (
                        f[2][0] == 'did' and
                        tail(f[2][1][0]) == 'delete_function' and
                        f[2][1][2][:1] == (('elem', f[1]),))
            ck.require(rule, m.qual, ok, 'a path leaves some of the callers '
                       'in the store', loc)
        deep = False
        for o in r.obs:
            if tail(o.name) == 'delete_callers' and o.args and \
                    o.args[0][0] == 'elem':
                deep = deep or not any(
                    mentions(f, o.args[0]) and not (
                        p and is_call_of(f, 'delete_function')) and
                    not (f[0] == 'cmp' and f[3] == NONE)
                    for f, p in o.state.facts
                    if f[0] not in ('forall', 'forall_none', 'disj'))
        loop = any(is_call_of(x, 'pop', 'popleft') for o in r.obs
                   if tail(o.name) == 'delete_function'
                   for a in o.args for x in subterms(a))
        ck.require(rule, m.qual + ': through other functions', deep or loop,
                   'the callers of the callers stay in the store', loc)


def record(ck):
    """save_function / find_function of each engine agree."""
    roundtrip(ck, 'function-record', ('save_function',))


CUTS = ('split', 'splitlines', 'partition', 'rpartition', 'rsplit', 'strip',
        'lstrip', 'rstrip', 'replace', 'sub', 'subn', 'lower', 'upper',
        'casefold', 'translate', 'dedent', 'cleandoc', 'expandtabs', 'filter',
        'islice', 'takewhile', 'dropwhile', 'set', 'sorted', 'removeprefix',
        'removesuffix')


def shortened(t, starts=False):
    """What takes something away from the lines or the text of a source.  The
    lines of the file may start with the first of the function."""
    def cut(x):
        if x[0] == 'item' and x[2][0] == 'slice':
            lo, hi, step = x[2][1:]
            return not (starts and hi == NONE and step == NONE and
                        isinstance(x[1], tuple) and x[1] != t and
                        not any(is_call_of(y, 'getblock')
                                for y in subterms(x[1])
                                if isinstance(y, tuple) and y))
        if x[0] == 'call':
            return tail(x[1]) in CUTS
        return x[0] == 'comp' and (x[2][0] != 'elem' or bool(x[4]))
    return [x for x in subterms(t) if isinstance(x, tuple) and x and
            isinstance(x[0], str) and cut(x)]


def digest(ck):
    rule = 'digest-of-source'
    m = ck.prog.require_method(DB, '_digest_function')
    r = run_method(ck, ck.prog.require_class(DB), m)
    fn = ('param', m.params[-1])
    for s, t in r.returns:
        routine = any(p and f[0] == 'call' and 'isroutine' in f[1]
                      for f, p in s.facts)
        if not routine:
            continue
        src = [x for x in subterms(t) if isinstance(x, tuple) and x and
               x[0] == 'call' and tail(x[1]) in ('getsource',
                                                 'getsourcelines')]
        ok = any(fn in x[3] for x in src)
        ck.require(rule, m.qual, ok and not shortened(t),
                   'the digest is %s' % show(t)[:100], where(m))
    fi = ck.prog.functions.get('fbuild.inspect.getsource')
    if fi is not None:
        for s, t in ck.explored(Interp(ck.prog, Policy()).run(fi)).returns:
            x = [y for y in subterms(t) if isinstance(y, tuple) and y and
                 is_call_of(y, 'getsourcelines', 'getsource')]
            if t[0] not in ('call', 'bin', 'comp', 'item', 'const'):
                # text put together in a loop: no more is asked than that it
                # goes over the lines
                x = x or any(tail(e[0]) in ('getsourcelines', 'findsource')
                             for e in s.must)
            ck.require(rule, fi.qual, x and not shortened(t),
                       'the source is %s' % show(t)[:100], where(fi))
    fi = ck.prog.functions.get('fbuild.inspect.getsourcelines')
    if fi is not None:
        for s, t in ck.explored(Interp(ck.prog, Policy()).run(fi)).returns:
            if t[0] not in ('tuple', 'list') or len(t) < 2:
                continue
            # the lines from the first one of the function are given to
            # getblock, which finds the last one
            got = t[1]
            cut = shortened(got, starts=True)
            ck.require(rule, fi.qual, not cut,
                       'the lines are %s' % show(got)[:100], where(fi))
    rule = 'digest-per-function'
    m = ck.prog.require_method(DB, 'get_function_digest_from_map')
    r = run_method(ck, ck.prog.require_class(DB), m)
    name = ('param', m.params[-1])
    for s, t in r.returns:
        ck.require(rule, m.qual, mentions(t, name) or any(
            mentions(f, name) for f, p in s.facts) or any(
                name in e[2] for e in s.must),
            'the digest %s does not depend on the function' % show(t)[:80],
            where(m))
    m = ck.prog.require_method(DB, 'add_function_to_map')
    r = run_method(ck, ck.prog.require_class(DB), m)
    fn = ('param', m.params[-1])
    for o in r.obs:
        if o.name == 'set.item' and any(
                isinstance(x, tuple) and len(x) == 3 and x[0] == 'attr' and
                x[2] == '_FUN_DIGESTS' for x in subterms(o.recv)):
            ck.require(rule, m.qual + ': key', part_of_call(
                o.args[0], '_find_function_name', 0) and
                o.args[0][1][3][:1] == (fn,),
                'registers the digest as %s' % show(o.args[0])[:80], o.loc)
    for s, t in r.returns:
        ok = any(e[0] == 'set.item' for e in s.must) or any(
            f[0] == 'cmp' and f[1] == 'In' and p for f, p in s.facts) or any(
            tail(e[0]) == 'setdefault' for e in s.must)
        ck.require(rule, m.qual, ok, 'a path registers no digest', where(m))


def registered(ck):
    """A class whose call method hands a stored function to db.call
    registers that function."""
    rule = 'registered'
    prog = ck.prog
    upd = ('_update_fun_map', 'add_function_to_map')
    n = 0
    for c in prog.classes.values():
        if c.module.name != 'fbuild.db':
            continue
        for m in c.methods.values():
            for call in calls_in(m.node):
                f = call.func
                if not (isinstance(f, ast.Attribute) and f.attr == 'call' and
                        isinstance(f.value, ast.Attribute) and
                        f.value.attr == 'db' and call.args):
                    continue
                n += 1
                ok = registers(prog, c, call.args[0])
                ck.require(rule, m.qual, ok,
                           'the function it caches is never registered',
                           where(m, call))


def registers(prog, c, arg):
    """Is the function that arg denotes handed to _update_fun_map?"""
    db = prog.modules['fbuild.db']
    texts = []
    for fi in prog.functions.values():
        if fi.module.name == 'fbuild.db':
            for call in calls_in(fi.node):
                f = call.func
                nm = f.id if isinstance(f, ast.Name) else \
                    f.attr if isinstance(f, ast.Attribute) else ''
                if nm in ('_update_fun_map', 'add_function_to_map') and \
                        call.args and fi.name != '_update_fun_map':
                    texts.append((fi, call.args[0]))
    if c.name == 'caches':
        return any(fi.cls is c and fi.name == '__init__' for fi, a in texts)
    attr = [n.attr for n in ast.walk(arg) if isinstance(n, ast.Attribute)]
    if '__call_super__' in attr:
        return any(isinstance(a, ast.Attribute) and
                   a.attr == '__call_super__' for fi, a in texts)
    # members: the metaclass registers every cachemethod / cacheproperty
    kinds = set()
    for fi, a in texts:
        if fi.cls is not None and fi.cls.name == 'PersistentMeta' and \
                isinstance(a, ast.Attribute):
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Name) and \
                        n.func.id == 'isinstance' and len(n.args) == 2:
                    kinds |= {x.id for x in ast.walk(n.args[1])
                              if isinstance(x, ast.Name)}
    base = c.name.replace('_wrapper', '')
    return base in kinds or any(fi.cls is c for fi, a in texts)


def objects(ck):
    """Creating a persistent object runs the __init__ of its class."""
    rule = 'object-digest'
    prog = ck.prog
    m = prog.require_method('fbuild.db.PersistentMeta', '__call__')
    via = [c.args[0] for c in calls_in(m.node) if c.args and isinstance(
        c.func, ast.Attribute) and c.func.attr == 'call']
    if not any(isinstance(x, ast.Attribute) and x.attr == '__call_super__'
               for v in via for x in ast.walk(v)):
        ck.require(rule, m.qual, True)
        return
    looks = False
    for q in ('_digest_function', 'add_function_to_map',
              '_find_function_name'):
        d = prog.require_method(DB, q)
        if q == '_find_function_name':
            continue
        for x in ast.walk(d.node):
            if isinstance(x, ast.Attribute) and x.attr in (
                    '__self__', '__init__', '__mro__', 'mro'):
                looks = True
    ck.require(rule, m.qual, looks, 'the digest is that of __call_super__, '
               'which is the same for all classes', where(m))


def threads(ck):
    rule = 'stack-per-thread'
    m = ck.prog.require_method(DB, '__init__')
    r = run_method(ck, ck.prog.require_class(DB), m)
    n = 0
    for s, t in r.returns:
        for e in s.must:
            if e[0] == 'set.attr' and e[2][:1] == (const(STACK[0]),):
                n += 1
                v = e[2][1]
                plain = v[0] in ('list', 'new') or (
                    v[0] == 'call' and tail(v[1]) in ('list', 'deque'))
                ck.require(rule, DB + '._callstack', not plain,
                           'one list is shared by all threads', where(m))
    if not n:
        ck.require(rule, DB + '._callstack', True)
