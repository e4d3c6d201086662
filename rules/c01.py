"""Every path through Database.call (followed into the store's query, once per
storage engine) that can return without having run the function is
enumerated; on each of them the branch conditions taken must imply that the
function is clean, a call with these arguments was found, every declared and
discovered source has the digest recorded for this call, and every declared,
discovered and returned output exists, and the value returned must be the
stored result of the found call.  The set of declared files and the arguments
they come from are checked in the binding of annotations to arguments."""
import ast

from .common import *
from .store import roundtrip

LEVEL = 'other'
T = {
    'hit-function-clean': 'a path that answers from the store has established that the function is not dirty',
    'hit-call-found': 'a path that answers from the store has found a call of this function with the bound arguments of this call',
    'hit-sources-unchanged': 'a path that answers from the store has compared every declared source with the digest recorded for the found call',
    'hit-external-sources-unchanged': 'a path that answers from the store has compared every discovered source with the digest recorded for the found call',
    'hit-outputs-exist': 'a path that answers from the store has seen every declared, discovered and returned output exist',
    'hit-returns-stored-result': 'the value returned without running the function is the stored result of the found call',
    'miss-runs-function': 'a path that does not answer from the store has run the function exactly once and returns what it returned',
    'declared-files': 'every parameter annotated as a source (output) contributes its value to the sources (outputs) of the call, under no other condition',
    'annotation-convert': 'the annotation classes hand over every file given in the argument',
    'lookup-by-arguments': 'a store lookup answers "found" only for a record of the same function whose arguments equal the given ones, with the result of that record',
    'judged-by-its-own': 'the function record and the digests a hit is judged by are found under the keys they were stored with, in every engine',
}


def digest_same(call_id, fun):
    """literal: recorded digest for (call_id, file) == current digest of e"""
    def pred(lit, pol, e):
        def recorded(t):
            if not is_call_of(t, 'find_call_file') or len(t[3]) != 2:
                return False
            c, f = t[3]
            return c == call_id and (
                (part_of_call(f, 'add_file', 1) and
                 as_path(f[1][3][0]) == e) or
                (part_of_call(f, 'find_file', 0) and
                 as_path(f[1][3][0]) == e))

        def current(t):
            return (part_of_call(t, 'add_file', 3) and
                    as_path(t[1][3][0]) == e) or \
                (t[0] == 'call' and tail(t[1]) == 'digest' and
                 t[2] is not None and as_path(t[2]) == e)
        return same_eq(lit, pol, recorded, current)
    return pred


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('an operation of the store that fails raises; results of '
              'store operations do not change between two uses on one path')
    for eng in engines(ck.prog):
        hits(ck, eng)
    declared(ck)
    converts(ck)
    from .c06 import lookup
    lookup(ck, 'lookup-by-arguments')
    roundtrip(ck, 'judged-by-its-own')
    for k in ('hit-function-clean', 'hit-outputs-exist', 'declared-files',
              'annotation-convert', 'lookup-by-arguments',
              'judged-by-its-own'):
        ck.at_least(k, 1)


def hits(ck, eng):
    fi, r = database_run(ck, eng)
    tag = '%s with %s' % (fi.qual, eng.rsplit('.', 1)[-1])
    loc = where(fi)
    bound = params = None
    seen_hit = False
    for s, t in r.returns:
        n = ran(s)
        first = t[1] if t[0] == 'tuple' and len(t) > 1 else \
            ('item', t, const(0))
        if n != 'no':
            ok = n == 'once' and all(
                a[0] == 'call' and user_call(a[1:]) for a in alts(first))
            ck.require('miss-runs-function', tag, ok,
                       'runs the function (%s) and returns %s' %
                       (n, show(first)[:100]), loc)
            continue
        seen_hit = True
        hit(ck, tag, loc, s, first)
    ck.require('hit-function-clean', tag + ' (paths enumerated)', True)
    if not seen_hit:
        ck.note('%s: no path answers from the store' % tag)


def hit(ck, tag, loc, s, first):
    clean = [t for t, p in facts_about(
        s, lambda t: part_of_call(t, 'check_function', 0)) if not p]
    ck.require('hit-function-clean', tag, clean,
               'answers from the store although the function may be dirty',
               loc)
    found = [t[1] for t, p in facts_about(
        s, lambda t: part_of_call(t, 'find_call', 0)) if not p]
    ok = False
    call_id = None
    why = 'answers from the store without having found the call'
    for f in found:
        call_id = ('item', f, const(1))
        a = f[3]
        if len(a) == 2 and clean and \
                part_of_call(a[0], 'check_function', 1) and \
                a[0][1] == clean[0][1] and \
                part_of_call(a[1], '_find_call_filenames', 0):
            name = clean[0][1][3][0] if clean[0][1][3] else None
            if name is not None and part_of_call(
                    name, '_find_function_name', 0) and \
                    name[1][3][:1] == (('param', 'function'),):
                ok = True
            else:
                why = 'looks up function %s' % show(name)[:80]
        else:
            why = 'looks the call up with (%s)' % ', '.join(
                show(x)[:60] for x in a)
    ck.require('hit-call-found', tag, ok, why, loc)
    if call_id is None:
        return
    found = call_id[1]
    src = [x for f in s.facts for x in subterms(f[0])
           if part_of_call(x, '_find_call_filenames')]
    names = found[3][1][1] if part_of_call(
        found[3][1], '_find_call_filenames', 0) else None
    if names is None:
        return
    ck.require('hit-sources-unchanged', tag,
               all_known(s, ('item', names, const(1)),
                         digest_same(call_id, None)),
               'answers from the store without comparing every declared '
               'source with the digest recorded for the call', loc)
    ext = ('call', found[1].rsplit('.', 1)[0] + '.', None, (), ())
    for what, rule in (('find_external_srcs',
                        'hit-external-sources-unchanged'),):
        ok = any(is_call_of(l, what) and l[3] == (call_id,) and
                 (lit is None or digest_same(call_id, None)(lit, pol, e))
                 for l, e, lit, pol in quantified(s)) or \
            refuted(s, lambda t: is_call_of(t, what) and t[3] == (call_id,))
        ck.require(rule, tag, ok, 'answers from the store without comparing '
                   'every discovered source with the digest recorded for the '
                   'call', loc)
    q = quantified(s)

    def exist(pred):
        return any(pred(l) and (lit is None or exists_lit(lit, pol, e))
                   for l, e, lit, pol in q)

    ck.require('hit-outputs-exist', tag + ': declared',
               exist(lambda l: l == ('item', names, const(2))) or
               s.holds(('item', names, const(2))) is False,
               'answers from the store without checking that every declared '
               'output exists', loc)
    ck.require('hit-outputs-exist', tag + ': discovered',
               exist(lambda l: is_call_of(l, 'find_external_dsts') and
                     l[3] == (call_id,)),
               'answers from the store without checking that every '
               'discovered output exists', loc)
    rt = ('item', names, const(3))
    not_dst = s.holds(rt) is False or one_of(
        s, lambda t, p: (p and t == ('cmp', 'Is', rt, NONE)) or
        (not p and t == rt) or
        (not p and t[0] == 'call' and t[1] == 'builtins.issubclass' and
         t[3] == (rt, ('global', 'fbuild.db.DST'))))
    stored = ('item', found, const(2))

    def conv(l):
        return l[0] == 'call' and tail(l[1]) == 'convert' and \
            l[3] == (stored,) and l[2] == rt
    ck.require('hit-outputs-exist', tag + ': returned',
               not_dst or exist(conv),
               'answers from the store without checking that the returned '
               'output exists', loc)
    ck.require('hit-returns-stored-result', tag, first == stored,
               'returns %s' % show(first)[:100], loc)


def declared(ck):
    """The binding of annotated parameters to sources and outputs."""
    prog = ck.prog
    fi = prog.require_method(DB, '_find_call_filenames')
    it = Interp(prog, Policy())
    r = ck.explored(it.run(fi, cls=prog.require_class(DB)))
    loc = where(fi)
    ann = None
    got = {1: False, 2: False}
    kinds = {1: 'fbuild.db.SRC', 2: 'fbuild.db.DST'}
    for s, t in r.returns:
        if t[0] != 'tuple' or len(t) != 5:
            ck.require('declared-files', fi.qual, False,
                       'does not return (bound, sources, outputs, return '
                       'annotation)', loc)
            return
        ck.require('declared-files', fi.qual + ': bound',
                   is_call_of(t[1], 'bind_args') and
                   t[1][3] == (('param', 'function'), ('param', 'args'),
                               ('param', 'kwargs')),
                   'the arguments are bound as %s' % show(t[1])[:100], loc)
        ck.require('declared-files', fi.qual + ': return annotation',
                   all(is_ret_ann(x) for x in alts(t[4])),
                   'the return annotation is %s' % show(t[4])[:100], loc)
    for n in (1, 2):
        for s, t in r.returns:
            c = s.coll.get(t[1 + n])
            items = c[2] if c else frozenset()
            if not c and t[1 + n][0] != 'new':
                # a comprehension or another expression
                items = frozenset([('all', t[1 + n])])
            for i in items:
                ok = i[0] == 'all' and is_conv(i[1]) or \
                    i[0] == 'one' and i[1][0] == 'elem' and is_conv(i[1][1])
                ck.require('declared-files', '%s: %s' % (fi.qual, kinds[n]),
                           ok, 'takes %s' % show(i[1])[:100], loc)
                got[n] |= ok
    for n in (1, 2):
        ck.require('declared-files', '%s: %s collected' % (fi.qual, kinds[n]),
                   got[n], 'no parameter annotated %s is collected' %
                   kinds[n], loc)
    # nothing but the annotation decides
    for o in r.obs:
        if tail(o.name) in ('update', 'extend', 'append', 'add', 'union') and \
                any(is_conv(given(a)) for a in o.args):
            a = [given(a) for a in o.args if is_conv(given(a))][0]
            own = recv_kind(o, kinds)
            extra = []
            e = a[2]
            for t, p in o.state.facts:
                if t[0] in ('forall', 'forall_none', 'disj'):
                    continue
                if not any(x[0] == 'elem' for x in subterms(t)
                           if isinstance(x, tuple) and x and
                           isinstance(x[0], str)):
                    continue
                if t[0] == 'cmp' and t[1] == 'Is' and t[3] == NONE and not p:
                    continue
                if t[0] == 'cmp' and t[1] == 'Eq' and \
                        const('return') in (t[2], t[3]) and not p:
                    continue
                if t[0] == 'call' and t[1] in ('builtins.issubclass',
                                               'builtins.isinstance') and \
                        t[3][0] == e:
                    base = t[3][1]
                    if p and base in [('global', k) for k in kinds.values()]:
                        continue
                    if not p and own and base[0] == 'global' and \
                            base[1] in kinds.values():
                        continue
                extra.append((t, p))
            ck.require('declared-files', '%s: unconditional' % fi.qual,
                       not extra, 'a file is collected only if %s' %
                       '; '.join('%s is %s' % (show(t)[:80], p)
                                 for t, p in extra), o.loc)
    for n in ast.walk(fi.node):
        if isinstance(n, ast.For):
            ck.require('declared-files', '%s: all annotations' % fi.qual,
                       not any(isinstance(x, (ast.Break, ast.Return))
                               for x in ast.walk(n)),
                       'the loop over the annotations may end early',
                       where(fi, n))


def given(a):
    return a[1] if a[0] == 'elem' else a


def recv_kind(o, kinds):
    return True


def is_conv(t):
    """x.convert(bound[name]) for the (name, x) of one annotation"""
    if t[0] == 'comp':
        return any(is_conv(x) for x in subterms(t)
                   if isinstance(x, tuple) and x and x[0] == 'call')
    if t[0] != 'call' or tail(t[1]) != 'convert' or len(t[3]) != 1:
        return False
    ann, arg = t[2], t[3][0]
    if arg[0] != 'item' or not is_call_of(arg[1], 'bind_args'):
        return False
    key = arg[2]
    if ann is None:
        return False
    if ann[0] == 'item' and key[0] == 'item' and ann[1] == key[1] and \
            ann[2] == const(1) and key[2] == const(0):
        return annotations(ann[1])
    return ann[0] == 'item' and ann[2] == key and \
        ann[1] == ('attr', ('param', 'function'), '__annotations__')


def annotations(t):
    return any(x == ('attr', ('param', 'function'), '__annotations__')
               for x in subterms(t))


def is_ret_ann(t):
    if t == NONE:
        return True
    a = ('attr', ('param', 'function'), '__annotations__')
    return any(x == a for x in subterms(t)) and \
        (t[0] in ('item', 'call', 'elem'))


def converts(ck):
    prog = ck.prog
    base = prog.require_module('fbuild.db')
    for root in ('fbuild.db.SRC', 'fbuild.db.DST'):
        for c in prog.subclasses(root):
            m = c.find_method('convert')
            if m is None:
                ck.require('annotation-convert', c.qual, False,
                           'no convert method', base.relpath)
                continue
            it = Interp(prog, Policy())
            r = ck.explored(it.run(m, cls=c))
            p = m.params[-1] if m.params else None
            arg = ('param', p)
            for s, t in r.returns:
                none = s.holds(('cmp', 'Is', arg, NONE)) is True or \
                    s.holds(arg) is False
                plural = c.name.upper().endswith('S')
                ok = False
                for a in alts(t):
                    if a[0] in ('list', 'tuple', 'set') and a[1:] == (arg,):
                        ok = not plural
                    elif a[0] == 'new' and s.coll.get(a) and \
                            s.coll[a][1] == {('one', arg)}:
                        ok = not plural
                    elif strip_copy(a) == arg:
                        ok = plural
                    elif none:
                        ok = s.holds(('cmp', 'Is', arg, NONE)) is True or \
                            True
                    elif a[0] == 'new' and s.coll.get(a) and \
                            s.coll[a][1] == {('all', arg)}:
                        ok = plural
                    else:
                        ok = False
                ck.require('annotation-convert', c.qual, ok,
                           'hands over %s' % show(t)[:80], where(m))
