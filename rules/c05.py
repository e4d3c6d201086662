"""Every path through Database.call, normal and exceptional, is enumerated with
a counter for the depth of the call stack and a record of whether the function
returned: every way out leaves the stack as deep as it was, and the request that
records the call is made only on paths where the function returned, with the
value it returned and the arguments and files of this call.  Recording is
followed through the store into the tables of every engine, and every place in
the program that can write call records is enumerated."""
import ast

from .common import *
from .c02 import find_stack, stack, mentions_stack, running
from .c06 import stores

T = {
    'balanced': 'every way out of a cached call, also by an error, leaves the call stack as it was',
    'recorded-after-return': 'a call is recorded only on paths where the function returned, and with the value it returned',
    'recorded-as-run': 'what is recorded is the arguments, files and dependents of this run',
    'failure-propagates': 'a failing function is not taken for one that returned',
    'stores-arguments-and-result': 'the record written for a call holds the bound arguments and the result of that call',
    'record-passed-on': 'recording a call hands the arguments, result and files it was given to the tables',
    'nothing-before': 'looking for an old result writes nothing but what the files on disk look like',
    'only-recorder': 'call records are written only through the one operation that records a finished call',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    find_stack(ck.prog)
    r = paths(ck)
    stores(ck)
    cache(ck)
    writers(ck)
    before(ck, r)
    for k in T:
        ck.at_least(k, 1)


class ExcPolicy(DbPolicy):
    track_exc = True
    inline_rpc = ()
    max_states = 400

    def may_raise(self, name, recv):
        if recv is not None and mentions_stack(recv) and tail(name) in (
                'append', 'pop', 'add'):
            return False
        if name in ('builtins.tuple', 'builtins.list', 'builtins.set',
                    'builtins.frozenset'):
            return False
        return super().may_raise(name, recv)

    def on_event(self, state, name, recv, args, kwargs, node, it):
        super().on_event(state, name, recv, args, kwargs, node, it)
        if recv is not None and stack(recv):
            d = {'append': 1, 'pop': -1}.get(tail(name))
            if d == -1 and args not in ((), (const(-1),)):
                state.ts['odd'] = 'taking out another call'
            elif d:
                state.ts['depth'] = state.ts.get('depth', 0) + d
            elif name == 'del.item' and args[:1] == (const(-1),):
                state.ts['depth'] = state.ts.get('depth', 0) - 1
            elif name not in ('set.item',):
                state.ts['odd'] = name


def paths(ck):
    fi = ck.prog.require_method(DB, 'call')
    it = Interp(ck.prog, ExcPolicy())
    st = State()
    st.ts['run'] = 'no'
    st.ts['depth'] = 0
    r = ck.explored(it.run(fi, cls=ck.prog.require_class(DB), state=st))
    loc = where(fi)
    n = 0
    for s, t in r.returns:
        d = s.ts.get('depth', 0)
        ck.require('balanced', fi.qual + ': return',
                   d == 0 and 'odd' not in s.ts,
                   'a path returns with the call stack %s' % how(s), loc)
        failed = any(e[0] == 'try' and user_call(e) for e in s.may)
        ck.require('failure-propagates', fi.qual,
                   not failed or ran(s) == 'once',
                   'a path returns although the function raised', loc)
        if ran(s) == 'once':
            n += 1
    for s, t in r.raises:
        d = s.ts.get('depth', 0)
        ck.require('balanced', fi.qual + ': error',
                   d == 0 and 'odd' not in s.ts,
                   'an error leaves the call stack %s' % how(s), loc)
        failed = any(e[0] == 'try' and user_call(e) for e in s.may)
        if failed and ran(s) == 'no':
            ck.require('recorded-after-return', fi.qual + ': failed',
                       not any(e[0] == 'rpc:cache' or (
                           e[0] == 'try' and e[1] == 'rpc:cache')
                           for e in s.may),
                       'a call whose function raised is recorded', loc)
    ck.require('failure-propagates', fi.qual + ': some path runs', n,
               'no path runs the function', loc)
    pushes = [o for o in r.obs if o.recv is not None and stack(o.recv) and
              tail(o.name) == 'append']
    for o in pushes:
        a = o.args[0] if o.args else ANY
        fresh = a[0] in ('list', 'set') and len(a) == 1 or (
            a[0] == 'new' and (a not in o.state.coll or
                               not o.state.coll[a][2])) or (
            a[0] == 'call' and a[1] in ('builtins.list', 'builtins.set') and
            not a[3])
        ck.require('balanced', fi.qual + ': fresh', fresh,
                   'the running call starts with the dependents %s' %
                   show(a)[:60], o.loc)
    ck.require('balanced', fi.qual + ': entered', pushes,
               'the running call is never entered', loc)
    m = ck.prog.require_method(BE, 'cache')
    for o in r.obs:
        if user_call((o.name, o.recv, o.args, o.kwargs)):
            ck.require('balanced', fi.qual + ': runs inside',
                       o.state.ts.get('depth', 0) == 1,
                       'the function runs while it is not on top of the call '
                       'stack', o.loc)
        if o.name != 'rpc:cache':
            continue
        ck.require('recorded-after-return', fi.qual + ': recorded',
                   ran(o.state) == 'once', 'a path records a call whose '
                   'function did not return', o.loc)
        a = call_args(ck.prog, ('call', o.name, o.recv, o.args, o.kwargs),
                      m.params[1:])
        res = a.get('result', ANY)
        ck.require('recorded-after-return', fi.qual + ': result',
                   all(x[0] == 'call' and user_call(x[1:])
                       for x in alts(res)),
                   'records %s as the result' % show(res)[:60], o.loc)
        want = {'bound': ('_find_call_filenames', 0),
                'fun_name': ('_find_function_name', 0)}
        for p, (f, i) in want.items():
            x = a.get(p, ANY)
            ck.require('recorded-as-run', '%s: %s' % (fi.qual, p),
                       part_of_call(x, f, i), 'records %s as the %s' % (
                           show(x)[:60], p), o.loc)
        q = ck.prog.require_method(BE, 'prepare')
        for p, i in (('fun_id', 1), ('call_id', 3),
                     ('call_file_digests', 5)):
            x = a.get(p, ANY)
            ck.require('recorded-as-run', '%s: %s' % (fi.qual, p),
                       part_of_call(x, 'prepare', i) or
                       part_of_call(strip_copy(x), 'prepare', i),
                       'records %s as the %s' % (show(x)[:60], p), o.loc)
        fd = a.get('fun_dirty', ANY)
        ck.require('recorded-as-run', fi.qual + ': fun_dirty',
                   part_of_call(fd, 'prepare', 0) or fd == TRUE or (
                       fd == FALSE and o.state.holds(
                           ('item', prep(o), const(0))) is False)
                   if prep(o) else part_of_call(fd, 'prepare', 0),
                   'records %s as fun_dirty' % show(fd)[:60], o.loc)
        d = strip_copy(a.get('fun_dependents', ANY))
        ck.require('recorded-as-run', fi.qual + ': dependents',
                   (d[0] == 'call' and tail(d[1]) == 'pop' and
                    mentions_stack(d)) or running(d) or d[0] == 'new',
                   'records the dependents %s' % show(d)[:60], o.loc)
    return r


def before(ck, r):
    """What the operations requested before the function returned write."""
    from .effects import reach, effects, tables_of
    rule = 'nothing-before'
    prog = ck.prog
    names = sorted({o.name[4:] for o in r.obs if o.name.startswith('rpc:') and
                    ran(o.state) != 'once'})
    ck.require(rule, 'requests', names, 'nothing is requested before the run',
               '')
    for c in prog.subclasses(BE):
        files = tables_of(prog, c, 'save_file')
        for n in names:
            for m in reach(prog, c, n):
                ck.saw(m)
                bad = [(k, t, x) for k, t, x in effects(prog, c, m)
                       if k != 'remove' and t not in files]
                for k, t, x in bad:
                    ck.require(rule, '%s: %s by %s' % (c.qual, t, m.qual),
                               False, 'writes %s while the function has not '
                               'run yet (asked for by %s)' % (t, n),
                               where(m, x))
                if not bad:
                    ck.require(rule, '%s: %s' % (c.qual, m.qual), True, '',
                               where(m))


def prep(o):
    for f, p in o.state.facts:
        for x in subterms(f):
            if is_call_of(x, 'prepare'):
                return x
    return None


def how(s):
    if 'odd' in s.ts:
        return 'changed by %s' % s.ts['odd']
    d = s.ts.get('depth', 0)
    return 'one deeper' if d == 1 else 'one too short' if d == -1 else \
        'at depth %s' % d


def cache(ck):
    rule = 'record-passed-on'
    c, m = ck.prog.require_class(BE), ck.prog.require_method(BE, 'cache')
    r = run_method(ck, c, m)
    loc = where(m)
    P = {p: ('param', p) for p in m.params}
    for s, t in r.returns:
        sv = [e for e in s.must if tail(e[0]) == 'save_call']
        ck.require(rule, m.qual + ': call', any(
            len(e[2]) == 4 and e[2][2] == P.get('bound') and
            e[2][3] == P.get('result') and
            e[2][0] in (P.get('call_id'), NONE) for e in sv),
            'a path does not record the arguments and result it was given',
            loc)
        for e in sv:
            f = e[2][1] if len(e[2]) > 1 else ANY
            ck.require(rule, m.qual + ': function', f == P.get('fun_id') or
                       is_call_of(f, 'save_function') or
                       part_of_call(f, 'check_function', 1) or
                       part_of_call(f, 'find_function', 0),
                       'records the call of %s' % show(f)[:60], loc)
        ck.require(rule, m.qual + ': files', any(
            tail(e[0]) == 'save_call_files' and len(e[2]) == 2 and
            is_call_of(e[2][0], 'save_call') and
            strip_copy(e[2][1]) == P.get('call_file_digests')
            for e in s.must), 'a path does not record the digests it was '
            'given', loc)
    for o in r.obs:
        if tail(o.name) == 'save_call_files':
            ck.require(rule, m.qual + ': order', any(
                tail(e[0]) == 'save_call' for e in o.state.must),
                'records files for a call that is not recorded yet', o.loc)


SAVERS = ('save_call', 'save_call_files', 'save_call_file',
          'save_external_files', 'save_function')


def writers(ck):
    """Who refers to an operation that writes call records."""
    rule = 'only-recorder'
    prog = ck.prog
    be = [c for c in prog.subclasses(BE)]
    inside = set()
    for c in be:
        from .c04 import reach
        for m, via in reach(prog, c, 'cache'):
            inside.add(m.qual)
    for fi in prog.functions.values():
        for x in ast.walk(fi.node):
            if not isinstance(x, ast.Attribute) or x.attr not in SAVERS:
                continue
            if isinstance(x.ctx, ast.Store):
                continue
            ck.require(rule, '%s: %s' % (fi.qual, x.attr),
                       fi.qual in inside, 'writes records on its own',
                       where(fi, x))
    d = ck.prog.require_class(DB)
    for fi in prog.functions.values():
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and x.attr == 'cache' and \
                    isinstance(x.value, ast.Attribute) and \
                    x.value.attr == '_backend':
                ck.require(rule, '%s: cache' % fi.qual, fi.cls is d and
                           called_from_call(prog, d, fi),
                           'records calls on its own', where(fi, x))


def called_from_call(prog, d, fi):
    if fi.name == 'call':
        return True
    from .c04 import reach
    return any(m.qual == fi.qual for m, via in reach(prog, d, 'call'))
