"""Every path of the operations that decide whether a file changed is
enumerated.  A path that answers "unchanged" must have found the digest of the
content equal to the recorded one, or the modification time equal to the
recorded one and at least a second old (a comparison of a linear expression in
the current time and the modification time); the time is read before the
content.  What is recorded is followed into and out of the tables of every
engine, and the digest function to whole-file reads."""
from .common import *
from .store import roundtrip

T = {
    'unchanged-only-if-same': 'add_file answers "unchanged" only with equal digests, or with equal modification times at least a second in the past',
    'time-before-content': 'the modification time recorded with a digest was read before the content',
    'change-recorded': 'when a file changed, its new time and digest are recorded together',
    'clean-for-call': 'a file is clean for a call only if its current digest equals the one recorded for this call and file',
    'dirty-files-recorded': 'every file found different for a call is among those whose digests are recorded for it',
    'file-record': 'the time and digest a lookup returns are the ones recorded for this file',
    'digest-whole-content': 'the digest of a file covers its whole content',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('equal digests mean equal content; a write changes the '
              'modification time of a file that was last written at least a '
              'second ago')
    add_file(ck)
    call_file(ck)
    call_files(ck)
    roundtrip(ck, 'file-record', ('save_file', 'save_call_file'))
    digest(ck)
    for k in T:
        ck.at_least(k, 1)


class FilePolicy(SqlPolicy):
    """ts: read = the content was read; late = the attributes read since"""
    opaque = ('fbuild.path.Path.digest',)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        super().on_event(s, name, recv, args, kwargs, node, it)
        if tail(name) == 'digest':
            s.ts['read'] = True

    def model(self, it, name, recv, args, kwargs, st, node):
        if st.ts.get('read') and tail(name) in ('getmtime', 'stat', 'lstat') \
                and not isinstance(node, ast.Attribute):
            # not what it was when the content was read
            return [(x, ('late', v)) for x, v in it.opaque_call(
                name, recv, args, kwargs, st, node, it.cur_frame)]
        return super().model(it, name, recv, args, kwargs, st, node)


def is_digest(t, f):
    return t[0] == 'call' and tail(t[1]) == 'digest' and t[2] is not None \
        and as_path(t[2]) == f


def is_mtime(t, f):
    return t[0] == 'call' and tail(t[1]) == 'getmtime' and (
        (t[3] and as_path(t[3][0]) == f) or
        (t[2] is not None and as_path(t[2]) == f)) or \
        (t[0] == 'attr' and t[2] == 'st_mtime')


def linear(t):
    """{atom: coefficient} with None for the constant"""
    if t[0] == 'const' and isinstance(t[2], (int, float)):
        return {None: t[2]}
    if t[0] == 'bin' and t[1] in ('Add', 'Sub'):
        a, b = linear(t[2]), linear(t[3])
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == 'Add' else -v)
        return out
    if t[0] == 'neg':
        a = linear(t[1])
        return a and {k: -v for k, v in a.items()}
    return {t: 1}


def old_enough(f, p, fn):
    """literal implies now - mtime >= 1"""
    if f[0] != 'cmp' or f[1] not in ('Lt', 'LtE'):
        return False
    a, b = linear(f[2]), linear(f[3])
    if a is None or b is None:
        return False
    d = dict(b)
    for k, v in a.items():
        d[k] = d.get(k, 0) - v
    if not p:
        d = {k: -v for k, v in d.items()}
    # d > 0 (or >= 0)
    now = [k for k, v in d.items() if k is not None and k[0] == 'call' and
           tail(k[1]) in ('time', 'time_ns') and v == 1]
    mt = [k for k, v in d.items() if k is not None and v == -1 and
          (is_mtime(k, fn) or part_of_call(k, 'find_file', 1))]
    rest = [k for k, v in d.items() if k is not None and v and
            k not in now + mt]
    return now and mt and not rest and d.get(None, 0) <= -1


def add_file(ck):
    for c, m in method_owners(ck.prog, 'add_file') or [
            (ck.prog.require_class(BE),
             ck.prog.require_method(BE, 'add_file'))]:
        it = Interp(ck.prog, FilePolicy())
        r = ck.explored(it.run(m, cls=c))
        fn = param(m, 0)
        loc = where(m)

        def old(i):
            return lambda t: part_of_call(t, 'find_file', i) and \
                as_path(t[1][3][0]) == fn

        n = 0
        for s0, t in r.returns:
            if t[0] != 'tuple' or len(t) != 5:
                ck.require('unchanged-only-if-same', m.qual, False,
                           'returns %s' % show(t)[:80], loc)
                continue
            for s in it.assume(t[1], False, s0):
                n += 1
                same = one_of(s, lambda l, p: same_eq(
                    l, p, lambda x: is_digest(x, fn), old(2)))
                mt = one_of(s, lambda l, p: same_eq(
                    l, p, lambda x: is_mtime(x, fn), old(1)))
                age = one_of(s, lambda l, p: old_enough(l, p, fn))
                why = 'a path answers "unchanged" without having compared ' \
                      'the content with what was recorded'
                if mt and not age:
                    why = 'a path takes a file as unchanged by its ' \
                          'modification time although it is less than a ' \
                          'second old'
                ck.require('unchanged-only-if-same', m.qual,
                           same or (mt and age), why, loc)
                ck.require('unchanged-only-if-same', m.qual + ': digest',
                           old(2)(t[4]) or (same and is_digest(t[4], fn)),
                           'answers with the digest %s' % show(t[4])[:60],
                           loc)
            for s in it.assume(t[1], True, s0):
                ck.require('change-recorded', m.qual + ': answer',
                           is_digest(t[4], fn),
                           'answers with the digest %s of a changed file' %
                           show(t[4])[:60], loc)
                ok = any(tail(e[0]) == 'save_file' and len(e[2]) == 4 and
                         e[2][1] == fn and is_digest(e[2][3], fn)
                         for e in s.must)
                ck.require('change-recorded', m.qual, ok,
                           'a path answers "changed" without recording the '
                           'new digest', loc)
        ck.require('unchanged-only-if-same', m.qual, n,
                   'never answers "unchanged"', loc)
        for o in r.obs:
            if tail(o.name) == 'save_file' and len(o.args) == 4:
                a = o.args
                ck.require('change-recorded', m.qual + ': what',
                           part_of_call(a[0], 'find_file', 0) and
                           a[1] == fn and is_mtime(a[2], fn) and
                           (is_digest(a[3], fn) or old(2)(a[3]) and any(
                               same_eq(l, p, lambda x: is_digest(x, fn),
                                       old(2))
                               for l, p in o.state.facts)),
                           'records %s' % ', '.join(
                               show(x)[:40] for x in a), o.loc)
            if tail(o.name) == 'digest' and is_digest(
                    ('call', o.name, o.recv, o.args, o.kwargs), fn):
                ck.require('time-before-content', m.qual,
                           any(tail(e[0]) in ('getmtime', 'stat')
                               for e in o.state.must),
                           'reads the content first: a write in between is '
                           'never noticed', o.loc)


def call_file(ck):
    rule = 'clean-for-call'
    for c, m in method_owners(ck.prog, 'check_call_file') or [
            (ck.prog.require_class(BE),
             ck.prog.require_method(BE, 'check_call_file'))]:
        it = Interp(ck.prog, SqlPolicy())
        r = ck.explored(it.run(m, cls=c))
        call, fn = param(m, 0), param(m, 1)
        loc = where(m)

        def now(t):
            return part_of_call(t, 'add_file', 3) and \
                as_path(t[1][3][0]) == fn or is_digest(t, fn)

        def then(t):
            return is_call_of(t, 'find_call_file') and t[3][:1] == (call,) \
                and any(part_of_call(t[3][1], n, i) and
                        as_path(t[3][1][1][3][0]) == fn
                        for n, i in (('add_file', 1), ('find_file', 0)))
        for s0, t in r.returns:
            if t[0] != 'tuple' or len(t) != 4:
                ck.require(rule, m.qual, False, 'returns %s' % show(t)[:80],
                           loc)
                continue
            for s in it.assume(t[1], False, s0):
                same = one_of(s, lambda l, p: same_eq(l, p, now, then))
                ck.require(rule, m.qual, same,
                           'a path answers "clean" without having found the '
                           'digest equal to the one recorded for the call',
                           loc)
            ck.require(rule, m.qual + ': digest',
                       now(t[3]) and part_of_call(t[2], 'add_file', 1),
                       'answers with the file %s and digest %s' % (
                           show(t[2])[:40], show(t[3])[:40]), loc)


def call_files(ck):
    rule = 'dirty-files-recorded'
    m = ck.prog.require_method(BE, 'check_call_files')
    c = ck.prog.require_class(BE)
    it = Interp(ck.prog, SqlPolicy())
    r = ck.explored(it.run(m, cls=c))
    files = param(m, 1)
    loc = where(m)

    def check_of(t, i):
        return part_of_call(t, 'check_call_file', i) or (
            t[0] == 'item' and t[2] == const(i) and t[1][0] == 'elem')

    def entry(t):
        return t[0] == 'tuple' and len(t) == 4 and check_of(t[1], 1) and \
            check_of(t[3], 2)
    for s, t in r.returns:
        ok = False
        u = strip_copy(t)
        if u[0] == 'comp':
            ok = entry(u[2]) and any(x == files for x in subterms(u[3])) and \
                all(check_of(x, 0) for x in u[4])
        for f, p in s.facts:
            if f[0] == 'forall_none' and any(x == files for x in
                                             leaves(f[1], s)):
                ok = True
            if f[0] == 'forall' and p and f[2][0] == 'did' and any(
                    x == files for x in leaves(f[1], s)) and \
                    tail(f[2][1][0]) == 'check_call_file' and \
                    f[2][1][2][1:2] == (('elem', f[1]),):
                ok = True
        ck.require(rule, m.qual + ': all', ok, 'a path does not look at every '
                   'file', loc)
    n = 0
    for o in r.obs:
        if tail(o.name) in ('add', 'append') and o.args and \
                o.args[0][0] == 'tuple':
            n += 1
            ck.require(rule, m.qual + ': entry', entry(o.args[0]),
                       'keeps %s' % show(o.args[0])[:80], o.loc)
            bad = [(f, p) for f, p in o.state.facts
                   if f[0] not in ('forall', 'forall_none', 'disj') and
                   any(isinstance(x, tuple) and x and x[0] == 'elem'
                       for x in subterms(f)) and not (
                       p and check_of(f, 0)) and
                   not (f[0] == 'cmp' and f[3] == NONE and not p) and
                   not (f[0] == 'call' and tail(f[1]) == 'isinstance')]
            ck.require(rule, m.qual + ': condition', not bad,
                       'keeps a changed file only if %s' % '; '.join(
                           show(f)[:60] for f, p in bad), o.loc)
    ck.require(rule, m.qual, n or any(strip_copy(t)[0] == 'comp'
                                      for s, t in r.returns),
               'keeps no changed file', loc)
    m = ck.prog.require_method(BE, 'save_call_files')
    it = Interp(ck.prog, SqlPolicy())
    r = ck.explored(it.run(m, cls=c))
    ds = param(m, 1)
    for s, t in r.returns:
        ok = False
        for f, p in s.facts:
            if f[0] == 'forall_none' and f[1] == ds:
                ok = True
            if f[0] == 'forall' and f[1] == ds and f[2][0] == 'did':
                ev = f[2][1]
                e = ('elem', ds)
                ok = ok or (tail(ev[0]) == 'save_call_file' and
                            ev[2] == (param(m, 0), ('item', e, const(0)),
                                      ('item', e, const(2))))
        ck.require(rule, m.qual, ok, 'a path does not record every digest it '
                   'was given', where(m))


def digest(ck):
    rule = 'digest-whole-content'
    fi = ck.prog.require_method('fbuild.path.Path', 'digest')
    c = ck.prog.require_class('fbuild.path.Path')

    class P(Policy):
        transparent = ()
    r = ck.explored(Interp(ck.prog, P()).run(fi, cls=c))
    loc = where(fi)
    me = ('self', c.qual)
    opened = [o for o in r.obs if tail(o.name) == 'open']
    for o in opened:
        who = as_path(o.args[0]) if o.args else o.recv
        ck.require(rule, fi.qual + ': file', who == me,
                   'reads %s' % show(who)[:60], o.loc)
        mode = o.arg(1 if tail(o.name) == 'open' and o.args and
                     o.args[0] == me else 0, 'mode')
        ck.require(rule, fi.qual + ': binary', mode is not None and
                   mode[0] == 'const' and 'b' in str(mode[2]),
                   'reads text: line ends and undecodable bytes are not '
                   'compared', o.loc)
    reads = [o for o in r.obs if tail(o.name) in ('read', 'readinto',
                                                  'read_bytes')]
    ups = [o for o in r.obs if tail(o.name) == 'update']
    for s, t in r.returns:
        # either one read of everything, or a loop that ends at the end
        whole = [e for e in s.must if tail(e[0]) == 'read' and not e[2] or
                 tail(e[0]) in ('read_bytes', 'file_digest')]
        eof = any(not p and f[0] == 'call' and tail(f[1]) in
                  ('read', 'readinto') for f, p in s.facts) or any(
            f[0] == 'cmp' and f[1] == 'Eq' and p and any(
                is_call_of(x, 'read') for x in f[2:])
            for f, p in s.facts) or any(
            f[0] in ('forall', 'forall_none') and any(
                is_call_of(x, 'iter') or x == ('elem', f[1])
                for x in subterms(f[1]) if isinstance(x, tuple) and x)
            for f, p in s.facts)
        ck.require(rule, fi.qual + ': end of file', whole or eof,
                   'a path ends before the end of the file', loc)
        ck.require(rule, fi.qual + ': answer', any(
            is_call_of(x, 'hexdigest', 'digest') for x in subterms(t)
            if isinstance(x, tuple) and x) and not any(
            isinstance(x, tuple) and x and x[0] == 'slice'
            for x in subterms(t)),
            'answers %s' % show(t)[:80], loc)
    ck.require(rule, fi.qual + ': content', (reads and ups) or any(
        is_call_of(a, 'read') for o in r.obs for a in o.args) or any(
        tail(o.name) == 'file_digest' for o in r.obs),
        'the content does not reach the hash', loc)
    for o in ups:
        ok = o.args and not any(
            isinstance(x, tuple) and x and x[0] == 'slice'
            for x in subterms(o.args[0]))
        ck.require(rule, fi.qual + ': update', ok,
                   'hashes %s' % (show(o.args[0])[:60] if o.args else ''),
                   o.loc)
        cond = [f for f, p in o.state.facts if f[0] not in
                ('forall', 'forall_none', 'disj') and not any(
                    is_call_of(x, 'read', 'readinto', 'iter') or
                    x[0] == 'elem' for x in subterms(f)
                    if isinstance(x, tuple) and x)]
        ck.require(rule, fi.qual + ': every block', not cond,
                   'hashes a block only if %s' % '; '.join(
                       show(f)[:60] for f in cond), o.loc)
