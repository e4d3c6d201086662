"""Backend.connect is enumerated for every engine with a typestate: a path may
end only where the versions compared equal after the last connection, where
there is no state file, or where the file was removed and connected again; the
connection is dropped before the removal and nothing is saved in between.  For
each engine, every path of _connect that takes records from the file must take
the version from where close() puts it (or one no engine uses); close() must
write the current one on every path.  Context.load_configuration is run once
per forcing option, assumed set: when it connects, the state file must have
been removed or found missing."""
import ast

from .common import *
from . import c09
from .effects import mem_tables
from sa import sql

T = {
    'discarded': 'connecting to state of another version ends in a new connection to a new file',
    'not-saved': 'nothing is saved between finding another version and removing the file',
    'dropped': 'the connection to the old file is dropped before the file is removed',
    'version-read': 'the version of a connected file is the one stored in it',
    'version-written': 'a file saved by this version carries this version',
    'comparison': 'version() and latest_version() are the version read and the current one',
    'forced': 'a forced rebuild or configuration removes the state before connecting',
}
CONTEXT = 'fbuild.context.Context'
OPTIONS = ('force_rebuild', 'force_configuration')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    cs = [c for c in ck.prog.subclasses(BE, proper=True)]
    ck.require('discarded', 'engines', len(cs) >= 3,
               'only %d storage engines found' % len(cs), '')
    comparison(ck, cs)
    for c in cs:
        connect(ck, c)
        if c09.state_attrs(ck, c) and keeps(ck, c):
            if mem_tables(ck.prog, c):
                pickled(ck, c)
            else:
                relational(ck, c)
    forced(ck)
    for k in T:
        ck.at_least(k, 1)


def keeps(ck, c):
    """Does the engine keep its state in the file?"""
    m, r = c09.load_run(ck, c)
    return any(o.name in ('builtins.open', 'io.open') or
               tail(o.name) == 'connect' for o in r.obs)


# ------------------------------------------------------------------------------

def constants_of(c, name):
    for b in c.mro():
        if not hasattr(b, 'node'):
            continue
        for st in b.node.body:
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in st.targets):
                return st.value
    return None


def comparison(ck, cs):
    base = ck.prog.require_class(BE)
    for name, attr in (('version', '_version'),
                       ('latest_version', '_LATEST_VERSION')):
        for c in cs:
            m = c.find_method(name)
            r = run_method(ck, c, m)
            ok = r.returns and all(
                t[0] == 'attr' and t[2] == attr and t[1][0] in (
                    'self', 'param', 'type', 'global')
                for s, t in r.returns)
            ck.require('comparison', '%s %s' % (c.qual, name), ok,
                       '%s() is not %s' % (name, attr), where(m))
    null = constants_of(base, '_NULL_VERSION')
    for c in cs:
        v = constants_of(c, '_LATEST_VERSION')
        n = constants_of(c, '_NULL_VERSION')
        ok = isinstance(v, ast.Constant) and v.value is not None and (
            n is None or isinstance(n, ast.Constant) and n.value != v.value)
        ck.require('comparison', '%s _LATEST_VERSION' % c.qual, ok,
                   'the current version is not a constant different from the '
                   'one of files without a version', c.qual)


# ------------------------------------------------------------------------------

class Connect(SqlPolicy):
    """ts: n = connections made, removed = the file was removed after the
    last one, open = the connection may still be open"""
    max_states = 400
    me = None
    bad = None
    names = ('connect', 'version', 'latest_version', '_disconnect', 'close')

    def inline(self, fi):
        if fi.cls is not None and fi.name in self.names:
            return True
        return super().inline(fi)

    def keep(self, s):
        return (any(same_version(w, self.me) for w in worlds(s)),
                any(no_file(w, self.me, self.attrs) for w in worlds(s)))

    def on_event(self, s, name, recv, args, kwargs, node, it):
        t = tail(name)
        ln = getattr(node, 'lineno', 0)
        ts = s.ts
        if t == '_connect' and (recv is None or recv[0] in ('self',
                                                            'super')):
            ts['n'] = min(ts.get('n', 0) + 1, 3)
            ts['clean'] = ts.get('removed', False)
            ts['removed'] = False
            ts['open'] = True
            # what was compared before says nothing about this connection
            s.facts = frozenset(f for f in s.facts if not (
                f[0][0] == 'cmp' and version_of(f[0][2], self.me) or
                f[0][0] == 'cmp' and version_of(f[0][3], self.me)))
        elif name in c09.REMOVES:
            x = recv if name.startswith('.') else args[0] if args else NONE
            if self.file(x):
                if ts.get('open') and self.holds:
                    self.bad.setdefault('dropped', ln)
                if ts.get('saved'):
                    self.bad.setdefault('not-saved', ts['saved'])
                ts['removed'] = True
        elif t == 'close' and recv is not None and recv[0] == 'attr' and \
                recv[1] == self.me:
            ts['open'] = False
        elif t == 'commit' or name in c09.MOVES or t == 'with.exit' and \
                recv is not None and recv[0] == 'attr' and \
                recv[1] == self.me:
            if ts.get('n'):
                ts['saved'] = ln
        elif name in ('builtins.open', 'io.open') and ts.get('n'):
            mode = args[1] if len(args) > 1 else dict(kwargs).get(
                'mode', const('r'))
            if mode[0] != 'const' or set(str(mode[2])) & set('wax+'):
                ts['saved'] = ln

    def file(self, x):
        x = as_path(x)
        return x[0] == 'attr' and x[1] == self.me and x[2] in self.attrs


def version_of(t, me):
    return t[0] == 'attr' and t[2] == '_version' and t[1] == me or \
        t[0] == 'call' and tail(t[1]) == 'version'


def latest(t):
    return t[0] == 'attr' and t[2] == '_LATEST_VERSION' or \
        t[0] == 'call' and tail(t[1]) == 'latest_version'


def same_version(s, me):
    for f, p in s.facts:
        if f[0] == 'cmp' and f[1] == 'Eq' and p and (
                version_of(f[2], me) and latest(f[3]) or
                version_of(f[3], me) and latest(f[2])):
            return True
    return False


def no_file(s, me, attrs):
    for f, p in s.facts:
        x = f[2] if f[0] == 'cmp' and f[1] == 'Is' and f[3] == NONE else f
        want = x is not f
        if p == want and x[0] == 'attr' and x[1] == me and x[2] in attrs:
            return True
    return False


def connect(ck, c):
    m = c.find_method('connect')
    me = ('self', c.qual)
    attrs = c09.state_attrs(ck, c) or {'_file_name'}
    pol = Connect()
    pol.me, pol.attrs, pol.bad = me, attrs, {}
    pol.holds = any(tail(o.name) == 'connect'
                    for o in c09.load_run(ck, c)[1].obs)
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(m, cls=c))
    why = []
    for s, t in r.returns:
        if not s.ts.get('n'):
            why.append('a path never connects')
        elif s.ts.get('removed'):
            why.append('a path removes the file and does not connect again')
        elif not all(s.ts.get('clean') or same_version(w, me) or
                     no_file(w, me, attrs) for w in worlds(s)):
            why.append('a path keeps the connection to state whose version '
                       'was not found to be the current one')
    ck.require('discarded', '%s connect' % c.qual, not why and r.returns,
               '; '.join(sorted(set(why))), where(m))
    for rule, text in (
            ('not-saved', 'the old state is saved, with the current version, '
             'before its file is removed'),
            ('dropped', 'the file is removed while the connection to it is '
             'open')):
        ck.require(rule, '%s connect' % c.qual, rule not in pol.bad, text,
                   '%s:%d' % (m.module.relpath, pol.bad.get(rule,
                                                            m.node.lineno)))


# ------------------------------------------------------------------------------

def pickled(ck, c):
    me = ('self', c.qual)
    tabs = mem_tables(ck.prog, c)
    m, dumps = c09.saved(ck, c)
    ver = c09.version_cells(ck, c)
    ok = dumps and all(any(c09.constant_of(x, me) == '_LATEST_VERSION'
                           for x in c09.cells(v, o.state).values())
                       for o, v in dumps)
    ck.require('version-written', m.qual, ok,
               'the saved value does not hold the current version', where(m))
    m, r = c09.load_run(ck, c)
    for i, (s, t) in enumerate(r.returns):
        vals = {a: v for (o, a), v in s.heap.items() if o == me}
        pos = {a: c09.position(vals[a]) for a in tabs if a in vals}
        some = [p for p in pos.values() if p is not None]
        if not some:
            continue
        v = vals.get('_version')
        p = c09.position(v) if v is not None else None
        data = some[0][0]
        if p is not None and p[0] == data and not isinstance(p[1], tuple):
            ok = p[1] in ver
            why = 'the version is read from position %s and saved in %s' % (
                p[1], sorted(ver, key=str))
            if ok and isinstance(p[1], int):
                ok = excludes_unversioned(s, data, len(tabs)) or \
                    equal_latest(s, v)
                why = 'a file without a version is taken for one with a ' \
                    'version'
        else:
            x = p[1][1] if p is not None and isinstance(p[1], tuple) else v
            ok = x is not None and c09.constant_of(x, me) == '_NULL_VERSION'
            why = 'records are taken from the file but the version is not'
        ck.require('version-read', '%s path %d' % (m.qual, i + 1), ok, why,
                   where(m))


def equal_latest(s, v):
    return any(f[0] == 'cmp' and f[1] == 'Eq' and p and (
        f[2] == v and latest(f[3]) or f[3] == v and latest(f[2]))
        for f, p in s.facts)


def excludes_unversioned(s, data, n):
    """The path knows that the value does not have just the n tables."""
    for f, p in s.facts:
        if f[0] != 'cmp':
            continue
        a, b = f[2], f[3]
        op = f[1]
        if a[0] == 'const':
            a, b = b, a
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE',
                  'GtE': 'LtE'}.get(op, op)
        if b[0] != 'const' or not isinstance(b[2], int) or not (
                a[0] == 'call' and tail(a[1]) == 'len' and a[3][0] == data):
            continue
        k = b[2]
        holds = {'Eq': n == k, 'Lt': n < k, 'Gt': n > k, 'LtE': n <= k,
                 'GtE': n >= k}.get(op)
        if holds is not None and holds != p:
            return True
    return False


# ------------------------------------------------------------------------------

class Close(SqlPolicy):
    me = None
    one = False

    def inline(self, fi):
        if fi.cls is not None and fi.name == '_disconnect':
            return True
        return super().inline(fi)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        if tail(name) in ('execute', 'executemany'):
            ss = sql_of((name, recv, args, kwargs)) or ()
            for st in ss:
                if (st.table or '').lower() != 'version':
                    continue
                if st.kind == 'delete' and not st.where:
                    ts['v'] = 'none'
                elif st.kind in ('insert', 'update', 'replace'):
                    if st.kind == 'update' and st.where:
                        ts['v'] = 'other'
                        continue
                    good = binds((name, recv, args, kwargs), self.one)
                    known = null_known(s, self.me)
                    if st.kind == 'update':
                        ts['v'] = 'ok' if good and known is False else \
                            'other' if not good or known else 'maybe'
                    elif ts.get('v') == 'none' or known or \
                            ts.get('v') == 'maybe':
                        ts['v'] = 'ok' if good else 'other'
                    else:
                        ts['v'] = 'other'
                    ts['c'] = False
        elif tail(name) == 'commit':
            ts['c'] = True
        elif name == 'with.exit' and recv is not None and \
                recv[0] == 'attr' and recv[2] == 'conn':
            ts['c'] = True


def binds(e, one):
    """The statement stores the current version."""
    p = sql_param(e, 0)
    if p is None and one and len(e[2]) > 1:
        # a string of one character is a sequence of one value
        p = e[2][1]
    return p is not None and latest(p)


def null_known(s, me):
    for f, p in s.facts:
        if f[0] == 'cmp' and f[1] == 'Eq':
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                if version_of(a, me) and b[0] == 'attr' and \
                        b[2] == '_NULL_VERSION':
                    return p
                if version_of(a, me) and latest(b) and p:
                    return False
    return None


def relational(ck, c):
    me = ('self', c.qual)
    m, r = c09.load_run(ck, c)
    for i, (s, t) in enumerate(r.returns):
        v = s.heap.get((me, '_version'))
        name = '%s path %d' % (m.qual, i + 1)
        if v is None:
            ck.require('version-read', name, False,
                       'a path connects without reading the version',
                       where(m))
            continue
        rc = row_column(v)
        if rc is not None:
            ok = rc[2] == 'version' and (rc[1].table or
                                         '').lower() == 'version'
            why = 'the version is read from %s.%s' % (rc[1].table, rc[2])
        else:
            empty = emptiness(s, lambda x: rows(x))
            ok = c09.constant_of(v, me) == '_NULL_VERSION' and \
                empty == {True}
            why = 'the version is not read from the file although it may ' \
                'hold one'
        ck.require('version-read', name, ok, why, where(m))
    m = c.find_method('close')
    pol = Close()
    pol.me = me
    v = constants_of(c, '_LATEST_VERSION')
    pol.one = isinstance(v, ast.Constant) and isinstance(
        v.value, str) and len(v.value) == 1
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(m, cls=c))
    for s, t in r.returns:
        same = same_version(s, me) and not s.ts.get('v')
        ck.require('version-written', m.qual,
                   same or s.ts.get('v') == 'ok' and s.ts.get('c'),
                   'a path closes the database without committing the '
                   'current version to it', where(m))


def rows(x):
    q = query_of(x)
    ss = sql_of(q) if q is not None else None
    return bool(ss) and ss[0].kind == 'select' and \
        (ss[0].table or '').lower() == 'version'


# ------------------------------------------------------------------------------

class Force(Policy):
    def on_raise(self, s, name, recv, args, node, it):
        if name in c09.REMOVES:
            s.ts['failed'] = as_path(
                recv if name.startswith('.') else args[0] if args else NONE)
        else:
            s.ts.pop('failed', None)

    def on_catch(self, s, types, exc):
        # a removal that failed because there is no such file
        f = s.ts.pop('failed', None)
        if f is not None and set(map(tail, types)) == {'FileNotFoundError'}:
            s.ts['gone'] = s.ts.get('gone', frozenset()) | {f}

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name in c09.REMOVES:
            x = recv if name.startswith('.') else args[0] if args else NONE
            s.ts['gone'] = s.ts.get('gone', frozenset()) | {as_path(x)}


def forced(ck):
    c = ck.prog.require_class(CONTEXT)
    m = ck.prog.require_method(CONTEXT, 'load_configuration')
    me = ('self', c.qual)
    for opt in OPTIONS:
        it = Interp(ck.prog, Force())
        t = ('attr', ('attr', me, 'options'), opt)
        n = 0
        st = State()
        st.facts = frozenset({(t, True)})
        r = ck.explored(it.run(m, cls=c, state=st))
        for o in r.obs:
            if tail(o.name) != 'connect' or not o.args:
                continue
            n += 1
            f = as_path(o.args[0])
            ok = f in o.state.ts.get('gone', ()) or all(
                missing(w, f) for w in worlds(o.state))
            ck.require('forced', '%s %s' % (m.qual, opt), ok,
                       'with the option %s it may connect to the state '
                       'file that was there before' % opt, o.loc)
        ck.require('forced', '%s %s connects' % (m.qual, opt), n > 0,
                   'no connection is made', where(m))


def missing(s, f):
    for x, p in s.facts:
        if x[0] == 'call' and tail(x[1]) in ('exists', 'isfile', 'lexists') \
                and not p and f in (as_path(x[2]) if x[2] else None,
                                    as_path(x[3][0]) if x[3] else None):
            return True
    return False
