"""The SQL engine's cache() is followed on every path, failing statements
included, with a typestate on its connection.  Every operation that writes must
run inside one transaction: one `with` over the connection, or statements ended
by one commit and, where anything failed, by a rollback.  Nothing reachable from
cache() may end the transaction in between (commit, rollback, executescript, a
nested `with`, schema or transaction statements), no error of a write may be
swallowed inside it, and the connection must not be in autocommit mode.  The
tables that hold remembered results are written by operations that nothing but
cache() calls."""
import ast

from .common import *
from .effects import (WRITES, effects, mem_tables, operations, reach,
                      statements, tables_of)
from .c08 import left_open
from sa import sql

T = {
    'one-transaction': 'everything cache() writes is written inside one transaction',
    'not-ended': 'nothing reachable from cache() ends the transaction early',
    'not-swallowed': 'an error of a write leaves the transaction, which is then rolled back',
    'no-autocommit': 'the connection opens transactions by itself and does not commit each statement',
    'only-cache': 'remembered results are written by nothing but cache()',
}
ENDS = ('commit', 'rollback', 'executescript', 'begin', 'end', 'savepoint',
        'release', 'vacuum', 'attach', 'detach', 'create', 'drop', 'alter',
        'reindex')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    n = 0
    for c in ck.prog.subclasses(BE, proper=True):
        con = connection(ck, c)
        if not con:
            continue
        n += 1
        transaction(ck, c, con)
        not_ended(ck, c, con)
        swallowed(ck, c)
        only_cache(ck, c)
    ck.require('one-transaction', 'engines', n >= 1,
               'no SQL engine was found', '')
    for k in T:
        ck.at_least(k, 1)


def connection(ck, c):
    """Attributes that hold the connection of an SQL engine."""
    m = c.find_method('_connect')
    out = set()
    if m is None:
        return out
    r = run_method(ck, c, m)
    opened = [o for o in r.obs if o.name == 'sqlite3.connect']
    for o in r.obs:
        if o.name == 'set.attr' and len(o.args) > 1 and \
                o.args[1][0] == 'call' and o.args[1][1] == 'sqlite3.connect':
            out.add(o.args[0][2])
    for o in opened:
        kw = dict(o.kwargs)
        bad = [k for k in ('isolation_level', 'autocommit') if k in kw and
               (kw[k] == NONE if k == 'isolation_level' else
                kw[k] not in (FALSE,))]
        if len(o.args) > 3 and o.args[3] == NONE:
            bad.append('isolation_level')
        ck.require('no-autocommit', m.qual, not bad,
                   'the connection is opened with %s' % ', '.join(
                       '%s=%s' % (k, show(kw[k]) if k in kw else None)
                       for k in bad), o.loc)
    later = []
    for b in c.mro():
        for k in getattr(b, 'methods', {}).values():
            for x in ast.walk(k.node):
                if isinstance(x, ast.Attribute) and x.attr in (
                        'isolation_level', 'autocommit') and isinstance(
                        x.ctx, ast.Store):
                    later.append((k, x))
    if out:
        ck.require('no-autocommit', c.qual, not later,
                   later and '%s sets %s' % (later[0][0].name,
                                             later[0][1].attr),
                   where(*later[0]) if later else where(m))
    return out


def writers(ck, c):
    """operations of the engine that write records"""
    out = set()
    for b in c.mro():
        for n in getattr(b, 'methods', {}):
            if n in out or n in ('_connect', '_initialize_database',
                                 '_disconnect', 'close', 'connect', 'cache'):
                continue
            if any(k in ('write', 'remove') for m in reach(ck.prog, c, n)
                   for k, t, x in effects(ck.prog, c, m)):
                out.add(n)
    return out


class Txn(SqlPolicy):
    track_exc = True
    max_states = 600
    con = ()
    writers = ()
    bad = None

    def inline(self, fi):
        if fi.cls is not None and fi.name == 'cache' and any(
                b.qual == BE for b in fi.cls.mro()):
            return True
        return super().inline(fi)

    def may_raise(self, name, recv):
        return tail(name) in self.writers or tail(name) in (
            'execute', 'executemany')

    def is_con(self, t):
        while t is not None and t[0] in ('entered',):
            t = t[1]
        return t is not None and t[0] == 'attr' and t[1][0] == 'self' and \
            t[2] in self.con

    def say(self, rule, why, node):
        self.bad.setdefault((rule, why), getattr(node, 'lineno', 0))

    def wrote(self, s, what, node):
        ts = s.ts
        if ts.get('ended'):
            self.say('one-transaction', '%s runs after the transaction was '
                     'committed' % what, node)
        if not ts.get('with'):
            ts['loose'] = True
        ts['dirty'] = True

    def on_raise(self, s, name, recv, args, node, it):
        if tail(name) in self.writers or tail(name).startswith('execute'):
            s.ts['broken'] = True
            s.ts['dirty'] = True
            if not s.ts.get('with'):
                s.ts['loose'] = True

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        t = tail(name)
        if name == 'with.enter' and self.is_con(recv):
            if ts.get('with'):
                self.say('not-ended', 'a nested transaction block commits '
                         'what was written before it', node)
            ts['with'] = True
        elif name == 'with.exit' and self.is_con(recv):
            ts['with'] = False
            ts['closed'] = True
            if ts.get('dirty'):
                ts['ended'] = True
            ts['dirty'] = False
            ts['broken'] = False
        elif t == 'commit':
            if ts.get('broken'):
                self.say('one-transaction', 'what was written before an '
                         'error is committed', node)
            if ts.get('dirty'):
                ts['ended'] = True
            ts['dirty'] = ts['loose'] = False
        elif t == 'rollback':
            ts['dirty'] = ts['broken'] = ts['loose'] = False
        elif t in self.writers:
            self.wrote(s, t, node)
        elif t in ('execute', 'executemany'):
            ss = sql_of((name, recv, args, kwargs))
            if ss is None or any(x.kind in (
                    'insert', 'update', 'replace', 'delete') for x in ss):
                self.wrote(s, 'a statement', node)


def transaction(ck, c, con):
    m = c.find_method('cache')
    pol = Txn()
    pol.con, pol.writers, pol.bad = con, writers(ck, c), {}
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(m, cls=c))
    wrote = [o for o in r.obs if tail(o.name) in pol.writers]
    for (rule, why), n in sorted(pol.bad.items()):
        ck.require(rule, '%s.cache' % c.qual, False, why,
                   '%s:%d' % (m.module.relpath, n))
    why = []
    for s, t in r.returns:
        if s.ts.get('dirty'):
            why.append('a path ends without committing what it wrote')
    for s, e in r.raises:
        if s.ts.get('dirty'):
            why.append('an error leaves what was written before it to be '
                       'committed by the next transaction')
    ck.require('one-transaction', '%s.cache' % c.qual,
               not why and r.returns and len(wrote) >= 3,
               '; '.join(sorted(set(why))) or
               'only %d writes found' % len(wrote), where(m))
    for o in wrote:
        ck.require('one-transaction', '%s.cache %s' % (c.qual, tail(o.name)),
                   True, '', o.loc)


def not_ended(ck, c, con):
    for m in reach(ck.prog, c, 'cache'):
        if m.name == 'cache':
            continue
        ck.saw(m)
        bad = []
        for x in ast.walk(m.node):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in (
                        'commit', 'rollback', 'executescript', 'backup'):
                bad.append((x, 'it calls %s()' % x.func.attr))
            elif isinstance(x, (ast.With, ast.AsyncWith)):
                for i in x.items:
                    e = i.context_expr
                    if isinstance(e, ast.Attribute) and e.attr in con:
                        bad.append((x, 'its own transaction block commits '
                                    'what was written before'))
            elif isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr == 'connect' and \
                    isinstance(x.func.value, ast.Name) and \
                    x.func.value.id == 'sqlite3':
                bad.append((x, 'it opens another connection'))
        for st, x in statements(ck.prog, m):
            w = st.text.split()[0].lower() if st.text.split() else ''
            if st.kind == 'other' and w in ENDS:
                bad.append((x, 'the statement %s ends the transaction' %
                            w.upper()))
        for v in ast.walk(m.node):
            if isinstance(v, ast.Constant) and isinstance(v.value, str) and \
                    v.value.strip().rstrip(';').split(' ')[0].lower() in (
                        'commit', 'rollback', 'begin', 'end', 'savepoint',
                        'release') and any(
                        isinstance(p, ast.Call) and isinstance(
                            p.func, ast.Attribute) and p.func.attr ==
                        'execute' and v in p.args
                        for p in ast.walk(m.node)):
                bad.append((v, 'the statement %s ends the transaction' %
                            v.value))
        ck.require('not-ended', '%s %s' % (c.qual, m.name), not bad,
                   bad and bad[0][1],
                   where(m, bad[0][0]) if bad else where(m))


class Swallow(SqlPolicy):
    track_exc = True
    max_states = 400

    def may_raise(self, name, recv):
        return True

    writers = ()

    def writes(self, name, recv, args):
        if tail(name) in self.writers:
            return True
        if tail(name) in ('execute', 'executemany'):
            ss = sql_of((name, recv, args, ()))
            return ss is None or any(x.kind in (
                'insert', 'update', 'replace', 'delete') for x in ss)
        return False

    def on_raise(self, s, name, recv, args, node, it):
        if self.writes(name, recv, args):
            s.ts['failed'] = getattr(node, 'lineno', 0) or 1
        else:
            s.ts.pop('failed', None)

    def on_catch(self, s, types, exc):
        ln = s.ts.pop('failed', None)
        if ln and any(t in ('builtins.Exception', 'builtins.BaseException') or
                      t.startswith('sqlite3.') or '.' not in t and t in (
                          'Exception', 'BaseException') or tail(t) in (
                          'Error', 'DatabaseError', 'IntegrityError',
                          'OperationalError') for t in types):
            s.ts['kept'] = ln


def swallowed(ck, c):
    for m in reach(ck.prog, c, 'cache'):
        if m.cls is None:
            continue
        pol = Swallow()
        pol.writers = writers(ck, c) - {m.name}
        r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
        bad = [s for s, t in r.returns if s.ts.get('kept')]
        ck.require('not-swallowed', '%s %s' % (c.qual, m.name), not bad,
                   'a write may fail and the transaction goes on',
                   '%s:%s' % (m.module.relpath, bad[0].ts['kept'])
                   if bad else where(m))


def only_cache(ck, c):
    prog = ck.prog
    tabs = tables_of(prog, c, 'save_call')
    ops = operations(prog)
    holders = set()
    for b in c.mro():
        for n, m in getattr(b, 'methods', {}).items():
            if n in ('_connect', '_initialize_database'):
                continue
            if c.find_method(n) is m and any(
                    k == 'write' and t in tabs
                    for k, t, x in effects(prog, c, m)):
                holders.add(n)
    ck.require('only-cache', '%s tables' % c.qual, tabs and holders,
               'the table of results was not found', c.qual)
    # everything that may lead to a holder other than through cache
    todo, up = list(holders), set()
    while todo:
        n = todo.pop()
        if n in up:
            continue
        up.add(n)
        if n == 'cache':
            continue
        for b in c.mro():
            for k, m in getattr(b, 'methods', {}).items():
                if k == n or c.find_method(k) is not m and not super_of(
                        c, m):
                    continue
                if any(isinstance(x, ast.Attribute) and x.attr == n and
                       (isinstance(x.value, ast.Name) and
                        x.value.id == 'self' or isinstance(
                            x.value, ast.Call)) for x in ast.walk(m.node)):
                    todo.append(k)
    up.discard('cache')
    bad = []
    for fi in prog.functions.values():
        if fi.cls is not None and any(b.qual == BE for b in fi.cls.mro()):
            continue
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute) and x.attr in up and isinstance(
                    x.value, (ast.Attribute, ast.Name)) and 'backend' in \
                    ast.unparse(x.value):
                bad.append((fi, x))
    ck.require('only-cache', '%s callers' % c.qual, not bad,
               bad and '%s asks for %s outside cache()' % (
                   bad[0][0].qual, bad[0][1].attr),
               where(*bad[0]) if bad else c.qual)
    # operations the database asks for must not write results on the side
    for n in sorted(ops - {'cache', '_connect'} - holders):
        if left_open(c.find_method(n)):
            continue
        through = [m for m in reach(prog, c, n) if m.name in holders and
                   n in ('prepare', 'find_call', 'check_function',
                         'find_function')]
        ck.require('only-cache', '%s %s' % (c.qual, n), not through,
                   through and '%s reaches %s' % (n, through[0].name),
                   where(c.find_method(n)))


def super_of(c, m):
    return any(x.name == m.name and x is not m and isinstance(y, ast.Call)
               and isinstance(y.func, ast.Attribute) and
               y.func.attr == m.name for b in c.mro()
               for x in getattr(b, 'methods', {}).values()
               for y in ast.walk(x.node))
