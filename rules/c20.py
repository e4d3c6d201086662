"""The build step of the program is followed with every call in it failing in
every way.  Its loop must go over the targets asked for, in order, and each
iteration must run exactly one thing: the function of the target of that name, or
the installation, and the latter exactly for the name install.  On every path to
the loop install is known to be last or absent, and build is put before it
exactly when no other target but configure was named.  It returns only if nothing
failed and a deletion asked for was done.  Looking a target up must give the one
registered under that name or an error.  In the program itself no failing step may
lead to a normal end, an exit after a failure must have a status that is not
zero, and the build runs only when the build description was loaded."""
from .common import *
from .c14 import is_whole, is_element
from .c17 import Program, MAIN

BUILD = 'fbuild.main.build'
TARGET = 'fbuild.target'
INSTALL = const('install')

T = {
    'each-once': 'each target named runs once, in the order given',
    'install-last': 'an install request is carried out last',
    'build-first': 'when nothing else was named the build runs before installing',
    'stops': 'after a failure nothing later runs and the build does not succeed',
    'deleted': 'a request to delete something not stored is an error',
    'lookup': 'a target name gives the function registered under it, or an error',
    'exit-status': 'every failure ends the program with an error',
    'description': 'a missing or broken build description ends the program with an error',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('what the functions of the build description do is not looked '
              'at')
    build(ck)
    lookup(ck)
    program(ck)
    installing(ck)
    for k in T:
        ck.at_least(k, 1)


class Unknown(Exception):
    pass


DELETES = ('delete_function', 'delete_file')

# targets that may be asked for along with install, and without it
SAMPLES = (('install',), ('configure', 'install'), ('build', 'install'),
           ('other', 'install'), ('configure', 'build', 'install'),
           ('configure', 'other', 'install'), ('other', 'more', 'install'))


class Steps(Policy):
    track_exc = True
    max_states = 60
    bad = None
    ctx = None
    prog = None

    def ignored(self, name):
        return True

    say = Program.say

    # -- terms

    def targets(self, t):
        """Are these the targets asked for (or a copy)?"""
        while t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple',
                                          '.copy'):
            t = t[3][0] if t[3] else t[2]
        if t[0] == 'item' and t[2] == ('slice', NONE, NONE, NONE):
            t = t[1]
        return t == ('attr', ('attr', self.ctx, 'options'), 'targets')

    def named(self, t):
        return t[0] == 'elem' and self.over(t[1])

    def over(self, E):
        return self.targets(E) or E[0] == 'call' and is_whole(E, E) or \
            any(self.targets(x) for x in subterms(E) if isinstance(x, tuple)
                and x and isinstance(x[0], str))

    def found(self, t):
        """The target of the name of this iteration."""
        return t is not None and t[0] == 'call' and \
            t[1] == TARGET + '.find' and len(t[3]) == 1 and self.named(t[3][0])

    # -- what is known

    def on_branch(self, s):
        up = {}
        for f, p in s.facts:
            if f[0] == 'cmp' and f[1] == 'In' and f[2] == INSTALL and \
                    self.targets(f[3]):
                up['inst'] = p
            elif f[0] == 'cmp' and f[1] == 'Eq' and INSTALL in f[2:]:
                o = f[3] if f[2] == INSTALL else f[2]
                if o[0] == 'item' and o[2] == const(-1) and \
                        self.targets(o[1]):
                    up['last'] = p
                elif self.named(o):
                    up['now'] = p
            elif f[0] == 'attr' and f[2] in DELETES and \
                    f[1] == ('attr', self.ctx, 'options') and p:
                up['asked'] = f[2]
            elif f[0] == 'call' and tail(f[1]) in DELETES and p:
                up['gone'] = tail(f[1])
        ways = s.ts.get('ways', SAMPLES)
        left = tuple(w for w in ways if self.possible(s, w))
        if left != SAMPLES:
            up['ways'] = left
        return up

    def possible(self, s, names):
        """May the targets asked for be these, from what is known?"""
        if s.ts.get('added'):
            return True
        for f, p in s.facts:
            try:
                if f[0] == 'forall' and self.targets(f[1]) and \
                        f[2][0] != 'did':
                    got = all(bool(self.value(f[2], s, names, x)) == f[3]
                              for x in names)
                elif f[0] in ('forall', 'forall_none', 'disj'):
                    continue
                else:
                    got = bool(self.value(f, s, names, None))
            except Unknown:
                continue
            if got != p:
                return False
        return True

    def value(self, t, s, names, elem):
        """The value of an expression over the targets if they are names."""
        def val(x):
            return self.value(x, s, names, elem)
        if self.targets(t):
            return list(names)
        k = t[0]
        if k == 'const':
            return t[2]
        if k == 'elem' and elem is not None and self.targets(t[1]):
            return elem
        if k in ('tuple', 'list'):
            return [val(x) for x in t[1:]]
        if k == 'set':
            return {val(x) for x in t[1:]}
        if k == 'new' and t[1] in ('set', 'list', 'tuple'):
            seq = s.heap.get((t, '$seq'))
            if not seq:
                raise Unknown
            return set(val(seq)) if t[1] == 'set' else val(seq)
        if k == 'not':
            return not val(t[1])
        if k == 'comp' and t[1] in ('list', 'set', 'generator', 'gen') and \
                self.targets(t[3]):
            got = []
            for x in names:
                if all(self.value(c, s, names, x) for c in t[4]):
                    got.append(self.value(t[2], s, names, x))
            return set(got) if t[1] == 'set' else got
        if k == 'cmp':
            a, b = val(t[2]), val(t[3])
            try:
                return {'Eq': lambda: a == b, 'In': lambda: a in b,
                        'Lt': lambda: a < b, 'LtE': lambda: a <= b,
                        'Is': lambda: a is b}[t[1]]()
            except (KeyError, TypeError):
                raise Unknown
        if k == 'bin':
            a, b = val(t[2]), val(t[3])
            try:
                return {'Sub': lambda: a - b, 'BitAnd': lambda: a & b,
                        'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                        'Add': lambda: a + b}[t[1]]()
            except (KeyError, TypeError):
                raise Unknown
        if k == 'item':
            a = val(t[1])
            if t[2][0] == 'slice':
                return a[slice(*[val(x) for x in t[2][1:]])]
            try:
                return a[val(t[2])]
            except (IndexError, TypeError):
                raise Unknown
        if k == 'call':
            f = {'builtins.set': set, 'builtins.frozenset': set,
                 'builtins.list': list, 'builtins.tuple': list,
                 'builtins.any': any, 'builtins.all': all,
                 'builtins.len': len, 'builtins.sorted': sorted,
                 'builtins.bool': bool}.get(t[1])
            try:
                if f and len(t[3]) == 1:
                    return f(val(t[3][0]))
                if t[1] in ('.difference', '.issubset', '.issuperset',
                            '.intersection', '.isdisjoint', '.union') and \
                        t[2] is not None:
                    return getattr(set(val(t[2])), t[1][1:])(
                        *[val(x) for x in t[3]])
                if tail(t[1]) in ('count', 'index') and t[2] is not None:
                    return getattr(val(t[2]), tail(t[1]))(val(t[3][0]))
            except (TypeError, ValueError):
                raise Unknown
        raise Unknown

    # -- events

    def may_raise(self, name, recv):
        if name.startswith('builtins.'):
            return name == 'builtins.getattr'
        t = tail(name)
        return not (recv is not None and self.targets(recv)) and \
            not name.startswith(('fbuild.Error', 'set.', 'aug.', 'count.')) \
            and t not in ('log', 'check', 'write', 'append', 'insert')

    def may_lack(self, obj, attr):
        return obj == ROOT or obj[0] == 'global'

    def raised(self, name, recv):
        return 'builtins.AttributeError' if name == 'builtins.getattr' \
            else '?'

    def on_raise(self, s, name, recv, args, node, it):
        if name != 'builtins.getattr':
            s.ts['failed'] = True

    def on_loop(self, s, E, node, it):
        if not self.over(E):
            return
        ts = s.ts
        self.loops.append(node)
        if not self.order(E, ts, s):
            self.say('each-once', 'the loop does not go over the targets in '
                     'the order given', node)
        if ts.get('inst') is not False and ts.get('last') is not True:
            self.say('install-last', 'targets run although install may be '
                     'named before others', node)
        if ts.get('inst') is not False:
            for w in ts.get('ways', SAMPLES):
                self.ways.add((w, bool(ts.get('added'))))
        elif ts.get('added'):
            self.say('build-first', 'build is added although nothing is to '
                     'be installed', node)
        ts['looped'] = min(ts.get('looped', 0) + 1, 2)

    def order(self, E, ts, s):
        if self.targets(E) or is_whole(E, E) and E[0] == 'call' and \
                any(self.targets(x) for x in E[3]) and E[1] in (
                    'builtins.list', 'builtins.tuple', 'builtins.iter'):
            return True
        if E[0] == 'bin' and E[1] == 'Add':
            # targets[:-1] + ['build', 'install']
            a, b = E[2], E[3]
            if a[0] == 'item' and self.targets(a[1]) and \
                    a[2] == ('slice', NONE, const(-1), NONE) and \
                    b[1:] == (const('build'), INSTALL):
                ts['added'] = True
                return True
        if E[0] in ('bin', 'new') and not any(
                isinstance(x, tuple) and x[:1] == ('comp',)
                for x in subterms(E)):
            # what is gone over for each way of asking for install
            kept = put = True
            try:
                for w in ts.get('ways', SAMPLES):
                    names = list(w)
                    got = list(self.value(E, s, names, None))
                    at = names.index('install')
                    kept = kept and got == names
                    put = put and got == names[:at] + ['build'] + names[at:]
            except (Unknown, TypeError):
                return False
            if put:
                ts['added'] = True
            return kept or put
        return False

    def on_iter(self, s, E, node, it):
        if self.over(E):
            s.ts['do'] = 0
            s.ts.pop('now', None)

    def iter_done(self, s, E, node, it):
        if self.over(E):
            n = s.ts.pop('do', 0)
            if n != 1:
                self.say('each-once', 'a target named %s' % (
                    'is passed over' if not n else 'runs more than once'),
                    node)
            s.ts.pop('now', None)
        return ()

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        if name == '.function' and self.found(recv) or \
                name == '<value>' and recv is not None and \
                recv[0] == 'attr' and recv[2] == 'function' and \
                self.found(recv[1]):
            self.runs(s, node)
            if args != (self.ctx,):
                self.say('each-once', 'a target is not given the context',
                         node)
            if ts.get('now') is True:
                self.say('install-last', 'install is looked up like other '
                         'targets', node)
        elif name == 'fbuild.main.install_files' or \
                name == 'fbuild.install.Installer.install':
            self.runs(s, node)
            if ts.get('now') is not True:
                self.say('install-last', 'files are installed for another '
                         'target than install', node)
        elif tail(name) == 'insert' and recv is not None and \
                self.targets(recv):
            self.added(s, args, node)
        elif name == 'set.item' and recv is not None and self.targets(recv):
            ok = args[0][0] == 'slice' and args[0][1] == args[0][2] == \
                const(-1) and args[1][1:] == (const('build'),)
            ts['added'] = True
            if not ok:
                self.say('each-once', 'the targets asked for are changed',
                         node)
        elif recv is not None and self.targets(recv) and tail(name) in (
                'append', 'remove', 'pop', 'sort', 'reverse', 'clear',
                'extend') or name == 'del.item' and self.targets(recv):
            self.say('each-once', 'the targets asked for are changed', node)

    def added(self, s, args, node):
        s.ts['added'] = True
        at, what = (args + (NONE, NONE))[:2]
        if what != const('build'):
            self.say('build-first', 'another target than build is added',
                     node)
        ok = at == const(-1) or at[0] == 'call' and at[1] == '.index' and \
            at[3] == (INSTALL,) and self.targets(at[2]) or \
            at[0] == 'bin' and at[1] == 'Sub' and at[3] == const(1) and \
            at[2][0] == 'call' and at[2][1] == 'builtins.len'
        if not ok:
            self.say('build-first', 'build is not put right before install',
                     node)

    def runs(self, s, node):
        if s.ts.get('failed'):
            self.say('stops', 'a target runs after another failed', node)
        s.ts['do'] = min(s.ts.get('do', 0) + 1, 2)
        self.ran = True




def build(ck):
    m = ck.prog.require_function(BUILD)
    pol = Steps()
    pol.bad, pol.prog = {}, ck.prog
    pol.ctx = ('param', m.params[0])
    pol.loops, pol.ways, pol.ran = [], set(), False
    r = ck.explored(Interp(ck.prog, pol).run(m))
    say = pol.say
    opts = ('attr', pol.ctx, 'options')
    for s, t in r.returns:
        if s.ts.get('failed'):
            say('stops', 'it succeeds although something failed', m.node)
        if s.ts.get('do'):
            say('each-once', 'the targets after one that ran are passed '
                'over', m.node)
        k = s.ts.get('asked')
        if k and s.ts.get('gone') != k:
            say('deleted', 'it succeeds although %s may not have deleted '
                'anything' % k, m.node)
        other = any(s.holds(('attr', opts, k)) is True for k in (
            'delete_function', 'delete_file', 'dump_state'))
        if not s.ts.get('looped') and not other and (
                s.holds(('attr', opts, 'delete_function')) is False):
            say('each-once', 'the targets are not run', m.node)
    for s, t in r.raises:
        if s.ts.get('do') and not s.ts.get('failed'):
            say('each-once', 'it fails after a target ran', m.node)
        if s.ts.get('gone') and not s.ts.get('failed'):
            say('deleted', 'it fails although something was deleted', m.node)
    if not pol.loops:
        say('each-once', 'no loop over the targets was found', m.node)
    for w in SAMPLES:
        alone = not set(w) - {'configure', 'install'}
        if (w, not alone) not in pol.ways:
            continue
        if alone:
            say('build-first', 'files are installed without building when '
                'only %s is named' % ' and '.join(w), m.node)
        else:
            say('build-first', 'build is added when %s are named' %
                ', '.join(w), m.node)
    if not pol.ways:
        say('build-first', 'installing was not found', m.node)
    for c in ('delete_function', 'delete_file'):
        if not any(tail(o.name) == c for o in r.obs):
            say('deleted', '%s is not called' % c, m.node)
    report(ck, m, pol.bad, ('each-once', 'install-last', 'build-first',
                            'stops', 'deleted'))
    # the store says whether there was something to delete
    for k in ('delete_function', 'delete_file'):
        d = ck.prog.require_method(DB, k)
        x = ck.explored(Interp(ck.prog, All()).run(
            d, cls=ck.prog.require_class(DB)))
        ck.require('deleted', d.qual, bool(x.returns) and all(
            t[0] == 'call' and any(k in str(a) for a in (t[1],) + t[3])
            for s, t in x.returns),
            'it does not return what the store said', where(d))


class All(Policy):
    def ignored(self, name):
        return True


class Raw(All):
    track_exc = True

    def may_raise(self, name, recv):
        return False


def report(ck, m, bad, rules):
    for rule in rules:
        got = sorted((n, w) for (k, w), n in bad.items() if k == rule)
        ck.require(rule, m.qual, not got, '; '.join(w for n, w in got),
                   '%s:%d' % (m.module.relpath, got[0][0] if got and
                              got[0][0] else m.node.lineno))


# --------------------------------------------------------------------- targets

def lookup(ck):
    table = ('global', TARGET + '._targets')
    m = ck.prog.require_function(TARGET + '.find')
    r = ck.explored(Interp(ck.prog, Raw()).run(m))
    p = ('param', m.params[0])
    why = []
    for s, t in r.returns:
        if t == ('item', table, p):
            continue
        if t[0] == 'call' and t[1] in ('.get', 'dict.get',
                                       TARGET + '._targets.get') and \
                t[2] in (table, None) and t[3] in ((p,), (p, NONE)) and (
                    s.holds(t) is True or
                    s.holds(('cmp', 'Is', t, NONE)) is False):
            continue
        why.append('it may return something else than the target of that '
                   'name')
    err = ck.prog.require_class('fbuild.Error')
    for s, t in r.raises:
        if s.holds(('cmp', 'In', p, table)) is True:
            continue
        c = ck.prog.classes.get(t[1]) if t[0] == 'exc' else None
        if c is None or err not in c.mro():
            why.append('an unknown target is not reported as a build error')
    if not r.raises:
        why.append('an unknown target is no error')
    ck.require('lookup', m.qual, not why, '; '.join(sorted(set(why))),
               where(m))
    # registering
    n = 0
    for fi in list(ck.prog.functions.values()):
        if not fi.qual.startswith(TARGET + '.') or fi.is_lambda or \
                fi.qual == m.qual:
            continue
        if not any(isinstance(x, ast.Name) and x.id == '_targets'
                   for x in ast.walk(fi.node)):
            continue
        for o in Interp(ck.prog, Raw()).run(fi, cls=fi.cls).obs:
            if o.name != 'set.item' or o.recv != table:
                continue
            n += 1
            k, v = o.args
            ck.require('lookup', fi.qual, k == ('attr', v, 'name') and
                       v[0] == 'call' and v[1] == TARGET + '.Target' and
                       v[3][:1] and v[3][0][0] == 'param',
                       'a target is registered under another name than its '
                       'own', o.loc)
    if not n:
        ck.require('lookup', TARGET, False, 'no target is ever registered',
                   where(m))
    tm = ck.prog.require_method(TARGET + '.Target', '__init__')
    f, name = ('param', tm.params[1]), ('param', 'name')
    got = {}
    for o in ck.explored(Interp(ck.prog, Raw()).run(
            tm, cls=ck.prog.require_class(TARGET + '.Target'))).obs:
        if o.name == 'set.attr' and o.recv[0] == 'self':
            got.setdefault(o.args[0][2], []).append((o.args[1], o.state))
    why = []
    if [v for v, s in got.get('function', ())] != [f]:
        why.append('the function is not kept')
    for v, s in got.get('name', [(NONE, None)]):
        if v == name:
            continue
        if v != ('attr', f, '__name__') or s.holds(name) is not False and \
                s.holds(('cmp', 'Is', name, NONE)) is not True:
            why.append('the name given is not kept')
    ck.require('lookup', tm.qual, not why, '; '.join(sorted(set(why))),
               where(tm))


# ----------------------------------------------------------------- the program

class Ends(Program):
    """ts as in C17; failed = a step failed"""
    exc = '?'

    def raised(self, name, recv):
        return self.exc if self.step(name, recv) == 'build' else '?'

    def on_raise(self, s, name, recv, args, node, it):
        super().on_raise(s, name, recv, args, node, it)
        s.ts['failed'] = True

    def on_event(self, s, name, recv, args, kwargs, node, it):
        super().on_event(s, name, recv, args, kwargs, node, it)
        if self.step(name, recv) == 'build':
            self.builds = True
            ok = False
            for f, p in s.facts:
                if f[0] == 'call' and f[1] == 'builtins.isinstance' and \
                        f[3][:1] == (ROOT,) and not p:
                    ok = True
            if not ok:
                self.say('description', 'the build runs although the build '
                         'description may not have been loaded', node)


def may_be_zero(s, v):
    """Is v a number found at run time of which nothing is known?  (a text or
    another object counts as a failure)"""
    if v[0] == 'phi':
        return any(may_be_zero(s, x) for x in v[1])
    if v[0] == 'or':
        return may_be_zero(s, v[2])
    if v[0] == 'and':
        return True
    if v[0] == 'const':
        return not v[2]
    number = v[0] == 'attr' and v[2] in ('returncode', 'code', 'status',
                                         'errno') or \
        v[0] == 'call' and v[1] in ('builtins.getattr', 'builtins.int',
                                    'builtins.bool', 'builtins.len')
    return number and s.holds(v) is not True

ROOT = ('global', 'fbuildroot')


def program(ck):
    m = ck.prog.require_function(MAIN)
    bad = {}
    pol = Ends()
    pol.ck, pol.bad, pol.builds = ck, bad, False
    for exc in ('fbuild.Error', 'builtins.KeyboardInterrupt', '?'):
        pol.exc = exc
        r = ck.explored(Interp(ck.prog, pol).run(m))
        for s, t in r.returns:
            if s.ts.get('failed'):
                pol.say('exit-status', 'the program ends normally although a '
                        'step failed', m.node)
            if s.ts.get('made') and not s.ts.get('built') and \
                    not cleaning(s):
                pol.say('exit-status', 'the program ends normally without '
                        'having built anything', m.node)
        for s, t in r.raises:
            if t[0] == 'exc' and tail(t[1]) == 'SystemExit' and \
                    s.ts.get('failed'):
                v = t[2] if len(t) > 2 else NONE
                if v[0] == 'tuple' and len(v) == 2:
                    v = v[1]
                if v[0] == 'const' and not v[2]:
                    pol.say('exit-status', 'the program exits with status 0 '
                            'although a step failed', m.node)
                elif may_be_zero(s, v):
                    pol.say('exit-status', 'the program exits with a status '
                            'that may be 0 although a step failed', m.node)
    pol.bad = {k: v for k, v in bad.items() if k[0] in T}
    if not pol.builds:
        pol.say('exit-status', 'the build is never run', m.node)
    report(ck, m, pol.bad, ('exit-status', 'description'))
    # where the description is loaded
    mod = ck.prog.require_module('fbuild.main')
    why = 'the build description is not imported'
    loc = '%s:1' % mod.relpath
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Try) and any(
                isinstance(x, ast.Import) and
                any(a.name == 'fbuildroot' for a in x.names)
                for x in n.body):
            loc = '%s:%d' % (mod.relpath, n.lineno)
            why = ''
            for h in n.handlers:
                keeps = h.name and any(
                    isinstance(x, ast.Assign) and
                    isinstance(x.value, ast.Name) and x.value.id == h.name
                    and any(isinstance(y, ast.Name) and y.id == 'fbuildroot'
                            for y in x.targets) for x in h.body)
                if not keeps and not any(isinstance(x, ast.Raise)
                                         for x in h.body):
                    why = 'the error of loading the build description is ' \
                        'lost'
        elif isinstance(n, ast.Import) and any(
                a.name == 'fbuildroot' for a in n.names) and \
                n in mod.tree.body:
            why = ''
    ck.require('description', 'fbuild.main', not why, why, loc)


def cleaning(s):
    return any(p and f[0] == 'attr' and f[2] == 'clean_buildroot'
               for f, p in s.facts)


def installing(ck):
    m = ck.prog.require_function('fbuild.main.install_files')
    r = ck.explored(Interp(ck.prog, Raw()).run(m))
    ctx = ('param', m.params[0])
    did = [o for o in r.obs if o.name == 'fbuild.install.Installer.install']
    ck.require('install-last', m.qual, len(did) >= 1 and all(
        o.recv[0] == 'call' and ctx in o.recv[3] for o in did) and
        not r.raises, 'it does not install the files of the context',
        where(m))
