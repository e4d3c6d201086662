"""Context.execute is followed on every path up to the start of the process, kept
apart by whether an environment, library directories and input were given.  What
the process is started with is compared with the parameters: the program, the
redirections and every other option unchanged, the environment as the mappings it
is filled from, in order (that of the build, then the one given), and the search
path as the value put under the variable the platform uses.  What the process
printed must be logged on every path on which it ran to its end.  The subclass of
Popen must hand everything on, and the wrappers that run a program that was built
must add the directories of its libraries."""
from .common import *

EXECUTE = 'fbuild.context.Context'
POPEN = 'fbuild.subprocess.killableprocess.Popen'
PLATFORM = 'fbuild.builders.platform.runtime_env_libpath'
ENVIRON_COPY = ('os.environ.copy', 'os.environb.copy')
ENVIRON = ('os.environ', 'os.environb')

T = {
    'command': 'the program and arguments started are those given',
    'environment': 'the environment is that of the build, with the variables given replacing it',
    'library-path': 'library directories given are added to the search path of the platform, keeping what it was',
    'streams': 'input and redirections are those asked for',
    'options': 'every other option reaches the process',
    'logged': 'what the command printed is logged',
    'variable': 'the search path of each platform is the one it uses',
    'own-libraries': 'a program that was built finds the libraries it was linked with',
}

GIVEN = ('env', 'runtime_libpaths', 'input')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('subprocess.Popen starts what it is told to')
    m = ck.prog.require_method(EXECUTE, 'execute')
    names = m.params + [a.arg for a in m.node.args.kwonlyargs]
    for p in GIVEN + ('cmd', 'stdin', 'stdout', 'stderr'):
        if p not in names:
            ck.require('options', m.qual, False, 'it has no parameter %s' % p,
                       where(m))
            return
    started(ck, m)
    logged(ck, m)
    popen(ck)
    variable(ck)
    own(ck)
    for k in T:
        ck.at_least(k, 1)


def report(ck, m, bad, rules):
    for rule in rules:
        got = sorted((n, w) for (k, w), n in bad.items() if k == rule)
        ck.require(rule, m.qual, not got, '; '.join(w for n, w in got),
                   '%s:%d' % (m.module.relpath, got[0][0] if got and
                              got[0][0] else m.node.lineno))


def given(s, name):
    """Was this parameter given?  None if it is not known."""
    v = ('param', name)
    x = s.holds(v)
    if x is None and s.holds(('cmp', 'Is', v, NONE)) is True:
        x = False
    return x


def truth(s, name):
    v = ('param', name)
    n = s.holds(('cmp', 'Is', v, NONE))
    return (s.holds(v), n)


class Start(Policy):
    """ts: layers = what a mapping was filled with later; put = variables set
    afterwards; over = the process was started"""
    max_states = 200
    bad = None
    started = 0

    def ignored(self, name):
        return True

    def may_raise(self, name, recv):
        return False

    def may_miss(self, coll, key):
        return True

    def say(self, rule, why, node):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)

    def on_catch(self, s, types, exc):
        if types and set(map(tail, types)) <= {'KeyError', 'LookupError'}:
            s.ts['missing'] = s.ts.get('missing', ()) + tuple(without(s))

    def keep(self, s):
        if s.ts.get('over'):
            return ()
        return tuple(truth(s, n) for n in GIVEN)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        t = tail(name)
        if ts.get('over'):
            return
        if t in ('update', '__ior__') and recv is not None and (
                args or kwargs):
            more = tuple(args) + tuple(v for k, v in kwargs if k == '**')
            ts['layers'] = ts.get('layers', ()) + tuple(
                (recv, x) for x in more)
        elif name == 'set.item' and recv is not None and len(args) == 2:
            ts['missing'] = ts.get('missing', ()) + tuple(
                without(s, args[0]))
            if self.environ(recv):
                self.say('environment', 'the environment of the build itself '
                         'is changed', node)
            ts['put'] = ts.get('put', ()) + ((recv, args[0], args[1]),)
        elif name == 'del.item' or t in ('pop', 'clear', 'popitem') and \
                recv is not None and recv[0] != 'attr':
            ts['layers'] = ts.get('layers', ()) + ((recv, None),)
        elif t == 'Popen':
            self.started += 1
            for w in worlds(s):
                self.examine(w, args, dict(kwargs), node)
            ts['over'] = True

    # -- terms

    def layers(self, s, t):
        """What a mapping is filled from, first to last."""
        made = {t}
        while strip_copy(t) != t and not t[4]:
            t = t[3][0]
            made.add(t)
        out = []
        if t[0] == 'phi':
            return [ANY]
        if t[0] == 'call' and t[1] == 'builtins.dict':
            for x in t[3]:
                out += self.layers(s, x)
            for k, v in t[4]:
                out += self.layers(s, v) if k == '**' else [('kv', const(k),
                                                             v)]
        elif t[0] == 'call' and t[1] in ENVIRON_COPY:
            out.append(('global', 'os.environ'))
        elif t[0] == 'call' and tail(t[1]) in ('copy', 'deepcopy'):
            out += self.layers(s, t[2] if t[2] is not None else t[3][0])
        elif t[0] == 'call' and tail(t[1]) == 'ChainMap':
            for x in reversed(t[3]):
                out += self.layers(s, x)
        elif t[0] == 'bin' and t[1] == 'BitOr':
            out += self.layers(s, t[2]) + self.layers(s, t[3])
        elif t[0] == 'dict':
            for x in t[1:]:
                out += [x]
        elif t[0] == 'or':
            x = s.holds(t[1])
            out += self.layers(s, t[2] if x is False else t[1]) \
                if x is not None else [t]
        elif t[0] == 'new' and (t, '$order') in s.heap:
            for x in s.heap[(t, '$order')][1:]:
                out += self.layers(s, x[1]) if x[0] == 'dstar' else [x]
        elif t[0] == 'new':
            got = s.coll.get(t)
            for x in got[1] if got else ():
                if x[0] == 'all':
                    out += self.layers(s, x[1])
                elif x[0] in ('**', 'map'):
                    out += self.layers(s, x[1])
        else:
            out.append(t)
        for r, x in s.ts.get('layers', ()):
            if r in made and not self.environ(r):
                out += self.layers(s, x) if x is not None else [None]
        return out

    def environ(self, t):
        return t is not None and (
            t[0] == 'global' and t[1] in ENVIRON or
            t[0] == 'attr' and t[2] == 'environ')

    # -- what the process is started with

    def examine(self, s, args, kw, node):
        cmd = args[0] if args else kw.get('args')
        if cmd is None or strip_copy(cmd) != ('param', 'cmd'):
            self.say('command', 'it starts %s instead of the command given' % (
                show(cmd)[:60] if cmd else 'nothing'), node)
        for n in ('stdout', 'stderr'):
            if kw.get(n) != ('param', n):
                self.say('streams', 'the %s asked for is not told to the '
                         'process' % n, node)
        i = given(s, 'input')
        x = kw.get('stdin')
        pipe = x is not None and x[0] in ('global', 'attr') and (
            x[1] if x[0] == 'global' else x[2]).endswith('PIPE') or \
            x == const(-1)
        if i is not False and not pipe and not (
                x is not None and i is None and x[0] in ('or', 'phi')):
            self.say('streams', 'input given cannot reach the process', node)
        if i is not True and x != ('param', 'stdin') and not (
                i is None and x is not None and mentions(
                    x, ('param', 'stdin'))):
            self.say('streams', 'the stdin asked for is not told to the '
                     'process', node)
        if kw.get('**') is None or not mentions_kwargs(s, kw['**']):
            self.say('options', 'other options are not handed on to the '
                     'process', node)
        self.environment(s, kw.get('env'), node)

    def environment(self, s, env, node):
        has = given(s, 'env')
        libs = given(s, 'runtime_libpaths')
        if env is None or env == NONE:
            if has is not False or libs is not False:
                self.say('environment', 'the environment given does not '
                         'reach the process', node)
            return
        ls = self.layers(s, env)
        if None in ls:
            self.say('environment', 'variables are taken out of the '
                     'environment', node)
            ls = [x for x in ls if x is not None]
        at = [i for i, x in enumerate(ls) if self.environ(x)]
        me = [i for i, x in enumerate(ls) if x == ('param', 'env')]
        if not at:
            self.say('environment', 'the environment of the build does not '
                     'reach the process', node)
        if self.environ(env) and libs:
            self.say('environment', 'the environment of the build itself is '
                     'changed', node)
        if has is not False and not me and not (has is None and any(
                mentions(x, ('param', 'env')) for x in ls)):
            self.say('environment', 'variables given do not reach the '
                     'process', node)
        if me and at and max(me) < max(at):
            self.say('environment', 'variables of the build replace those '
                     'given', node)
        puts = [(k, v) for r, k, v in s.ts.get('put', ())
                if r == env or not self.environ(r) and r in copies(env)]
        keys = [(k, v) for k, v in puts if variable_of(k)]
        if [1 for k, v in puts if not variable_of(k)]:
            self.say('environment', 'other variables are set', node)
        lp = ('param', 'runtime_libpaths')
        if libs is False and keys:
            self.say('library-path', 'the search path is changed although no '
                     'directories were given', node)
        if libs is True:
            if not keys:
                self.say('library-path', 'the directories given are not '
                         'added to the search path', node)
            for k, v in keys:
                vs = list(deep(s, v))
                if lp not in vs:
                    self.say('library-path', 'the search path is set without '
                             'the directories given', node)
                elif any(isinstance(x, tuple) and x and x[0] == 'item' and
                         x[1] == lp for x in vs):
                    self.say('library-path', 'only some of the directories '
                             'given are added', node)
                sep = [x for x in vs if x[0] == 'call' and x[1] == '.join' and
                       x[2] is not None and lp in x[3]]
                for x in sep:
                    if x[2] not in PATHSEP:
                        self.say('library-path', 'the directories are joined '
                                 'with %s' % show(x[2])[:30], node)
                asked = [x[1] for x in vs if x[0] == 'item' and len(x) == 3
                         and variable_of(x[2])]
                asked += [x[2] for x in vs if x[0] == 'call' and
                          tail(x[1]) in ('get', 'pop') and x[3] and
                          variable_of(x[3][0])]
                asked += s.ts.get('missing', ())
                asked += without(s, k)
                if not asked:
                    self.say('library-path', 'the search path there was is '
                             'lost', node)
                elif has is not False and not any(
                        self.carries(s, x) for x in asked):
                    self.say('library-path', 'the search path of the '
                             'environment given is lost', node)

    def carries(self, s, t):
        """Can the environment given be in this mapping?"""
        if t is None:
            return True
        p = ('param', 'env')
        return any(x is ANY or x is not None and mentions(x, p)
                   for x in (t, *self.layers(s, t)))


PATHSEP = (('global', 'os.pathsep'), ('global', 'os.path.pathsep'),
           ('attr', ('global', 'os'), 'pathsep'))


def copies(t):
    while strip_copy(t) != t and not t[4]:
        t = t[3][0]
        yield t


def deep(s, t, depth=0):
    """The terms a value is put together from, lists included."""
    for x in (t, *subterms(t)):
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
            if x[0] == 'new' and depth < 4 and s.coll.get(x):
                for i in s.coll[x][1]:
                    for y in i[1:]:
                        yield from deep(s, y, depth + 1)


def without(s, k=None):
    """The mappings known not to have the variable (or a variable)."""
    out = []
    for f, p in s.facts:
        if f[0] == 'cmp' and f[1] == 'In' and not p:
            key, o = f[2], f[3]
        elif f[0] == 'call' and tail(f[1]) == 'get' and f[3] and not p:
            key, o = f[3][0], f[2]
        elif f[0] == 'cmp' and f[1] == 'Is' and p and f[3] == NONE and \
                f[2][0] == 'call' and tail(f[2][1]) == 'get' and f[2][3]:
            key, o = f[2][3][0], f[2][2]
        else:
            continue
        if key == k or k is None and variable_of(key):
            out.append(o)
    return sorted(out, key=repr)


def variable_of(t):
    return t[0] == 'call' and t[1] == PLATFORM


def mentions_kwargs(s, t):
    if mentions(t, ('param', '**kwargs')) or mentions(t, ('param', 'kwargs')):
        return True
    got = s.coll.get(t)
    return bool(got) and any(mentions(x, ('param', '**kwargs'))
                             for x in got[1])


def started(ck, m):
    pol = Start()
    pol.bad = {}
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    if not pol.started:
        pol.say('command', 'no process is started', m.node)
    report(ck, m, pol.bad, ('command', 'environment', 'library-path',
                            'streams', 'options'))


# ------------------------------------------------------------------ its output

class Told(Policy):
    """ts: done = the process was waited for; log = which outputs were logged,
    raw or decoded"""
    max_states = 60
    track_exc = True
    bad = None

    def ignored(self, name):
        return True

    def say(self, rule, why, node):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)

    def may_raise(self, name, recv):
        return tail(name) == 'decode'

    def raised(self, name, recv):
        return 'builtins.UnicodeDecodeError'

    def out(self, t):
        return t[0] == 'item' and t[1][0] == 'call' and \
            tail(t[1][1]) == 'communicate' and t[2][0] == 'const' and \
            t[2][2] in (0, 1)

    def which(self, t):
        return {x[2][2] for x in subterms(t) if isinstance(x, tuple) and
                len(x) == 3 and x[0] == 'item' and self.out(x)} | (
                    {t[2][2]} if len(t) == 3 and self.out(t) else set())

    def keep(self, s):
        return (s.ts.get('log'), s.ts.get('done'))

    def on_event(self, s, name, recv, args, kwargs, node, it):
        t = tail(name)
        ts = s.ts
        if t == 'communicate':
            ts['done'] = ('call', name, recv, tuple(args), tuple(kwargs))
        if t in ('log', 'write') and args and 'ogger' in show(
                recv if recv is not None else ANY) or \
                name.startswith('fbuild.console.Log.'):
            got = set()
            for a in args:
                got |= self.which(a)
            if got:
                ts['log'] = tuple(sorted(got | set(ts.get('log', ()))))
                v = dict(kwargs).get('verbose')
                if v is not None:
                    ps = {x[1] for x in subterms(v) if isinstance(x, tuple)
                          and len(x) == 2 and x[0] == 'param'} | (
                              {v[1]} if v[0] == 'param' else set())
                    for i in got:
                        other = ('stderr_quieter', 'stdout_quieter')[i]
                        own = ('stdout_quieter', 'stderr_quieter')[i]
                        if other in ps and own not in ps:
                            self.say('logged', 'the %s is logged at the '
                                     'level of the other output' % (
                                         'stderr' if i else 'stdout'), node)


def logged(ck, m):
    pol = Told()
    pol.bad = {}
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    n = 0
    for s, t in list(r.returns) + [
            (s, e) for s, e in r.raises if 'Exec' in show(e)]:
        done = s.ts.get('done')
        if not done:
            continue
        n += 1
        for w in worlds(s):
            for i in (0, 1):
                x = ('item', done, const(i))
                empty = any(not p and f == x or p and f[0] == 'cmp' and
                            f[1] == 'Is' and f[3] == NONE and f[2] == x
                            for f, p in w.facts)
                if i not in s.ts.get('log', ()) and not empty:
                    pol.say('logged', 'the %s of the command is not logged' %
                            ('stderr' if i else 'stdout'), m.node)
    if not n:
        pol.say('logged', 'it never waits for the command', m.node)
    report(ck, m, pol.bad, ('logged',))


# ----------------------------------------------------------------- the process

class Hand(Policy):
    max_states = 40
    bad = None

    def ignored(self, name):
        return True

    def say(self, rule, why, node):
        self.bad.setdefault((rule, why), getattr(node, 'lineno', 0))

    n = 0

    def on_event(self, s, name, recv, args, kwargs, node, it):
        kw = dict(kwargs)
        if tail(name) in ('pop', '__delitem__') or name == 'del.item':
            k = args[0] if args else None
            if recv is not None and 'kwargs' in show(recv) and (
                    k is None or k[0] != 'const' or
                    k[2] not in ('preexec_fn',)):
                self.say('options', 'the option %s is taken away' % (
                    show(k) if k else '?'), node)
        if name == 'set.item' and recv is not None and \
                'kwargs' in show(recv) and args[0][0] == 'const' and \
                args[0][2] not in ('preexec_fn', 'start_new_session',
                                   'process_group', 'creationflags'):
            self.say('options', 'the option %s is replaced' % show(args[0]),
                     node)
        if tail(name) == '__init__' and 'killable' not in name:
            self.n += 1
            if not any(a[0] == 'star' and mentions(a, ('param', '*args'))
                       for a in args) and \
                    kw.get('*') is None:
                self.say('options', 'the arguments are not handed on', node)
            if kw.get('**') is None:
                self.say('options', 'the options are not handed on', node)


def popen(ck):
    c = ck.prog.require_class(POPEN)
    m = c.methods.get('__init__')
    if m is None:
        ck.require('options', c.qual, True)
        return
    pol = Hand()
    pol.bad = {}
    ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    if not pol.n:
        pol.say('options', 'the process is not made', m.node)
    report(ck, m, pol.bad, ('options',))


# ------------------------------------------------------------------- platforms

WANT = (('windows', 'PATH'), ('darwin', 'DYLD_LIBRARY_PATH'))


def variable(ck):
    fi = ck.prog.functions.get(PLATFORM)
    if fi is None:
        raise AnalysisBroken('no %s' % PLATFORM)
    r = ck.explored(Interp(ck.prog, Policy()).run(fi))
    seen = set()
    for s, t in r.returns:
        for x in alts(t):
            v = x[2] if x[0] == 'const' else None
            ck.require('variable', fi.qual + ': known', v in (
                'PATH', 'DYLD_LIBRARY_PATH', 'LD_LIBRARY_PATH'),
                'the search path is looked for in %s' % show(x), where(fi))
            seen.add(v)
            yes = {n for n in ('windows', 'darwin', 'cygwin')
                   if about(s, n) is True}
            no = {n for n in ('windows', 'darwin', 'cygwin')
                  if about(s, n) is False}
            ok = {'PATH': 'windows' in yes and 'cygwin' in no,
                  'DYLD_LIBRARY_PATH': 'darwin' in yes,
                  'LD_LIBRARY_PATH': 'darwin' in no and (
                      'windows' in no or 'cygwin' in yes or
                      'windows' not in yes)}.get(v, True)
            ck.require('variable', fi.qual + ': ' + str(v), ok,
                       'answers %s for another platform' % v, where(fi))
    ck.require('variable', fi.qual, seen >= {
        'PATH', 'DYLD_LIBRARY_PATH', 'LD_LIBRARY_PATH'},
        'some platform has no search path', where(fi))


def named(s, f, n):
    return any(x == const(n) for x in subterms(f)) or any(
        x == ('one', const(n)) for c in subterms(f)
        if isinstance(c, tuple) and c and c[0] == 'new'
        for x in (s.coll.get(c) or (0, ()))[1])


def about(s, n):
    """Is the platform known to be (or not to be) this one?"""
    for f, p in s.facts:
        if f[0] == 'bin' and f[1] == 'BitAnd' or f[0] == 'cmp' and \
                f[1] in ('In', 'LtE', 'Lt'):
            if named(s, f, n):
                return p
        if f[0] == 'call' and tail(f[1]) in ('issubset', 'intersection',
                                             'isdisjoint', 'issuperset') \
                and named(s, f, n):
            return p != (tail(f[1]) == 'isdisjoint')
    return None


# ------------------------------------------------------------ running programs

class Own(Policy):
    max_states = 40

    def ignored(self, name):
        return True

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) == 'execute':
            self.got.append((s.copy() if hasattr(s, 'copy') else s, args,
                             dict(kwargs), node))


def own(ck):
    """c.Builder.run: libraries a program was linked with are found."""
    m = ck.prog.require_method('fbuild.builders.c.Builder', 'run')
    pol = Own()
    pol.got = []
    ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    rule = 'own-libraries'
    ck.require(rule, m.qual, pol.got, 'it runs nothing', where(m))
    linked = any(mentions_attr(x, 'libs') for s, args, kw, node in pol.got
                 if kw.get('runtime_libpaths') is not None
                 for x in gather(s, kw['runtime_libpaths']))
    for s, args, kw, node in pol.got:
        loc = '%s:%d' % (m.module.relpath, getattr(node, 'lineno', 0))
        v = kw.get('runtime_libpaths')
        parts = gather(s, v) if v is not None else []
        ck.require(rule, m.qual + ': given',
                   ('param', 'runtime_libpaths') in parts,
                   'the library directories given are not searched', loc)
        ck.require(rule, m.qual + ': linked', any(mentions_attr(x, 'libs') for x in parts) or
            linked and any(mentions_attr(f, 'libs') and (
                not p or f[0] == 'forall_none') for f, p in s.facts),
            'the libraries the program was linked with are not searched',
            loc)
        ck.require(rule, m.qual + ': command', args and
                   strip_copy(args[0]) == ('param', 'cmd'),
                   'another command is run', loc)
        ck.require(rule, m.qual + ': options', '**' in kw,
                   'other options are not handed on', loc)


def mentions_attr(t, name):
    return any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'attr' and
               x[2] == name for x in subterms(t))


def gather(s, t, depth=0):
    """The collections a list is put together from."""
    if depth > 12:
        return []
    if s.coll.get(t) and t[0] == 'call':
        return [y for x in s.coll[t][1] for y in (
            gather(s, x[1], depth + 1) if x[0] == 'all' else [x[1]])]
    t = strip_copy(t)
    if t[0] == 'bin' and t[1] == 'Add':
        return gather(s, t[2], depth + 1) + gather(s, t[3], depth + 1)
    if t[0] == 'call' and tail(t[1]) in ('chain',):
        return [y for x in t[3] for y in gather(s, x, depth + 1)]
    if t[0] in ('list', 'tuple'):
        return [y for x in t[1:] for y in (
            gather(s, x[1], depth + 1) if x[0] == 'star' else [x])]
    if t[0] == 'new' and s.coll.get(t):
        return [y for x in s.coll[t][1] for y in (
            gather(s, x[1], depth + 1) if x[0] == 'all' else [x[1]])] + [t]
    return [t]
