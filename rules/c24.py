"""Every function of the builders that runs a tool, or hands on to one that does,
is followed once for each of its parameters.  On every path that runs the tool the
parameter must be part of what the tool is told (through collections, loops and
helpers), or the path must have asked for it and found nothing to pass on; a
switch must make a difference to what the tool is told.  An attribute named
<option>_flags must be told exactly where the option, or what the object was made
with when it is not given, is on.  Each parameter of a constructor must be kept,
and what keeps it must take part in some command.  An option must not be handed
on under the name of another."""
from .common import *
from sa.interp import baseline_functions
from .c21 import Base, report, terms
from .c23 import (B, RAW, SCANS, Step, abstract, all_params, dotted, held,
                  message, step_name)

T = {
    'passed': 'an option given to a tool takes part in the command it runs',
    'kept': 'an option given to make a tool is kept for its commands',
    'switched': 'the flags of a switch are told exactly where it is on',
    'named': 'an option is handed on as itself',
}

# They run no tool for the user.
OTHER = tuple(B + x for x in ('platform.', 'text.', 'file.', 'find_program',
                              'c.Guesser', 'c.guess'))
# Options that matter where another is given.
ONLY_WHEN = {'profile_flags', 'ranlib_flags', 'default_exes', 'ncompile',
             'platform'}
# What an option is for, where that is not a command of the tool.
EXEMPT = {
    # An archive is made of objects: what these are for is up to the linker.
    'c.gcc.Ar.__call__': ('libs', 'ldlibs', 'external_libs'),
    'c.gcc.Ar.__init__': ('libs', 'libpaths', 'external_libs'),
    'c.msvc.Lib.__call__': ('libs', 'libpaths', 'external_libs'),
    'c.msvc.Lib.__init__': ('libs', 'libpaths', 'external_libs'),
    'ocaml.Builder.uncached_link_lib': ('libs', 'external_libs'),
    # Those who call it place the output.
    'c.msvc.Link._run': ('buildroot',),
    # javac has no switch for it; scalac, made from it, has.
    'java.AbstractCompiler._run': ('optimize',),
    # A question to the tool about itself.
    'c.clang.Clang.version': ('*args', '**kwargs'),
    'c.intel.Intel.version': ('*args', '**kwargs'),
    'llvm.LlvmConfig.__call__': ('*args', '**kwargs'),
    'pkg_config.PkgConfig.__call__': ('*args', '**kwargs'),
    'sdl.SDLConfig.__call__': ('*args', '**kwargs'),
    # It says which steps are taken, and the name of what they make.
    'c.Builder.__init__': ('flags', 'cross_compiler'),
    'ocaml.Ocamlopt.__init__': ('linker',),
    # The profiling compiler is made and offered, and used by nobody.
    'ocaml.Ocaml.__init__': ('ocamlcp', 'make_ocamlcp'),
    'ocaml.ocamlfind.Ocaml.__init__': ('make_ocamlcp',),
    'ocaml.batteries.Ocaml.__init__': ('make_ocamlcp',),
}
# All steps of these accept and drop further positions.
DROPS = ('c.gcc.static', 'c.gcc.shared', 'c.gcc.iphone.', 'cxx.gxx.iphone.',
         'c.msvc.static', 'c.msvc.shared', 'ghc.', 'ocaml.')
# Options of a linker.
LINKED = {'libs', 'external_libs', 'ldlibs'}
# Options that are on or off.
SWITCHES = {'custom', 'debug', 'optimize', 'profile', 'linkpkg', 'static',
            'verbose', 'simulator', 'include_source_dirs', 'defines',
            'platform'}
# They add to what is gone through, leaving out what was seen.
LOOPED = {'include_source_dirs'}
# Whether it is passed on is decided in a helper, by itself.
UNSURE = {'sdk'}
# Options of the probing of a tool, and of what decorates a function.
PROBING = {'src_suffix', 'platform'}
TALK = {'msg1', 'msg2', 'msg', 'color'}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('a tool takes the options it is told into account')
    for fi in runners(ck.prog):
        options(ck, fi)
    memo = {}
    for c in makers(ck.prog):
        kept(ck, c, memo)
    for k in T:
        ck.at_least(k, 1)


def runners(prog):
    known = baseline_functions()
    for q in sorted(prog.functions):
        fi = prog.functions[q]
        if q.startswith(B) and '<locals>' not in q and not fi.is_lambda and \
                not abstract(fi) and fi.name != '__init__' and \
                fi.name not in SCANS and not q.startswith(OTHER) and \
                not fi.name.startswith((
                    'check_', 'require_', '_add_compile_dep')) and \
                q in known:
            yield fi


def runs(fi):
    """Does it run a command itself?"""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
               and n.func.attr in ('execute', '_run')
               for n in ast.walk(fi.node))


def params(fi):
    a = fi.node.args
    names = all_params(fi)
    if fi.cls is not None and names and names[0] in ('self', 'cls'):
        names = names[1:]
    if a.kwarg:
        names.append('**' + a.kwarg.arg)
    if a.vararg:
        names.append('*' + a.vararg.arg)
    q = fi.qual[len(B):]
    return [x for x in names if x != 'ctx' and x not in EXEMPT.get(q, ()) and
            not (x[0] == '*' != x[1] and q.startswith(DROPS))]


def whole(t, both=None):
    """The terms in t; a file is not in its directory, and of two things (both)
    neither is in the other or it."""
    if not isinstance(t, tuple):
        if isinstance(t, frozenset):
            for x in t:
                yield from whole(x, both)
        return
    if t and isinstance(t[0], str):
        yield t
        if t[0] == 'attr' and t[2] == 'parent' or both and \
                t[0] == 'or' and set(t[1:]) == both:
            return
    for x in t:
        yield from whole(x, both)


def reach(s, ts, parents=True, may=2, both=None):
    """All there may be in these, in what they hold as well."""
    seen, todo = set(), list(ts)
    while todo:
        for x in terms(todo.pop()) if parents else \
                whole(todo.pop(), both):
            if x in seen:
                continue
            seen.add(x)
            if x in s.coll:
                for y in s.coll[x][may]:
                    todo.extend(z for z in y[1:] if isinstance(z, tuple))
    return seen


class Option(Step):
    """ts: asked = what is known of the option; ran = a tool was run; hit = the
    option is in what it was told; told = attributes and text it was told"""
    max_states = 5

    def __init__(self, bad, prog, fi, name):
        super().__init__(bad, prog, fi)
        self.name = name
        self.both = None
        self.X = ('param', name)
        self.own = fi.cls and ('attr', ('self', fi.cls.qual), name)
        if fi.cls and not is_none(fi, name):
            self.both = {self.X, self.own}

    def inline(self, fi):
        return super().inline(fi) and not (
            fi.name.startswith('_') and fi.name != '__init__' and
            runs(fi) and fi.qual in baseline_functions())

    def on_iter(self, s, iterable, node, it):
        return ()

    def on_loop(self, s, E, node, it):
        if self.X in reach(s, (E,)):
            s.ts['asked'] = s.ts.get('asked', frozenset()) | {'over'}
        if self.own in reach(s, (E,), False, 2, self.both):
            s.ts['own'] = s.ts.get('own', frozenset()) | {'over'}

    def on_branch(self, s):
        out = set(s.ts.get('asked', ()))
        for f, p in s.facts:
            if f == self.X:
                out.add('on' if p else 'off')
            elif f == ('cmp', 'Is', self.X, NONE):
                out.add('none' if p else 'given')
            elif f[0] not in ('forall', 'forall_none'):
                if any(self.X == x for x in terms(f)):
                    out.add(f[1] if f[0] == 'cmp' else 'other')
                elif f[0] == 'attr' and f[1][0] == 'self' and \
                        f[2] == self.name:
                    out.add('made on' if p else 'made off')
        return {'asked': frozenset(out),
                '-c': next((p for f, p in s.facts if f[0] == 'cmp' and
                            f[1] == 'In' and f[2] == const('-c')),
                           s.ts.get('-c'))}

    def on_event(self, s, name, recv, args, kwargs, node, it):
        told = self.told(s, name, recv, args, kwargs)
        if told is None:
            return
        s.ts['ran'] = True
        if tail(name) == 'execute' or name.startswith('.') and \
                name[1:] == 'cc':
            s.ts['runs'] = True
        got = reach(s, told)
        parts = [x[2][1:3] for x in got if x[0] == 'item' and
                 x[2][0] == 'slice' and x[1] in (self.X, self.own)]
        if len(parts) == 1 and parts[0] != (NONE, NONE):
            self.say('passed', 'only a part of the %s is passed on' %
                     self.name, node)
        v = dict(kwargs).get(self.name)
        if v is not None and it.cur_frame is not None and \
                it.cur_frame.fi is self.fi:
            of = {x[1] for x in reach(s, (v,)) if x[0] == 'param'}
            if of & set(all_params(self.fi)) and self.name not in of:
                self.say('named', '%s is told to be %s' % (
                    ' and '.join(sorted(of)), self.name), node)
        if self.X in reach(s, told, False, 2, self.both) or recv is not None and \
                self.X in set(terms(recv)):
            s.ts['hit'] = True
            if self.X in reach(s, told, False, 1, self.both) or recv is not None and \
                    self.X in set(terms(recv)):
                s.ts['sure'] = True
        if recv is not None and name == '<value>' or held(
                self.prog, name, recv):
            got |= reach(s, (recv,))
        if self.own in reach(s, told, False, 1, self.both) or recv is not None and \
                self.own in set(terms(recv)):
            self.put(s, 'own', 'sure')
        self.put(s, 'told', *self.said(got))
        self.put(s, 'surely', *self.said(reach(s, told, True, 1)))

    def said(self, ts):
        return (x for x in ts if x[0] == 'const' or x[0] == 'attr' or
                x == ('param', self.name + '_flags'))

    def told(self, s, name, recv, args, kwargs):
        n = tail(name)
        fi = self.prog.functions.get(name)
        said = tuple(v for k, v in kwargs if k not in TALK)
        if n == 'execute':
            return args[:1] + tuple(x for x in args if x[0] == 'star') + said
        if name in RAW or held(self.prog, name, recv) or name == '<value>':
            return tuple(x for x in args if not message(x)) + said
        if fi is not None and fi.qual.startswith(B) and \
                fi.name != '__init__' and fi.cls is not None and \
                fi.name not in ('find_program', 'check_version') or \
                name in self.prog.classes and name.startswith(B) or \
                n.startswith(('uncached_', 'build_', 'link_')):
            return args + said + ((recv,) if recv is not None else ())
        if n in ('map', 'map_with_dependencies') and any(
                x[0] == 'partial' for x in args):
            return args + said
        return None


def options(ck, fi):
    bad = {}
    some = False
    for p in params(fi):
        pol = Option(bad, ck.prog, fi, p)
        it = Interp(ck.prog, pol)
        r = it.run(fi, cls=fi.cls)
        ex = [s for s, t in r.returns if s.ts.get('ran')]
        if not ex:
            return
        if not some:
            ck.explored(r)
        some = True
        passed(pol, fi, p, ex)
        switched(pol, fi, p, ex)
        if p in keeps(ck.prog, fi):
            combined(pol, fi, p, ex)
    if some:
        report(ck, fi, bad, ('passed', 'kept', 'switched', 'named'))


def keeps(prog, fi):
    m = fi.cls and fi.cls.find_method('__init__')
    if not m:
        return ()
    if m not in _keeps:
        r = Interp(prog, Made({}, prog, m)).run(m, cls=fi.cls)
        _keeps[m] = {a for s, t in r.returns for (o, a), v in s.heap.items()
                     if o == ('self', fi.cls.qual) and a in all_params(m)}
    return _keeps[m]


_keeps = {}


def compiles(s, p):
    """Is it known that nothing is linked?"""
    return p in LINKED and s.ts.get('-c')


def passed(pol, fi, p, ex):
    hits = [s for s in ex if s.ts.get('hit')]
    for s in ex:
        asked = s.ts.get('asked', frozenset())
        if s.ts.get('hit') or p in ONLY_WHEN and hits or compiles(s, p):
            if s.ts.get('hit') and not s.ts.get('sure') and \
                    'over' not in asked and not compiles(s, p) and \
                    p not in UNSURE:
                pol.say('passed', '%s is passed on only where something else '
                        'is so' % p, fi.node)
            continue
        if not asked - {'made on', 'made off'} and p not in ONLY_WHEN:
            pol.say('passed', 'the command does not take %s into account' % p
                    if hits else 'no command takes %s into account' % p,
                    fi.node)
        elif hits and 'on' in asked and asked <= {'on', 'given'}:
            pol.say('passed', '%s is given but not passed on' % p, fi.node)
    if not hits and p not in SWITCHES:
        pol.say('passed', '%s is not passed on' % p, fi.node)
    elif not hits and p != 'platform':
        difference(pol, fi, p, ex)


def combined(pol, fi, p, ex):
    """What the tool was made with is told as well, or where nothing is given."""
    if p in ONLY_WHEN or not any(s.ts.get('runs') for s in ex):
        return
    alone = p in SWITCHES or is_none(fi, p)
    for s in ex:
        asked = s.ts.get('asked', frozenset())
        if not s.ts.get('own') and not (
                alone and asked & {'on', 'given', 'other', 'made on',
                                   'made off'}) and \
                not compiles(s, p):
            pol.say('kept', 'the %s the object was made with take no part '
                    'in the command' % p, fi.node)


def is_none(fi, p):
    a = fi.node.args
    at = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults))
    pos = a.posonlyargs + a.args
    at.update(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    d = at.get(p)
    return isinstance(d, ast.Constant) and d.value is None


def difference(pol, fi, p, ex):
    """Is something said wherever the switch is on, and not where it is off (or
    the other way round)?"""
    told = {True: [], False: []}
    for s in ex:
        on = is_on(s)
        if on is not None:
            told[on].append((s.ts.get('told', frozenset()),
                             s.ts.get('told' if p in LOOPED else 'surely',
                                      frozenset())))
    may = {k: frozenset().union(*(x for x, _ in v)) for k, v in told.items()}
    if not told[True] or not told[False] or not any(
            all(sure & (may[k] - may[not k]) for _, sure in told[k])
            for k in told):
        pol.say('passed', '%s does not decide what the command is told' % p,
                fi.node)


def is_on(s):
    a = s.ts.get('asked', frozenset())
    if 'on' in a:
        return True
    if 'none' in a or 'off' in a and 'given' not in a:
        return True if 'made on' in a else False if 'made off' in a else \
            False if 'off' in a else None
    if 'off' in a:
        return False
    return None


def switched(pol, fi, p, ex):
    for s in ex if p in SWITCHES and is_none(fi, p) else ():
        asked = s.ts.get('asked', frozenset())
        if 'off' in asked and 'none' not in asked and \
                asked & {'made on', 'made off'}:
            pol.say('switched', 'what the object was made with is asked for '
                    'where %s is given as off' % p, fi.node)
    has = [s for s in ex if any(
        x[0] == 'attr' and x[2] == p + '_flags' or
        x == ('param', p + '_flags') for x in s.ts['told'])]
    if not has:
        return
    for s in ex:
        on = is_on(s)
        if on is None or on != (s in has):
            pol.say('switched', 'the flags of %s are %s where it is %s' % (
                p, 'told' if s in has else 'not told', {
                    None: 'not asked for', True: 'on', False: 'off'}[on]),
                fi.node)


# ----------------------------------------------------------------- constructors

def makers(prog):
    known = baseline_functions()
    for q in sorted(prog.classes):
        c = prog.classes[q]
        m = c.methods.get('__init__')
        if q.startswith(B) and m is not None and m.qual in known and \
                not q.startswith(OTHER) and not failure(c):
            yield c


def failure(c):
    return any(k.qual.endswith(('Error', 'Exception')) or
               k.qual == 'fbuild.ConfigFailed' for k in c.mro())


class Made(Step):
    max_states = 8

    def __init__(self, bad, prog, fi):
        super().__init__(bad, prog, fi)
        self.calls = set()

    def on_event(self, s, name, recv, args, kwargs, node, it):
        n = tail(name)
        if n in ('find_program', 'check_version') or \
                name in self.prog.classes and not failure(
                    self.prog.classes[name]) or n == '__init__' or \
                n == 'execute':
            self.calls |= reach(s, args + tuple(v for _, v in kwargs))


class Uses(Option):
    """What of the object is told to a tool, or decides what is."""

    def __init__(self, prog, fi, used):
        super().__init__({}, prog, fi, '')
        self.used = used
        self.some = set()

    def on_branch(self, s):
        self.some.update(x for f, p in s.facts for x in terms(f)
                         if x[0] == 'attr')

    def on_loop(self, s, E, node, it):
        self.some |= reach(s, (E,))

    def inline(self, fi):
        return Step.inline(self, fi)

    def note(self, ts):
        self.used.update(x[2] for x in ts if x[0] == 'attr' and
                         x[1][0] == 'self')

    def on_event(self, s, name, recv, args, kwargs, node, it):
        told = self.told(s, name, recv, args, kwargs)
        if held(self.prog, name, recv) and name.startswith('.'):
            self.used.add(name[1:])
        if told is None:
            return
        self.note(reach(s, told) | self.some)
        if recv is not None:
            self.note(set(terms(recv)))
        for f, p in s.facts:
            self.note(set(terms(f)))


def kept(ck, c, memo):
    m = c.methods['__init__']
    bad = {}
    pol = Made(bad, ck.prog, m)
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(m, cls=c))
    me = ('self', c.qual)
    holds = {}
    for s, t in r.returns:
        for (o, a), v in s.heap.items():
            if o == me:
                for x in reach(s, (v,)):
                    if x[0] == 'param':
                        holds.setdefault(x[1], set()).add(a)
        for f, p in s.facts:
            for x in terms(f):
                if x[0] == 'param':
                    holds.setdefault(x[1], set())
    used = set()
    for d in family(ck.prog, c):
        for fi in d.methods.values():
            if fi.name != '__init__' and not fi.name.startswith('check_') \
                    and not abstract(fi):
                k = (fi.qual, d.qual)
                if k not in memo:
                    memo[k] = set()
                    Interp(ck.prog, Uses(ck.prog, fi, memo[k])).run(fi, cls=d)
                used |= memo[k]
    for p in params(m):
        at = holds.get(p)
        if ('param', p) in pol.calls or p in PROBING or \
                p.startswith('requires_') and at is not None:
            continue
        if at is None:
            pol.say('kept', '%s is not kept' % p, m.node)
        elif not at & used:
            pol.say('kept', '%s is kept but no command uses it' % p, m.node)
    report(ck, m, bad, ('kept',))


def family(prog, c):
    """The class, what it is made of and what is made of it."""
    out = list(c.mro())
    for q in sorted(prog.classes):
        d = prog.classes[q]
        if d not in out and any(k is c for k in d.mro()):
            out.append(d)
    return [d for d in out if d.qual.startswith(B)]
