"""The selection tables are read from the source and every entry is resolved to
the function it names.  Each of these is followed, with no option given and
nothing assumed about the platform, through the functions it delegates to until
the builder is made: the compiler it looks for and the class that drives it must
be those of the entry's compiler, and the object suffix and the library linker
must be those of the column (static or shared).  No entry may come after a more
general one.  The choice itself is followed on every path: an entry may only be
tried when its platform is contained in the actual one, with the function of the
right column, with the general options, those of the kind and the platform's own,
and what is returned must be complete and made from one entry; when all entries
were tried a ConfigFailed must be raised."""
from .common import *
from .c21 import Base, report, terms

MOD = 'fbuild.builders.c'
GUESSER = MOD + '.Guesser'
PLAT = 'fbuild.builders.platform'
PARSE = PLAT + '.parse_platform_options'
MATCH = PLAT + '.platform_match'
GUESS = PLAT + '.guess_platform'
CALL = 'fbuild.functools.call'
IMPORT = 'fbuild.functools.import_function'
IDENTIFY = MOD + '.identify_compiler'
FAILED = 'fbuild.ConfigFailed'

T = {
    'table': 'an entry names an existing function of its language',
    'tool': "an entry's function makes a builder for the entry's compiler",
    'kind': 'the static column makes static builders, the shared column '
            'shared ones',
    'order': 'an entry is not preceded by a more general one',
    'candidates': 'an entry is tried if and only if it fits the platform, with '
                  'the function and the options meant for it',
    'complete': 'what is returned has both builders of one working entry',
    'handed-on': 'the maker given for a tool is used for that tool',
    'missing': 'when no entry works a ConfigFailed is raised',
    'identify': 'a compiler given by name is identified as what it is',
    'options': "the options of a matching platform are applied",
    'matching': 'a platform matches when it has all that is required and '
                'nothing that is excluded',
}

# tag of a compiler -> names of its executables, classes that drive it
TOOLS = {
    'gcc': ('gcc', 'cc'), 'g++': ('g++', 'c++'), 'clang': ('clang',),
    'clang++': ('clang++',), 'icc': ('icc',), 'icpc': ('icpc',),
    'msvc': ('cl', 'cl.exe'), 'msvc++': ('cl', 'cl.exe')}
DRIVER = {
    'gcc': MOD + '.gcc.Gcc', 'g++': MOD + '.gcc.Gcc',
    'clang': MOD + '.clang.Clang', 'clang++': MOD + '.clang.Clang',
    'icc': MOD + '.intel.Intel', 'icpc': MOD + '.intel.Intel',
    'msvc': MOD + '.msvc.Cl', 'msvc++': MOD + '.msvc.Cl'}
FAMILY = [{'gcc', 'g++'}, {'clang', 'clang++'}, {'icc', 'icpc'},
          {'msvc', 'msvc++'}]
# what names a compiler: executable or text of its --version
NAMES = {
    'gcc': 0, 'g++': 0, 'cc': 0, 'c++': 0, 'colorgcc': 0,
    'Free Software Foundation': 0, 'clang': 1, 'clang++': 1, 'icc': 2,
    'icpc': 2, 'ICC': 2, 'cl': 3, 'cl.exe': 3, 'Microsoft': 3}
LANG = {'c': {'gcc', 'clang', 'icc', 'msvc'},
        'c++': {'g++', 'clang++', 'icpc', 'msvc++'}}
PACKAGE = {'c': 'fbuild.builders.c.', 'c++': 'fbuild.builders.cxx.'}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('an entry is resolved with the options at their defaults')
    tables(ck)
    bad = {}
    guesser(ck, bad)
    kinds(ck, bad)
    deprecated(ck, bad)
    identify(ck, bad)
    options(ck, bad)
    matching(ck, bad)
    handed_on(ck)
    for k in T:
        ck.at_least(k, 1)


# ------------------------------------------------------------------------ makers

def handed_on(ck):
    """A function that is given the makers of several tools."""
    for q in sorted(ck.prog.functions):
        fi = ck.prog.functions[q]
        if not q.startswith('fbuild.builders.') or fi.is_lambda:
            continue
        a = fi.node.args
        makers = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs
                  if x.arg.startswith('make_')}
        if len(makers) < 2:
            continue
        bad = {}
        for o in ck.explored(Interp(ck.prog, Base(bad)).run(
                fi, cls=fi.cls)).obs:
            for k, v in o.kwargs:
                if k not in makers or o.name.startswith(('set.', 'del.')):
                    continue
                has = {x[1] for x in terms(v) if x[0] == 'param'} & makers
                if has and k not in has:
                    bad['handed-on', '%s is used as %s' % (
                        sorted(has)[0], k)] = fi.node.lineno
        report(ck, fi, bad, ('handed-on',))


# ------------------------------------------------------------- reading constants

class Unknown(Exception):
    pass


def value(prog, mod, node, env=None, depth=0):
    """The constant an expression at the top of a module is."""
    if depth > 30:
        raise Unknown(ast.dump(node)[:60])
    env = env or {}

    def ev(n):
        return value(prog, mod, n, env, depth + 1)
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, (ast.Tuple, ast.List)):
        out = []
        for x in node.elts:
            if isinstance(x, ast.Starred):
                out.extend(ev(x.value))
            else:
                out.append(ev(x))
        return tuple(out)
    if isinstance(node, ast.Set):
        return frozenset(ev(x) for x in node.elts)
    if isinstance(node, ast.BinOp):
        a, b = ev(node.left), ev(node.right)
        if isinstance(node.op, ast.Add):
            return a + b
        if isinstance(node.op, ast.BitOr):
            return a | b
        if isinstance(node.op, ast.Mod):
            return a % b
    if isinstance(node, ast.JoinedStr):
        return ''.join(
            x.value if isinstance(x, ast.Constant) else str(ev(x.value))
            for x in node.values)
    if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and \
            len(node.generators) == 1 and not node.generators[0].ifs:
        g = node.generators[0]
        out = []
        for x in ev(g.iter):
            e = dict(env)
            match_target(g.target, x, e)
            out.append(value(prog, mod, node.elt, e, depth + 1))
        return frozenset(out) if isinstance(node, ast.SetComp) else tuple(out)
    if isinstance(node, ast.Name) and node.id in env:
        return env[node.id]
    n = dotted_name(node)
    if n is not None:
        q = mod.resolve_dotted(n)
        m, _, var = q.rpartition('.')
        m = prog.modules.get(m)
        if m is not None and len(m.assigns.get(var, ())) == 1:
            return value(prog, m, m.assigns[var][0], None, depth + 1)
        if m is not None and prog.functions.get(q) is not None:
            return q
    if isinstance(node, ast.Call):
        n = dotted_name(node.func)
        q = mod.resolve_dotted(n) if n else None
        args = [ev(x) for x in node.args]
        if q in ('builtins.tuple', 'builtins.list'):
            return tuple(args[0]) if args else ()
        if q in ('builtins.set', 'builtins.frozenset'):
            return frozenset(args[0]) if args else frozenset()
        f = prog.functions.get(q)
        if f is not None:
            return inline(prog, f, args, {
                k.arg: ev(k.value) for k in node.keywords}, depth)
        if isinstance(node.func, ast.Attribute) and \
                node.func.attr in ('format', 'join', 'union'):
            return getattr(ev(node.func.value), node.func.attr)(*args)
    raise Unknown(ast.dump(node)[:80])


def inline(prog, f, args, kwargs, depth):
    """The value of a call of a function of assignments and one return."""
    env = dict(zip(f.params, args))
    env.update(kwargs)
    for p in f.params:
        if p not in env:
            d = default_node(f, p)
            if d is None:
                raise Unknown(p)
            env[p] = value(prog, f.module, d, None, depth + 1)
    for st in f.node.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            match_target(st.targets[0], value(prog, f.module, st.value, env,
                                              depth + 1), env)
        elif isinstance(st, ast.Return):
            return value(prog, f.module, st.value, env, depth + 1)
        else:
            break
    raise Unknown(f.qual)


def match_target(tgt, v, env):
    if isinstance(tgt, ast.Name):
        env[tgt.id] = v
    elif isinstance(tgt, (ast.Tuple, ast.List)):
        for t, x in zip(tgt.elts, v):
            match_target(t, x, env)
    else:
        raise Unknown(ast.dump(tgt)[:60])


def dotted_name(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        return '.'.join(reversed(parts + [node.id]))
    return None


def default_node(fi, p):
    a = fi.node.args
    params = fi.params
    if p in params:
        i = params.index(p) - (len(params) - len(a.defaults))
        return a.defaults[i] if i >= 0 else None
    ks = [x.arg for x in a.kwonlyargs]
    return a.kw_defaults[ks.index(p)] if p in ks else None


# -------------------------------------------------------------------------- tables

def guessers(prog):
    for m in prog.modules.values():
        for var, vals in m.assigns.items():
            for v in vals:
                if isinstance(v, ast.Call) and dotted_name(v.func) and \
                        m.resolve_dotted(dotted_name(v.func)) == GUESSER:
                    yield m, var, v


def tables(ck):
    prog = ck.prog
    init = prog.require_function(GUESSER + '.__init__')
    names = init.params[1:]
    found = set()
    for m, var, call in guessers(prog):
        args = dict(zip(names, call.args))
        args.update({k.arg: k.value for k in call.keywords})
        try:
            lang, compilers, entries = [
                value(prog, m, args[k]) for k in ('lang', 'compilers',
                                                  'functions')]
        except (Unknown, KeyError) as e:
            raise AnalysisBroken('the table %s.%s cannot be read: %s' % (
                m.name, var, e))
        here = '%s:%d' % (m.relpath, call.lineno)
        q = '%s.%s' % (m.name, var)
        if lang not in LANG:
            continue
        found.add(lang)
        one_table(ck, q, here, lang, frozenset(compilers), entries)
    if found != set(LANG):
        raise AnalysisBroken('no selection table for %s' % ', '.join(
            sorted(set(LANG) - found)))


def one_table(ck, q, here, lang, compilers, entries):
    prog = ck.prog
    ck.require('table', q, compilers == LANG[lang], 'the compilers of the '
               'table are %s' % ', '.join(sorted(compilers)), here)
    seen = []
    for subs, static, shared in entries:
        subs = frozenset(subs)
        name = '%s {%s}' % (q, ', '.join(sorted(subs)))
        tags = subs & compilers
        ck.require('table', name, len(tags) == 1, 'the entry is not for one '
                   'compiler of its language', here)
        before = [x for x in seen if x <= subs]
        ck.require('order', name, not before, 'it is never tried: the more '
                   'general entry {%s} is before it' % ', '.join(
                       sorted(before[0])) if before else '', here)
        seen.append(subs)
        for kind, f in (('static', static), ('shared', shared)):
            what = '%s %s' % (name, kind)
            fi = prog.lookup(prog.canonical(f)) if isinstance(f, str) \
                else None
            ok = fi is not None and hasattr(fi, 'params') and \
                f.startswith(PACKAGE[lang])
            ck.require('table', what, ok, '%s is not a function for this '
                       'language' % f, here)
            if ok and len(tags) == 1:
                made(ck, what, fi, kind, min(tags), subs)


class Make(Base):
    max_states = 40
    max_depth = 14

    def __init__(self, prog):
        super().__init__({})
        self.prog = prog

    def inline(self, fi):
        return fi.cls is None and fi.module.name.startswith(
            ('fbuild.builders.c', 'fbuild.builders.cxx'))

    def model(self, it, name, recv, args, kwargs, st, node):
        # a cached function is its function
        fi = self.prog.functions.get(name)
        if fi is not None and self.inline(fi) and fi.node.decorator_list and \
                len(it.cur_frame.fid) < 16:
            return it.call_function(fi, None, args, kwargs, None, None, st,
                                    node, it.cur_frame)
        return super().model(it, name, recv, args, kwargs, st, node)


def made(ck, what, fi, kind, tag, subs):
    """Follow an entry's function until the builder is made."""
    prog = ck.prog
    pol = Make(prog)
    it = Interp(prog, pol)
    st = State()
    it.bind(fi, 'x', None, (('param', 'ctx'), NONE),
            (('platform', ('param', 'platform')),), st)
    r = ck.explored(it.run(fi, args={k[1]: v for k, v in st.env.items()}))
    n = 0
    for s, t in r.returns:
        for x in alts(t):
            n += 1
            why = builder_of(prog, s, x, kind, tag, subs)
            for rule in ('tool', 'kind'):
                ck.require(rule, what, rule not in why, why.get(rule, ''),
                           fi.loc)
    if not n:
        ck.require('tool', what, False, 'it returns no builder', fi.loc)


def class_of(prog, t):
    return prog.lookup(t[1]) if t[0] == 'call' and t[2] is None and \
        hasattr(prog.lookup(t[1]), 'mro') else None


def subclass(prog, t, qual):
    c = class_of(prog, t)
    return c is not None and c.is_subclass_of(qual)


def builder_of(prog, s, t, kind, tag, subs):
    if not subclass(prog, t, MOD + '.Builder'):
        return {'tool': 'it does not return a C builder'}
    kw = dict(t[4])
    for i, k in enumerate(('compiler', 'lib_linker', 'exe_linker')):
        if k not in kw and len(t[3]) > i + 1:
            kw[k] = t[3][i + 1]
    if 'compiler' not in kw or 'lib_linker' not in kw or \
            'exe_linker' not in kw:
        return {'tool': 'the builder is not made of a compiler and linkers'}
    out = {}
    comp = kw['compiler']
    drivers = [x for x in terms(comp) if x[0] == 'call' and
               any(subclass(prog, x, d) for d in set(DRIVER.values()))]
    if not drivers:
        out['tool'] = 'no known class drives the compiler'
    for d in drivers:
        mine = [q for q in sorted(set(DRIVER.values()))
                if subclass(prog, d, q)]
        # the most special one
        best = max(mine, key=lambda q: len(prog.classes[q].mro()))
        if best != DRIVER[tag]:
            out['tool'] = 'the compiler is driven by %s, which is for ' \
                'another compiler' % tail(best)
        exes = executables(prog, s, d)
        wrong = [e for e in exes if not any(
            e == x or e.endswith('-' + x) for x in TOOLS[tag])]
        if wrong:
            out['tool'] = 'it looks for the compiler %s' % wrong[0]
        if not exes and best != DRIVER['msvc']:
            out['tool'] = 'it is not known which compiler it looks for'
    if tag.endswith('++') and best_is(prog, drivers, DRIVER['msvc++']) and \
            kw.get('src_suffix') not in (const('.cc'), const('.cpp'),
                                         const('.cxx')):
        out['tool'] = 'the sources are not C++ sources'
    # static or shared
    suffixes = {tail(x[1]) for x in terms(comp) if x[0] == 'call' and
                x[1].startswith(PLAT + '.') and
                tail(x[1]).endswith('obj_suffix')}
    if suffixes != {kind + '_obj_suffix'}:
        out['kind'] = 'its objects have the suffix %s' % ', '.join(
            sorted(suffixes) or ['-'])
    lib = kw['lib_linker']
    archive = subclass(prog, lib, MOD + '.gcc.Ar') or \
        subclass(prog, lib, MOD + '.msvc.Lib')
    link = subclass(prog, lib, MOD + '.msvc.DllLink') or \
        subclass(prog, lib, MOD + '.gcc.Linker') and \
        bool({'-shared', '-dynamiclib', '-bundle'} & flags(prog, s, lib))
    if kind == 'static' and not archive:
        out['kind'] = 'its libraries are not archives'
    if kind == 'shared' and not link:
        out['kind'] = 'its libraries are not linked as shared libraries'
    if not (subclass(prog, kw['exe_linker'], MOD + '.gcc.Linker') or
            subclass(prog, kw['exe_linker'], MOD + '.msvc.ExeLink')):
        out['kind'] = 'its executables are not linked by a linker'
    if {'-shared', '-dynamiclib'} & flags(prog, s, kw['exe_linker']):
        out['kind'] = 'its executables are linked as shared libraries'
    if 'avr' in subs and 'tool' not in out and not all(
            x.startswith('avr-') for d in drivers
            for x in executables(prog, s, d)):
        out['tool'] = 'it does not look for the avr compiler'
    return out


def best_is(prog, drivers, q):
    return any(subclass(prog, d, q) for d in drivers)


def strings(prog, s, t):
    """The string constants in a term, those of defaults included."""
    todo = list(terms(t))
    for x in todo:
        if x in s.coll and len(todo) < 2000:
            for y in s.coll[x][2]:
                todo.extend(z for w in y[1:] if isinstance(w, tuple)
                            for z in terms(w))
        if x[0] == 'const' and x[1] == 'str':
            yield x[2]
        elif x[0] == 'default':
            yield from default_strings(prog, x)


def default_strings(prog, x):
    f = prog.functions.get(x[1])
    d = default_node(f, x[2]) if f is not None else None
    if d is not None:
        for n in ast.walk(d):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                yield n.value


def executables(prog, s, d):
    """The compilers a driver is made for."""
    arg = d[3][1] if len(d[3]) > 1 else dict(d[4]).get('exe')
    if arg is None:
        return []
    todo = [arg]
    for x in terms(arg):
        if x[0] == 'call' and tail(x[1]) == 'find_program':
            n = x[3][1] if len(x[3]) > 1 else dict(x[4]).get('names', ANY)
            todo = members(s, n)
            break
    out = []
    for x in todo:
        if x[0] == 'default':
            out += list(default_strings(prog, x))
        else:
            out += rightmost(x)
    return [e.rstrip('/').rpartition('/')[2] for e in out]


def rightmost(t):
    if t[0] == 'bin':
        return rightmost(t[3])
    if t[0] == 'call' and t[3]:
        return rightmost(t[3][-1])
    return [t[2]] if t[0] == 'const' and t[1] == 'str' else []


def members(s, t):
    if t[0] == 'phi':
        return [y for x in t[1] for y in members(s, x)]
    if t in s.coll:
        return [y for x in s.coll[t][2] for y in (
            members(s, x[1]) if x[0] == 'all' else [x[1]])]
    if t[0] in ('tuple', 'list'):
        return list(t[1:])
    if t[0] == 'call' and len(t[3]) == 1:
        return members(s, t[3][0])
    return [t]


def flags(prog, s, t):
    out = set()
    for k, v in t[4]:
        if 'flags' in k:
            out |= set(strings(prog, s, v))
    return out


# -------------------------------------------------------------------- the choice

TABLE = ('attr', ('self', GUESSER), 'functions')
COMPILERS = ('attr', ('self', GUESSER), 'compilers')
ENTRY = elem(TABLE)


def entry_item(i):
    return ('item', ENTRY, const(i))


class Choice(Base):
    """ts: fresh = collections made for this entry; merged = (options, what is
    in them); opts = those the platform's options were applied to"""
    unroll_dicts = True
    max_states = 400

    def on_iter(self, s, iterable, node, it):
        if iterable == TABLE:
            for k in ('fresh', 'failed', 'opts', 'merged'):
                s.ts.pop(k, None)
        return ()

    def iter_done(self, s, iterable, node, it):
        if iterable == TABLE:
            s.ts['all'] = True
        return ()

    def may_raise(self, name, recv):
        return name in (CALL, IMPORT)

    def raised(self, name, recv):
        return FAILED

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['failed'] = True

    def on_catch(self, s, types, exc):
        s.ts.pop('failed', None)

    def put(self, s, k, *v):
        s.ts[k] = s.ts.get(k, frozenset()) | frozenset(v)

    def sources(self, s, t):
        """The collections the options t were made from."""
        out = {x for x in terms(t) if x[0] == 'param'}
        got = s.coll.get(t)
        if got is not None:
            for x in got[2]:
                for y in x[1:]:
                    if isinstance(y, tuple):
                        out |= {z for z in terms(y) if z[0] == 'param'}
        for a, b in s.ts.get('merged', ()):
            if a == t:
                out |= {x for x in terms(b) if x[0] == 'param'}
        return {x[1].lstrip('*') for x in out}

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name in ('copy.deepcopy', 'copy.copy', 'builtins.dict',
                    'fbuild.record.Record', '.copy'):
            t = ('call', name, recv, args, kwargs)
            self.put(s, 'fresh', t)
            for k in ('merged', 'opts'):
                s.ts[k] = frozenset(x for x in s.ts.get(k, ())
                                    if x != t and x[0] != t)
        elif name == '.update' and recv is not None and args:
            self.put(s, 'merged', (recv, args[0]))
        elif name == PARSE:
            f = it.prog.functions[PARSE]
            a = dict(zip(f.params, args))
            a.update(kwargs)
            self.parse(s, a, node)
        elif name == CALL or name == '<value>' and recv is not None and \
                recv[0] == 'call' and recv[1] == IMPORT:
            if name == CALL:
                f, args = args[0] if args else ANY, args[1:]
            else:
                f = recv[3][0]
            self.tried(s, f, args, kwargs, node)

    def platform(self, s, t):
        """Is t the platform together with the compilers to consider?"""
        pos = union(t)
        base = {b for b in pos if is_platform(b)}
        rest = pos - base
        if len(base) != 1 or not self.base_ok(s, base.copy().pop()):
            return False
        if len(rest) != 1:
            return False
        c = rest.pop()
        exe = ('cmp', 'Is', ('param', 'exe'), NONE)
        if s.holds(exe) is True:
            return c == COMPILERS
        both = inter(c)
        return s.holds(exe) is False and COMPILERS in both and \
            len(both) == 2 and any(
                x[0] == 'call' and x[1] == IDENTIFY and
                ('param', 'exe') in x[3] for x in both)

    def base_ok(self, s, b):
        given = s.holds(('cmp', 'Is', ('param', 'platform'), NONE))
        return b[0] == 'param' if given is False else b[0] == 'call'

    def parse(self, s, a, node):
        if a.get('platform_options') != ('param', 'platform_options'):
            self.say('candidates', 'the platform options used are not those '
                     'given', node)
        p = a.get('platform')
        want = union(p) if p is not None else set()
        plats = {x for x in want if is_platform(x)}
        if p is None or p == NONE or entry_item(0) not in want or \
                len(plats) != 1:
            self.say('candidates', 'the platform options are not chosen by '
                     "the platform together with the entry's", node)
        elif any(COMPILERS in inter(x) for x in want):
            self.say('candidates', 'the platform options are chosen by all '
                     'compilers, not by that of the entry', node)
        k = a.get('kwargs')
        if k is not None:
            self.put(s, 'opts', (k, frozenset(self.sources(s, k))))

    def tried(self, s, f, args, kwargs, node):
        kind = {entry_item(1): 'static', entry_item(2): 'shared'}.get(f)
        if kind is None:
            self.say('candidates', 'what is called is not the function of '
                     'the entry', node)
            return
        kw = dict(kwargs)
        fits = [p for f, pol in s.facts for p in [subset(f, pol)] if p]
        if not any(self.platform(s, p) for p in fits):
            self.say('candidates', 'an entry is tried without looking '
                     'whether it is for this platform', node)
        if args[:1] != (('param', 'ctx'),):
            self.say('candidates', 'the context is not passed on', node)
        if ('param', 'exe') not in args[1:2] + (kw.get('exe'),):
            self.say('candidates', 'the executable asked for is not passed '
                     'on', node)
        p = kw.get('platform')
        if p is None or not self.platform(s, p):
            self.say('candidates', 'the platform is not passed on', node)
        opts = [v for k, v in kwargs if k == '**']
        if len(opts) != 1:
            self.say('candidates', 'the options are not passed on', node)
            return
        other = 'shared' if kind == 'static' else 'static'
        src = self.sources(s, opts[0])
        if 'kwargs' not in src:
            self.say('candidates', 'the general options are not passed on',
                     node)
        if kind not in src:
            self.say('candidates', 'the options of the %s builder are not '
                     'passed on' % kind, node)
        if other in src:
            self.say('candidates', 'the options of the %s builder are passed '
                     'to the %s one' % (other, kind), node)
        applied = [b for a, b in s.ts.get('opts', ()) if a == opts[0]]
        if not applied:
            self.say('candidates', "the platform's options are not applied "
                     'to what is passed on', node)
        elif not any({'kwargs', kind} <= b for b in applied):
            self.say('candidates', "the platform's options are applied "
                     'before the others', node)


def union(t):
    """The parts of a union of sets."""
    if t[0] == 'phi':
        return set().union(*[union(x) for x in t[1]])
    if t[0] == 'bin' and t[1] == 'BitOr':
        return union(t[2]) | union(t[3])
    if t[0] == 'call' and t[1] == '.union' and t[2] is not None:
        return set().union(union(t[2]), *[union(x) for x in t[3]])
    if t[0] == 'call' and t[1] in ('builtins.set', 'builtins.frozenset',
                                   '.copy', 'copy.copy'):
        return union(t[3][0] if t[3] else t[2])
    if t[0] == 'bin' and t[1] == 'Sub':
        return {x for x in union(t[2]) if t[3] not in inter(x)}
    if t[0] == 'call' and t[1] == '.difference' and len(t[3]) == 1:
        return {x for x in union(t[2]) if t[3][0] not in inter(x)}
    return {t}


def inter(t):
    if t[0] == 'bin' and t[1] == 'BitAnd':
        return inter(t[2]) | inter(t[3])
    if t[0] == 'call' and t[1] == '.intersection' and t[2] is not None:
        return inter(t[2]).union(*[inter(x) for x in t[3]])
    return {t}


def is_platform(t):
    return t == ('param', 'platform') or t[0] == 'call' and t[1] == GUESS


def subset(f, pol):
    """P when the fact says that the entry's platform is contained in P."""
    a = entry_item(0)
    if f[0] == 'cmp' and f[1] == 'Lt' and f[3] == a and not pol:
        return f[2]
    if f[0] == 'cmp' and f[1] == 'LtE' and f[2] == a and pol:
        return f[3]
    if f[0] == 'call' and pol:
        if f[1] == '.issubset' and f[2] == a:
            return f[3][0]
        if f[1] == '.issuperset' and f[3] == (a,):
            return f[2]
    if not pol and f[0] == 'bin' and f[1] == 'Sub' and f[2] == a:
        return f[3]
    if not pol and f[0] == 'call' and f[1] == '.difference' and f[2] == a:
        return f[3][0]
    return None


def guesser(ck, bad):
    m = ck.prog.require_function(GUESSER + '.__call__')
    pol = Choice(bad)
    r = ck.explored(Interp(ck.prog, pol).run(m))
    n = 0
    for s, t in r.returns:
        for x in alts(t):
            for w in worlds(s):
                n += complete(pol, w, x, m)
    if not n:
        raise AnalysisBroken('the guesser returns no builders')
    for s, e in r.raises:
        if s.ts.get('failed'):
            pol.say('missing', 'an entry that does not work ends the search',
                    m.node)
        elif not (e[1] == FAILED or is_failed(ck.prog, e[1])):
            pol.say('missing', 'it fails with %s' % tail(str(e[1])), m.node)
        elif not s.ts.get('all') and not unidentified(s) and \
                s.holds(('forall_none', TABLE)) is not True:
            pol.say('missing', 'it may give up before all entries were '
                    'tried', m.node)
    if not any(s.ts.get('all') for s, e in r.raises):
        pol.say('missing', 'it does not fail when no entry works', m.node)
    report(ck, m, bad, ('candidates', 'complete', 'missing'))


def is_failed(prog, q):
    c = prog.classes.get(q)
    return c is not None and c.is_subclass_of(FAILED)


def unidentified(s):
    return any(f[0] == 'call' and f[1] == IDENTIFY and not p or
               f[0] == 'cmp' and f[1] == 'Is' and f[2][0] == 'call' and
               f[2][1] == IDENTIFY and p for f, p in s.facts)


def complete(pol, s, t, m):
    if t == NONE:
        pol.say('missing', 'it may return nothing instead of failing', m.node)
        return 0
    got = s.coll.get(t)
    if t[0] == 'call' and got is None:
        # Record(static=..., shared=...)
        items = dict(t[4])
        may = set(items)
        fresh = True
    else:
        items, may = {}, set()
        for x in got[1] if got else ():
            if x[0] == 'kv' and x[1][0] == 'const':
                items[x[1][2]] = x[2]
        for x in got[2] if got else ():
            may.add(x[1][2] if x[0] == 'kv' and x[1][0] == 'const' else None)
        fresh = t in s.ts.get('fresh', ()) or t[0] == 'new'
    for k in ('static', 'shared'):
        if s.holds(('cmp', 'In', const(k), t)) is True and \
                not may & {k, None} and t in s.ts.get('fresh', ()):
            return 0                # cannot be
        vs = [x[2] for x in (got[2] if got else ())
              if x[0] == 'kv' and x[1] == const(k)]
        if vs and s.holds(('cmp', 'In', const(k), t)) is True:
            items.setdefault(k, phi(vs))
    for f, p in s.facts:
        if p and f[0] == 'cmp' and f[1] == 'Eq' and const(2) in f[2:] and \
                any(x[0] == 'call' and x[1] == 'builtins.len' and
                    x[3] == (t,) for x in f[2:]) and fresh and len(may) < 2:
            return 0                    # cannot be
    for i, kind in ((1, 'static'), (2, 'shared')):
        none = s.holds(('cmp', 'Is', ('param', kind), NONE))
        v = items.get(kind)
        if v is None or not fresh:
            pol.say('complete', 'what it returns may lack the %s builder or '
                    'have that of another entry' % kind, m.node)
            continue
        for x in alts(v):
            f = x[3][0] if x[0] == 'call' and x[1] == CALL and x[3] else \
                x[2][3][0] if x[0] == 'call' and x[1] == '<value>' and \
                x[2][0] == 'call' and x[2][1] == IMPORT else None
            if f != entry_item(i) and not (x == NONE and none is True):
                pol.say('complete', 'the %s builder it returns is not made by '
                        'the function of the entry' % kind, m.node)
    return 1


class Opaque(Base):
    def inline(self, fi):
        return fi.qual != GUESSER + '.__call__' and super().inline(fi)

    opaque = (GUESSER + '.__call__',)


def kinds(ck, bad):
    """Guesser.static and shared ask for one kind only and return it."""
    for kind, other in (('static', 'shared'), ('shared', 'static')):
        m = ck.prog.require_function('%s.%s' % (GUESSER, kind))
        pol = Opaque(bad)
        r = ck.explored(Interp(ck.prog, pol).run(m))
        for s, t in r.returns:
            for x in alts(t):
                ok = x[0] == 'attr' and x[2] == kind or \
                    x[0] == 'item' and x[2] == const(kind)
                c = x[1] if ok else None
                if not ok or c[0] != 'call':
                    pol.say('complete', 'it does not return the %s builder '
                            'found' % kind, m.node)
                    continue
                kw = dict(c[4])
                if kw.get(other) != NONE or kind in kw:
                    pol.say('complete', 'it does not ask for the %s builder '
                            'only' % kind, m.node)
                if kw.get('**') != ('param', '**kwargs') or \
                        ('param', 'ctx') not in c[3]:
                    pol.say('candidates', 'the options are not passed on',
                            m.node)
        report(ck, m, bad, ('complete', 'candidates'))


def deprecated(ck, bad):
    for mod in ('fbuild.builders.c', 'fbuild.builders.cxx'):
        for kind in ('static', 'shared'):
            m = ck.prog.functions.get('%s.guess_%s' % (mod, kind))
            if m is None:
                continue
            pol = Base(bad)
            pol.opaque = (GUESSER + '.static', GUESSER + '.shared')
            r = ck.explored(Interp(ck.prog, pol).run(m))
            for s, t in r.returns:
                for x in alts(t):
                    if x[0] != 'call' or \
                            x[1] != '%s.guess.%s' % (mod, kind):
                        pol.say('kind', 'it does not return the %s builder '
                                'of its language' % kind, m.node)
                    elif ('param', '**kwargs') not in terms(x) or \
                            ('param', 'ctx') not in terms(x):
                        pol.say('kind', 'the options are not passed on',
                                m.node)
            report(ck, m, bad, ('kind',))


# -------------------------------------------------------------------- identifying

class Identify(Base):
    max_states = 200

    def may_raise(self, name, recv):
        return tail(name) == 'execute'

    def raised(self, name, recv):
        return 'fbuild.ExecutionError'


def const_set(s, t):
    """The strings of a set of constants."""
    got = s.coll.get(t)
    if got is not None and got[1] == got[2] and all(
            x[0] == 'one' and x[1][0] == 'const' for x in got[2]):
        return {x[1][2] for x in got[2]}
    if t[0] in ('set', 'tuple') and all(x[0] == 'const' for x in t[1:]):
        return {x[2] for x in t[1:]}
    return None


def text_of(t):
    """The constant text of a string or bytes."""
    for x in terms(t):
        if x[0] == 'const' and x[1] in ('str', 'bytes'):
            return x[2].decode() if isinstance(x[2], bytes) else \
                eval_bytes(x[2])
    return None


def eval_bytes(v):
    if v[:2] in ("b'", 'b"'):
        return v[2:-1]
    return v


def identify(ck, bad):
    m = ck.prog.require_function(IDENTIFY)
    pol = Identify(bad)
    r = ck.explored(Interp(ck.prog, pol).run(m))
    n = 0
    for s, t in r.returns:
        for x in alts(t):
            if x == NONE:
                continue
            for w in worlds(s):
                n += identified(pol, w, x, m)
    if n < 2:
        raise AnalysisBroken('identify_compiler was not understood')
    report(ck, m, bad, ('identify',))


def identified(pol, s, t, m):
    exe = ('param', m.params[1])
    if t[0] == 'item' and t[1][0] in ('new', 'default', 'global'):
        # looked up: every row has to be right
        got = s.coll.get(t[1])
        n = 0
        for x in got[2] if got is not None else ():
            if x[0] != 'kv':
                continue
            n += 1
            which = const_set(s, x[2])
            name = x[1][2] if x[1][0] == 'const' else None
            if which is None or name not in NAMES or \
                    which != FAMILY[NAMES[name]]:
                pol.say('identify', 'what says %r is taken for %s' % (
                    name, ', '.join(sorted(which or ['?']))), m.node)
        return n
    which = const_set(s, t)
    if which is None:
        pol.say('identify', 'it is not known what it returns', m.node)
        return 0
    names = set()
    for f, p in s.facts:
        if not p or f[0] != 'cmp':
            continue
        if f[1] == 'Eq' and exe in f[2:]:
            names |= {x[2] for x in f[2:] if x[0] == 'const'}
        elif f[1] == 'In' and f[2] == exe:
            names |= {x[2] for x in terms(f[3]) if x[0] == 'const'} | \
                (const_set(s, f[3]) or set())
        elif f[1] == 'In' and f[2][0] != 'elem':
            v = text_of(f[2])
            if v:
                names.add(v)
    if not names:
        return 0
    for n in names:
        if n in NAMES and which != FAMILY[NAMES[n]]:
            pol.say('identify', '%r is taken for %s' % (
                n, ', '.join(sorted(which))), m.node)
    return 1


# ------------------------------------------------------------------------ options

OPTS = ('param', 'platform_options')
PAIR = elem(OPTS)
ITEMS = ('call', '.items', ('item', PAIR, const(1)), (), ())


class Options(Base):
    max_states = 10

    def matched(self, s, pol):
        for f, p in s.facts:
            if f[0] == 'call' and f[1] == MATCH and p is pol and \
                    ('item', PAIR, const(0)) in f[3]:
                return f
        return None

    def late(self, s, node):
        if s.ts.get('entry') == 'open' and not any(
                s.holds(('forall_none', x)) is True or s.holds(x) is False
                for x in (ITEMS, ITEMS[2])):
            self.say('options', 'the options of a matching entry may be '
                     'passed over', node)
        if s.ts.get('option') == 'open':
            self.say('options', 'an option of a matching entry may not be '
                     'applied', node)

    def on_branch(self, s):
        if s.ts.get('entry') == 'open' and self.matched(s, False):
            return {'entry': 'other'}
        return {}

    def on_iter(self, s, iterable, node, it):
        if iterable == OPTS:
            self.late(s, node)
            s.ts['entry'] = 'open'
        elif self.is_items(iterable):
            self.late_option(s, node)
            f = self.matched(s, True)
            if f is None:
                self.say('options', 'options are applied whether or not the '
                         'platform matches', node)
            else:
                p = f[3][0] if f[3] else ANY
                given = s.holds(('cmp', 'Is', ('param', 'platform'), NONE))
                if p != ('param', 'platform') if given is False else \
                        not (p[0] == 'call' and p[1] == GUESS):
                    self.say('options', 'the options are not matched with '
                             'the platform', node)
            s.ts['option'] = 'open'
        return ()

    def late_option(self, s, node):
        if s.ts.get('option') == 'open':
            self.say('options', 'an option of a matching entry may not be '
                     'applied', node)

    def is_items(self, t):
        return t == ITEMS or t == ('item', PAIR, const(1))

    def iter_done(self, s, iterable, node, it):
        if iterable == OPTS:
            self.late(s, node)
            s.ts.pop('entry', None)
            s.ts['done'] = True
        elif self.is_items(iterable):
            self.late_option(s, node)
            s.ts.pop('option', None)
            s.ts['entry'] = 'done'
        return ()

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == 'set.item' and recv == ('param', 'kwargs'):
            if s.ts.get('option') == 'open':
                s.ts['option'] = 'done'
            self.applied(s, args[0], args[1], node)

    def applied(self, s, key, v, node):
        k = ('item', elem(ITEMS), const(0))
        mod = ('item', elem(ITEMS), const(1))
        if key == k:
            # replaced
            if v != mod and not (v[0] == 'call' and v[1].startswith('copy.')
                                 and v[3] == (mod,)):
                self.say('options', 'an option is not set to the value '
                         'given', node)
            if self.op(s, k) not in (None, '='):
                self.say('options', 'an option to add to or remove from is '
                         'replaced', node)
            return
        if not (key[0] == 'item' and key[1] == k and
                isinstance(key[2], tuple) and key[2][0] == 'slice'):
            self.say('options', 'something else than the option named is set',
                     node)
            return
        if key[2] != ('slice', NONE, const(-1), NONE):
            self.say('options', 'the option is not the key without its '
                     'operator', node)
        op = self.op(s, k)
        if op == '+':
            if not self.adds(s, v, key, mod):
                self.say('options', 'what is to be added to an option is not',
                         node)
        elif op == '-':
            if not self.removes(s, v, key, mod):
                self.say('options', 'what is to be removed from an option is '
                         'not', node)
        else:
            self.say('options', 'it is not looked at what to do with the '
                     'option', node)

    def op(self, s, k):
        """What the key asks for."""
        last = ('item', k, const(-1))
        yes, no = set(), set()
        for f, p in s.facts:
            if f[0] == 'cmp' and f[1] == 'Eq' and last in f[2:]:
                x = f[2] if f[3] == last else f[3]
                (yes if p else no).add(x[2])
            elif f[0] == 'cmp' and f[1] == 'In' and f[2] == last and \
                    f[3] == const('+-') and not p:
                return '='
            elif f[0] == 'cmp' and f[1] == 'In' and f[2] == last and p:
                yes |= {'+-'} if f[3] == const('+-') else set()
            elif f[0] == 'call' and f[1] == '.endswith' and f[2] == k:
                xs = f[3][0]
                ops = [x[2] for x in (xs[1:] if xs[0] == 'tuple' else (xs,))]
                (yes if p else no).update(
                    ops if not p or len(ops) == 1 else {'+-'})
        for o in '+-':
            if o in yes:
                return o
        if '+-' in yes:
            return '-' if '+' in no else '+' if '-' in no else '?'
        return '=' if {'+', '-'} <= no else '?' if no else None

    def old(self, s, t, key):
        """Is t the value the option has, or an empty one when it has none?"""
        if t[0] == 'phi':
            return all(self.old(s, x, key) for x in t[1])
        if t[0] == 'call' and t[1] in ('.get', '.pop', '.setdefault') and \
                t[2] == ('param', 'kwargs') and t[3][:1] == (key,):
            return True
        if t == ('item', ('param', 'kwargs'), key):
            return True
        if t[0] == 'call' and t[1].startswith('copy.') or \
                t[0] == 'call' and t[1] in ('builtins.list', 'builtins.set') \
                and len(t[3]) == 1:
            return self.old(s, t[3][0], key)
        # type(modifier)()
        return t[0] == 'call' and t[1] == '<value>' and not t[3] or \
            t[0] == 'new'

    def adds(self, s, v, key, mod):
        if v[0] == 'phi':
            return all(self.adds(s, x, key, mod) for x in v[1])
        if v[0] == 'bin' and v[1] in ('Add', 'BitOr'):
            return self.old(s, v[2], key) and v[3] == mod
        if v[0] == 'call' and v[1] == '.union':
            return self.old(s, v[2], key) and v[3] == (mod,)
        got = s.coll.get(v)
        if got is not None and self.old(s, v, key):
            return any(mod in x[1:] for x in got[1])
        return False

    def removes(self, s, v, key, mod):
        if v[0] == 'phi':
            return all(self.removes(s, x, key, mod) for x in v[1])
        if v[0] == 'bin' and v[1] == 'Sub' or \
                v[0] == 'call' and v[1] == '.difference':
            a, b = (v[2], v[3]) if v[0] == 'bin' else (v[2], v[3][0])
            return self.old(s, a, key) and b == mod
        for x in terms(v):
            if x[0] == 'comp':
                e = elem(x[3])
                return x[2] == e and self.old(s, x[3], key) and \
                    any(self.excludes(c, e, mod) for c in x[4])
        return False

    def excludes(self, c, e, mod):
        f, p = c if len(c) == 2 and isinstance(c[1], bool) else (c, True)
        while f[0] == 'not':
            f, p = f[1], not p
        return f == ('cmp', 'In', e, mod) and not p or \
            f == ('cmp', 'NotIn', e, mod) and p


def options(ck, bad):
    m = ck.prog.require_function(PARSE)
    pol = Options(bad)
    r = ck.explored(Interp(ck.prog, pol).run(m))
    for s, t in r.returns:
        if not s.ts.get('done') and s.holds(OPTS) is not False and \
                s.holds(('forall_none', OPTS)) is not True:
            pol.say('options', 'it may end before all entries were looked at',
                    m.node)
    report(ck, m, bad, ('options',))


# ----------------------------------------------------------------------- matching

# What is said of one element of the matcher: does it begin with '!', is it in
# the platform, is the rest of it in the platform?
ATOMS = ('excluded', 'in', 'rest in')


class Match(Base):
    """ts: bad = what an iteration over the matcher left unknown; wrong = the
    element at hand shows that there is no match; adds = (excluded?, what was
    added to which collection) of the iterations"""
    max_states = 100

    def __init__(self, bad, m):
        super().__init__(bad)
        self.P, self.M = [('param', x) for x in m.params]

    def lits(self, s, e):
        return [(f, p) for f, p in s.facts if f[0] not in ('forall', 'disj')
                and e in terms(f)]

    def on_branch(self, s):
        if 'open' in s.ts:
            e = elem(self.M)
            vs = [v for v in self.possible(self.lits(s, e), e)]
            out = {'can': frozenset(tuple(sorted(v.items())) for v in vs)}
            if not any(required(v) and absent(v) for v in vs):
                out['wrong'] = True
            return out
        return {}

    def possible(self, lits, e):
        """The valuations of the atoms the literals allow."""
        for x in (True, False):
            for y in (True, False):
                for z in (True, False):
                    v = dict(zip(ATOMS, (x, y, z)))
                    if all(self.truth(f, v, e) in (None, p)
                           for f, p in lits):
                        yield v

    def atom(self, t, e):
        if t[0] == 'call' and t[1] == '.startswith' and t[2] == e and \
                t[3] == (const('!'),):
            return 'excluded'
        if t[0] == 'cmp' and t[1] == 'Eq' and const('!') in t[2:]:
            x = t[3] if t[2] == const('!') else t[2]
            if x in (('item', e, const(0)),
                     ('item', e, ('slice', NONE, const(1), NONE))):
                return 'excluded'
        if t[0] == 'cmp' and t[1] == 'In' and t[3] == self.P:
            if t[2] == e:
                return 'in'
            if t[2] == ('item', e, ('slice', const(1), NONE, NONE)) or \
                    t[2][0] == 'call' and t[2][1] == '.lstrip' and \
                    t[2][2] == e or t[2][0] == 'call' and \
                    t[2][1] == '.removeprefix' and t[2][2] == e:
                return 'rest in'
        return None

    def truth(self, t, v, e):
        a = self.atom(t, e)
        if a is not None:
            return v[a]
        if t[0] == 'not':
            x = self.truth(t[1], v, e)
            return None if x is None else not x
        if t[0] in ('and', 'or'):
            xs = [self.truth(x, v, e) for x in t[1:]]
            if (t[0] == 'or') in xs:
                return t[0] == 'or'
            return None if None in xs else t[0] == 'and'
        if t[0] == 'cmp' and t[1] in ('Eq', 'NotEq', 'Is', 'IsNot'):
            xs = [self.truth(x, v, e) for x in t[2:]]
            if None not in xs:
                return (xs[0] == xs[1]) == (t[1] in ('Eq', 'Is'))
            if t[3] == NONE and xs[0] is not None:
                return t[1] in ('IsNot', 'NotEq')
        if t == TRUE or t == FALSE:
            return t == TRUE
        return None

    def ended(self, s):
        """An iteration over the matcher is over."""
        if 'open' not in s.ts:
            return
        e = elem(self.M)
        can = s.ts.pop('can', None)
        vs = [v for v in self.possible(self.lits(s, e), e)
              if can is None or tuple(sorted(v.items())) in can]
        b = s.ts.get('bad', frozenset())
        if not all(required(v) for v in vs):
            b |= {'required'}
        if not all(absent(v) for v in vs):
            b |= {'excluded'}
        s.ts['bad'] = b
        x = {v['excluded'] for v in vs}
        s.ts['adds'] = s.ts.get('adds', frozenset()) | {
            (min(x) if len(x) == 1 else None, s.ts.pop('now', frozenset()))}

    def on_iter(self, s, iterable, node, it):
        if iterable == self.M:
            self.ended(s)
            s.ts['open'] = True
            s.ts.pop('wrong', None)
        return ()

    def iter_done(self, s, iterable, node, it):
        if iterable == self.M:
            self.ended(s)
            s.ts.pop('open', None)
            s.ts.pop('wrong', None)
            s.ts['done'] = s.ts.get('done', frozenset()) | (
                frozenset(('required', 'excluded')) -
                s.ts.pop('bad', frozenset()))
        return ()

    def on_event(self, s, name, recv, args, kwargs, node, it):
        e = elem(self.M)
        if 'open' in s.ts and name in ('.add', '.append') and \
                recv is not None and recv[0] == 'new' and len(args) == 1:
            what = 'self' if args[0] == e else 'rest' if self.atom(
                ('cmp', 'In', args[0], self.P), e) == 'rest in' else '?'
            s.ts['now'] = s.ts.get('now', frozenset()) | {(recv, what)}

    def collection(self, s, t):
        """Is t all that is required or all that is excluded?"""
        while t[0] == 'call' and t[1] in (
                'builtins.set', 'builtins.frozenset', 'builtins.list',
                'builtins.tuple') and len(t[3]) == 1:
            t = t[3][0]
        if t[0] == 'comp' and t[3] == self.M:
            e = elem(self.M)
            ok = list(self.possible([(c, True) for c in t[4]], e))
            x = {v['excluded'] for v in ok}
            what = 'self' if t[2] == e else 'rest' if self.atom(
                ('cmp', 'In', t[2], self.P), e) == 'rest in' else '?'
            if len(ok) == 4 and len(x) == 1:
                return {(False, 'self'): 'required',
                        (True, 'rest'): 'excluded'}.get((x.pop(), what))
        if t[0] == 'new' and not s.ts.get('adds') and \
                s.holds(('forall_none', self.M)) is True and \
                not s.coll.get(t, (0, 0, ()))[2]:
            return 'none'
        if t[0] == 'new':
            for k, x, what in (('required', False, 'self'),
                               ('excluded', True, 'rest')):
                if s.ts.get('adds') and all(
                        a is not None and
                        {w for c, w in now if c == t} ==
                        ({what} if a is x else set())
                        for a, now in s.ts['adds']):
                    return k
        return None

    def whole(self, s, f, p):
        """(required or excluded, whether it is so) when f says it of all."""
        X = None
        if f[0] == 'cmp' and f[1] == 'LtE' and f[3] == self.P:
            X, r = f[2], p
        elif f[0] == 'cmp' and f[1] == 'Lt' and f[2] == self.P:
            X, r = f[3], not p
        elif f[0] == 'call' and f[1] == '.issubset' and f[3] == (self.P,):
            X, r = f[2], p
        elif f[0] == 'call' and f[1] == '.issuperset' and f[2] == self.P:
            X, r = f[3][0], p
        elif f[0] == 'bin' and f[1] == 'Sub' and f[3] == self.P:
            X, r = f[2], not p
        elif f[0] == 'call' and f[1] == '.difference' and \
                f[3] == (self.P,):
            X, r = f[2], not p
        if X is not None:
            return ('required', r) if self.collection(s, X) in (
                'required', 'none') else None
        if f[0] == 'bin' and f[1] == 'BitAnd':
            Xs, r = f[2:], not p
        elif f[0] == 'call' and f[1] in ('.intersection', '.isdisjoint') \
                and len(f[3]) == 1:
            Xs, r = (f[2], f[3][0]), p is (f[1] == '.isdisjoint')
        else:
            return None
        if self.P in Xs and any(self.collection(s, x) in ('excluded', 'none')
                                for x in Xs):
            return 'excluded', r
        return None

    def each(self, s):
        """The literals known of every element of the matcher."""
        for f, p in s.facts:
            if not p or f[0] != 'forall' or f[2][0] == 'did':
                continue
            E = f[1]
            while E[0] == 'call' and E[1] in ('builtins.set', 'builtins.list',
                                              'builtins.sorted'):
                E = E[3][0]
            if E == self.M:
                yield replace(f[2], elem(f[1]), elem(self.M)), f[3]
            elif E[0] == 'comp' and E[3] == self.M:
                lit = replace(f[2], elem(f[1]), E[2])
                if not f[3]:
                    lit = ('not', lit)
                yield ('or', lit) + tuple(('not', c) for c in E[4]), True

    def some(self, t, it):
        """What an element has when t, a call of all, is false or t, a call of
        any, is true: alternatives of (condition, whether)."""
        c = t[3][0]
        if c[0] != 'comp':
            return
        E = c[3]
        conds = [(x, True) for x in c[4]]
        for facts, e in it.guarded.get(c, [((), c[2])]):
            out = list(facts) + conds + [(e, t[1] == 'builtins.any')]
            if E[0] == 'comp' and E[3] == self.M:
                out = [(replace(x, elem(E), E[2]), p) for x, p in out] + \
                    [(x, True) for x in E[4]]
            elif E != self.M:
                out = []
            yield out


def required(v):
    return v['excluded'] or v['in']


def absent(v):
    return not v['excluded'] or not v['rest in']


def replace(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(replace(x, a, b) for x in t)
    if isinstance(t, frozenset):
        return frozenset(replace(x, a, b) for x in t)
    return t


def matching(ck, bad):
    m = ck.prog.require_function(MATCH)
    pol = Match(bad, m)
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(m))
    n = 0
    for s, t in r.returns:
        for x in alts(t):
            for want in (True, False):
                for w in it.assume(x, want, s):
                    for v in worlds(w):
                        n += matches(pol, it, v, want, m)
    if n < 2:
        raise AnalysisBroken('platform_match was not understood')
    report(ck, m, bad, ('matching',))


def matches(pol, it, s, want, m):
    e = elem(pol.M)
    known = set(s.ts.get('done', ()))
    wrong = bool(s.ts.get('wrong'))
    for f, p in s.facts:
        k = pol.whole(s, f, p)
        if k is not None and k[1]:
            known.add(k[0])
        elif k is not None:
            wrong = True
        if f[0] == 'call' and f[1] in ('builtins.all', 'builtins.any') and \
                len(f[3]) == 1 and p is (f[1] == 'builtins.any'):
            some = list(pol.some(f, it))
            if some and not any(required(v) and absent(v) for lits in some
                                for v in pol.possible(lits, e)):
                wrong = True
    vs = list(pol.possible(list(pol.each(s)), e))
    if all(required(v) for v in vs):
        known.add('required')
    if all(absent(v) for v in vs):
        known.add('excluded')
    if s.holds(('forall_none', pol.M)) is True or s.holds(pol.M) is False:
        known |= {'required', 'excluded'}
    if want:
        if 'required' not in known:
            pol.say('matching', 'it may match though something required is '
                    'not there', m.node)
        if 'excluded' not in known:
            pol.say('matching', 'it may match though something excluded is '
                    'there', m.node)
    elif not wrong:
        pol.say('matching', 'it may not match though all required is there '
                'and nothing excluded', m.node)
    return 1
