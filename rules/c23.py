"""Every step that produces a file is followed on every path, with its private
helpers.  The paths told to the tools (in a command, to a tool object, to open
for writing, to copy or to move) that lie under a build root must have had their
directory made before; the path returned must be one that was told, or the result
of another step, and its term must be one placed under the build root given, or
under that of the context when none is given, and only renamed since.  A build
root given must be passed on to the steps called."""
from .common import *
from .c21 import Base, report, terms

B = 'fbuild.builders.'
PATH = 'fbuild.path.Path'
DST = ('fbuild.db.DST', 'fbuild.db.DSTS')

T = {
    'placed': 'the output of a step is under the build root asked for',
    'prepared': 'the directory of the output is made before the tool runs',
    'returned': 'what a step returns is what it told the tool to write',
    'passed-on': 'a build root given is passed on to the steps called',
}

# They write where they are told to; those who tell them are looked at.
RAW = {B + x for x in (
    'c.gcc.Gcc.__call__', 'c.msvc.Cl.__call__', 'ghc.Ghc.__call__',
    'llvm.Llc.__call__', 'java.AbstractCompiler._run', 'felix.Flx.__call__')}
# The name of the output is given by the tool, from that of the source.
DERIVED = {
    B + 'felix.Felix.uncached_compile', B + 'ocaml.Ocamlyacc.__call__',
    B + 'scala.Scala.__call__'}
# It writes into a directory, which must be there itself.
CLASSES = B + 'java.AbstractCompiler._run'
# Attributes that hold a tool told where to write; others hold a step.
TOOLS = ('cc', 'cl', 'ghc', 'flx')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('a tool writes its output where it is told to')
    for fi, cls in producers(ck.prog):
        step(ck, fi, cls)
    for k in T:
        ck.at_least(k, 1)


def declares(fi):
    r = getattr(fi.node, 'returns', None)
    n = dotted(r) if r is not None else None
    return n is not None and fi.module.resolve_dotted(n) in DST


def dotted(node):
    out = []
    while isinstance(node, ast.Attribute):
        out.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        return '.'.join(reversed(out + [node.id]))
    return None


STEPS = ('compile', 'link_', 'build_', 'uncached_', 'create')


def step_name(t):
    if t[0] == 'attr':
        return t[2].startswith(STEPS) or t[2] == 'call' and step_name(t[1])
    return t[0] == 'bound' and tail(t[2]).startswith(STEPS)


def is_step(fi):
    """Does this function of the builders produce a file?"""
    if not fi.qual.startswith(B) or fi.qual in RAW or fi.is_lambda or \
            '<locals>' in fi.qual:
        return False
    return declares(fi) or 'dst' in all_params(fi) or \
        fi.name.lstrip('_').startswith(('uncached_', 'link_', 'build_'))


def all_params(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


# They tell what a source depends on and produce nothing.
SCANS = ('scan', 'source_dependencies', 'build_mode')


def public(fi):
    return is_step(fi) and not fi.name.startswith('_') or \
        fi.qual in DERIVED


def producers(prog):
    for q in sorted(prog.functions):
        fi = prog.functions[q]
        if (is_step(fi) or q in DERIVED) and fi.name not in SCANS and \
                (not fi.name.startswith('_') or fi.name == '__call__' or
                 wrapped(fi)) and not abstract(fi):
            yield fi, fi.cls


def wrapped(fi):
    """A helper that is not looked into from where it is called."""
    return fi.name.startswith('_') and fi.name != '__call__' and any(
        (dotted(d.func if isinstance(d, ast.Call) else d) or '?') not in (
            'staticmethod', 'classmethod', 'property',
            'contextlib.contextmanager') for d in fi.node.decorator_list)


def abstract(fi):
    return any((dotted(d) or '').endswith('abstractmethod')
               for d in fi.node.decorator_list)


# ------------------------------------------------------------------------ paths

def unroot(t):
    """The roots a term can stand for."""
    if t[0] in ('or', 'phi'):
        return set().union(*[unroot(x) for x in (
            t[1] if t[0] == 'phi' else t[1:])])
    if t[0] == 'call' and t[1] == PATH and len(t[3]) == 1:
        return unroot(t[3][0])
    return {t}


GIVEN = (('param', 'buildroot'),
         ('item', ('param', '**kwargs'), const('buildroot')))


def is_root(t):
    return all(x in GIVEN or
               x[0] == 'attr' and x[2] == 'buildroot' for x in unroot(t))


def root_of(t):
    """The root a path was placed under."""
    while True:
        if is_root(t):
            return t
        if t[0] == 'call' and tail(t[1]) == 'addroot' and t[2] is not None \
                and t[3]:
            return t[3][0]
        if t[0] == 'call' and t[1] == PATH and t[3]:
            t = t[3][0]
        elif t[0] == 'call' and t[2] is not None and \
                tail(t[1]) in ('replaceext', 'replaceexts', 'joinpath'):
            t = t[2]
        elif t[0] == 'call' and tail(t[1]) in ('str', 'fspath') and \
                len(t[3]) == 1:
            t = t[3][0]
        elif t[0] == 'bin' and t[1] in ('Add', 'Div'):
            t = t[2]
        elif t[0] == 'attr' and t[2] == 'parent':
            t = t[1]
        else:
            return None


def directory(t):
    """The directory a path is in."""
    while True:
        if t[0] == 'call' and t[1] == PATH and len(t[3]) == 1:
            t = t[3][0]
        elif t[0] == 'call' and t[2] is not None and \
                tail(t[1]) in ('replaceext', 'replaceexts'):
            t = t[2]
        elif t[0] == 'bin' and t[1] == 'Add':
            t = t[2]
        elif t[0] == 'bin' and t[1] == 'Div' and (
                t[2][0] == 'attr' and t[2][2] == 'parent' or
                t[3][0] == 'attr' and t[3][2] == 'name'):
            return same_dir(t[2])
        else:
            return ('attr', t, 'parent')


def same_dir(t):
    """x.parent is the directory of x."""
    return directory(t[1]) if t[0] == 'attr' and t[2] == 'parent' else t


def stem(t):
    while t[0] == 'call' and t[2] is not None and \
            tail(t[1]) in ('replaceext', 'replaceexts'):
        t = t[2]
    return t


class Step(Base):
    """ts: dirs = directories that are there; told = (path under a root, was its
    directory there)"""
    max_states = 16
    max_depth = 10

    def __init__(self, bad, prog, fi):
        super().__init__(bad)
        self.prog, self.fi = prog, fi

    def inline(self, fi):
        return fi.qual.startswith(B) and fi.qual not in RAW and \
            not (public(fi) and fi.name not in SCANS) and \
            fi.name not in ('check_flags', 'find_program')

    def on_iter(self, s, iterable, node, it):
        e = elem(iterable)
        if 'dirs' in s.ts:
            s.ts['dirs'] = frozenset(x for x in s.ts['dirs']
                                     if not mentions(x, e))
        return ()

    def put(self, s, k, *v):
        s.ts[k] = s.ts.get(k, frozenset()) | frozenset(v)

    def there(self, s, t):
        d = directory(t)
        dirs = s.ts.get('dirs', ())
        if d in dirs or t in dirs:
            return True
        for f, p in s.facts:
            if not p:
                continue
            if f[0] == 'call' and tail(f[1]) in ('exists', 'isdir', 'isfile'):
                x = f[2] if f[2] is not None and not f[3] else \
                    f[3][0] if f[3] else ANY
                if same_dir(x) == d or x == t or x == stem(t):
                    return True
            # the source is there already
            if f[0] == 'cmp' and f[1] == 'Eq' and stem(t) in f[2:]:
                return True
        return False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        n = tail(name)
        if n in ('makedirs', 'mkdir'):
            x = recv if recv is not None and not name.startswith('os.') else \
                args[0] if args else ANY
            self.put(s, 'dirs', same_dir(x))
        told = self.sink(name, n, recv, args, kwargs)
        runs = n == 'execute' or name in RAW or held(self.prog, name, recv)
        classes = dict(kwargs).get('dst') if name == CLASSES else None
        for x in told:
            for t in rooted(s, x):
                there = t in s.ts.get('dirs', ()) if x == classes else \
                    self.there(s, t)
                if self.fi.qual not in DERIVED or runs:
                    self.put(s, 'told', (t, there))
                elif not there:
                    self.say('prepared', 'the directory of what %s writes may '
                             'be missing' % n, node)
        if self.fi.qual in DERIVED and told and runs:
            self.put(s, 'told', *((x, True) for x in inside(s, told)
                                  if plain_src(x)))
        fi = self.prog.functions.get(name)
        v = dict(kwargs).get('buildroot')
        if v is not None and v != NONE and name[:4] != 'set.' and \
                root_of(v) is None and not any(
                    x in GIVEN or x[0] == 'attr' and x[2] == 'buildroot'
                    for x in subterms(v) if isinstance(x, tuple) and x):
            self.say('passed-on', '%s is told %s as its build root, which is '
                     'not in the one given' % (n, show(v)[:60]), node)
        if fi is not None and public(fi) and fi.name not in SCANS:
            a = fi.node.args
            if 'buildroot' in all_params(fi) or a.kwarg is not None:
                self.passed(s, fi.name, kwargs, node, it)
        elif n in ('map', 'map_with_dependencies'):
            for x in args:
                if x[0] == 'partial' and step_name(x[1]):
                    self.passed(s, 'the step called for each', x[3], node, it)
        elif (name == '<value>' and recv is not None and recv[0] == 'attr' and
              recv[1][0] == 'self' and recv[2] not in TOOLS or
              held(self.prog, name, recv) and n not in TOOLS + SCANS) and \
                'buildroot' in all_params(it.cur_frame.fi):
            self.passed(s, 'the step called', kwargs, node, it)

    def sink(self, name, n, recv, args, kwargs):
        """What is told to a tool."""
        kw = tuple(v for k, v in kwargs if not k.startswith('msg'))
        if n == 'execute':
            return args[:1] + tuple(v for k, v in kwargs if k == 'cmd')
        if name in RAW or held(self.prog, name, recv):
            return tuple(x for x in args + kw if not message(x))
        if name == '<value>' and recv is not None:
            if recv[0] == 'global':
                return args
            if recv[0] == 'param':
                return args[:1]         # a tool told its destination first
            if recv[0] == 'self' and self.prog.functions.get(
                    recv[1] + '.__call__') is not None and \
                    recv[1] + '.__call__' in RAW:
                return args + kw
        if name == 'builtins.open':
            mode = args[1] if len(args) > 1 else dict(kwargs).get('mode')
            if mode is not None and mode[0] == 'const' and \
                    set(str(mode[2])) & set('wax+'):
                return args[:1]
        if n in ('copy', 'move', 'copy2', 'copyfile', 'rename', 'write_text',
                 'write_bytes'):
            return args
        return ()

    def passed(self, s, what, kwargs, node, it):
        """The build root of this function must be told to the step it calls."""
        inner = it.cur_frame.fi is not self.fi and \
            'buildroot' in all_params(it.cur_frame.fi)
        if not inner and 'buildroot' not in all_params(self.fi):
            return
        kw = dict(kwargs)
        v = kw.get('buildroot')
        if v is None and '**' in kw:
            got = s.coll.get(kw['**'])
            for x in got[2] if got else ():
                if x[0] == 'kv' and x[1] == const('buildroot'):
                    v = x[2]
        if v is None or not (v in GIVEN or inner and v == NONE or
                             self.right(s, v)):
            self.say('passed-on', '%s is not told the build root given' %
                     what, node)

    def right(self, s, root):
        """Is this the build root given or, without, that of the context?"""
        if not is_root(root):
            return False
        if 'buildroot' not in all_params(self.fi):
            return True
        mine = ('param', 'buildroot')
        rs = unroot(root)
        given = s.holds(mine)
        if given is None and s.holds(('cmp', 'Is', mine, NONE)) is True:
            given = False
        if given is None and s.holds(('cmp', 'Is', mine, NONE)) is False:
            given = True
        if given is None:
            return mine in rs and len(rs) > 1
        return mine in rs if given else bool(rs - {mine})


def rooted(s, t, depth=0):
    """The paths under a root in what is told to a tool."""
    if depth > 40:
        return
    if not is_root(t) and root_of(t) is not None:
        yield t
        return
    if t in s.coll:
        for x in s.coll[t][2]:
            for y in x[1:]:
                if isinstance(y, tuple):
                    yield from rooted(s, y, depth + 1)
    if t[0] in ('tuple', 'list', 'set', 'phi', 'or', 'star'):
        for x in (t[1] if t[0] == 'phi' else t[1:]):
            yield from rooted(s, x, depth + 1)
    elif t[0] == 'bin':
        yield from rooted(s, t[3], depth + 1)
        yield from rooted(s, t[2], depth + 1)
    elif t[0] == 'call':
        if tail(t[1]) == 'relpath' and t[2] is not None:
            yield from rooted(s, t[2], depth + 1)
        for x in t[3]:
            yield from rooted(s, x, depth + 1)
    elif t[0] == 'fstr':
        for x in t[1:]:
            if isinstance(x, tuple) and x:
                yield from rooted(s, x, depth + 1)


def step(ck, fi, cls):
    bad = {}
    pol = Step(bad, ck.prog, fi)
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(fi, cls=cls))
    for s, t in r.returns:
        for x in alts(t):
            for w in worlds(s):
                good(pol, w, x, fi)
    report(ck, fi, bad, tuple(T))


def good(pol, s, t, fi, depth=0):
    node = fi.node
    t = unwrap(t)
    if t[0] == 'phi':
        for x in t[1]:
            good(pol, s, x, fi, depth)
        return
    if t[0] == 'call' and tail(t[1]) == 'Tuple':
        for x in t[3]:
            good(pol, s, x, fi, depth + 1)
        return
    if result_of_step(pol, s, t):
        return
    if t in s.coll or t[0] in ('tuple', 'list', 'comp'):
        items = t[1:] if t[0] in ('tuple', 'list') else \
            (t[2],) if t[0] == 'comp' else \
            [x[1] for x in s.coll[t][2] if len(x) > 1]
        if t[0] == 'tuple' and len(items) == 3 and depth == 0:
            items = items[:1]           # output, stdout, stderr
        for x in items:
            good(pol, s, x, fi, depth + 1)
        return
    if any(x[0] == 'call' and tail(x[1]) in ('match', 'search')
           for x in terms(t)):
        return                          # the tool said what it wrote
    root = root_of(t)
    if root is None:
        pol.say('placed', 'what it returns is not under the build root', node)
        return
    if not pol.right(s, root):
        pol.say('placed', 'what it returns is not under the build root asked '
                'for', node)
    key = stem if fi.qual in DERIVED else (lambda x: x)
    told = [ok for x, ok in s.ts.get('told', ())
            if key(x) == key(t) or fi.qual in DERIVED and any(
                s.holds(('cmp', 'Eq') + p) is True
                for p in ((x, stem(t)), (stem(t), x)))]
    if not told:
        pol.say('returned', 'no tool was told to write what it returns', node)
    elif not all(told):
        pol.say('prepared', 'the directory of what it returns may be missing '
                'when the tool runs', node)


def held(prog, name, recv):
    """Is this a call of what an attribute of the object holds?"""
    return name.startswith('.') and recv is not None and recv[0] == 'self' \
        or name == '<value>' and recv is not None and recv[0] == 'attr' and \
        recv[1][0] == 'self'


def message(t):
    """Text for the user."""
    return t[0] == 'fstr' or t[0] == 'bin' and t[1] == 'Mod' or \
        t[0] == 'call' and tail(t[1]) == 'format'


def plain_src(t):
    while t[0] == 'call' and t[1] == PATH and len(t[3]) == 1:
        t = t[3][0]
    return t == ('param', 'src')


def inside(s, ts, depth=0):
    for t in ts:
        yield t
        if depth < 10 and t in s.coll:
            for x in s.coll[t][2]:
                yield from inside(s, [y for y in x[1:]
                                      if isinstance(y, tuple)], depth + 1)
        if t[0] in ('tuple', 'list', 'bin', 'star'):
            yield from inside(s, [y for y in t[1:] if isinstance(y, tuple)],
                              depth + 1)


def unwrap(t):
    while True:
        if t[0] == 'call' and t[1] in (
                B + 'c.Library', B + 'c.Executable', 'builtins.list',
                'builtins.tuple', 'builtins.str') and len(t[3]) >= 1:
            t = t[3][0]
        else:
            return t


def result_of_step(pol, s, t):
    """The result of another step, or of several run in parallel."""
    if t[0] == 'bin' and t[1] == 'Add':
        return result_of_step(pol, s, t[2]) and result_of_step(pol, s, t[3])
    if t[0] == 'item' and t[2] == const(0):
        return result_of_step(pol, s, t[1])
    if t[0] == 'elem':
        return result_of_step(pol, s, t[1])
    if t[0] != 'call':
        return False
    fi = pol.prog.functions.get(t[1])
    if fi is not None and (public(fi) or fi.qual in RAW or
                           is_step(fi) and wrapped(fi)):
        return True
    if t[1] == '<value>' and t[2] is not None and t[2][0] == 'param':
        return True                     # a step given by the caller
    if held(pol.prog, t[1], t[2]):
        return tail(t[1]) not in TOOLS
    if tail(t[1]) in ('map', 'map_with_dependencies'):
        return True
    return tail(t[1]).startswith(STEPS)
