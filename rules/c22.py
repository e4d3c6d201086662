"""Every cached function of the builders is looked at.  A parameter that names a
file must be declared as a source, reported on every path while the function
runs, or only be asked for its directory; a file opened, copied or moved likewise.
A function that returns what it told a tool to write must declare it as produced.
What a step finds out about further files (the compiler's list of headers, a scan,
what the steps called found out, what a search turned up, the libraries of the
libraries) is followed through loops, collections and helpers to the call that
reports it: nothing found in any iteration may get lost, and every path of a
compile step must have looked and reported, or have found nothing."""
from .common import *
from .c21 import Base, report, terms
from .c23 import (B, DST, PATH, SCANS, STEPS, Step, all_params, dotted, held,
                  is_step, result_of_step, step_name, wrapped, abstract, inside)

REPORT = 'add_external_dependencies_to_call'
SRC = ('fbuild.db.SRC', 'fbuild.db.SRCS', 'fbuild.db.OPTIONAL_SRC')
FILES = {'src', 'srcs', 'source', 'sources', 'obj', 'objs', 'object',
         'objects', 'lib', 'libs', 'manifest', 'header', 'headers', 'input',
         'inputs', 'file', 'filename', 'files', 'archive', 'jar', 'script'}

T = {
    'declared': 'every file a cached step is given is declared as a source',
    'produced': 'a cached step declares what it produced',
    'looked': 'a compile step finds out what else its source depends on',
    'reported': 'what was found out is reported, all of it',
    'understood': 'what a tool said is answered as a whole, or not at all',
}

# What is compiled includes nothing.
ALONE = {B + 'llvm.Llc'}
ASKED = {'gcc': ({'-MMD', '-MD'}, {'-MF'}), 'msvc': ({'/showIncludes'},)}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('a compiler lists the files it read when asked to')
    for fi in cached(ck.prog):
        step(ck, fi)
        if fi.cls is not None:
            understood(ck, fi)
    classes(ck)
    native(ck)
    for k in T:
        ck.at_least(k, 1)


def decorated(fi):
    for d in getattr(fi.node, 'decorator_list', ()):
        n = dotted(d)
        if n is not None and fi.module.resolve_dotted(n) in (
                'fbuild.db.caches', 'fbuild.db.cachemethod',
                'fbuild.db.cacheproperty'):
            return True
    return False


def cached(prog):
    for q in sorted(prog.functions):
        fi = prog.functions[q]
        if q.startswith(B) and '<locals>' not in q and decorated(fi) and \
                not abstract(fi):
            yield fi


def annotations(fi):
    a = fi.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        n = dotted(x.annotation) if x.annotation is not None else None
        yield x.arg, fi.module.resolve_dotted(n) if n else None


def declared(fi):
    return {p for p, a in annotations(fi) if a in SRC}


def told_the_db(fi):
    r = getattr(fi.node, 'returns', None)
    n = dotted(r) if r is not None else None
    return fi.module.resolve_dotted(n) if n else None


# ----------------------------------------------------------------- what reaches

MUTE = {'len', 'bool', 'isinstance', 'any', 'all', 'exists', 'endswith',
        'startswith', 'callable', 'type', 'id', 'hash'}


def carries(s, X, D, through=True, depth=0):
    """Is everything there is in D in X?"""
    if X == D:
        return True
    if depth > 40 or not isinstance(X, tuple) or not X or \
            not isinstance(X[0], str):
        return False
    go = lambda x: carries(s, x, D, through, depth + 1)
    k = X[0]
    if X in s.coll and through:
        if any(go(y) for x in s.coll[X][1] for y in x[1:]
               if isinstance(y, tuple)):
            return True
    if k in ('elem', 'entered', 'star', 'attr', 'fstr'):
        return any(go(x) for x in X[1:] if isinstance(x, tuple))
    if k in ('tuple', 'list', 'set', 'or', 'kwpack'):
        return any(go(x) for x in X[1:])
    if k == 'phi':
        return all(go(x) for x in X[1])
    if k == 'bin':
        return X[1] in ('Add', 'BitOr', 'Div') and (go(X[2]) or go(X[3]))
    if k == 'item':
        i = X[2]
        if i[0] == 'slice' and not (
                i[1] in (NONE, const(0), const(1)) and i[2] == NONE and
                i[3] in (NONE, const(1))):
            return False
        return go(X[1])
    if k == 'comp':
        if X[4] and not all(harmless(c, X[3]) for c in X[4]):
            return False
        return go(X[2]) or mentions(X[2], elem(X[3])) and go(X[3])
    if k == 'call':
        if tail(X[1]) in MUTE:
            return False
        return X[2] is not None and go(X[2]) or any(map(go, X[3])) or \
            any(go(v) for _, v in X[4])
    return False


def each(s, X, d):
    """Is what is found in every iteration in X, not only the last?"""
    for x in inside(s, [X]):
        for c in terms(x):
            if c[0] == 'comp' and mentions(d, elem(c[3])) and \
                    carries(s, X, c) and carries(s, c, d, False):
                return True
    return False


def harmless(c, E):
    """Does this condition leave out nothing but the source and nothing?"""
    e = elem(E)
    if c == e or c[0] == 'not' and not mentions(c, e):
        return True
    if c[0] == 'cmp' and c[1] in ('NotEq', 'Eq', 'IsNot', 'NotIn', 'In',
                                  'Is'):
        return any(mentions(x, ('param', 'src')) or x == NONE for x in c[2:]) \
            or any(x[0] == 'const' and x[2] in ('', b'') for x in c[2:])
    if c[0] == 'not':
        return harmless(c[1], E)
    return False


class Deps(Step):
    """ts: iter = found in this iteration; put = put into a collection in this
    iteration; rep = reported in this iteration; found = (kind, what) to be
    reported; sink = (kind, collection) to be reported; unput = found in an
    iteration and not put anywhere then; done = what was reported"""
    max_states = 40

    def __init__(self, bad, prog, fi, asked):
        super().__init__(bad, prog, fi)
        self.params = declared(fi)
        self.asked = asked
        self.ever = set()
        self.maps = set()

    # a file on another drive has no relative path

    def may_raise(self, name, recv):
        return bool(self.asked) and tail(name) == 'relpath' or \
            super().may_raise(name, recv)

    def raised(self, name, recv):
        return 'builtins.ValueError' if tail(name) == 'relpath' else \
            super().raised(name, recv)

    # loops

    def on_loop(self, s, E, node, it):
        if self.asked and self.output(E):
            self.put(s, 'looked', 'lines')
            self.put(s, 'lines', E)
        for k, d in s.ts.get('found', ()):
            if carries(s, E, d):
                self.put(s, 'looped', (k, d))

    def on_iter(self, s, iterable, node, it):
        s.ts.pop('caught', None)
        if called_for_deps(iterable):
            e = elem(iterable)
            self.maps.add(iterable)
            self.put(s, 'iter', ('srcs', ('item', e, const(1))),
                     ('dsts', ('item', e, const(2))))
        return ()

    def on_branch(self, s):
        if not self.asked:
            return None
        return {'matched': frozenset(
            f for f, p in s.facts if p and f[0] == 'call' and
            tail(f[1]) in ('match', 'search', 'fullmatch') and
            f[3] and any(x[0] == 'elem' for y in f[3] for x in terms(y)))}

    def on_catch(self, s, types, exc):
        if types and any('ValueError' in str(t) for t in types):
            s.ts['caught'] = True

    def iter_done(self, s, iterable, node, it):
        e = elem(iterable)
        mine = frozenset(x for x in s.ts.get('iter', ()) if mentions(x[1], e))
        if self.asked and self.output(iterable) and not s.ts.get('caught') \
                and not mine:
            for f, p in s.facts:
                if p and f[0] == 'call' and mentions(f, e) and tail(f[1]) in (
                        'match', 'search', 'fullmatch'):
                    self.say('reported', 'a file in the output of the '
                             'compiler is left out', node)
        if s.ts.get('caught'):
            mine = frozenset()
        for k, d in mine:
            if (k, d) in s.ts.get('rep', ()):
                continue
            into = [c for c, v in s.ts.get('put', ()) if carries(s, v, d)]
            if into:
                self.put(s, 'sink', *((k, d, c) for c in into))
            else:
                self.put(s, 'unput', (k, d))
        for k, d in s.ts.get('found', ()):
            if not carries(s, iterable, d):
                continue
            into = [c for c, v in s.ts.get('put', ())
                    if mentions(v, e) and carries(s, v, e)]
            if into:
                self.put(s, 'moved', *((k, d, c) for c in into))
            elif not any(mentions(f, e) and harmless(
                    f if p else ('not', f), iterable) for f, p in s.facts):
                self.put(s, 'dropped', (k, d))
        if in_parallel(iterable):
            into = [c for c, v in s.ts.get('put', ()) if mentions(v, e)]
            self.put(s, 'results', *((iterable, c) for c in into))
            if not into:
                self.put(s, 'results', (iterable, None))
        for k in ('iter', 'rep'):
            s.ts[k] = frozenset(x for x in s.ts.get(k, ())
                                if not mentions(x[1], e))
        s.ts['put'] = frozenset(x for x in s.ts.get('put', ())
                                if not mentions(x[1], e))
        return ('walked',) if self.asked and self.output(iterable) else ()

    def output(self, t):
        """Is this the output of the compiler?"""
        return any(x[0] == 'item' and x[1][0] == 'call' and
                   held(self.prog, x[1][1], x[1][2]) for x in terms(t))

    # events

    def on_event(self, s, name, recv, args, kwargs, node, it):
        n = tail(name)
        kw = dict(kwargs)
        if n == REPORT:
            for k in ('srcs', 'dsts'):
                if k in kw:
                    self.reports(s, k, kw[k])
            return
        if n in ('append', 'add', 'extend', 'update', 'insert', 'union',
                 '__iadd__') and \
                recv is not None and args:
            self.put(s, 'put', (recv, args[-1]))
        call = ('call', name, recv, args, kwargs)
        if n == 'scan' and recv is not None and self.fi.name not in SCANS:
            self.find(s, 'srcs', call)
        if n in ('copy', 'move') and recv is not None and args and \
                name.startswith((PATH, '.')) and not self.given(recv):
            self.find(s, 'srcs', recv)
            self.find(s, 'dsts', args[0])
        if self.asked:
            self.compiler(s, name, n, recv, args, kwargs, call, node)
        self.reading(s, name, n, recv, args, kwargs, node)
        told = self.sink(name, n, recv, args, kwargs)
        if told:
            self.put(s, 'told', *told)

    def compiler(self, s, name, n, recv, args, kwargs, call, node):
        if held(self.prog, name, recv) or n in ('uncached_compile',):
            had = set(inside(s, args + tuple(v for _, v in kwargs)))
            more = set()
            for x in had:
                more |= whole(x)
            text = {x[2] for x in more if x[0] == 'const' and
                    isinstance(x[2], str)}
            for group in self.asked:
                if not any(t == g or t.startswith(g)
                           for t in text for g in group):
                    self.say('looked', 'the compiler is not asked for what '
                             'the source depends on (%s)' %
                             ' or '.join(sorted(group)), node)
            self.put(s, 'deps', *(x for x in more if x[0] != 'const'))
        if name == 'builtins.open' and args and args[0] in s.ts.get(
                'deps', ()) and args[0][0] != 'param':
            self.put(s, 'looked', 'file')
            self.find(s, 'srcs', call)
        if n == 'group' and recv is not None and self.output(recv):
            self.find(s, 'srcs', call)

    def find(self, s, kind, d):
        if any(x[0] == 'elem' for x in terms(d)):
            self.put(s, 'iter', (kind, d))
        else:
            self.put(s, 'found', (kind, d))

    def reports(self, s, kind, X):
        self.put(s, 'reports', kind)
        for k, d in s.ts.get('iter', ()):
            if k == kind and carries(s, X, d):
                self.put(s, 'rep', (k, d))
        for k, d in s.ts.get('found', ()):
            if k == kind and carries(s, X, d):
                self.put(s, 'done', (k, d))
        for k, d, c in s.ts.get('sink', ()):
            if k == kind and (carries(s, X, c) or
                              carries(s, X, d, False)):
                self.put(s, 'done', (k, d, c))
        for k, d in s.ts.get('unput', ()):
            if k == kind and each(s, X, d):
                self.put(s, 'done', ('unput', k, d))
        for k, d, c in s.ts.get('moved', ()):
            if k == kind and (carries(s, X, c) or each(s, X, d)):
                self.put(s, 'done', ('moved', k, d, c))
        for m in self.of_maps(X):
            self.ever.add((kind, m))
        for x in inside(s, [X]):
            for y in terms(x):
                if y[0] == 'param':
                    self.put(s, 'params', y[1])

    def of_maps(self, X):
        return [x for x in terms(X) if called_for_deps(x)]

    def given(self, t):
        """Is this a file that was declared?"""
        return any(x == ('param', p) for x in terms(t) for p in self.params)

    def reading(self, s, name, n, recv, args, kwargs, node):
        what = None
        if name == 'builtins.open' and args:
            mode = args[1] if len(args) > 1 else dict(kwargs).get('mode')
            if mode is None or mode[0] == 'const' and \
                    not set(str(mode[2])) & set('wax'):
                what = args[0]
        elif n in ('copy', 'move', 'read_text', 'read_bytes') and \
                recv is not None and name.startswith((PATH, '.')):
            what = recv
        elif name in ('shutil.copy', 'shutil.move', 'shutil.copyfile',
                      'shutil.copy2') and args:
            what = args[0]
        if what is not None:
            for x in terms(what):
                if x[0] == 'param' and x[1] not in self.params and \
                        x[1] in all_params(self.fi) and \
                        not x[1].startswith(('self', 'ctx', 'buildroot')):
                    self.put(s, 'read', x[1])


def whole(t):
    """The terms in t, but not the pieces of longer names."""
    if not isinstance(t, tuple):
        return set()
    out = {t} if t and isinstance(t[0], str) else set()
    if t and t[0] == 'bin' and t[1] == 'Add' and any(
            x[0] == 'const' and x[1] == 'str' and not x[2].startswith('-M')
            for x in t[2:] if isinstance(x, tuple)):
        return out
    for x in t:
        out |= whole(x)
    return out


def called_for_deps(t):
    """Steps run for each with what they found out asked for as well."""
    return t[0] == 'call' and tail(t[1]) in ('map', 'map_with_dependencies') \
        and any(x[0] == 'partial' and x[1][0] == 'attr' and x[1][2] == 'call'
                for x in t[3])


def in_parallel(t):
    """The results of a step run for each."""
    return t[0] == 'call' and tail(t[1]) in ('map', 'map_with_dependencies') \
        and t[2] is not None and any(
            x[0] == 'partial' for x in t[3])


def unreturned(pol, s, t, fi):
    """The results of a step run for each that are not in what is returned."""
    if told_the_db(fi) != DST[1]:
        return
    have = set(inside(s, alts(t)))
    for x in list(have):
        have |= set(terms(x))
    maps = {m for m, c in s.ts.get('results', ())}
    for m in maps:
        got = {c for m2, c in s.ts['results'] if m2 == m}
        if None in got or not got & have:
            pol.say('produced', 'what some of the steps run in parallel made '
                    'is not returned', fi.node)


def step(ck, fi):
    bad = {}
    asked = ()
    if fi.name == 'compile':
        for k, v in ASKED.items():
            if '.%s.' % k in fi.qual:
                asked = v
    pol = Deps(bad, ck.prog, fi, asked)
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(fi, cls=fi.cls))
    names = set(all_params(fi))
    open_ = {p for p in names & FILES - pol.params if used(ck, fi, p)}
    compiles = fi.name == 'compile' and fi.cls is not None and \
        fi.cls.qual != B + 'AbstractCompiler'
    for s, t in r.returns:
        lacking = (open_ | s.ts.get('read', frozenset())) - \
            s.ts.get('params', frozenset())
        for p in sorted(lacking):
            if p in s.ts.get('read', ()) and searched(s, p):
                continue
            pol.say('declared', '%s names a file that is not declared as '
                    'a source' % p, fi.node)
        lost(pol, s, fi)
        unreturned(pol, s, t, fi)
        for E in s.ts.get('lines', ()):
            if not any(p and f[1] == E and (
                    f[0] == 'forall_none' or f[0] == 'forall' and
                    f[2] == ('did', 'walked')) for f, p in s.facts):
                pol.say('reported', 'the output of the compiler is not read '
                        'to its end', fi.node)
        if compiles and not s.ts.get('looked') and not any(
                x[0] == 'srcs' for k in ('found', 'iter')
                for x in s.ts.get(k, ())):
            pol.say('looked', 'it does not find out what else the source '
                    'depends on', fi.node)
        elif compiles and asked and not s.ts.get('reports') and not any(
                x[0] == 'srcs' for x in s.ts.get('found', ())) and \
                s.ts.get('sink'):
            pol.say('reported', 'what the source depends on is not reported',
                    fi.node)
    if any(called_for_deps(x) for x in all_terms(r)) or pol.maps:
        for k in ('srcs', 'dsts'):
            if not any(x == k for x, _ in pol.ever) and not any(
                    x[0] == k for s, _ in r.returns
                    for x in s.ts.get('done', ())):
                pol.say('reported', 'what the steps called found out is not '
                        'reported', fi.node)
    outputs(ck, pol, fi, r)
    report(ck, fi, bad, tuple(T))


def all_terms(r):
    for s, t in r.returns:
        for x in inside(s, [t]):
            yield from terms(x)


def lost(pol, s, fi):
    done = s.ts.get('done', frozenset())
    for k, d in s.ts.get('found', frozenset()) | \
            s.ts.get('iter', frozenset()):
        if (k, d) in done or nothing(s, d):
            continue
        moved = {x for x in s.ts.get('moved', ()) if x[:2] == (k, d)}
        # every iteration put it somewhere, or there were none
        if (k, d) in s.ts.get('dropped', ()) or \
                (k, d) not in s.ts.get('looped', ()) or \
                moved and not any(('moved',) + x in done for x in moved):
            pol.say('reported', lost_text(k), fi.node)
    for k, d, c in s.ts.get('sink', ()):
        # put into several collections: one that is reported is enough
        if not any((k, d, c2) in done for k2, d2, c2 in s.ts['sink']
                   if (k2, d2) == (k, d)) and not nothing(s, c):
            pol.say('reported', lost_text(k), fi.node)
    for k, d in s.ts.get('unput', ()):
        if ('unput', k, d) not in done and not nothing(s, d):
            pol.say('reported', lost_text(k), fi.node)


def lost_text(k):
    return 'some of the files %s are not reported' % (
        'read' if k == 'srcs' else 'produced')


def nothing(s, d):
    """Does a fact of this path say that there is nothing in it?"""
    for f, p in s.facts:
        if not p and f[0] not in ('cmp', 'forall') and carries(s, f, d):
            return True
        if f[0] == 'cmp' and f[1] in ('Is', 'Eq') and p and \
                f[3] == NONE and carries(s, f[2], d):
            return True
    return False


def searched(s, p):
    """Were files below this directory looked for?"""
    return any(x[0] == 'call' and tail(x[1]) in ('find', 'glob', 'listdir',
                                                 'walk', 'iglob')
               for k in ('sink', 'unput', 'found')
               for y in s.ts.get(k, ()) for x in terms(y[1]))


def used(ck, fi, p):
    """Is a parameter used for more than the directories of its files?"""
    for n in ast.walk(fi.node):
        for c in ast.iter_child_nodes(n):
            c.c22_up = n
    names = {p}
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.For, ast.comprehension)) and \
                isinstance(n.iter, ast.Name) and n.iter.id in names and \
                isinstance(n.target, ast.Name):
            names.add(n.target.id)
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Name) and n.id in names and \
                isinstance(n.ctx, ast.Load):
            up = n.c22_up
            if isinstance(up, ast.Attribute) and up.attr == 'parent':
                continue
            if isinstance(up, (ast.For, ast.comprehension)) and up.iter is n \
                    and isinstance(up.target, ast.Name):
                continue
            return True
    return False


def outputs(ck, pol, fi, r):
    got = told_the_db(fi)
    for s, t in r.returns:
        for x in alts(t):
            if got is None and makes(pol, s, x) and \
                    fi.name not in SCANS:
                pol.say('produced', 'what it produces is not declared',
                        fi.node)
            if got == DST[0] and several(s, x):
                pol.say('produced', 'several files are declared as one',
                        fi.node)
            if got == DST[1] and x[0] == 'call' and x[1] == PATH:
                pol.say('produced', 'one file is declared as several',
                        fi.node)


def several(s, t):
    return t in s.coll or t[0] in ('tuple', 'list', 'comp') or \
        t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple')


def makes(pol, s, t):
    if t[0] == 'tuple' and len(t) > 1 or t[0] == 'item' and t[2] == const(0):
        return makes(pol, s, t[1])
    if result_of_step(pol, s, t):
        return True
    told = s.ts.get('told', ())
    return t[0] == 'call' and any(
        t in x for x in (set(inside(s, [y])) for y in told))


# ---------------------------------------------------------------------- classes

def understood(ck, fi):
    """What a tool said is answered as a whole, and nothing is answered where
    it was not understood."""
    r = Interp(ck.prog, Deps({}, ck.prog, fi, None)).run(fi, cls=fi.cls)
    if not any(output_in(t) for s, t in r.returns):
        return
    ck.explored(r)
    for s, t in r.returns:
        if output_in(t):
            ck.require('understood', fi.qual, not any(
                x[0] == 'item' and output_in(x[1]) and
                x[1][0] == 'call' and tail(x[1][1]) in PIECES
                for x in terms(t)),
                'only a part of what the tool said is answered', where(fi))
            continue
        ck.require('understood', fi.qual, any(
            output_in(f) and (p if f[0] == 'call' and tail(f[1]) in MATCH
                              else not p if f[0] != 'cmp' else
                              p and f[1] in ('Is', 'Eq') and f[2][0] == 'call'
                              and tail(f[2][1]) not in MATCH)
            for f, p in s.facts), 'something is answered without having '
            'understood what the tool said', where(fi))


MATCH = {'match', 'search', 'fullmatch'}
PIECES = {'split', 'splitlines', 'rsplit', 'tuple', 'list', 'sorted',
          'findall'}


def output_in(t):
    return any(x[0] == 'call' and tail(x[1]) == 'execute' for x in terms(t))


def classes(ck):
    """The steps a class of C builders ends up with."""
    base = B + 'c.Builder'
    for q in sorted(ck.prog.classes):
        c = ck.prog.classes[q]
        if not q.startswith(B) or not any(k.qual == base for k in c.mro()):
            continue
        if q == base:
            for n in ('link_lib', 'link_exe'):
                linked(ck, c, n)
            continue
        m = c.find_method('compile')
        if c.find_method('uncached_compile') is not None and not abstract(
                c.find_method('uncached_compile')):
            ck.require('looked', q + '.compile', m is not None and
                       m.cls.qual != B + 'AbstractCompiler',
                       'it does not find out which headers are included',
                       ck_loc(m))
        for n in ('link_lib', 'link_exe'):
            if c.find_method(n) is not ck.prog.classes[base].find_method(n):
                linked(ck, c, n)


def native(ck):
    """What a tool reads beside the files it is given (native code)."""
    OBJ, LIB = 'native_obj_suffix', 'native_lib_suffix'
    for q in sorted(ck.prog.classes):
        c = ck.prog.classes[q]
        if not q.startswith(B) or not {OBJ, LIB} <= {
                x.attr for k in c.mro() for x in ast.walk(k.node)
                if isinstance(x, ast.Attribute) and
                isinstance(x.ctx, ast.Store)}:
            continue
        fi = c.find_method('_add_link_dependencies')
        if fi is None:
            continue
        bad = {}
        pol = Beside(bad)
        pol.fi = fi
        me = ('self', q)
        r = ck.explored(Interp(ck.prog, pol).run(fi, cls=c))
        for s, t in r.returns:
            got = s.ts.get('reported', frozenset())
            for p, a in (('srcs', OBJ), ('libs', LIB)):
                if p in fi.params and not any(
                        k == 'srcs' and beside(x, a, p) for k, x in got):
                    pol.say('reported', 'the native code that belongs to the '
                            '%s is not reported' % p, fi.node)
            if 'dst' in fi.params and not any(
                    k == 'dsts' and beside(x, LIB, 'dst') for k, x in got):
                if not any(not p and f[0] == 'call' and
                           tail(f[1]) == 'endswith' and f[2] == ('param', 'dst')
                           and f[3][0] in (const('.cmxa'),
                                           ('attr', me, 'lib_suffix'))
                           for f, p in s.facts):
                    pol.say('reported', 'the native library made beside the '
                            'library is not reported', fi.node)
            for k in c.mro()[1:]:
                b = k.methods.get('_add_link_dependencies')
                if b is None or fi.cls is k:
                    continue
                if b.qual not in s.ts.get('base', ()):
                    pol.say('reported', 'what every linker reads and makes '
                            'is not reported', fi.node)
                break
        if not r.returns:
            pol.say('reported', 'it never reports anything', fi.node)
        report(ck, fi, bad, ('reported',))


def beside(x, attr, p):
    """A file named like one of p but for the suffix in the attribute"""
    for y in terms(x):
        if y[0] == 'call' and y[2] is not None and len(y[3]) == 1 and \
                y[3][0][0] == 'attr' and y[3][0][2] == attr and \
                mentions(y[2], ('param', p)):
            return True
    return False


class Beside(Base):
    def inline(self, fi):
        return fi.name != '_add_link_dependencies' and super().inline(fi)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) == REPORT:
            for k, v in kwargs:
                for x in inside(s, [v]):
                    s.ts['reported'] = s.ts.get(
                        'reported', frozenset()) | {(k, x)}
        elif tail(name) == '_add_link_dependencies':
            given = {x for a in args + tuple(v for _, v in kwargs)
                     for x in terms(a)}
            lacking = [p for p in self.fi.params[1:]
                       if ('param', p) not in given]
            if lacking:
                self.say('reported', '%s is not handed on' % lacking[0], node)
            s.ts['base'] = s.ts.get('base', ()) + (name,)


def ck_loc(fi):
    return '%s:%d' % (fi.module.path, fi.node.lineno) if fi is not None else ''


class Linked(Deps):
    """deep: are the libraries found looked at for more libraries?"""
    deep = False
    some = False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        super().on_event(s, name, recv, args, kwargs, node, it)
        for x in args:
            for lib in terms(x):
                if lib[0] != 'elem':
                    continue
                of = [y[1] for y in alts(lib[1])
                      if y[0] == 'attr' and y[2] == 'libs' and
                      mentions(y[1], ('param', 'libs'))]
                if not of:
                    continue
                if recv is not None and tail(name) in (
                        'append', 'add', 'extend', 'update', '__iadd__',
                        'insert', 'appendleft'):
                    self.put(s, 'into', recv)
                    for y in alts(lib[1]):
                        if y[0] == 'attr' and y[2] == 'libs':
                            self.depends(s, y[1])
                    # looked at later
                    if any(mentions(b, recv) for b in of):
                        self.deep = True
                fr = it.cur_frame
                if fr is not None and (name == fr.fi.qual or any(
                        isinstance(p, tuple) and p[-1] == name
                        for p in fr.fid)):
                    self.deep = True

    def depends(self, s, owner):
        """Are they taken only from some of the libraries?"""
        for f, p in s.facts:
            if f[0] in ('attr', 'cmp', 'call') and f != ('attr', owner, 'libs') \
                    and f[:2] not in (('call', 'builtins.isinstance'),
                                      ('call', 'builtins.hasattr'),
                                      ('cmp', 'In')) and \
                    any(x[0] == 'attr' and x[1] == owner and x[2] != 'libs'
                        for x in terms(f)):
                self.some = True

    def reports(self, s, kind, X):
        super().reports(s, kind, X)
        if kind == 'srcs' and any(carries(s, X, c)
                                  for c in s.ts.get('into', ())):
            s.ts['libs'] = True


def linked(ck, c, name):
    """The libraries of the libraries are read as well."""
    fi = c.find_method(name)
    bad = {}
    pol = Linked(bad, ck.prog, fi, ())
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(fi, cls=c))
    ok = any(s.ts.get('libs') for s, t in r.returns)
    ck.require('reported', '%s.%s' % (c.qual, name),
               ok and pol.deep and not pol.some,
               'the libraries that libraries were linked with are not '
               'reported' if not ok else 'only some of the libraries that '
               'libraries were linked with are reported', ck_loc(fi))
