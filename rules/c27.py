"""Every function of the store that pickles or unpickles is followed.  Wherever
an object is dumped or loaded, the hook the pickler then has is evaluated on an
unknown object: it must answer a placeholder exactly for the context of the
store, and on loading that placeholder, and no other, must give the context; any
other is an error.  What the SQL store writes and reads must pass through these.
A build object that is taken apart for storing must be put together again with
its class and every attribute, and each store gets the context it is made for."""
from .common import *
from .c21 import Base, report, terms

BASE = 'fbuild.db.backend.Backend'
DATABASE = 'fbuild.db.database.Database'
CONTEXT = 'fbuild.context.Context'
DUMP = ('pickle.Pickler', 'pickle._Pickler')
LOAD = ('pickle.Unpickler', 'pickle._Unpickler')
X = ('param', '?object')

T = {
    'dumped': 'the context is replaced by a placeholder, and nothing else',
    'loaded': 'the placeholder, and nothing else, gives the current context',
    'paired': 'what is stored is loaded with the same placeholder',
    'stored': 'what is stored was pickled that way and what is found is '
              'unpickled that way',
    'whole': 'a build object taken apart for storing is restored as it was',
    'current': 'a store refers to the context it was made for',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('the module pickle calls persistent_id and persistent_load as '
              'documented')
    bad = {}
    dumps, loads = picklers(ck, bad)
    stored(ck, bad, dumps, loads)
    current(ck, bad)
    for k in T:
        ck.at_least(k, 1)


# ---------------------------------------------------------------------- pickling

class Pickles(Base):
    """ts: in = what was loaded"""
    found = None
    probing = False

    def __init__(self, bad, prog, names=()):
        super().__init__(bad)
        self.names = names
        self.prog = prog
        self.found = {}
        self.whole = {}
        self.inits = {}

    def inline(self, fi):
        return fi.module.name.startswith('fbuild.db') and (
            self.probing or fi.outer is not None or
            fi.cls is None and touches(fi, self.names) or self.kind_of(fi.cls) is not None or
            fi.name == '__init__' and fi.cls is not None and
            fi.cls.name.startswith('_'))

    def on_iter(self, s, E, node, it):
        if self.loaded(E):
            s.ts['set'] = 0
        elif items_of(E) is not None:
            s.ts['kept'] = 0

    def iter_done(self, s, E, node, it):
        if self.loaded(E) and s.ts.pop('set', 0) == 1:
            return ('restored',)
        if items_of(E) is not None and s.ts.pop('kept', 0) == 1:
            return ('kept',)
        return ()

    def loaded(self, E):
        return any(x[0] == 'call' and tail(x[1]) == 'load' and
                   x[2] is not None and self.kind(x[2]) == 'load'
                   for x in terms(E))

    def kind_of(self, c):
        if c is None:
            return None
        ext = c.external_bases()
        for x in ext:
            x = getattr(x, 'qual', x)
            if x in DUMP:
                return 'dump'
            if x in LOAD:
                return 'load'
        return None

    def kind(self, t):
        """Is t a pickler ('dump') or an unpickler ('load')?"""
        while t[0] == 'entered':
            t = t[1]
        q = t[1] if t[0] in ('call', 'new') else None
        if q in DUMP:
            return 'dump'
        if q in LOAD:
            return 'load'
        return self.kind_of(self.prog.classes.get(q))

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name in ('pickle.dump', 'pickle.dumps'):
            self.say('dumped', 'it is pickled without replacing the context',
                     node)
        elif name in ('pickle.load', 'pickle.loads'):
            self.say('loaded', 'it is unpickled without putting the context '
                     'back', node)
        elif name == 'set.attr' and args and args[0] in (
                const('persistent_id'), const('persistent_load')):
            pass
        if 'kept' in s.ts and name == 'set.item':
            s.ts['kept'] += 1
        if 'set' in s.ts and (name in ('builtins.setattr', 'set.attr') or
                              tail(name) == '__setattr__' or
                              name == 'set.item' and recv is not None and
                              recv[0] == 'attr' and recv[2] == '__dict__'):
            s.ts['set'] += 1
        if tail(name) == 'update' and recv is not None and \
                recv[0] == 'attr' and recv[2] == '__dict__' and args:
            t = args[0]
            if t[0] == 'comp' and t[1] == 'dict' and not t[4] and \
                    self.loaded(t[3]) or t[0] == 'attr' and self.loaded(t):
                s.ts['updated'] = True
        if recv is None or tail(name) not in ('dump', 'load'):
            return
        k = self.kind(recv)
        if k is None or k != tail(name):
            return
        it_ctx = self.contexts(s, it, recv)
        if k == 'dump':
            self.dump(s, recv, args, node, it, it_ctx)
        else:
            self.load(s, recv, node, it, it_ctx)

    def contexts(self, s, it, recv):
        out = {('param', 'ctx')}
        for f in it.frames.values():
            c = getattr(f, 'cls', None)
            if c is not None:
                out.add(('attr', ('self', c.qual), '_ctx'))
        c = self.prog.classes.get(recv[1])
        m = c.find_method('__init__') if c is not None else None
        if m is None:
            return out
        for attr, i, n in self.kept(m):
            given = recv[3][i - 1] if i <= len(recv[3]) else \
                dict(recv[4]).get(n)
            if given in out:
                out.add(('attr', recv, attr))
        return out

    def kept(self, m):
        """(attribute, index, parameter) the constructor stores."""
        if m.qual not in self.inits:
            r = Interp(self.prog, Base({})).run(m)
            me = ('self', m.cls.qual)
            out = None
            for s, t in r.returns:
                got = {(k[1], v[1]) for k, v in s.heap.items()
                       if k[0] == me and v[0] == 'param'}
                out = got if out is None else out & got
            self.inits[m.qual] = sorted(
                (a, m.params.index(n), n) for a, n in out or ()
                if n in m.params)
        return self.inits[m.qual]

    def hook(self, s, recv, attr, node, it):
        """What the hook gives for an unknown object: [(state, term)], raises;
        None if there is no such hook."""
        if (recv, attr) in s.heap:
            f = s.heap[(recv, attr)]
        else:
            c = self.prog.classes.get(recv[1])
            m = c.find_method(attr) if c is not None else None
            if m is None:
                return None
            return probe(it, s, ('global', m.qual), (recv, X), node)
        return probe(it, s, f, (X,), node)

    def dump(self, s, recv, args, node, it, ctxs):
        got = self.hook(s, recv, 'persistent_id', node, it)
        if got is None:
            self.say('dumped', 'it is pickled without replacing the context',
                     node)
            return
        rets, raises = got
        if raises:
            self.say('dumped', 'pickling may fail', node)
        names = set()
        for x, t in rets:
            for w in worlds(x):
                yes = is_ctx(w, ctxs)
                if yes is None:
                    self.say('dumped', 'what replaces an object does not '
                             'depend on whether it is the context', node)
                elif yes and (t[0] != 'const' or t == NONE):
                    self.say('dumped', 'the context is pickled', node)
                elif not yes and t != NONE:
                    self.say('dumped', 'something else than the context is '
                             'replaced', node)
                if yes and t[0] == 'const' and t != NONE:
                    names.add(t)
        if not names:
            self.say('dumped', 'the context is pickled', node)
        self.found.setdefault('dump', set()).update(names)
        self.found.setdefault('dumps', set()).add(node.lineno)
        if args:
            self.what(s, args[0], node)

    def load(self, s, recv, node, it, ctxs):
        got = self.hook(s, recv, 'persistent_load', node, it)
        if got is None:
            self.say('loaded', 'it is unpickled without putting the context '
                     'back', node)
            return
        rets, raises = got
        if not raises:
            self.say('loaded', 'an unknown placeholder is not an error', node)
        names = set()
        for x, t in rets:
            for w in worlds(x):
                eq = [f for f, p in w.facts if p and f[0] == 'cmp' and
                      f[1] in ('Eq', 'Is') and X in f[2:]]
                got = [y for f in eq for y in f[2:] if y != X]
                if not got and not any(
                        p and f[0] == 'cmp' and f[1] == 'In' and f[2] == X
                        for f, p in w.facts):
                    self.say('loaded', 'an unknown placeholder is not an '
                             'error', node)
                elif t not in ctxs:
                    self.say('loaded', 'a placeholder does not give the '
                             'current context', node)
                names.update(y for y in got if y[0] == 'const')
        if not rets:
            self.say('loaded', 'the placeholder of the context is an error',
                     node)
        self.found.setdefault('load', set()).update(names)

    def what(self, s, t, node):
        """What is dumped is the object itself or, for a build object, all of
        it."""
        self.whole.setdefault('dumped', []).append((s.copy(), t, node))


def is_ctx(w, ctxs):
    out = None
    for f, p in w.facts:
        if f[0] == 'cmp' and f[1] in ('Is', 'Eq') and X in f[2:] and any(
                c in f[2:] for c in ctxs):
            out = p
        if f[0] == 'call' and f[1] == 'builtins.isinstance' and \
                f[3][:1] == (X,) and f[3][1] == ('global', CONTEXT):
            out = p
    return out


def probe(it, s, f, args, node):
    """The results and errors of calling f here."""
    saved, it.cur_raises = it.cur_raises, []
    it.pol.probing = True
    rec, it.recording = it.recording, False
    try:
        rets = it.call(f, args, (), s.copy(), node, it.cur_frame)
        return rets, list(it.cur_raises)
    finally:
        it.cur_raises, it.recording = saved, rec
        it.pol.probing = False


def touches(fi, names):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and n.attr in names or \
                isinstance(n, ast.Name) and n.id in names:
            return True
    return False


def picklers(ck, bad):
    prog = ck.prog
    mine = {c.name for c in prog.classes.values()
            if Pickles(bad, prog).kind_of(c)}
    names = mine | {'pickle', 'Pickler', '_Pickler', 'Unpickler',
                    '_Unpickler', '_pickler', '_unpickler'}
    helpers = {fi.name for fi in prog.functions.values()
               if fi.module.name.startswith('fbuild.db') and
               fi.cls is None and fi.outer is None and touches(fi, names)}
    groups = {}
    dumps, loads = set(), set()
    for fi in list(prog.functions.values()):
        if not fi.module.name.startswith('fbuild.db') or \
                fi.outer is not None or not touches(fi, names | helpers) or \
                Pickles(bad, prog).kind_of(fi.cls):
            continue
        pol = Pickles(bad, prog, names)
        r = ck.explored(Interp(prog, pol).run(fi))
        if not pol.found and not bad:
            continue
        if 'dump' in pol.found:
            dumps.add(fi.name)
        if 'load' in pol.found:
            loads.add(fi.name)
        g = groups.setdefault(fi.cls.qual if fi.cls else fi.module.name, {})
        for k in ('dump', 'load'):
            if k in pol.found:
                g.setdefault(k, set()).update(pol.found[k])
                g.setdefault('fi', fi)
        rules = ['dumped'] if 'dump' in pol.found else []
        rules += ['loaded'] if 'load' in pol.found else []
        apart(ck, fi, pol, r, g, bad)
        report(ck, fi, bad, rules + ['whole'])
    if not groups:
        raise AnalysisBroken('no pickling found')
    for q, g in sorted(groups.items()):
        if 'fi' not in g:
            continue
        d, l = g.get('dump', set()), g.get('load', set())
        if not d or not l or len(d) != 1 or d != l:
            bad['paired', 'the placeholder stored is not the one that is '
                'loaded'] = g['fi'].node.lineno
        report(ck, g['fi'], bad, ('paired',))
        w, u = g.get('wraps', set()), g.get('unwraps', set())
        if w - u:
            bad['whole', 'a build object is taken apart but not put together '
                'again'] = g['fi'].node.lineno
            report(ck, g['fi'], bad, ('whole',))
    return dumps, loads


# --------------------------------------------------------------- taken apart

def obj_of(fi):
    ps = [p for p in fi.params if p not in ('self', 'ctx')]
    return ('param', ps[0]) if ps else None


def apart(ck, fi, pol, r, g, bad):
    """What is dumped instead of a build object must hold its class and all its
    attributes; what is loaded must be put together from those."""
    me = obj_of(fi)
    for s, t, node in pol.whole.get('dumped', ()):
        if t[0] in ('new', 'call') and t[1] in ck.prog.classes:
            g.setdefault('wraps', set()).add(t[1])
            vals = [v for (o, k), v in s.heap.items() if o == t] + (
                list(t[3]) if t[0] == 'call' else [])
            cls = [v for v in vals if is_class_of(v, me)]
            state = [v for v in vals if is_state_of(s, v, me)]
            if not cls:
                pol.say('whole', 'its class is not stored', node)
            if not state:
                pol.say('whole', 'not all its attributes are stored', node)
    if 'load' not in pol.found:
        return
    for s, t in r.returns:
        loaded = [x for x in terms(t) if x[0] == 'call' and
                  tail(x[1]) == 'load']
        for w in worlds(s):
            for f, p in w.facts:
                if not (f[0] == 'call' and f[1] == 'builtins.isinstance' and
                        tail(f[3][0][1] if f[3][0][0] == 'call' else '') ==
                        'load' and f[3][1][0] == 'global' and
                        f[3][1][1] in ck.prog.classes):
                    continue
                if not p:
                    if t != f[3][0]:
                        pol.say('whole', 'it does not return what was '
                                'stored', fi.node)
                    continue
                g.setdefault('unwraps', set()).add(f[3][1][1])
                again(w, t, f[3][0], pol, fi)
    return


def is_class_of(v, me):
    return v in (('attr', me, '__class__'),
                 ('call', 'builtins.type', None, (me,), ()))


def dict_of(t):
    """The object whose __dict__ t is."""
    if t[0] == 'attr' and t[2] == '__dict__':
        return t[1]
    if t[0] == 'call' and t[1] == 'builtins.vars' and t[3]:
        return t[3][0]
    return None


def is_dict(t, me):
    return dict_of(t) == me


def is_state_of(s, v, me):
    """Is v a dictionary of all the attributes of me?"""
    if v[0] == 'call' and v[1] in ('builtins.dict', '.copy'):
        v = v[3][0] if v[3] else v[2]
    if is_dict(v, me):
        return True
    if v[0] == 'comp' and v[1] == 'dict':
        return not v[4] and whole_items(v[3], me)
    got = s.coll.get(v)
    if got is not None:
        return any(f[0] == 'forall' and p and whole_items(f[1], me) and
                   f[2] == ('did', 'kept') for f, p in s.facts) or any(
            f[0] == 'forall_none' and p and whole_items(f[1], me)
            for f, p in s.facts)
    return False


def items_of(E):
    """The object over whose attributes E goes."""
    while E[0] == 'call' and E[1] in ('builtins.list', 'builtins.sorted',
                                      'builtins.tuple') and E[3]:
        E = E[3][0]
    if E[0] == 'call' and tail(E[1]) == 'items' and E[2] is not None:
        return dict_of(E[2])
    return dict_of(E)


def whole_items(E, me):
    return items_of(E) == me


def again(w, t, value, pol, fi):
    """t is put together from the loaded value."""
    made = t[0] == 'call' and tail(t[1]) == '__new__' and t[3] and \
        t[3][-1][0] == 'attr' and t[3][-1][1] == value
    if not made:
        pol.say('whole', 'it is not restored with its class', fi.node)
        return
    for f, p in w.facts:
        if p and f[0] in ('forall', 'forall_none') and any(
                x[0] == 'attr' and x[1] == value for x in terms(f[1])):
            if f[0] == 'forall_none' or f[2] == ('did', 'restored'):
                return
    if w.ts.get('updated'):
        return
    pol.say('whole', 'its attributes are not restored', fi.node)


# ------------------------------------------------------------------ the SQL store

class Rows(Base):
    """What is written to and compared or returned from the tables."""

    def __init__(self, bad, dumps, loads):
        super().__init__(bad)
        self.dumps, self.loads = dumps, loads
        self.wrote = 0

    def raw(self, t, what):
        """Does t hold something that what() accepts which was not pickled?"""
        if t[0] == 'call' and tail(t[1]) in self.dumps | self.loads:
            return False
        if what(t):
            return True
        return any(self.raw(x, what) for x in direct(t))

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) in ('execute', 'executemany'):
            for a in args[1:]:
                for x in terms(a):
                    if x[0] == 'call' and tail(x[1]) in self.dumps:
                        self.wrote += 1
                if self.raw(a, lambda x: x[0] == 'param' and x[1] in VALUES):
                    self.say('stored', 'a value is stored without replacing '
                             'the context', node)


VALUES = ('bound', 'call_bound', 'call_result', 'result')


def direct(t):
    for x in t:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            else:
                for y in direct(x):
                    yield y


def is_row(t):
    return t[0] == 'elem' and any(x[0] == 'call' and tail(x[1]) in (
        'execute', 'fetchall') for x in terms(t[1])) or \
        t[0] == 'call' and tail(t[1]) in ('fetchone', 'fetchmany')


def is_value(t):
    """A column of a row other than the first."""
    return t[0] == 'item' and is_row(t[1]) and t[2] != const(0) or \
        is_row(t) and t[0] != 'elem'


def stored(ck, bad, dumps, loads):
    n = 0
    for c in ck.prog.subclasses(BASE, True):
        m = c.methods.get('save_call')
        if m is not None and any(isinstance(x, ast.Attribute) and x.attr in (
                'execute', 'executemany') for x in ast.walk(m.node)):
            pol = Rows(bad, dumps, loads)
            r = ck.explored(Interp(ck.prog, pol).run(m))
            if not pol.wrote:
                pol.say('stored', 'a value is stored without replacing the '
                        'context', m.node)
            report(ck, m, bad, ('stored',))
            n += 1
        m = c.methods.get('find_call')
        if m is not None and any(isinstance(x, ast.Attribute) and
                                 x.attr == 'execute'
                                 for x in ast.walk(m.node)):
            pol = Rows(bad, dumps, loads)
            r = ck.explored(Interp(ck.prog, pol).run(m))
            for s, t in r.returns:
                res = members(t)
                if res is None or len(res) != 3:
                    pol.say('stored', 'it does not return the call found',
                            m.node)
                    continue
                if res[2] != NONE and (pol.raw(res[2], is_value) or not any(
                        x[0] == 'call' and tail(x[1]) in loads
                        for x in terms(res[2]))):
                    pol.say('stored', 'what is found is returned without '
                            'putting the context back', m.node)
                for f, p in s.facts:
                    if f[0] == 'cmp' and f[1] in ('Eq', 'NotEq') and \
                            ('param', 'bound') in f[2:] and any(
                                pol.raw(x, is_value) for x in f[2:]):
                        pol.say('stored', 'the arguments are compared with '
                                'stored ones in which the context was not '
                                'put back', m.node)
            report(ck, m, bad, ('stored',))
            n += 1
    if n < 2:
        raise AnalysisBroken('no store that keeps pickled values found')


def members(t):
    if t[0] == 'tuple':
        return t[1] if len(t) == 2 and isinstance(t[1], tuple) else t[1:]
    return None


# ------------------------------------------------------------- whose context it is

class Made(Base):
    def __init__(self, bad, quals, good):
        super().__init__(bad)
        self.quals, self.good = quals, good
        self.n = 0

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name in self.quals:
            self.n += 1
            first = args[0] if args else dict(kwargs).get('ctx')
            if first not in self.good:
                self.say('current', 'a store is made for something else than '
                         'the context', node)


class Init(Base):
    """ts: kept = the context was handed to the base class"""

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) == '__init__' and args and (
                recv is not None and recv[0] == 'superof' or
                name == BASE + '.__init__'):
            first = [a for a in args if a[0] != 'self'][:1]
            if first and (first[0] == ('param', 'ctx') or
                          '*args' in repr(first[0])):
                s.ts['kept'] = True


def current(ck, bad):
    prog = ck.prog
    base = prog.require_class(BASE)
    for c in [base] + list(prog.subclasses(BASE, True)):
        m = c.methods.get('__init__')
        if m is None:
            continue
        r = ck.explored(Interp(prog, Init(bad)).run(m, cls=c))
        me = ('self', c.qual)
        for s, t in r.returns:
            if s.heap.get((me, '_ctx')) == ('param', 'ctx'):
                continue
            if c is not base and s.ts.get('kept'):
                continue
            bad['current', 'the context it is made for is not kept'] = \
                m.node.lineno
        report(ck, m, bad, ('current',))
    m = prog.require_method(DATABASE, '__init__')
    pol = Made(bad, {c.qual for c in prog.subclasses(BASE, True)},
               (('param', 'ctx'),))
    ck.explored(Interp(prog, pol).run(m))
    if not pol.n:
        raise AnalysisBroken('no store is made')
    report(ck, m, bad, ('current',))
    m = prog.require_method(CONTEXT, '__init__')
    pol = Made(bad, {DATABASE}, (('self', CONTEXT),))
    makers = 0
    for fi in prog.require_class(CONTEXT).methods.values():
        if any(isinstance(n, ast.Attribute) and n.attr == 'Database'
               or isinstance(n, ast.Name) and n.id == 'Database'
               for n in ast.walk(fi.node)):
            ck.explored(Interp(prog, pol).run(fi))
            report(ck, fi, bad, ('current',))
    if not pol.n:
        raise AnalysisBroken('no database is made')
    # nobody gives a store another context later
    for fi in prog.functions.values():
        if not fi.module.name.startswith('fbuild.db') or \
                fi.name == '__init__' or fi.outer is not None:
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and n.attr == '_ctx' and \
                    not isinstance(n.ctx, ast.Load):
                bad['current', 'the context of the store is replaced'] = \
                    n.lineno
                report(ck, fi, bad, ('current',))
