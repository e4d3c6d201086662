"""Every function of the program is followed on every path and each place where a
list, set or dictionary is changed is looked at: a method that changes it, a
stored or deleted item, an augmented assignment.  What is changed must not be,
or be reached through the elements of, a parameter, a default, a collection of
the module or class, or something that a constructor kept of its arguments
without copying it.  Copies are told apart by depth: the elements of a shallow
copy are still the caller's.  Helpers are followed into, with the arguments they
are given."""
from .common import *
from .c21 import Base, terms
from sa.interp import baseline_functions

T = {
    'argument': 'a collection that was passed in is not modified',
    'default': 'a collection shared between calls is not modified',
    'kept': 'a collection an object kept of its arguments is not modified',
}

MUT = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem',
       'remove', 'discard', 'clear', 'setdefault', 'sort', 'reverse',
       'intersection_update', 'difference_update', '__setitem__',
       'symmetric_difference_update', 'appendleft', 'popleft', 'extendleft',
       '__delitem__', '__iadd__', '__ior__', '__iand__', '__isub__',
       '__ixor__', 'move_to_end'}
FUN = {'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heapreplace',
       'random.shuffle', 'bisect.insort', 'bisect.insort_left',
       'bisect.insort_right', 'operator.iadd', 'operator.ior',
       'operator.iconcat', 'operator.setitem', 'operator.delitem',
       'operator.isub', 'operator.iand'}
# those that take an argument, unlike operations of other types by that name
ARGS = {'append': 1, 'extend': 1, 'insert': 2, 'add': 1, 'remove': 1,
        'discard': 1, 'setdefault': 1, '__iadd__': 1}
SHALLOW = {'builtins.list', 'builtins.dict', 'builtins.set', 'builtins.tuple',
           'builtins.frozenset', 'builtins.sorted', 'copy.copy', '.copy',
           'builtins.reversed', 'collections.OrderedDict',
           'collections.deque', '.union', '.difference', '.intersection',
           'itertools.chain', 'builtins.iter', '.items', '.values',
           'builtins.filter', 'builtins.enumerate', 'builtins.zip'}
COPIES = {'copy.copy', 'copy.deepcopy', 'builtins.list', 'builtins.set',
          'builtins.dict'}
INTO = {'get', 'setdefault', 'pop', 'popitem', '__getitem__', 'popleft'}
# what a function changes for its caller by definition: the parameter, and
# whether its elements are changed, too
OUT = {'fbuild.builders.platform.parse_platform_options': ('kwargs', True),
       'fbuild.db.backend.Backend.check_function': ('already_checked', False)}

SCOPE = ('fbuild.builders', 'fbuild.config')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('a value whose type is not known and which is added to with '
              '"+=" is not a list unless a list, tuple or collection '
              'parameter is added to it')
    prog = ck.prog
    kept = stored(ck)
    n = 0
    for q, fi in sorted(prog.functions.items()):
        if fi.is_lambda or not entry(prog, fi):
            continue
        n += 1
        pol = Mutation(prog, fi, kept)
        r = ck.explored(Interp(prog, pol, 1200000).run(fi))
        if pol.flows:
            # again, now that it is known what is put where
            ck.explored(Interp(prog, pol, 1200000).run(fi))
        for (rule, what), node in sorted(pol.bad.items(),
                                         key=lambda x: repr(x[0])):
            ck.require(rule, q, False, what, where(fi, node))
        for rule in sorted(pol.seen):
            if not any(k[0] == rule for k in pol.bad):
                ck.require(rule, q, True, '', where(fi))
    if n < 300:
        raise AnalysisBroken('only %d functions found' % n)
    for k in T:
        ck.at_least(k, 1)


def called(prog):
    """The names that are called or handed around somewhere."""
    key = 'c29-called'
    if key not in prog._canon:
        out = {}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                x = n.attr if isinstance(n, ast.Attribute) else \
                    n.id if isinstance(n, ast.Name) else None
                if x is not None:
                    out[x] = out.get(x, 0) + 1
        prog._canon[key] = out
    return prog._canon[key]


def entry(prog, fi):
    """Functions that were not there before are followed from their callers."""
    return fi.qual in baseline_functions() or fi.name not in called(prog)


# ------------------------------------------------------------------------ aliases

class Mutation(Base):
    max_states = 12

    def __init__(self, prog, fi, kept):
        super().__init__({})
        self.prog, self.fi, self.kept = prog, fi, kept
        self.seen = set()
        self.packs = set()
        self.flows = {}         # container -> what is put in it
        self.copied = {}        # term -> the types it is copied for
        a = fi.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.packs.add(x.arg)

    def say(self, rule, why, node):
        self.bad.setdefault((rule, why), node)

    # same(t): the things t may be; inside(t): those whose elements it may hold
    def same(self, s, t, depth=0):
        k = t[0]
        if depth > 24:
            return set()
        if k == 'phi':
            return set().union(*[self.same(s, x, depth + 1)
                                 for x in self.choices(t)])
        if k == 'param':
            n = t[1].lstrip('*')
            if n in self.packs and t[1].startswith('*') or n in self.packs:
                return set()
            return {('argument', n, 0)}
        if k == 'default':
            return {('default', t[2], 0)}
        if k == 'global':
            return {('default', t[1], 0)} if self.shared(t[1]) else set()
        if k == 'item':
            if isinstance(t[2], tuple) and t[2][:1] == ('slice',):
                return set()
            return self.deeper(self.inside(s, t[1], depth + 1))
        if k == 'elem':
            return self.deeper(self.inside(s, t[1], depth + 1))
        if k == 'call' and tail(t[1]) in INTO and t[2] is not None:
            out = self.deeper(self.inside(s, t[2], depth + 1))
            for x in t[3][1:]:
                out |= self.same(s, x, depth + 1)
            return out
        if k == 'call' and t[1] == 'builtins.next' and t[3]:
            return self.deeper(self.inside(s, t[3][0], depth + 1))
        if k == 'attr' and t[1][0] == 'self':
            return self.field(t[1][1], t[2])
        if k == 'ifexp':
            return self.same(s, t[2], depth + 1) | \
                self.same(s, t[3], depth + 1)
        return set()

    def deeper(self, xs):
        return {(r, n, 1) for r, n, d in xs}

    def inside(self, s, t, depth=0):
        k = t[0]
        if depth > 24:
            return set()
        out = set()
        if depth < 8:
            for x in self.flows.get(t, ()):
                out |= self.same(s, x, depth + 8)
        return out | self._inside(s, t, depth)

    def choices(self, t):
        """The alternatives, without those that were copied where it matters."""
        out = set(t[1])
        for x in t[1]:
            if x[0] == 'call' and x[1] in COPIES and len(x[3]) == 1 and \
                    {'list', 'set'} <= self.copied.get(x[3][0], set()):
                out.discard(x[3][0])
            if x[0] == 'pair' and x[2][0] == 'call' and x[2][1] in COPIES and \
                    {'list', 'set'} <= self.copied.get(x[2][3][0], set()):
                out.discard(('pair', x[1], x[2][3][0]))
        return out

    def _inside(self, s, t, depth):
        k = t[0]
        if k == 'phi':
            return set().union(*[self.inside(s, x, depth + 1)
                                 for x in self.choices(t)])
        if k == 'param':
            return {('argument', t[1].lstrip('*'), 0)}
        if k == 'call' and t[1] in SHALLOW or \
                k == 'call' and tail(t[1]) in ('copy', 'items', 'values',
                                               'union') and t[2] is not None:
            out = set()
            for x in t[3] + ((t[2],) if t[2] is not None else ()):
                out |= self.inside(s, x, depth + 1)
            return out
        if k == 'comp' and t[2][0] == 'phi':
            return set().union(*[self.same(s, x, depth + 1) |
                                 self.inside(s, x, depth + 1)
                                 for x in self.choices(t[2])])
        if k == 'comp':
            return self.same(s, t[2], depth + 1) | \
                self.inside(s, t[2], depth + 1)
        if k == 'item' and isinstance(t[2], tuple) and \
                t[2][:1] == ('slice',):
            return self.inside(s, t[1], depth + 1)
        if k in ('pair', 'tuple'):
            out = set()
            for x in t[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    out |= self.same(s, x, depth + 1)
                    out |= self.inside(s, x, depth + 1)
            return out
        if k == 'bin':
            return self.inside(s, t[2], depth + 1) | \
                self.inside(s, t[3], depth + 1)
        got = s.coll.get(t)
        if got is not None:
            out = set()
            for x in got[2]:
                for y in x[1:]:
                    if not (isinstance(y, tuple) and y and
                            isinstance(y[0], str)):
                        continue
                    if x[0] in ('all', 'upd', 'update', 'from'):
                        out |= self.inside(s, y, depth + 1)
                    else:
                        out |= self.same(s, y, depth + 1)
                        out |= self.inside(s, y, depth + 1)
            return out
        # what is reached through something
        return self.same(s, t, depth + 1)

    def elements(self, s, t):
        """What the elements of t may be, without what these hold."""
        out = set()
        if t[0] == 'comp':
            for x in self.choices(t[2]) if t[2][0] == 'phi' else (t[2],):
                out |= self.same(s, x[2] if x[0] == 'pair' else x)
        elif t in s.coll and s.coll[t][2]:
            for x in s.coll[t][2]:
                if x[0] == 'one':
                    out |= self.same(s, x[1])
                elif x[0] == 'kv':
                    out |= self.same(s, x[2])
                else:
                    return self.deeper(self.inside(s, t))
        else:
            out = self.inside(s, t)
        return self.deeper(out)

    def shared(self, q):
        """Is q a collection at the top of a module or class?"""
        mod, _, var = q.rpartition('.')
        m = self.prog.modules.get(mod)
        if m is not None:
            return m.name.startswith(SCOPE) and var in m.assigns and any(
                is_display(v) for v in m.assigns[var])
        c = self.prog.classes.get(mod)
        return c is not None and c.module.name.startswith(SCOPE) and \
            class_level(c, var)

    def field(self, cq, attr):
        out = set()
        c = self.prog.classes.get(cq)
        if c is None:
            return out
        got = self.kept.get((cq, attr))
        if got:
            out.add(('kept', '%s, which is the argument %s,' % (
                attr, sorted(got)[0]), 0))
        if ('set', cq, attr) not in self.kept and \
                c.module.name.startswith(SCOPE) and any(
                    class_level(k, attr) for k in c.mro()):
            out.add(('default', attr, 0))
        return out

    # ------------------------------------------------------------------ mutations

    def on_event(self, s, name, recv, args, kwargs, node, it):
        n = tail(name)
        if name in COPIES and len(args) == 1:
            ks = {x[1].rpartition('.')[2] for f, p in s.facts
                  if p and f[0] == 'call' and f[1] == 'builtins.isinstance'
                  and f[3][0] == args[0]
                  for x in subterms(f[3][1])
                  if isinstance(x, tuple) and x[:1] == ('global',)}
            self.copied.setdefault(args[0], set()).update(
                ks or {'list', 'set'})
        if name == 'set.item' and recv is not None and len(args) > 1 and \
                recv not in s.coll and recv[0] in ('param', 'call'):
            self.flows.setdefault(recv, set()).add(args[1])
        if name in OUT:
            f = self.prog.functions[name]
            p, deep = OUT[name]
            i = f.params.index(p) - (f.cls is not None)
            x = args[i] if i < len(args) else dict(kwargs).get(p)
            if x is not None:
                self.changed(s, x, name, (), node, it)
                if deep:
                    self.report(self.elements(s, x), s, (), name, node)
        if name in FUN or name.startswith('builtins.') and n in MUT and \
                recv is None:
            if args:
                self.changed(s, args[0], name, args[1:], node, it)
        elif name in ('set.item', 'del.item'):
            if recv is not None:
                self.changed(s, recv, name, args, node, it)
        elif name.startswith('aug.'):
            if isinstance(node, ast.AugAssign) and recv is not None and \
                    self.in_place(s, name[4:], recv, args[0], it):
                self.changed(s, recv, name, args, node, it)
        elif n in MUT and recv is not None and \
                len(args) + len(kwargs) >= ARGS.get(n, 0) and \
                self.prog.classes.get(name.rpartition('.')[0]) is None:
            self.changed(s, recv, name, args, node, it)

    def changed(self, s, t, name, args, node, it):
        hits = self.same(s, t)
        if t[0] in ('new', 'param', 'attr', 'elem', 'item', 'call', 'default',
                    'phi'):
            self.seen.add('argument')
        if t[0] == 'attr' and t[1][0] == 'self':
            self.seen.add('kept')
        if self.fi.module.name.startswith(SCOPE):
            self.seen.add('default')
        self.report(hits, s, args, name, node)

    def report(self, hits, s, args, name, node):
        for rule, what, d in hits:
            if rule == 'argument':
                if what == OUT.get(self.fi.qual, (None,))[0] and \
                        d <= OUT[self.fi.qual][1]:
                    continue
                if d == 0 and what in self.fi.params[:1] and \
                        self.fi.cls is not None and not self.fi.is_static:
                    continue        # its own object
                if self.namespace(what) or self.scalar(s, what, args, name):
                    continue
            where_ = '' if d == 0 else 'something in '
            if rule == 'argument':
                self.say(rule, 'it modifies %sits argument %s' % (
                    where_, what), node)
            elif rule == 'kept':
                self.say(rule, 'it modifies %s%s' % (where_, what), node)
            else:
                self.say(rule, 'it modifies %s%s, which all calls share' % (
                    where_, what), node)

    def namespace(self, p):
        """The dictionary a metaclass is given is that of the new class."""
        return self.fi.name in ('__new__', '__init__', '__prepare__') and \
            self.fi.cls is not None and any(
                getattr(b, 'qual', b) in ('builtins.type', 'abc.ABCMeta')
                for b in self.fi.cls.external_bases()) and \
            p in self.fi.params[3:4]

    def scalar(self, s, p, args, name):
        """Is the parameter surely no list, set or dictionary?"""
        for f, pol in s.facts:
            if pol and f[0] == 'call' and f[1] == 'builtins.isinstance' and \
                    f[3][0] == ('param', p):
                k = f[3][1]
                k = k[1:] if k[0] == 'tuple' else (k,)
                if all(x in SCALARS for x in k):
                    return True
        return False

    def in_place(self, s, op, t, arg, it):
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            return not self.number(t) and not self.number(arg)
        if op == 'Mult':
            return self.listlike(s, t)
        if op != 'Add':
            return False
        if self.text(arg) or self.text(t):
            return False
        return self.listlike(s, arg) or self.listlike(s, t)

    def number(self, t):
        if t[0] == 'const' and t[1] in ('int', 'float', 'bool'):
            return True
        if t[0] == 'param':
            d = default_of(self.fi, t[1])
            return isinstance(d, ast.Constant) and \
                isinstance(d.value, (int, float))
        if t[0] == 'call':
            return t[1] in ('builtins.len', 'builtins.int', 'builtins.sum',
                            'builtins.float', 'time.time')
        if t[0] == 'bin':
            return self.number(t[2]) or self.number(t[3])
        return False

    def text(self, t):
        if t[0] == 'const':
            return True
        if t[0] == 'fstr' or t[0] == 'call' and (
                t[1] in ('builtins.str', 'builtins.repr') or
                tail(t[1]) in ('join', 'format', 'decode', 'encode')):
            return True
        if t[0] == 'bin':
            return t[1] == 'Mod' and self.text(t[2]) or \
                self.text(t[2]) or self.text(t[3])
        if t[0] == 'param':
            d = default_of(self.fi, t[1])
            return isinstance(d, ast.Constant) and d.value is not None
        return False

    def listlike(self, s, t):
        if t in s.coll or t[0] in ('new', 'comp', 'tuple', 'default'):
            return True
        if t[0] == 'call' and (t[1] in SHALLOW or tail(t[1]) in (
                'split', 'splitlines', 'rsplit', 'keys')):
            return True
        if t[0] == 'bin' and t[1] == 'Add':
            return self.listlike(s, t[2]) or self.listlike(s, t[3])
        if t[0] == 'param':
            if t[1].lstrip('*') in self.packs:
                return True
            d = default_of(self.fi, t[1])
            return isinstance(d, (ast.List, ast.Tuple, ast.Dict, ast.Set)) or \
                isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and \
                d.func.id in ('list', 'tuple', 'set', 'frozenset', 'dict')
        if t[0] == 'attr' and t[1][0] == 'self':
            return ('list', t[1][1], t[2]) in self.kept
        for f, pol in s.facts:
            if pol and f[0] == 'call' and f[1] == 'builtins.isinstance' and \
                    f[3][0] == t and any(
                        x in (('global', 'builtins.list'),
                              ('global', 'builtins.tuple'))
                        for x in subterms(f[3][1])):
                return True
        return False


SCALARS = tuple(('global', 'builtins.' + x) for x in (
    'str', 'int', 'bytes', 'bool', 'float', 'tuple', 'frozenset'))


def default_of(fi, p):
    a = fi.node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    if p in params:
        i = params.index(p) - (len(params) - len(a.defaults))
        return a.defaults[i] if i >= 0 else None
    ks = [x.arg for x in a.kwonlyargs]
    return a.kw_defaults[ks.index(p)] if p in ks else None


def is_display(v):
    return isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)) or \
        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
        v.func.id in ('list', 'dict', 'set')


def class_level(c, attr):
    for st in c.node.body:
        if isinstance(st, ast.Assign) and is_display(st.value) and any(
                isinstance(x, ast.Name) and x.id == attr
                for x in st.targets):
            return True
    return False


# ---------------------------------------------------------------- what is kept

class Keeps(Base):
    max_states = 12

    def __init__(self, fi):
        super().__init__({})
        self.fi = fi
        self.out = []

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == 'set.attr' and recv is not None and recv[0] == 'self' and \
                len(args) == 2 and args[0][0] == 'const':
            self.out.append((args[0][2], args[1], s.coll.get(args[1])))


def stored(ck):
    """(class, attribute) -> the parameters it may be; ('set', class,
    attribute) when it is set; ('list', ...) when it is a list or tuple."""
    prog = ck.prog
    direct = {}
    for c in prog.classes.values():
        for m in c.methods.values():
            if not any(isinstance(n, ast.Attribute) and
                       isinstance(n.ctx, ast.Store) for n in ast.walk(m.node)):
                continue
            pol = Keeps(m)
            ck.explored(Interp(prog, pol, 1200000).run(m))
            for attr, v, coll in pol.out:
                direct.setdefault((c.qual, 'set', attr), set())
                for x in alts(v):
                    d = None
                    if x[0] == 'param' and x[1] in m.params + [
                            y.arg for y in m.node.args.kwonlyargs]:
                        d = default_of(m, x[1])
                        if not isinstance(d, ast.Constant) or \
                                d.value is None:
                            direct.setdefault((c.qual, 'kept', attr),
                                              set()).add(x[1])
                    elif x[0] == 'default':
                        direct.setdefault((c.qual, 'kept', attr),
                                          set()).add(x[2])
                    if isinstance(d, (ast.List, ast.Tuple)) or \
                            coll is not None or x[0] in ('comp', 'new') or \
                            x[0] == 'call' and x[1] in ('builtins.list',
                                                        'builtins.tuple'):
                        direct.setdefault((c.qual, 'list', attr), set())
    out = {}
    for c in prog.classes.values():
        for k in c.mro():
            for (q, kind, attr), ps in direct.items():
                if q != k.qual:
                    continue
                if kind == 'kept':
                    out.setdefault((c.qual, attr), set()).update(ps)
                else:
                    out[(kind, c.qual, attr)] = True
    return out
