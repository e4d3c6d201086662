"""Every descriptor of a feature is taken apart: the program it writes must name
the feature (or header) it stands for, include the header its test names, and use
whatever else it was declared with; the answer must be built from the same values,
and the numbers a program prints must be read in the order it prints them.  The one
place that runs these programs must run the one the descriptor wrote, with the
input, time limit and libraries of the test, and hand what it printed to the
descriptor.  The listings of a test (functions, types ...) must select by the kind
they are called after.  The tables of features are read as they stand: the header
tested belongs to the class, no feature is declared twice, and sample arguments
match the declared ones."""
import re

from .common import *
from .c36 import deep
from .c37 import Base, report

FIELD = 'fbuild.config.c.AbstractFieldDescriptor'
TEST = 'fbuild.config.c.Test'
META = 'fbuild.config.TestMeta'
CACHED = 'fbuild.config.c.cacheproperty'

T = {
    'asks': 'the program of a probe names the feature, its header and what it was declared with',
    'answers': 'the answer of a probe describes the feature that was asked for',
    'runs': 'the program run is that of the probe, with the input and the libraries of the test',
    'named': 'a probe not named otherwise asks for what it is declared as',
    'fields': 'every declared feature is a field of its test, inherited ones included',
    'kinds': 'the features listed are those of the kind asked for, under their names',
    'declared': 'the features declared are consistent: header, names, sample arguments',
}
KINDS = {'functions': 'function_test', 'macros': 'macro_test',
         'types': 'type_test', 'int_types': 'int_type_test',
         'structs': 'struct_test', 'variables': 'variable_test'}
# what a line of a program prints -> the name of the number
PRINTS = (('offsetof', 'alignment'), ('alignof', 'alignment'),
          ('_Alignof', 'alignment'), ('sizeof', 'size'), (' < ', 'signed'),
          (' > ', 'signed'))


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('the compiler accepts a program exactly if it is valid')
    for c in sorted(ck.prog.subclasses(FIELD), key=lambda c: c.qual):
        m = c.find_method('format_test')
        if c.qual != FIELD:
            descriptor(ck, c)
        named(ck, c)
    spaces(ck)
    builders(ck)
    runs(ck)
    fields(ck)
    kinds(ck)
    declared(ck)
    for k in T:
        ck.at_least(k, 1)


class Desc(Base):
    """Everything a descriptor has is looked into."""
    max_states = 60

    def inline(self, fi):
        return fi.cls is not None and fi.cls.qual.startswith(
            'fbuild.config.') or super().inline(fi)


def attributes(ck, c):
    """The attributes the descriptor's own constructor takes."""
    m = c.find_method('__init__')
    if m is None or m.cls.qual == FIELD:
        return {}
    r = Interp(ck.prog, Base()).run(m, cls=c)
    out = {}
    a = m.node.args
    own = {x.arg for x in a.args[1:] + a.kwonlyargs}
    if a.vararg:
        own.add('*' + a.vararg.arg)
    for s, t in r.returns:
        for k, v in s.heap.items():
            if k[0] == ('self', c.qual) and isinstance(v, tuple) and \
                    isinstance(k[1], str):
                for n in own:
                    if mentions(v, ('param', n)) or v == ('param', n):
                        out[k[1]] = n.lstrip('*')
    return out


def render(t, names):
    """The text a term stands for; what is known is marked, the rest is @?@."""
    if t in names:
        return '@%s@' % names[t]
    k = t[0]
    if k == 'const':
        return '' if t[2] is None else str(t[2])
    if k in ('phi',):
        got = {render(x, names) for x in t[1]}
        return got.pop() if len(got) == 1 else '@?@'
    if k in ('fstr', 'concat'):
        return ''.join(render(x, names) for x in flat(t[1:]))
    if k == 'format' and len(t) > 1 and isinstance(t[1], tuple):
        return render(t[1], names)
    if k == 'bin' and t[1] == 'Add':
        return render(t[2], names) + render(t[3], names)
    if k == 'bin' and t[1] == 'Mod':
        a = t[3][1:] if t[3][0] == 'tuple' else (t[3],)
        return fill(render(t[2], names), a, names)
    if k == 'call' and tail(t[1]) in ('dedent', 'strip', 'lstrip', 'rstrip',
                                      'str'):
        return render(t[3][0] if t[3] else t[2], names) if (
            t[3] or t[2]) else '@?@'
    if k == 'call' and tail(t[1]) == 'format' and t[2]:
        text, kw = render(t[2], names), dict(t[4])
        pos = list(t[3])
        return re.sub(r'\{\{|\}\}|\{(\w*)(?:![rs])?\}', lambda m: m.group(
            0)[0] if m.group(1) is None else render(
            kw[m.group(1)], names) if m.group(1) in kw else
            render(pos[int(m.group(1) or 0)], names) if
            (m.group(1) or '0').isdigit() and pos and m.group(1) else
            render(pos.pop(0), names) if pos else '@?@', text)
    return '@?@'


def flat(ts):
    for x in ts:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            yield from flat(x)
        elif isinstance(x, tuple) and x:
            yield x


def fill(text, args, names):
    args = list(args)

    def one(m):
        if m.group(0) == '%%':
            return '%'
        return render(args.pop(0), names) if args else '@?@'
    return re.sub(r'%%|%[-\d.]*[sdrif]', one, text)


def uses(s, t):
    return list(deep(s, t))


def descriptor(ck, c):
    own = attributes(ck, c)
    me = ('self', c.qual)
    subject = 'filename' if 'filename' in own else 'name'
    m = c.find_method('format_test')
    pol = Desc()
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    hdr = ('param', m.params[-1]) if len(m.params) > 0 else None
    if not r.returns:
        pol.say('asks', 'no program is written', m.node)
    some = set()
    order = None
    for s, t in r.returns:
        us = uses(s, t)
        if ('attr', me, subject) not in us:
            pol.say('asks', 'the program does not mention the %s' % subject,
                    m.node)
        has = s.holds(('cmp', 'Is', hdr, NONE))
        if has is None:
            x = s.holds(hdr)
            has = None if x is None else not x
        if has is not True and hdr not in us:
            pol.say('asks', 'the program does not include the header',
                    m.node)
        elif has is False or hdr in us:
            if not INCLUDE.search(render(t, {hdr: 'HDR'})) and \
                    '#include' in repr(t):
                pol.say('asks', 'the header is mentioned but not included',
                        m.node)
        for a in own:
            v = ('attr', me, a)
            if v in us or any(mentions(x, v) for x in us):
                some.add(a)
                parts = halves(us, v)
                if parts and parts != {0, 1}:
                    pol.say('asks', 'only half of each of the %s is used' % a,
                            m.node)
            elif not excused(s, v, me):
                pol.say('asks', 'the program does not use the %s' % a,
                        m.node)
        order = printed(us) or order
    for a in own:
        if a not in some:
            pol.say('asks', 'the program never uses the %s' % a, m.node)
    report(ck, m, pol, ('asks',))
    m = c.find_method('process_stdout')
    pol = Desc()
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    found = False
    want = kind_of(c)
    for s, t in r.returns:
        for x in alts(t):
            if x == NONE:
                continue
            found = True
            answer(ck, pol, c, own, me, x, want, order, m)
            good(s, pol, me, m, want)
    if not found:
        pol.say('answers', 'the answer is never yes', m.node)
    report(ck, m, pol, ('answers',))


def halves(us, v):
    """Which parts of the elements of v are used, where they are pairs."""
    out = set()
    for x in us:
        for y in (x, *subterms(x)):
            if isinstance(y, tuple) and len(y) == 3 and y[0] == 'item' and \
                    y[2][0] == 'const' and isinstance(y[2][2], int):
                e = y[1]
                if e[0] == 'elem' and e[1] == v:
                    out.add(y[2][2])
                elif e[0] == 'item' and e[2] == const(1) and \
                        e[1][0] == 'elem' and e[1][1][0] == 'call' and \
                        e[1][1][1] == 'builtins.enumerate' and \
                        e[1][1][3][:1] == (v,):
                    out.add(y[2][2])
    return out


INCLUDE = re.compile(r'#\s*include\s*[<"]@HDR@[>"]')


def excused(s, v, me):
    """Is it known why the value is not used?"""
    for f, p in s.facts:
        if f == v and not p:
            return True
        if not (mentions(f, v) or f == v):
            continue
        if f[0] in ('forall', 'forall_none'):
            return True
        if f[0] == 'cmp' and f[1] == 'Eq' and p and (
                f[2][0] == 'const' or f[3][0] == 'const'):
            return True
        if f[0] == 'cmp' and f[1] == 'Is' and p and f[3] == NONE:
            return True
    # sample arguments stand for the declared ones
    if v[2] == 'args':
        return s.holds(('attr', me, 'default_args')) is True or any(
            w.holds(('attr', me, 'default_args')) is True
            for w in worlds(s))
    return False


def printed(us):
    """What the lines of the program print, in order."""
    for x in us:
        if x[0] == 'const' and isinstance(x[2], str) and 'printf' in x[2]:
            out = []
            for line in x[2].splitlines():
                if 'printf' not in line:
                    continue
                got = [n for p, n in PRINTS if p in line]
                if len(set(got)) != 1 or line.count('%') > 2:
                    return None
                out.append(got[0])
            return out
    return None


def kind_of(c):
    n = c.node.name if hasattr(c, 'node') else tail(c.qual)
    if not n.endswith('_test'):
        return None
    return ''.join(x.title() for x in n[:-5].split('_'))


def answer(ck, pol, c, own, me, t, want, order, m):
    if 'filename' in own:
        if t != ('attr', me, 'filename'):
            pol.say('answers', 'the answer is not the header asked for',
                    m.node)
        return
    if t[0] != 'call' or t[1] not in ck.prog.classes:
        return
    if want and tail(t[1]) != want:
        pol.say('answers', 'the answer is a %s' % tail(t[1]), m.node)
        return
    k = ck.prog.classes[t[1]].find_method('__init__')
    if k is None:
        return
    a = k.node.args
    ps = [x.arg for x in a.args[1:]]
    args = list(t[3])
    got = dict(t[4])
    for p in ps:
        if args and args[0][0] != 'star':
            got[p] = args.pop(0)
    if a.vararg:
        p = a.vararg.arg
        if p in own and args != [('star', ('attr', me, p))]:
            pol.say('answers', 'the %s of the answer are not those asked '
                    'for' % p, m.node)
    for p in ps:
        v = got.get(p)
        if p in own and v != ('attr', me, p):
            pol.say('answers', 'the %s of the answer is not the one asked '
                    'for' % p, m.node)
        if order and v is not None and p in order:
            i = number(v)
            if i is not None and (i >= len(order) or order[i] != p):
                pol.say('answers', 'the %s is read from where the program '
                        'prints the %s' % (p, order[i] if i < len(order)
                                           else 'end'), m.node)
            if p == 'signed' and v[0] == 'cmp' and v[1] in (
                    'Eq', 'NotEq') and v[3] == const(0) and v[1] == 'Eq':
                pol.say('answers', 'signed and unsigned are exchanged',
                        m.node)


def number(v):
    """Which of the words printed v is made from."""
    got = {x[2][2] for x in (v, *subterms(v)) if isinstance(x, tuple) and
           len(x) == 3 and x[0] == 'item' and x[2][0] == 'const' and
           isinstance(x[2][2], int)}
    return got.pop() if len(got) == 1 else None


def good(s, pol, me, m, want):
    """Yes only if the program printed what was expected."""
    if want in ('Type', 'IntType'):
        return
    out = ('attr', me, 'stdout')
    for w in worlds(s):
        ok = w.holds(('cmp', 'Is', out, NONE)) is True or w.holds(
            out) is False
        for f, p in w.facts:
            if f[0] == 'cmp' and f[1] == 'Eq' and p and out in f[2:] and (
                    'stdout' in repr([x for x in f[2:] if x != out])):
                ok = True
        if not ok:
            pol.say('answers', 'the answer is yes whatever the program '
                    'printed', m.node)


# --------------------------------------------------------------------- the names

def named(ck, c):
    m = c.find_method('contribute_to_class')
    me = ('self', c.qual)
    if len(m.params) < 2:
        return
    key = ('param', m.params[-1])
    n = ('attr', me, 'name')
    pol = Desc()
    pol.inline = lambda fi: False

    def on_set(s, name, recv, args, kwargs, node, it):
        if name == 'set.attr' and recv == me and args[0] == const('name'):
            v = args[1]
            if v[0] == 'or' and v[1] == n or v[0] == 'phi' and n in v[1]:
                return
            if not none_given(s, n):
                pol.say('named', 'the name given is replaced', node)
    pol.on_event = on_set
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        if s.heap.get((me, '__name__')) != key:
            pol.say('named', 'it is not stored under the name it is '
                    'declared with', m.node)
        v = s.heap.get((me, 'name'))
        if v is None:
            if not given_name(s, n):
                pol.say('named', 'a probe without a name asks for nothing',
                        m.node)
            continue
        for x in alts(v):
            if x[0] == 'or' and x[1] == n:
                x = x[2]
            elif x == n:
                continue
            elif given_name(s, n):
                pol.say('named', 'the name given is replaced', m.node)
            if x != key and not (x[0] == 'bin' and x[1] == 'Add' and
                                 x[3] == key and x[2][0] == 'const' or
                                 mentions(x, key)):
                pol.say('named', 'the name is not the one it is declared '
                        'with', m.node)
    report(ck, m, pol, ('named',))


class Spaced(Base):
    max_states = 60
    put = False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name != 'set.attr' or args[0] != const('name') or \
                recv is None or recv[0] != 'attr':
            return
        self.put = True
        t = args[1]
        ns = [x for x in (t, *subterms(t)) if isinstance(x, tuple) and x and
              x[0] == 'call' and tail(x[1]) in ('pop', 'get') and x[3] and
              x[3][0] == const('namespace')]
        old = ('attr', recv, 'name')
        if not ns or not mentions(t, old) or '::' not in repr(t):
            self.say('named', 'a name in a namespace is not qualified with '
                     'it', node)
        elif repr(t).index(repr(ns[0])) > repr(t).index(repr(old)):
            self.say('named', 'the namespace comes after the name', node)
        macro = [p for f, p in s.facts if f[0] == 'call' and
                 f[1] == 'builtins.isinstance' and 'macro_test' in repr(f)]
        if macro[:1] != [False]:
            self.say('named', 'macros are qualified with the namespace',
                     node)


def spaces(ck):
    m = ck.prog.require_method('fbuild.config.cxx.TestMeta', '__new__')
    pol = Spaced()
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    if not pol.put:
        pol.say('named', 'the namespace of a test is not used', m.node)
    report(ck, m, pol, ('named',))


def none_given(s, n):
    return s.holds(n) is False or s.holds(('cmp', 'Is', n, NONE)) is True or \
        any(f[0] == 'cmp' and f[1] == 'Is' and f[2] == n and p
            for f, p in s.facts)


def given_name(s, n):
    return s.holds(n) is True or s.holds(('cmp', 'Is', n, NONE)) is False or \
        any(f[0] == 'cmp' and f[1] == 'Is' and f[2] == n and not p
            for f, p in s.facts)


# ------------------------------------------------------------------------ running

class Runs(Base):
    max_states = 120
    ran = 0
    handed = False

    def inline(self, fi):
        return fi.name not in ('format_test', 'process_stdout') and \
            super().inline(fi)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) not in ('tempfile_run', 'try_tempfile_run', 'try_run',
                              'tempfile_try_run'):
            return
        self.ran += 1
        me, inst = ('self', FIELD), ('param', self.inst)
        if recv != ('attr', inst, 'builder'):
            self.say('runs', 'it is not run by the builder of the test',
                     node)
        code = args[0] if args else NONE
        t = ('attr', me, 'test')
        if code[0] == 'or' and code[1] != t:
            self.say('runs', 'the program given is not preferred', node)
        for x in code[1:] if code[0] == 'or' else alts(code):
            if x == t:
                if code == t and s.holds(t) is not True and s.holds(
                        ('cmp', 'Is', t, NONE)) is not False:
                    self.say('runs', 'the program run may be missing', node)
                continue
            if not (x[0] == 'call' and tail(x[1]) == 'format_test'):
                self.say('runs', 'the program run is not that of the probe',
                         node)
                continue
            if s.holds(t) is True:
                self.say('runs', 'the program given is not run', node)
            h = x[3][0] if x[3] else dict(x[4]).get('header', NONE)
            hs = ('attr', inst, 'header')
            there = s.holds(('cmp', 'Is', hs, NONE)) is False or \
                s.holds(hs) is True
            self.handed |= hs in alts(h)
            if h != hs and there and not self.header(s):
                self.say('runs', 'the header of the test is not handed to '
                         'the probe', node)
            if h != NONE and h != hs and h[0] != 'phi':
                self.say('runs', 'another header is handed to the probe',
                         node)
        kw = dict(kwargs)
        for k, a in (('input', 'stdin'), ('timeout', 'timeout')):
            if kw.get(k) != ('attr', me, a):
                self.say('runs', 'the %s of the probe is not used' % a, node)
        l = kw.get('lkwargs')
        for n in ('flags', 'libpaths', 'libs', 'external_libs'):
            v = ('attr', inst, n)
            if l is None or not paired(s, l, n, v):
                self.say('runs', 'the %s of the test are not linked with' % n,
                         node)

    def header(self, s):
        """Is this the probe for the header itself?"""
        return any(p and f[0] == 'call' and f[1] == 'builtins.isinstance' and
                   'header_test' in repr(f) for f, p in s.facts)


def paired(s, t, key, v):
    if s.heap.get((t, ('idx', const(key)))) == v:
        return True
    c = s.coll.get(t)
    if c:
        for i in c[1] | c[2]:
            if i[0] == 'kv' and i[1] == const(key):
                return i[2] == v
            if i[0] == 'all' and paired(s, i[1], key, v):
                return True
    if t[0] == 'call' and t[1] == 'builtins.dict':
        return dict(t[4]).get(key) == v
    if t[0] in ('dict', 'comp'):
        return mentions(t, v)
    return False


def runs(ck):
    m = ck.prog.require_method(FIELD, '__call__')
    pol = Runs()
    pol.inst = m.params[-1]
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    if not pol.ran:
        pol.say('runs', 'nothing is run', m.node)
    elif not pol.handed:
        pol.say('runs', 'the header of the test is never handed to the probe',
                m.node)
    inst = ('param', pol.inst)
    for s, t in r.returns:
        for x in alts(t):
            if x == NONE:
                continue
            if not (x[0] == 'call' and tail(x[1]) == 'process_stdout'):
                pol.say('answers', 'the answer is not the one the probe '
                        'makes', m.node)
                continue
            a = dict(x[4])
            out = x[3][1] if len(x[3]) > 1 else a.get('stdout', NONE)
            if not (out[0] == 'item' and out[2] == const(0) and
                    out[1][0] == 'call' and 'run' in tail(out[1][1])):
                pol.say('answers', 'the probe is not shown what the program '
                        'printed', m.node)
    report(ck, m, pol, ('runs', 'answers'))


# ------------------------------------------------- questions asked by a builder

BUILDER = 'fbuild.builders.c.Builder'


class Asks(Base):
    prog = None
    asked = 0

    def inline(self, fi):
        return False


def builders(ck):
    c = ck.prog.require_class(BUILDER)

    # one statement
    m = c.find_method('check_statement')
    pol = Asks()

    def on_try(s, name, recv, args, kwargs, node, it):
        if tail(name) != 'try_compile':
            return
        pol.asked += 1
        us = uses(s, args[0]) if args else []
        if ('param', 'statement') not in us:
            pol.say('asks', 'the statement is not compiled', node)
        if not any(mentions(x, ('param', 'headers')) for x in us):
            pol.say('asks', 'the headers are not included', node)
        s.ts['try'] = ('call', name, recv, args, kwargs)
    pol.on_event = on_try
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        v = s.ts.get('try')
        if v is None:
            pol.say('asks', 'nothing is compiled', m.node)
            continue
        if t[0] == 'const':
            if s.holds(v) is not bool(t[2]):
                pol.say('answers', 'the answer is not whether it compiled',
                        m.node)
        elif t != v:
            pol.say('answers', 'the answer is not whether it compiled',
                    m.node)
    report(ck, m, pol, ('asks', 'answers'))

    # several
    m = c.find_method('check_statements')
    pol = Asks()

    def on_check(s, name, recv, args, kwargs, node, it):
        if tail(name) == 'check_statement':
            pol.asked += 1
            if len(args) < 2 or not pair(args[0], args[1]):
                pol.say('asks', 'the statement checked is not that of the '
                        'name', node)
            elif args:
                s.ts['now'] = (args[0], ('call', name, recv, args, kwargs))
        elif tail(name) in ('add', 'append') and args and s.ts.get('now'):
            n, v = s.ts['now']
            if args[0] != n:
                pol.say('answers', 'another name is answered', node)
            if not any(p and f[0] == 'call' and tail(f[1]) ==
                       'check_statement' for f, p in s.facts):
                pol.say('answers', 'a name is answered whose statement does '
                        'not compile', node)
            s.ts['now'] = None
    pol.on_event = on_check
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    report(ck, m, pol, ('asks', 'answers'))

    # macros, types, headers
    for n in ('check_macros_exist', 'check_types_exist'):
        m = c.find_method(n)
        pol = Asks()
        pol.pairs = []

        def on_pair(s, name, recv, args, kwargs, node, it):
            for a in args:
                if tail(name) in ('append', 'add', 'check_statement') and \
                        a[0] == 'tuple' and len(a) == 3:
                    pol.pairs.append(node)
                    consistent(pol, s, a[1], a[2], node)
                if a[0] == 'star':
                    a = a[1]
                while a[0] == 'call' and a[1] in (
                        'builtins.tuple', 'builtins.list') and len(a[3]) == 1:
                    a = a[3][0]
                if a[0] == 'comp' and a[2][0] == 'tuple' and len(a[2]) == 3:
                    pol.pairs.append(node)
                    consistent(pol, s, a[2][1], a[2][2], node)
            if name.endswith('check_statement') and len(args) > 1:
                pol.pairs.append(node)
                consistent(pol, s, args[0], args[1], node)
        pol.on_event = on_pair
        ck.explored(Interp(ck.prog, pol).run(m, cls=c))
        if not pol.pairs:
            ck.note('%s: how names are paired with statements was not '
                    'recognised' % m.qual)
        report(ck, m, pol, ('asks',))
    m = c.find_method('check_header_exists')
    pol = Asks()
    h = ('param', m.params[-1])

    def on_header(s, name, recv, args, kwargs, node, it):
        if tail(name) in ('check_statement', 'try_compile',
                          'check_compile'):
            pol.asked += 1
            if h not in uses(s, dict(kwargs).get('headers', NONE)) and \
                    not any(mentions(x, h) for a in args[1:]
                            for x in uses(s, a)):
                pol.say('asks', 'the header is not included', node)
    pol.on_event = on_header
    ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    if not pol.asked:
        pol.say('asks', 'nothing is compiled', m.node)
    report(ck, m, pol, ('asks',))


def pair(a, b):
    """The two halves of one item."""
    return a[0] == 'item' and b[0] == 'item' and a[1] == b[1] and \
        a[2] == const(0) and b[2] == const(1)


def known(t):
    """Is it a text put together from a constant?"""
    return t[0] == 'bin' or t[0] == 'call' and tail(t[1]) == 'format'


def consistent(pol, s, n, st, node):
    if pair(n, st):
        # what was taken apart must not have been a name
        e = n[1]
        is_str = [p for f, p in s.facts if f[0] == 'call' and
                  f[1] == 'builtins.isinstance' and f[3][0] == e and
                  'str' in repr(f[3][1])]
        is_pair = [p for f, p in s.facts if f[0] == 'call' and
                   f[1] == 'builtins.isinstance' and f[3][0] == e and
                   'str' not in repr(f[3][1])]
        if is_str[:1] != [False] and is_pair[:1] != [True]:
            pol.say('asks', 'a name of two characters is taken apart as a '
                    'name and a statement', node)
    elif '@?@' in render(st, {n: 'NAME'}).replace('@NAME@', '') and known(
            st):
        pol.say('asks', 'the statement compiled mentions something else '
                'than the name', node)
    elif not any(mentions(x, n) or x == n for x in uses(s, st)):
        pol.say('asks', 'the statement compiled does not mention the name',
                node)


# ---------------------------------------------------------------- fields of a test

class Fields(Base):
    max_states = 80
    attrs = None

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) in ('append', 'extend', '__iadd__') and \
                recv is not None and ('__field_names__' in repr(recv) or any(
                    k[1] == '__field_names__' and v == recv
                    for k, v in s.heap.items())):
            s.ts['got'] = True
            e = args[0] if args else ANY
            if tail(name) == 'append' and e[0] == 'elem' and \
                    '__field_names__' in repr(e[1]) and not all(
                        new(w, e) for w in worlds(s)):
                self.say('fields', 'a field declared again is taken over as '
                         'well', node)
        if tail(name) == 'add_to_class' or name == '<value>':
            s.ts['added'] = True
            s.ts['now'] = True
        if name == 'set.item' and recv is not None and args and \
                args[0][0] == 'elem':
            s.ts['now'] = True

    def declared(self, E):
        return E == ('attr', self.attrs, 'field_names')

    def on_iter(self, s, E, node, it):
        if self.declared(E):
            s.ts.pop('now', None)
            s.ts.pop('gone', None)

    def on_catch(self, s, types, exc):
        s.ts['gone'] = True

    def iter_done(self, s, E, node, it):
        if self.declared(E) and not s.ts.pop('now', None) and \
                not s.ts.pop('gone', None) and not any(
                    f[0] == 'cmp' and (
                        f[1] == 'In' and f[3] == self.attrs and not p or
                        f[1] == 'Is' and NONE in f[2:] and p)
                    for f, p in s.facts):
            self.say('fields', 'a field declared is not added', node)
        return ()


def fields(ck):
    c = ck.prog.require_class(TEST)
    m = ck.prog.require_method('fbuild.config.Test', 'fields')
    pol = Base()
    seen = []

    def on_event(s, name, recv, args, kwargs, node, it):
        if name == 'yield' and args:
            t = args[0]
            if t[0] == 'elem':
                t = t[1]
            if t[0] == 'comp' and not t[4]:
                t = t[2]
            ok = t[0] == 'tuple' and len(t) == 3 and \
                '__field_names__' in repr(t[1]) and mentions(t[2], t[1])
            s.ts['listed'] = True
            seen.append(ok)
            if not ok:
                pol.say('fields', 'what is listed is not each field and its '
                        'name', node)
    def on_iter(s, E, node, it):
        s.ts.pop('listed', None)

    def iter_done(s, E, node, it):
        if '__field_names__' in repr(E) and not s.ts.pop('listed', None):
            pol.say('fields', 'a field is not listed', node)
        return ()
    pol.on_event, pol.on_iter, pol.iter_done = on_event, on_iter, iter_done
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    if not seen:
        # not a generator: a comprehension
        for s, t in r.returns:
            if '__field_names__' not in repr(t) or any(
                    isinstance(x, tuple) and x[:1] == ('comp',) and x[4]
                    for x in subterms(t)):
                pol.say('fields', 'the fields are not listed', m.node)
    report(ck, m, pol, ('fields',))

    # the table records the order of declaration, once each
    t = ck.prog.require_class('fbuild.config._FieldTable')
    m = t.find_method('__setitem__')
    pol = Base()
    me = ('self', t.qual)

    def on_set(s, name, recv, args, kwargs, node, it):
        k = ('param', m.params[-2])
        if tail(name) in ('append', 'add') and recv == (
                'attr', me, 'field_names'):
            s.ts['kept'] = True
            if args != (k,):
                pol.say('fields', 'another name is recorded', node)
            for w in worlds(s):
                if not new(w, k):
                    pol.say('fields', 'a field declared again is recorded '
                            'twice', node)
        elif tail(name) == '__setitem__' and recv is not None:
            s.ts['set'] = True
    pol.on_event = on_set
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=t))
    k = ('param', m.params[-2])
    for s, v in r.returns:
        if not s.ts.get('kept') and not any(
                f[0] == 'cmp' and f[1] == 'In' and p and f[2] == k
                for f, p in s.facts):
            pol.say('fields', 'a field is not recorded', m.node)
    report(ck, m, pol, ('fields',))

    # every class takes over what it does not declare itself
    m = ck.prog.require_method(META, '__new__')
    pol = Fields()
    pol.attrs = ('param', m.params[3])
    for x in ast.walk(m.node):
        if isinstance(x, ast.For) and any(
                isinstance(y, ast.Break) for z in x.body
                for y in own_level(z)):
            pol.say('fields', 'the rest of %s is passed over' %
                    ast.unparse(x.iter)[:40], x)
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    if not any(s.ts.get('got') for s, t in r.returns) and not any(
            '__field_names__' in repr(x) for s, t in r.returns
            for k_, x in s.heap.items() if x[0] not in ('new',)):
        pol.say('fields', 'the fields of the parents are lost', m.node)
    if not any(s.ts.get('added') for s, t in r.returns):
        pol.say('fields', 'the fields declared are not added', m.node)
    report(ck, m, pol, ('fields',))

    # a probe is registered by what caches it
    m = ck.prog.require_method(CACHED, 'contribute_to_class')
    pol = Base()

    def on_reg(s, name, recv, args, kwargs, node, it):
        key = ('param', m.params[-1])
        if tail(name) == 'append' and '__field_names__' in repr(recv):
            s.ts['reg'] = True
            if args != (key,):
                pol.say('fields', 'a probe is registered under another name',
                        node)
        if name == 'builtins.setattr' and len(args) == 3:
            s.ts['put'] = True
            if args[1] != key:
                pol.say('fields', 'a probe is put under another name', node)
    pol.on_event = on_reg
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    for s, t in r.returns:
        if not s.ts.get('reg') or not s.ts.get('put'):
            pol.say('fields', 'a probe is not registered', m.node)
    report(ck, m, pol, ('fields',))


def own_level(n):
    """The statements of a loop without those of loops in it."""
    yield n
    if not isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
        for c in ast.iter_child_nodes(n):
            yield from own_level(c)


def new(s, k):
    return any(f[0] == 'cmp' and f[1] == 'In' and not p and f[2] == k
               for f, p in s.facts)


def kinds(ck):
    c = ck.prog.require_class(TEST)
    for n, want in sorted(KINDS.items()):
        m = c.find_method(n)
        if m is None:
            ck.require('kinds', '%s.%s' % (TEST, n), False,
                       'there is no such listing', TEST)
            continue
        pol = Base()
        pol.max_states = 40
        got = []

        def on_event(s, name, recv, args, kwargs, node, it):
            if name != 'yield':
                return
            if any(f[0] == 'call' and f[1] == 'builtins.isinstance' and
                   not p and CACHED in repr(f[3][1:]) for f, p in s.facts):
                return
            got.append(node)
            ts = [f for f, p in s.facts if p and f[0] == 'call' and
                  f[1] == 'builtins.isinstance' and
                  f[3][0][0] == 'attr' and f[3][0][2] == 'method']
            if not ts:
                pol.say('kinds', 'features of every kind are listed', node)
            for f in ts:
                names = set(re.findall(r'(\w+_test)\b', repr(f[3][1])))
                if want not in names:
                    pol.say('kinds', 'features of another kind (%s) are '
                            'listed' % ', '.join(sorted(names)), node)
                elif names - {want, 'int_type_test' if want == 'type_test'
                              else want}:
                    pol.say('kinds', 'features of other kinds are listed '
                            'too', node)
                elif want == 'type_test' and 'int_type_test' not in names:
                    pol.say('kinds', 'integer types are left out', node)
            t = args[0] if args else NONE
            if t[0] == 'tuple' and len(t) == 3:
                if not (t[1][0] == 'attr' and t[1][2] == 'name'):
                    pol.say('kinds', 'the name listed is not that of the '
                            'feature', node)
                if not (t[2][0] == 'call' and
                        t[2][1] == 'builtins.getattr' or
                        t[2][0] in ('attr', 'call')):
                    pol.say('kinds', 'what is listed is not the answer',
                            node)
            elif t != NONE:
                pol.say('kinds', 'what is listed is not a name and an '
                        'answer', node)
        pol.on_event = on_event
        ck.explored(Interp(ck.prog, pol).run(m, cls=c))
        if not got:
            ck.note('%s: it is no generator; not decided' % m.qual)
        report(ck, m, pol, ('kinds',))


# --------------------------------------------------------------------- the tables

def words(s):
    return [x for x in re.split(r'[^a-z0-9]+', s.lower()) if x]


def declared(ck):
    for name, mod in sorted(ck.prog.modules.items()):
        if not name.startswith('fbuild.config.'):
            continue
        for c in ast.walk(mod.tree):
            if isinstance(c, ast.ClassDef):
                table(ck, mod, c)


def table(ck, mod, c):
    seen = {}
    bad, n = [], 0
    for st in c.body:
        if not isinstance(st, ast.Assign) or not isinstance(
                st.value, ast.Call):
            continue
        fn = ast.unparse(st.value.func).split('.')[-1]
        if not fn.endswith('_test'):
            continue
        names = [x.id for x in st.targets if isinstance(x, ast.Name)]
        for x in names:
            n += 1
            text = ast.dump(st.value)
            if seen.get(x, text) != text:
                bad.append((st.lineno, '%s is declared twice, differently'
                            % x))
            seen[x] = text
        if fn == 'header_test':
            bad += header(c, names, st)
        if fn == 'function_test':
            bad += sample(names, st)
    if n:
        ck.require('declared', '%s.%s' % (mod.name, c.name), not bad,
                   '; '.join(w for l, w in bad), '%s:%d' % (
                       mod.relpath, bad[0][0] if bad else c.lineno))


def header(c, names, st):
    a = st.value.args
    if not a or not isinstance(a[0], ast.Constant) or not isinstance(
            a[0].value, str) or names != ['header']:
        return
    last = a[0].value.split('/')[-1]
    mine = words(c.name.replace('_', ' '))
    if not set(words(last.replace('_', ' '))) <= set(mine):
        yield st.lineno, 'the header tested for is %s' % a[0].value


def sample(names, st):
    kw = {k.arg: k.value for k in st.value.keywords}
    d = kw.get('default_args')
    if d is None or isinstance(d, ast.Constant) and d.value is None:
        return
    try:
        d = ast.literal_eval(d)
    except ValueError:
        return
    if any(isinstance(x, ast.Starred) for x in st.value.args) or \
            isinstance(d, str):
        if isinstance(d, str):
            yield st.lineno, 'the sample arguments of %s are no list' % \
                names[0]
        return
    args = [x.value if isinstance(x, ast.Constant) else None
            for x in st.value.args[1:]]
    if args and args[-1] == '...':
        if len(d) < len(args) - 1:
            yield st.lineno, '%s is called with too few arguments' % names[0]
        return
    want = 0 if args == ['void'] else len(args)
    if len(d) != want:
        yield st.lineno, '%s takes %d arguments and is called with %d' % (
            names[0], want, len(d))
