"""Every function of the package that can see the storage engine is run through
the interpreter: an operation of the engine may only be named to be handed to
RPC.call, never called, and the engine itself may not be handed to anything
else.  In the service, every path of every entry point is followed: the handler
runs only in run(), the body of the thread, and run() starts no other thread.
The handler the database installs must call the operation it is given, itself
and once.  The engines start no threads and hand their operations to nobody,
and there is one service and one engine per database."""
import ast

from .common import *
from .effects import operations

T = {
    'asked-not-called': 'an operation of the engine is requested from the service, never called directly',
    'not-handed-out': 'the engine is not handed to code outside the service',
    'one-service': 'a database makes one engine and one service and keeps both',
    'handler': 'the handler runs the requested operation itself, once',
    'service-thread-only': 'the service runs the handler in its own thread only',
    'engine-threads': 'an engine starts no thread and passes no work to one',
}
SPAWN = ('threading.Thread', 'threading.Timer', '_thread.start_new_thread',
         'threading._start_new_thread', 'multiprocessing.', 'concurrent.',
         'asyncio.', 'subprocess.', 'fbuild.sched.')
PEEK = ('vars', 'dir', 'type', 'id', 'repr', 'str', 'isinstance', 'hasattr',
        'getattr')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    direct(ck)
    service(ck)
    handler(ck)
    engine_code(ck)
    for k in T:
        ck.at_least(k, 1)


# ------------------------------------------------------------------------------

def engine_attrs(ck):
    """Attributes of a database that hold an engine."""
    d = ck.prog.require_class(DB)
    quals = {c.qual for c in ck.prog.subclasses(BE)}
    out = {}
    for name, m in d.methods.items():
        it = Interp(ck.prog, Policy())
        r = ck.explored(it.run(m, cls=d))
        for o in r.obs:
            if o.name == 'set.attr' and len(o.args) > 1 and \
                    o.args[0][0] == 'const':
                for x in alts(o.args[1]):
                    if x[0] == 'call' and x[1] in quals or \
                            x[0] in ('new', 'ctor') and any(
                                q in str(x) for q in quals):
                        out.setdefault(o.args[0][2], []).append((m, o))
    return d, out


class Watch(Policy):
    """The engine is never looked into."""
    max_states = 200
    attr = '_backend'
    opaque = ('fbuild.db.backend.Backend.',)

    def inline(self, fi):
        if fi.cls is not None and any(c.qual == BE for c in fi.cls.mro()):
            return False
        return super().inline(fi)


def holds_engine(t, attrs):
    return len(t) == 3 and t[0] == 'attr' and t[2] in attrs and t[1][0] in (
        'self', 'param', 'attr', 'closure_var', 'global', 'call', 'item')


def direct(ck):
    d, attrs = engine_attrs(ck)
    made = [(a, m, o) for a, xs in attrs.items() for m, o in xs]
    ck.require('one-service', 'engines made', bool(made) and all(
        m.name == '__init__' for a, m, o in made),
        'an engine is made outside the constructor of the database',
        where(d.methods['__init__']))
    quals = {c.qual for c in ck.prog.subclasses(BE)}
    ops = operations(ck.prog)
    prog = ck.prog
    seen = 0
    for fi in sorted(prog.functions.values(), key=lambda f: f.qual):
        if fi.cls is not None and any(c.qual in quals
                                      for c in fi.cls.mro()):
            continue
        if not any(isinstance(x, ast.Attribute) and x.attr in attrs or
                   isinstance(x, ast.Constant) and x.value in attrs
                   for x in ast.walk(fi.node)):
            continue
        if fi.outer is not None:
            continue
        seen += 1
        it = Interp(prog, Watch())
        r = ck.explored(it.run(fi, cls=fi.cls))
        bad, out = [], []
        for o in r.obs:
            eng = o.recv is not None and holds_engine(o.recv, attrs)
            if eng and o.name not in ('set.attr',) and \
                    not o.name.startswith('builtins.'):
                bad.append((o, 'the operation %s' % tail(o.name)))
            elif o.name == '<value>' and o.recv is not None and any(
                    holds_engine(x, attrs) for x in subterms(o.recv)):
                bad.append((o, 'an operation of the engine'))
            elif o.name == RPC + '.call':
                continue
            elif tail(o.name) in PEEK and o.name.startswith('builtins.'):
                continue
            else:
                for x in o.args + tuple(v for k, v in o.kwargs):
                    if holds_engine(x, attrs) and o.name != 'set.attr':
                        out.append(o)
                    elif x[0] == 'bound' and len(x) > 1 and \
                            holds_engine(x[1], attrs):
                        out.append(o)
        ck.require('asked-not-called', fi.qual, not bad,
                   bad and '%s is executed by the calling thread' %
                   bad[0][1], bad[0][0].loc if bad else where(fi))
        ck.require('not-handed-out', fi.qual, not out,
                   out and 'the engine is handed to %s' % out[0].name,
                   out[0].loc if out else where(fi))
    ck.require('asked-not-called', 'users', seen >= 3,
               'only %d functions use the engine' % seen, '')
    # engines are made by the database only
    names = {c.qual for c in prog.subclasses(BE, proper=True)}
    for fi in sorted(prog.functions.values(), key=lambda f: f.qual):
        if fi.cls is not None and fi.cls.qual == DB:
            continue
        if not any(isinstance(x, (ast.Attribute, ast.Name)) and (
                getattr(x, 'attr', None) or x.id) in map(tail, names)
                for x in ast.walk(fi.node)):
            continue
        r = ck.explored(Interp(prog, Policy()).run(fi, cls=fi.cls))
        for o in r.obs:
            ck.require('one-service', '%s makes' % fi.qual,
                       o.name not in names,
                       'an engine is made outside the database', o.loc)


# ------------------------------------------------------------------------------

class Rpc(Policy):
    track_exc = True
    max_states = 300

    def inline(self, fi):
        return fi.cls is not None and fi.cls.qual == RPC or \
            super().inline(fi)

    def may_raise(self, name, recv):
        return False


def on_handler(o, h):
    return o.recv is not None and o.recv[0] == 'attr' and \
        o.recv[1][0] == 'self' and o.recv[2] in h or \
        o.name.startswith('.') and o.recv is not None and \
        o.recv[0] == 'self' and o.name[1:] in h


def service(ck):
    c = ck.prog.require_class(RPC)
    # the attribute that holds the handler: set from the constructor's argument
    init = ck.prog.require_method(RPC, '__init__')
    r = ck.explored(Interp(ck.prog, Policy()).run(init, cls=c))
    h = {o.args[0][2] for o in r.obs if o.name == 'set.attr' and
         len(o.args) > 1 and o.args[1] == param(init, 0)}
    ck.require('service-thread-only', 'handler attribute', bool(h),
               'the constructor does not keep the handler', where(init))
    base = {b.qual if hasattr(b, 'qual') else str(b) for b in c.mro()}
    thread = any(ast.unparse(b) in ('threading.Thread', 'Thread')
                 for b in c.node.bases)
    ck.require('service-thread-only', 'is a thread', thread,
               'the service is not a thread', where(init))
    called = set()
    for m in c.methods.values():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.value, ast.Name) and x.value.id == 'self':
                called.add((m.name, x.attr))
    inner = {a for n, a in called if a in c.methods and n != a}
    run = ck.prog.require_method(RPC, 'run')
    for m in sorted(c.methods.values(), key=lambda m: m.name):
        if m.name.startswith('_') and m.name in inner:
            continue        # followed from where it is called
        r = ck.explored(Interp(ck.prog, Rpc()).run(m, cls=c))
        runs = [o for o in r.obs if on_handler(o, h)]
        if m.name == 'run':
            ck.require('service-thread-only', m.qual, bool(runs),
                       'the thread never runs the handler', where(m))
            sp = [o for o in r.obs if spawns(o.name)]
            ck.require('service-thread-only', m.qual + ' threads', not sp,
                       sp and 'the service starts %s' % sp[0].name,
                       sp[0].loc if sp else where(m))
            given = [o for o in r.obs if not on_handler(o, h) and any(
                mentions(a, ('attr', ('self', RPC), x)) for a in o.args
                for x in h)]
            ck.require('service-thread-only', m.qual + ' hands on',
                       not given, given and 'the handler is handed to %s' %
                       given[0].name, given[0].loc if given else where(m))
        else:
            runs = [o for o in runs if not own_thread(o.state)]
            ck.require('service-thread-only', m.qual, not runs,
                       'the handler is run by the thread that calls %s' %
                       m.name, runs[0].loc if runs else where(m))


def own_thread(s):
    """The path knows the current thread is the service."""
    for f, p in s.facts:
        if f[0] == 'cmp' and p and f[1] in ('Is', 'Eq'):
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                if a[0] == 'self' and is_call_of(b, 'current_thread'):
                    return True
                if a[0] == 'attr' and a[1][0] == 'self' and a[2] in (
                        'ident', 'native_id') and is_call_of(
                        b, 'get_ident', 'get_native_id'):
                    return True
    return False


def spawns(name):
    return any(name == x or x.endswith('.') and name.startswith(x)
               for x in SPAWN)


def handler(ck):
    d = ck.prog.require_class(DB)
    init = ck.prog.require_method(DB, '__init__')
    r = ck.explored(Interp(ck.prog, Policy()).run(init, cls=d))
    made = [o for o in r.obs if o.name == RPC]
    nodes = {id(o.node) for o in made}
    attr = {o.args[0][2] for o in r.obs if o.name == 'set.attr' and
            len(o.args) > 1 and o.args[1][0] == 'call' and
            o.args[1][1] == RPC}
    ck.require('one-service', init.qual, len(nodes) == 1 and len(attr) == 1,
               'the constructor makes %d services' % len(nodes), where(init))
    others = []
    for m in d.methods.values():
        if m.name == '__init__':
            continue
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and x.attr in attr and \
                    isinstance(x.ctx, (ast.Store, ast.Del)):
                others.append((m, x))
    ck.require('one-service', d.qual, not others,
               others and '%s replaces the service' % others[0][0].qual,
               where(*others[0]) if others else where(init))
    ok, n, loc, why = True, 0, where(init), ''
    for o in made:
        h = o.args[0] if o.args else dict(o.kwargs).get('handler', NONE)
        n += 1
        fi = ck.prog.functions.get(h[1]) if h[0] == 'closure' else None
        if h[0] == 'bound':
            fi = ck.prog.functions.get(h[2]) or d.find_method(tail(h[2]))
        if fi is None and h[0] == 'global':
            fi = ck.prog.functions.get(h[1])
        if fi is None:
            if h[0] == 'global' and h[1] in ('operator.call',):
                continue
            ok, why, loc = False, 'the handler is not known', o.loc
            continue
        ps = fi.params
        if fi.cls is not None and ps and ps[0] in ('self', 'cls') and \
                fi.outer is None and not fi.is_static:
            ps = ps[1:]
        first = ('param', ps[0]) if ps else None
        if first is None and fi.node.args.vararg:
            first = ('item', ('param', '*' + fi.node.args.vararg.arg),
                     const(0))
        rr = ck.explored(Interp(ck.prog, Counting()).run(fi, cls=d))
        loc = where(fi)
        for s, t in rr.returns:
            calls = [e for e in s.may if e[0] == '<value>' and
                     e[1] == first]
            if len(calls) != 1 or s.ts.get('n') != 1:
                ok, why = False, 'a path of the handler runs the operation ' \
                    '%s times' % s.ts.get('n', 0)
            elif t != ('call', '<value>') + tuple(calls[0][1:]):
                ok, why = False, 'the handler does not return what the ' \
                    'operation returned'
        sp = [x for x in rr.obs if spawns(x.name) or
              x.name not in ('<value>',) and any(a == first for a in x.args)]
        if sp:
            ok, why = False, 'the handler hands the operation to %s' % \
                sp[0].name
        if not rr.returns:
            ok, why = False, 'the handler never returns'
    ck.require('handler', init.qual, ok and n > 0, why, loc)


class Counting(Policy):
    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == '<value>':
            s.ts['n'] = min(2, s.ts.get('n', 0) + 1)


def engine_code(ck):
    from .effects import reach
    for c in ck.prog.subclasses(BE):
        bad = []
        seen = 0
        for m in c.methods.values():
            ck.saw(m)
            seen += 1
            for x in calls_in(m.node):
                name = ast.unparse(x.func)
                full = expand(m.module, name)
                if spawns(full) or full.startswith('threading.') and \
                        full.endswith('Thread') or name.split('.')[-1] in (
                            'start_new_thread', 'apply_async', 'submit',
                            'map_async', 'run_in_executor') or \
                        'scheduler' in name.split('.'):
                    bad.append((m, x, name))
        ck.require('engine-threads', c.qual, not bad,
                   bad and 'it calls %s' % bad[0][2],
                   where(bad[0][0], bad[0][1]) if bad else
                   '%s:%d' % (c.module.relpath, c.node.lineno))


def expand(mod, name):
    """A dotted name with its first part replaced by what was imported."""
    first, dot, rest = name.partition('.')
    for st in ast.walk(mod.tree):
        if isinstance(st, ast.ImportFrom) and st.module:
            for a in st.names:
                if (a.asname or a.name) == first:
                    return st.module + '.' + a.name + dot + rest
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.asname == first:
                    return a.name + dot + rest
    return name
