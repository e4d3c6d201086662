"""Each option is followed from its declaration to what it switches.  The parser is
compared with the table of documented options (attribute, kind, default); what the
Context hands to the logger, the store and the scheduler is compared with the
attributes of the options on every path, and inside those classes the value is
followed to the place it decides: the store chosen for each engine, the number of
workers started, colours, the level of output, thread names, explanations.  In the
program itself the build root is removed exactly when cleaning was asked for and
then nothing else happens, the state is printed exactly when asked for and then
nothing is built, and the hooks of the build description see, and may replace, the
parser and the parsed options."""
from .common import *
from .c20 import report as report_
from .c21 import parts, plain

OPTIONS = 'fbuild.options.make_parser'
CONTEXT = 'fbuild.context.Context'
MAIN = 'fbuild.main'
LOG = 'fbuild.console.Log'
SCHED = 'fbuild.sched.Scheduler'
WORKER = 'fbuild.sched.WorkerThread'

T = {
    'offered': 'every documented option is offered under its names, with its kind and default',
    'given': 'the logger, the store and the scheduler are made with the options given',
    'files': 'the log and the state are files of the build root, under the names given',
    'prepared': 'the build root and the log are there before the state is loaded and anything is built',
    'hooks': 'the hooks of the build description see the parser and the options, and their answer is used',
    'dump': 'the state is printed exactly when asked for, and then nothing is built',
    'clean': 'the build root is removed exactly when asked for, and then nothing else happens',
    'engine': 'the store used is the one asked for',
    'workers': 'as many workers as asked for are started, at least one',
    'explain': 'a call that is run again is explained exactly when asked for',
    'colours': 'nothing is coloured when colours are not wanted',
    'verbosity': 'what is more detailed than asked for is not shown, and everything else is',
    'threads': 'the thread is named exactly when asked for',
}

# option: attribute, kind, default
DOCUMENTED = {
    ('targets',): ('targets', '*', ['build']),
    ('-v', '--verbose'): ('verbose', 'count', 0),
    ('-j', '--jobs'): ('threadcount', 'int', 1),
    ('--no-color',): ('no_color', 'flag', False),
    ('--nocolor',): ('nocolor', 'flag', False),
    ('--show-threads',): ('show_threads', 'flag', False),
    ('--rebuild',): ('force_rebuild', 'flag', False),
    ('--configure',): ('force_configuration', 'flag', False),
    ('--buildroot',): ('buildroot', 'value', 'build'),
    ('--state-file',): ('state_file', 'value', None),
    ('--log-file',): ('log_file', 'value', 'fbuild.log'),
    ('--dump-state',): ('dump_state', 'flag', False),
    ('--clean',): ('clean_buildroot', 'flag', False),
    ('--delete-function',): ('delete_function', 'value', None),
    ('--delete-file',): ('delete_file', 'value', None),
    ('--do-not-save-database',): ('do_not_save_database', 'flag', False),
    ('--explain-database',): ('explain_database', 'flag', False),
    ('--database-engine',): ('database_engine', 'value', 'pickle'),
    ('--no-warnings',): ('no_warnings', 'flag', False),
}
STORES = {'pickle': PICKLE, 'cache': CACHE, 'sqlite': SQLITE}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('argparse parses what it is told to')
    offered(ck)
    given(ck)
    prepared(ck)
    hooks(ck)
    dump(ck)
    clean(ck)
    engine(ck)
    workers(ck)
    explain(ck)
    output(ck)
    for k in T:
        ck.at_least(k, 1)


class Base(Policy):
    max_states = 80

    def __init__(self):
        super().__init__()
        self.bad = {}

    def ignored(self, name):
        return True

    def may_raise(self, name, recv):
        return False

    def say(self, rule, why, node=None):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)


def report(ck, m, pol, rules):
    report_(ck, m, pol.bad, rules)


def option(name):
    """Is a term the option of this name?"""
    def f(t):
        return t[0] == 'attr' and t[2] == name and (
            t[1] == ('param', 'options') or
            t[1][0] == 'attr' and t[1][2] == 'options')
    return f


def within(pred, t):
    return any(isinstance(x, tuple) and x and isinstance(x[0], str) and
               pred(x) for x in (t, *subterms(t)))


def known(s, pred):
    """Is an option known to be set?"""
    for f, p in s.facts:
        if isinstance(f, tuple) and f and pred(f):
            return p
        if f[0] == 'cmp' and f[1] == 'Is' and f[3] == NONE and pred(f[2]) \
                and p:
            return False
    return None


# -------------------------------------------------------------------- the parser

class Parser(Base):
    def __init__(self):
        super().__init__()
        self.made = {}
        self.unknown = False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) not in ('add_argument', 'add_option'):
            return
        names = tuple(a[2] for a in args if a[0] == 'const')
        if len(names) != len(args) or not names:
            self.unknown = True
            return
        kw = {}
        for k, v in kwargs:
            kw[k] = self.value(s, v)
        if '**' in kw:
            self.unknown = True
            return
        s.ts['made'] = s.ts.get('made', frozenset()) | {names}
        self.made[names] = (kw, node)

    def value(self, s, t):
        if t[0] == 'const':
            return t[2]
        if t[0] in ('tuple', 'list'):
            return [self.value(s, x) for x in t[1:]]
        if t[0] == 'new':
            q = s.heap.get((t, '$seq'))
            if q is not None:
                return [self.value(s, x) for x in q
                        if isinstance(x, tuple)]
        if t[0] == 'global':
            return tail(t[1])
        return '?'


def offered(ck):
    m = ck.prog.require_function(OPTIONS)
    pol = Parser()
    r = ck.explored(Interp(ck.prog, pol).run(m))
    if pol.unknown:
        # put together at run time: only what is spelled out can be compared
        ck.note('some options are made from values that are not '
                'constants; only the others are compared')
    for names, (attr, kind, default) in sorted(DOCUMENTED.items()):
        bad = []
        here = [n for n in pol.made if set(names) & set(n)]
        if not here:
            if not pol.unknown:
                bad.append('it is not offered')
        else:
            n = here[0]
            kw, node = pol.made[n]
            if set(names) - set(n):
                bad.append('it is not offered as %s' % ', '.join(
                    sorted(set(names) - set(n))))
            if not all(n in s.ts.get('made', ()) for s, t in r.returns):
                bad.append('it is offered only sometimes')
            bad += compared(n, kw, attr, kind, default)
        ck.require('offered', '/'.join(names), not bad, '; '.join(bad),
                   where(m))


def compared(names, kw, attr, kind, default):
    longs = [n for n in names if n.startswith('--')]
    dest = kw.get('dest') or (longs or list(names))[0].lstrip('-').replace(
        '-', '_')
    if dest == '?':
        return
    if dest != attr:
        yield 'it sets %s, not %s' % (dest, attr)
    act = kw.get('action', 'store')
    if kind == 'flag':
        if act == '?':
            return
        if act == 'store_true':
            given = bool(kw.get('default', False))
            if kw.get('default', False) != '?' and given:
                yield 'it is set even if it is not given'
        elif act == 'store_const':
            if not kw.get('const') or kw.get('default'):
                yield 'it does not switch anything'
        else:
            yield 'it is no switch'
        return
    want = 'count' if kind == 'count' else 'store'
    if act not in (want, '?'):
        yield 'it is a different kind of option'
    if kind == 'int' and kw.get('type') not in ('int', '?'):
        yield 'its value is not a number'
    if kind == '*' and kw.get('nargs') not in ('*', '?'):
        yield 'it does not take any number of values'
    if kind == 'value' and kw.get('nargs') not in (None, '?'):
        yield 'it does not take one value'
    if kw.get('default') != '?' and kw.get('default') != default:
        yield 'its default is %r' % (kw.get('default'),)
    if attr == 'database_engine':
        c = kw.get('choices')
        if isinstance(c, list) and '?' not in c and set(c) != set(STORES):
            yield 'the engines offered are %s' % ', '.join(map(str, c))


# ------------------------------------------------------------------- the context

class Made(Base):
    prog = None
    classes = (LOG, DB, SCHED)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name in self.classes:
            s.ts[name] = ('call', name, None, args, kwargs)
            if '**' in dict(kwargs) or any(a[0] == 'star' for a in args):
                s.ts[name] = None
        elif name == 'set.attr' and args[0] == const('state_file') and \
                'missing' not in s.ts:
            # (what is known about it is forgotten once it is replaced)
            s.ts['missing'] = unnamed(s, ('attr', recv, 'state_file'))


def unnamed(s, o):
    x = s.holds(('cmp', 'Is', o, NONE))
    if x is None and s.holds(o) is not None:
        x = not s.holds(o)
    return x


def bound(prog, qual, call):
    """The arguments of a constructor by parameter."""
    m = prog.require_method(qual, '__init__')
    ps = m.params[1:] if m.params[:1] == ['self'] else list(m.params)
    return call_args(prog, call, ps)


def bare(t):
    while t[0] == 'call' and t[1] in ('builtins.int', 'builtins.bool') and \
            len(t[3]) == 1:
        t = t[3][0]
    return t


def given(ck):
    m = ck.prog.require_method(CONTEXT, '__init__')
    pol = Made()
    pol.prog = ck.prog
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    me = ('self', CONTEXT)
    opts = ('param', m.params[-1])
    say = pol.say

    def opt(n):
        return ('attr', opts, n)

    for s, t in r.returns:
        def attr(o, n):
            return s.heap.get((o, n))
        if attr(me, 'options') not in (opts, None) or \
                attr(me, 'options') is None:
            say('given', 'the options are not kept', m.node)
        for c, n in ((LOG, 'logger'), (DB, 'db'), (SCHED, 'scheduler')):
            if s.ts.get(c) is None:
                if c not in s.ts:
                    say('given', 'no %s is made' % tail(c), m.node)
                continue
            if attr(me, n) != s.ts[c]:
                say('given', 'the %s made is not that of the context' %
                    tail(c), m.node)
            a = bound(ck.prog, c, s.ts[c])
            for p, o in {LOG: (('verbose', 'verbose'),
                               ('threadcount', 'threadcount'),
                               ('show_threads', 'show_threads')),
                         DB: (('engine', 'database_engine'),
                              ('explain', 'explain_database')),
                         SCHED: (('threadcount', 'threadcount'),)}[c]:
                v = a.get(p)
                if v is None:
                    say('given', 'the %s of the %s is not that of the '
                        'options' % (p, tail(c)), m.node)
                    continue
                v = bare(v)
                ok = v == opt(o) or v[0] == 'const' and isinstance(
                    v[2], bool) and s.holds(opt(o)) is v[2]
                if p == 'threadcount' and v[0] == 'call' and \
                        v[1] == 'builtins.max' and len(v[3]) == 2 and \
                        opt(o) in v[3] and const(1) in v[3]:
                    ok = True
                if not ok:
                    say('given', 'the %s of the %s is %s' % (
                        p, tail(c), show(v)[:40]), m.node)
            if c == LOG:
                v = a.get('nocolor')
                for o in ('nocolor', 'no_color'):
                    if not colourless(s, v, opt(o)):
                        say('given', 'colours are used although %s was '
                            'given' % o, m.node)
                if v is not None and v[0] == 'const' and v[2] and \
                        s.holds(opt('nocolor')) is not True and \
                        s.holds(opt('no_color')) is not True:
                    say('given', 'colours are never used', m.node)
            if c == SCHED and a.get('logger') not in (
                    s.ts.get(LOG), ('attr', me, 'logger')):
                say('given', 'the scheduler logs elsewhere', m.node)
        # files
        root = attr(opts, 'buildroot') or opt('buildroot')
        if plain(root) != opt('buildroot'):
            say('files', 'the build root is not the one given', m.node)
        for n in ('log_file', 'state_file'):
            v = attr(opts, n)
            ps = parts(plain(v)) if v is not None else [NONE]
            if len(ps) != 2 or plain(ps[0]) not in (
                    opt('buildroot'), ('attr', me, 'buildroot')):
                say('files', 'the %s is not in the build root' %
                    n.replace('_', ' '), m.node)
                continue
            named(s, pol, n, ps[1], opt, m)
    defaults(ck, pol)
    report(ck, m, pol, ('given', 'files'))


def colourless(s, v, o):
    """Is v true if the option o is?"""
    p = s.holds(o)
    if p is False:
        return True
    if v is None:
        return False
    v = bare(v)
    if v[0] == 'const':
        return bool(v[2])
    if v == o or p is True and s.holds(v) is True:
        return True
    if v[0] == 'or':
        return any(colourless(s, x, o) for x in v[1:])
    if v[0] == 'call' and v[1] == 'builtins.any':
        return mentions(v, o)
    if v[0] == 'phi':
        return all(colourless(s, x, o) for x in v[1])
    return False


def named(s, pol, n, v, opt, m):
    v = plain(v)
    if n == 'log_file':
        if v != opt('log_file'):
            pol.say('files', 'the log file is not named as asked', m.node)
        return
    o = opt('state_file')
    table = lambda t: within(lambda x: x[0] == 'global' and tail(
        x[1]) == 'STATE_FILE_DEFAULTS', t) and mentions(
            t, opt('database_engine'))
    missing = s.ts.get('missing')
    vs = v[1:] if v[0] == 'or' else tuple(v[1]) if v[0] == 'phi' else (v,)
    own, default = o in vs, any(table(x) for x in vs)
    if missing is True and not default or missing is None and not (
            own and default):
        pol.say('files', 'a state file not named is not that of the engine',
                m.node)
    if missing is False and not own:
        pol.say('files', 'the state file is not named as asked', m.node)
    if v[0] == 'or' and v[1] != o:
        pol.say('files', 'the state file is not named as asked', m.node)


def defaults(ck, pol):
    mod = ck.prog.require_module('fbuild.context')
    for n in mod.tree.body:
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == 'STATE_FILE_DEFAULTS'
                for t in n.targets) and isinstance(n.value, ast.Dict):
            d = {k.value: v.value for k, v in zip(n.value.keys,
                                                  n.value.values)
                 if isinstance(k, ast.Constant) and
                 isinstance(v, ast.Constant)}
            if len(d) != len(n.value.keys):
                return
            for e in STORES:
                if e not in d:
                    pol.say('files', 'there is no default state file for '
                            '%s' % e, n)
            if 'sqlite' in d and d['sqlite'] in (d.get('pickle'),
                                                 d.get('cache')):
                pol.say('files', 'stores of different formats share a '
                        'default state file', n)


# --------------------------------------------------------------------- the start

class Prepared(Base):
    """ts: root = the build root was made; log = the log was opened"""

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        me = ('self', CONTEXT)
        a = plain(args[0]) if args else None
        at = a if name in ('os.makedirs', 'os.mkdir') else recv if tail(
            name) in ('makedirs', 'mkdir') else None
        if at is not None:
            if 'buildroot' in (plain(at)[2:] if plain(at)[0] == 'attr'
                               else ()):
                ts['root'] = True
            if within(lambda x: x[0] == 'attr' and x[2] == 'state_file', at):
                ts['state'] = True
        if name in ('builtins.open', 'io.open') and a is not None and within(
                option('log_file'), a):
            mode = args[1] if len(args) > 1 else dict(kwargs).get(
                'mode', const('r'))
            if not ts.get('root'):
                self.say('prepared', 'the log is opened before the build '
                         'root is made', node)
            if mode[0] == 'const' and not set(str(mode[2])) & set('wax+'):
                self.say('prepared', 'the log is not opened for writing',
                         node)
            ts['opened'] = ts.get('opened', 0) or 1
        if name == 'set.attr' and args[0] == const('file') and \
                recv is not None and recv[0] == 'attr' and \
                recv[2] == 'logger':
            if within(option('log_file'), args[1]):
                ts['log'] = True


def prepared(ck):
    m = ck.prog.require_method(CONTEXT, 'create_buildroot')
    pol = Prepared()
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    for s, t in r.returns:
        for k, w in (('root', 'the build root is not made'),
                     ('log', 'the log is not written to the log file'),
                     ('state', 'the directory of the state file is not '
                      'made')):
            if not s.ts.get(k):
                pol.say('prepared', w, m.node)
    report(ck, m, pol, ('prepared',))


# --------------------------------------------------------------------- the hooks

HOOKS = {'arguments': ('P',), 'pre_options': ('P',),
         'post_arguments': ('P', 'A'), 'post_options': ('A',)}


class Hooks(Base):
    """ts: parser, args = the terms in use; said = what the last hook answered"""
    track_exc = True

    def __init__(self, main):
        super().__init__()
        self.called, self.argv = set(), main

    def may_lack(self, base, name):
        return base == ('global', 'fbuildroot')

    def inline(self, fi):
        return fi.name == '_call_or_deprecated' or super().inline(fi)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        hook = None
        if name.startswith('fbuildroot.'):
            hook = name[11:]
        elif name == '<value>' and recv is not None:
            for x in alts(recv):
                if x[0] == 'attr' and x[1] == ('global', 'fbuildroot'):
                    hook = x[2]
        if name == OPTIONS:
            ts['P'] = ('call', name, None, args, kwargs)
        if hook in HOOKS:
            self.called.add(hook)
            kind = HOOKS[hook]
            if kwargs or len(args) != len(kind):
                self.say('hooks', '%s is not called with %s' % (
                    hook, ' and '.join({'P': 'the parser', 'A': 'the options'
                                        }[k] for k in kind)), node)
                return
            for k, a in zip(kind, args):
                if not self.current(s, k, a):
                    self.say('hooks', '%s is not given %s in use' % (
                        hook, {'P': 'the parser', 'A': 'the options'}[k]),
                        node)
            if 'post' in hook and 'A' not in ts:
                self.say('hooks', '%s is called before the options are '
                         'parsed' % hook, node)
            if 'post' not in hook and 'A' in ts:
                self.say('hooks', '%s is called after the options were '
                         'parsed' % hook, node)
            if ts.get('h' + kind[-1]):
                self.say('hooks', 'both %s and %s are called' % (
                    ts['h' + kind[-1]][0], hook), node)
            h = ('call', 'fbuildroot.' + hook, None, args, kwargs) \
                if name != '<value>' else ('call', name, recv, args, kwargs)
            ts['h' + kind[-1]] = (hook, h)
        elif tail(name) == 'parse_args' and recv is not None:
            if not self.current(s, 'P', recv):
                self.say('hooks', 'the parser the build description returned '
                         'is not used', node)
            if not (len(args) == 1 and rest(args[0], self.argv)):
                self.say('hooks', 'the arguments of the program are not what '
                         'is parsed', node)
            ts['A'] = ('call', name, recv, args, kwargs)
        elif name == CONTEXT:
            if len(args) != 1 or not self.current(s, 'A', args[0]):
                self.say('hooks', 'the options the build description '
                         'returned are not used', node)
            ts['ctx'] = True

    def current(self, s, k, t):
        """Is t what is in use: what the hook answered, if it did?"""
        old = s.ts.get(k)
        if old is None:
            return False
        h = s.ts.get('h' + k)
        if h is None:
            return self.same(t, old)
        h = h[1]
        p = s.holds(h)
        if p is None and s.holds(('cmp', 'Is', h, NONE)) is not None:
            p = not s.holds(('cmp', 'Is', h, NONE))
        if p is True:
            return self.same(t, h)
        if p is False:
            return self.same(t, old)
        if t[0] == 'phi':
            return {x for x in t[1]} == {h, old}
        return t[0] == 'or' and len(t) == 3 and self.same(t[1], h) and \
            self.same(t[2], old)

    def same(self, t, old):
        return t == old or t[0] == 'call' and old[0] == 'call' and \
            tail(t[1]) == tail(old[1]) and t[3:] == old[3:]


def rest(t, argv):
    """argv without the first, as it is or copied."""
    t = strip_copy(t)
    return t[0] == 'item' and t[1] == argv and t[2][0] == 'slice' and \
        t[2][1] == const(1) and all(x == NONE for x in t[2][2:]) or \
        t[0] == 'sub' and t[1] == argv


def hooks(ck):
    m = ck.prog.require_function(MAIN + '.parse_args')
    pol = Hooks(('param', m.params[0]))
    r = ck.explored(Interp(ck.prog, pol).run(m))
    for h in HOOKS:
        if h not in pol.called:
            pol.say('hooks', '%s is never called' % h, m.node)
    for s, t in r.returns:
        if not s.ts.get('ctx'):
            pol.say('hooks', 'no context is made', m.node)
    report(ck, m, pol, ('hooks',))


# ------------------------------------------------------------------- what is done

class Dump(Base):
    def on_event(self, s, name, recv, args, kwargs, node, it):
        k = known(s, option('dump_state'))
        if tail(name) == 'dump_database':
            s.ts['dumped'] = True
            if k is not True:
                self.say('dump', 'the state is printed although that was not '
                         'asked for', node)
        elif tail(name) == 'function' or name in (
                'fbuild.target.find', 'fbuild.main.install_files') or \
                tail(name) in ('delete_file', 'delete_function'):
            if k is not False:
                self.say('dump', '%s is called although only the state is to '
                         'be printed' % tail(name), node)


def dump(ck):
    m = ck.prog.require_function(MAIN + '.build')
    pol = Dump()
    r = ck.explored(Interp(ck.prog, pol).run(m))
    for s, t in r.returns:
        if known(s, option('dump_state')) is not False and \
                not s.ts.get('dumped'):
            pol.say('dump', 'the state is not printed', m.node)
    report(ck, m, pol, ('dump',))


class Clean(Base):
    max_states = 120

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        k = known(s, option('clean_buildroot'))
        t = tail(name)
        if t in ('rmtree', 'removedirs', 'rmdir', 'unlink', 'remove'):
            a = recv if name.startswith('.') and recv is not None else \
                args[0] if args else NONE
            a = plain(a)
            if k is not True:
                self.say('clean', 'files are removed although cleaning was '
                         'not asked for', node)
            elif not (a[0] == 'attr' and a[2] == 'buildroot'):
                self.say('clean', 'something else than the build root is '
                         'removed', node)
            elif t == 'rmtree':
                ts['gone'] = True
        elif t in ('create_buildroot', 'load_configuration',
                   'save_configuration') or name == MAIN + '.build':
            if k is not False:
                self.say('clean', '%s is called although only cleaning was '
                         'asked for' % t, node)
            if t == 'load_configuration' and not ts.get('create_buildroot'):
                self.say('prepared', 'the state is loaded before the build '
                         'root is made', node)
            if name == MAIN + '.build' and not ts.get('load_configuration'):
                self.say('prepared', 'the build starts before the state is '
                         'loaded', node)
            ts[t] = True


def clean(ck):
    m = ck.prog.require_function(MAIN + '.main')
    pol = Clean()
    r = ck.explored(Interp(ck.prog, pol).run(m))
    seen = False
    for s, t in r.returns:
        if known(s, option('clean_buildroot')) is True:
            seen = True
            if not s.ts.get('gone') and not absent(s):
                pol.say('clean', 'the build root may be kept although '
                        'cleaning was asked for', m.node)
    if not seen:
        pol.say('clean', 'nothing is cleaned', m.node)
    report(ck, m, pol, ('clean', 'prepared'))


def absent(s):
    """Is it known that there is no build root?"""
    return any(not p and f[0] == 'call' and tail(f[1]) in (
        'exists', 'isdir', 'lexists') and 'buildroot' in repr(f)
        for f, p in s.facts)


# ------------------------------------------------------------------- in the parts

def engine(ck):
    m = ck.prog.require_method(DB, '__init__')
    for e, cls in sorted(STORES.items()):
        pol = Base()
        r = ck.explored(Interp(ck.prog, pol).run(
            m, cls=m.cls, args={'engine': const(e)}))
        why = ''
        me = ('self', DB)
        if not r.returns:
            why = 'there is no such store'
        for s, t in r.returns:
            for x in alts(s.heap.get((me, '_backend'), ANY)):
                if x[0] == 'call' and x[1] in STORES.values() and x[1] != cls:
                    why = 'it is a %s' % tail(x[1])
                elif not (x[0] == 'call' and x[1] == cls):
                    if x[0] != 'call':
                        why = 'no store is made'
        ck.require('engine', 'engine %s' % e, not why, why, where(m))


class Workers(Base):
    def __init__(self):
        super().__init__()
        self.made, self.counts, self.started = [], [], False
        self.loops = []

    def on_loop(self, state, iterable, node, it):
        self.loops.append(iterable)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == WORKER:
            self.made.append((args, kwargs, node))
        elif tail(name) == 'start' and recv is not None:
            self.started = True
        elif name == 'builtins.range':
            self.counts.append((s, args, node))


def enough(s, args, p):
    """Is a range as long as asked for, and at least one?"""
    if len(args) == 2 and args[0] == const(0):
        args = args[1:]
    if len(args) == 2 and args[0] == const(1):
        n = args[1]
        if n[0] == 'bin' and n[1] == 'Add' and n[3] == const(1):
            args = (n[2],)
    if len(args) != 1:
        return None
    n = args[0]
    if n[0] == 'call' and n[1] == 'builtins.max' and len(n[3]) == 2 and \
            not n[4]:
        return set(n[3]) == {const(1), p}
    low = s.holds(('cmp', 'Lt', p, const(1)))
    if low is None:
        x = s.holds(('cmp', 'Lt', const(0), p))
        low = None if x is None else not x
    if n == p:
        return low is False
    if n == const(1):
        return low is True
    if n[0] == 'or' or n[0] == 'call' and n[1] == 'builtins.min':
        return False
    if mentions(n, p) and n[0] in ('call', 'phi'):
        return None
    return False


def workers(ck):
    m = ck.prog.require_method(SCHED, '__init__')
    pol = Workers()
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    p = ('param', 'threadcount')
    if not pol.made:
        pol.say('workers', 'no worker is made', m.node)
    if not pol.started:
        pol.say('workers', 'the workers are not started', m.node)
    if len({getattr(n, 'lineno', 0) for a, k, n in pol.made}) > 1:
        pol.say('workers', 'more workers are made than asked for', m.node)
    for s, args, node in pol.counts:
        if enough(s, args, p) is False:
            pol.say('workers', 'the number of workers is not the one asked '
                    'for, or may be none', node)
    report(ck, m, pol, ('workers',))


# ---------------------------------------------------------------- explaining calls

def explain(ck):
    init = ck.prog.require_method(DB, '__init__')
    r = ck.explored(Interp(ck.prog, Base()).run(init, cls=init.cls))
    names = {k[1] for s, t in r.returns for k, v in s.heap.items()
             if k[0] == ('self', DB) and v == ('param', 'explain')}
    if not names:
        ck.require('explain', init.qual, False, 'whether to explain is not '
                   'kept', where(init))
        return
    bad = {}

    def say(rule, why, node):
        bad.setdefault((rule, why), getattr(node, 'lineno', 0))

    def on_event(self, s, name, recv, args, kwargs, node, it):
        DbPolicy.on_event(self, s, name, recv, args, kwargs, node, it)
        on = None
        for n in names:
            x = s.holds(('attr', ('self', DB), n))
            on = x if x is not None else on
        if recv is not None and recv[0] == 'attr' and recv[2] == 'logger':
            if on is not True:
                say('explain', 'a call is explained although that was not '
                    'asked for', node)
            s.ts['told'] = True
        if user_call((name, recv, args)) and on is not False:
            for f, p in (x for w in worlds(s) for x in w.facts):
                if p and f[0] == 'item' and is_call_of(f[1], 'prepare') and \
                        not s.ts.get('told'):
                    say('explain', 'a call may run again unexplained although '
                        'that was asked for', node)

    def keep(self, s):
        if s.ts.get('run', 'no') != 'no':
            return ()
        return tuple(sorted((repr(f), p) for f, p in s.facts
                            if f[0] == 'item' and is_call_of(f[1], 'prepare')
                            or f[0] == 'attr' and f[2] in names))

    fi, r = database_run(ck, on_event=on_event, inline_rpc=(), keep=keep,
                         ignored=lambda self, n: True)
    report_(ck, fi, bad, ('explain',))


# ---------------------------------------------------------------------- the output

class Shown(Base):
    quiet = limit = None

    def on_event(self, s, name, recv, args, kwargs, node, it):
        t = tail(name).split('#')[0]
        if t == '_write_colored_str' or name == 'sys.stdout.write' or \
                name == 'builtins.print':
            s.ts['shown'] = True
            me = ('self', LOG)
            q = s.holds(('attr', me, self.quiet))
            c = args[1] if len(args) > 1 else dict(kwargs).get('color')
            if t != '_write_colored_str':
                return
            plain_ = c is None or c == NONE or s.holds(
                ('cmp', 'Is', c, NONE)) is True
            if q is not False and not plain_:
                self.say('colours', 'a colour is used although none is '
                         'wanted', node)
            if q is False and (c is None or c == NONE):
                self.say('colours', 'the colour asked for is not used', node)
            v = self.over(s)
            if v is not False:
                self.say('verbosity', 'more is shown than asked for', node)

    def over(self, s):
        """Is the message more detailed than what is asked for?"""
        return s.holds(('cmp', 'Lt', ('attr', ('self', LOG), self.limit),
                        ('param', 'verbose')))


class Named(Base):
    show = None

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) not in ('write', '_write', 'log') or not args:
            return
        on = s.holds(('attr', ('self', LOG), self.show))
        if 'thread' not in repr(args[0]):
            if on is True and mentions(args[0], ('param', 'msg')):
                self.say('threads', 'the thread is not named although that '
                         'was asked for', node)
        elif on is not True:
            self.say('threads', 'the thread is named although that was not '
                     'asked for', node)


def output(ck):
    init = ck.prog.require_method(LOG, '__init__')
    r = ck.explored(Interp(ck.prog, Base()).run(init, cls=init.cls))
    me = ('self', LOG)
    attrs = {}
    for s, t in r.returns:
        for k, v in s.heap.items():
            if k[0] == me and isinstance(v, tuple):
                attrs.setdefault(bare(v), k[1])
    for p in ('nocolor', 'verbose', 'show_threads', 'threadcount'):
        ck.require('given', '%s %s' % (init.qual, p),
                   ('param', p) in attrs, 'what is given is not kept',
                   where(init))
    m = ck.prog.require_method(LOG, '_write')
    pol = Shown()
    pol.quiet = attrs.get(('param', 'nocolor'), 'nocolor')
    pol.limit = attrs.get(('param', 'verbose'), 'verbose')
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    for s, t in r.returns:
        if not s.ts.get('shown') and pol.over(s) is not True:
            pol.say('verbosity', 'what was asked for is not shown', m.node)
    report(ck, m, pol, ('colours', 'verbosity'))
    m = ck.prog.require_method(LOG, 'check')
    pol = Named()
    pol.show = attrs.get(('param', 'show_threads'), 'show_threads')
    ck.explored(Interp(ck.prog, pol).run(m, cls=m.cls))
    report(ck, m, pol, ('threads',))
