"""Registering, the loop over the registered files, copying one file, both sides
of the privileged helper and the function that holds them together are each
followed on every path with every call failing.  The place registered is taken
apart into its components and compared with the one promised; each registered
file must be handed over exactly once with its own place and permissions; a copy
that returns has made the directory, placed the file and then set the permissions
on it, not through a link.  The helper must do what it is asked with the same
code, answer only after that, and understand all that is sent; a request that
returns was answered or the helper ended with status 0.  Whoever performs the
installation is closed on every way out."""
from .common import *
from .c20 import Raw
from . import c20

MOD = 'fbuild.install'
LOCAL = MOD + '.LocalCommander'
REMOTE = MOD + '.PolkitCommander'
INSTALLER = MOD + '.Installer'
CONTEXT = 'fbuild.context.Context'
PATH = 'fbuild.path.Path'

T = {
    'place': 'a file is registered for the place asked for',
    'every-file': 'every registered file is installed once, in its place and '
                  'with its permissions',
    'copied': 'the file is put in its place after its directory was made',
    'mode': 'permissions are set on the installed file only',
    'same': 'the privileged helper does what local installation does',
    'answered': 'a request to the helper that failed does not return',
    'closed': 'whoever performs the installation is closed on every way out',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('the modules os, shutil, pickle and base64 do what they say')
    bad = {}
    register(ck, bad)
    loop(ck, bad)
    local(ck, bad)
    remote(ck, bad)
    helper(ck, bad)
    whole(ck, bad)
    for k in T:
        ck.at_least(k, 1)


class Base(Policy):
    track_exc = True
    max_states = 80
    bad = None

    def __init__(self, bad):
        super().__init__()
        self.bad = bad

    def ignored(self, name):
        return True

    def say(self, rule, why, node):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)

    def may_raise(self, name, recv):
        return False


def report(ck, m, bad, rules):
    c20.report(ck, m, bad, rules)
    bad.clear()


def terms(t):
    yield t
    for x in subterms(t):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x != t:
            yield x


def plain(t):
    """The same path without conversions."""
    while True:
        if t[0] == 'call' and t[1] in (PATH, 'builtins.str', 'os.fspath') \
                and len(t[3]) == 1:
            t = t[3][0]
        else:
            return t


# ----------------------------------------------------------------- registering

def parts(t):
    """The components a path is joined from."""
    if t[0] == 'bin' and t[1] == 'Div':
        return parts(t[2]) + parts(t[3])
    if t[0] == 'call' and t[1] in (PATH, 'os.path.join', 'builtins.str',
                                   'os.fspath'):
        return [y for x in t[3] for y in parts(x)]
    return [t]


def stripped(t):
    """What t is with the leading separators taken off, or None."""
    if t[0] == 'call' and t[1].split('.')[-1] == 'lstrip' and \
            t[3] in ((const('/'),), (('global', 'os.sep'),),
                     (('global', 'os.path.sep'),)):
        return plain(t[2])
    return None


class Register(Base):
    def on_event(self, s, name, recv, args, kwargs, node, it):
        if recv == ('attr', ('self', CONTEXT), 'to_install') or \
                name == 'set.attr' and args[0] == const('to_install'):
            if tail(name) != 'append' or len(args) != 1:
                self.say('place', 'files registered before are changed', node)
            s.ts['got'] = (s.ts.get('got', ()) + (args[-1],))[:2]


def register(ck, bad):
    c = ck.prog.require_class(CONTEXT)
    m = ck.prog.require_method(CONTEXT, 'install')
    r = ck.explored(Interp(ck.prog, Register(bad)).run(m, cls=c))
    me = ('self', CONTEXT)
    path, subdir = ('param', m.params[1]), ('param', m.params[2])
    rename, perms = ('param', 'rename'), ('param', 'perms')
    dest, prefix = (('attr', me, 'install_destdir'),
                    ('attr', me, 'install_prefix'))

    def say(why, node=m.node):
        if ('place', why) not in bad:
            bad['place', why] = getattr(node, 'lineno', 0)

    def is_abs(s, t):
        """Does the path begin with a separator?"""
        for f, p in s.facts:
            if f[0] == 'call' and tail(f[1]) == 'startswith' and f[2] and \
                    plain(f[2]) == t and f[3][:1] == (const('/'),):
                return p
            if f[0] == 'call' and f[1] == 'os.path.isabs' and \
                    plain(f[3][0]) == t:
                return p
            if f[0] == 'call' and tail(f[1]) == 'isabs' and f[2] and \
                    plain(f[2]) == t:
                return p
            if f[0] == 'cmp' and f[1] == 'Eq' and const('/') in f[2:]:
                o = f[3] if f[2] == const('/') else f[2]
                if o[0] == 'item' and plain(o[1]) == t:
                    return p
        return None

    n = 0
    for s, t in r.returns:
        got = s.ts.get('got', ())
        if len(got) != 1:
            say('a file is not registered exactly once')
            continue
        f = fields(ck, got[0])
        if f is None:
            say('what is registered could not be made out')
            continue
        n += 1
        src, dst, mode = f
        if not absolute(src, path):
            say('the file registered is not the absolute path of the file '
                'given')
        if mode != perms:
            say('the permissions asked for are not registered')
        ps = parts(dst)
        a = is_abs(s, subdir)
        if a is None:
            say('absolute directories are not told apart')
            continue
        if not ps or plain(ps[0]) != dest:
            say('the place does not begin with the destination root')
            continue
        if not named(s, ps[-1], rename, path):
            say('the file is not installed under the requested name')
        mid = ps[1:-1]
        want = [subdir] if a else [prefix, subdir]
        if len(mid) != len(want):
            say('an absolute directory is not installed beneath the '
                'destination root' if a else 'a relative directory is not '
                'installed beneath prefix')
            continue
        for x, w in zip(mid, want):
            if plain(x) == w:
                if w == prefix and is_abs(s, w) is not False or w == subdir \
                        and a:
                    say('an absolute path is joined to the destination root, '
                        'which drops the root')
            elif stripped(x) != w:
                say('a component of the place is not what was asked for')
    if not r.returns or not n:
        say('no file is ever registered')
    for s, t in r.raises:
        if not any(f[0] == 'cmp' for f, p in s.facts):
            say('registering a file fails')
    report(ck, m, bad, ('place',))


def absolute(t, path):
    t = plain(t)
    if t[0] == 'call' and t[1] in ('os.path.abspath', 'os.path.realpath') and \
            len(t[3]) == 1:
        return plain(t[3][0]) == path
    if t[0] == 'call' and tail(t[1]) == 'abspath' and t[2] is not None:
        return plain(t[2]) == path
    return False


def named(s, t, rename, path):
    def base(t):
        t = plain(t)
        if t[0] == 'item' and t[2] in (const(1), const(-1)) and \
                t[1][0] == 'call' and tail(t[1][1]) in ('split', 'splitpath'):
            t = t[1]
        elif not (t[0] == 'call' and tail(t[1]) in ('basename', 'name') or
                  t[0] == 'attr' and t[2] == 'name'):
            return False
        if t[0] == 'attr':
            return plain(t[1]) == path
        return plain(t[3][0] if t[3] else t[2]) == path
    if t[0] == 'or':
        return len(t) == 3 and plain(t[1]) == rename and base(t[2])
    given = s.holds(rename)
    if given is None and s.holds(('cmp', 'Is', rename, NONE)) is not None:
        given = not s.holds(('cmp', 'Is', rename, NONE))
    if given is True:
        return plain(t) == rename
    if given is False:
        return base(t)
    return False


def fields(ck, t):
    """source, target, perms of a registered file."""
    if t[0] == 'call' and t[1] == 'fbuild.context.InstallSpec':
        names = ('source', 'target', 'perms')
        got = dict(zip(names, t[3]))
        got.update(dict(t[4]))
        return tuple(got[n] for n in names) if set(got) == set(names) \
            else None
    return None


# ------------------------------------------------------------------- the loop

class Loop(Base):
    """ts: did = files handed over in this iteration"""
    me = ('self', INSTALLER)

    def items(self, t):
        while t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple',
                                          'builtins.iter', '.copy'):
            t = t[3][0] if t[3] else t[2]
        return t == ('attr', ('attr', self.me, 'ctx'), 'to_install')

    def may_raise(self, name, recv):
        return tail(name) == 'install'

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['failed'] = True

    def on_loop(self, s, E, node, it):
        if self.items(E):
            s.ts['looped'] = True

    def on_iter(self, s, E, node, it):
        if self.items(E):
            s.ts['did'] = 0

    def iter_done(self, s, E, node, it):
        if self.items(E):
            n = s.ts.pop('did', 0)
            if n != 1:
                self.say('every-file', 'a registered file is installed %s' %
                         ('more than once' if n else 'not at all'), node)
            if s.ts.get('failed'):
                self.say('every-file', 'it goes on after a file could not be '
                         'installed', node)
        return ()

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) != 'install' or name in ('set.attr',) or \
                recv is None and not args:
            return
        s.ts['did'] = min(s.ts.get('did', 0) + 1, 2)
        self.calls += 1
        if recv != self.commander and not name.startswith((LOCAL, REMOTE)):
            self.say('every-file', 'another object performs the '
                     'installation', node)
        a = list(args)
        if len(a) == 1 and a[0][0] == 'star':
            ok = a[0][1][0] == 'elem' and self.items(a[0][1][1])
        else:
            kw = dict(kwargs)
            a += [kw[k] for k in ('file', 'target', 'perms')[len(a):]
                  if k in kw]
            ok = len(a) == 3 and all(self.field(x, i)
                                     for i, x in enumerate(a))
        if not ok:
            self.say('every-file', 'a file is not installed in its place with '
                     'its permissions', node)

    def field(self, t, i):
        t = plain(t)
        if t[0] == 'attr' and t[2] == ('source', 'target', 'perms')[i] or \
                t[0] == 'item' and t[2] == const(i):
            return t[1][0] == 'elem' and self.items(t[1][1])
        return False


def loop(ck, bad):
    c = ck.prog.require_class(INSTALLER)
    m = ck.prog.require_method(INSTALLER, '_install')
    pol = Loop(bad)
    pol.calls, pol.commander = 0, ('param', m.params[1])
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        if s.ts.get('failed'):
            pol.say('every-file', 'it succeeds although a file could not be '
                    'installed', m.node)
        if s.ts.get('did') is not None:
            pol.say('every-file', 'the files after one that was installed are '
                    'passed over', m.node)
        if not s.ts.get('looped'):
            pol.say('every-file', 'it returns without looking at the '
                    'registered files', m.node)
    if not pol.calls:
        pol.say('every-file', 'nothing is installed', m.node)
    report(ck, m, bad, ('every-file',))


# -------------------------------------------------------------------- one file

class Local(Base):
    """ts: dir = the directory was made, put = how the file was placed, mode =
    permissions were set after that, failed = a call failed"""

    def may_raise(self, name, recv):
        return tail(name) in PLACING or tail(name) in (
            'makedirs', 'chmod', 'lchmod', 'remove', 'unlink', 'readlink')

    def raised(self, name, recv):
        return 'builtins.OSError'

    def on_raise(self, s, name, recv, args, node, it):
        if tail(name) not in ('remove', 'unlink'):
            s.ts['failed'] = True

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts, t = s.ts, tail(name)
        a = [plain(x) for x in args]
        if recv is not None and recv[0] != 'global':
            a.insert(0, plain(recv))
        if t in ('makedirs', 'mkdir') and a:
            if self.parent(a[0]):
                ts['dir'] = True
                kw = dict(kwargs)
                if t == 'makedirs' and kw.get('exist_ok') != const(True) and \
                        self.make_strict:
                    self.say('copied', 'it fails if the directory exists',
                             node)
        elif t in PLACING:
            link = t == 'symlink'
            src = a[0] if a else NONE
            if link:
                ok = src[0] == 'call' and tail(src[1]) == 'readlink' and \
                    self.file in (src[2], *map(plain, src[3])) and \
                    a[1:2] == [self.target]
            else:
                ok = a[:2] == [self.file, self.target]
            if not ok:
                self.say('copied', 'something else than the file is put in '
                         'its place', node)
            if not ts.get('dir'):
                self.say('copied', 'the file is put in its place before its '
                         'directory was made', node)
            ts['put'] = 'link' if link else t
            ts.pop('mode', None)
            self.put = True
            follow = dict(kwargs).get('follow_symlinks')
            if follow == const(False) and not link and \
                    self.linked(s) is not False:
                ts['put'] = 'link'
        elif t in ('chmod', 'fchmod', 'copymode', 'copystat', 'lchmod'):
            on = a[1] if t.startswith('copy') and len(a) > 1 else \
                a[0] if a else NONE
            if on == self.file:
                self.say('mode', 'the permissions are set on the file that '
                         'was built', node)
            elif on == self.target:
                if ts.get('put') == 'link' and t != 'lchmod' and dict(
                        kwargs).get('follow_symlinks') != const(False):
                    self.say('mode', 'the permissions are set on what an '
                             'installed link refers to', node)
                if t.startswith('copy'):
                    ts['kept'] = True
                elif a[1:2] == [self.perms]:
                    ts['mode'] = True
                else:
                    self.say('mode', 'other permissions than those asked for '
                             'are set', node)
        elif t in ('remove', 'unlink', 'rename', 'move', 'rmtree') and \
                a[:1] == [self.file]:
            self.say('copied', 'the file that was built is taken away', node)

    def linked(self, s):
        for f, p in s.facts:
            if f[0] == 'call' and tail(f[1]) == 'islink' and self.file in (
                    f[2] and plain(f[2]), *map(plain, f[3])):
                return p
        return None

    def parent(self, t):
        if t[0] == 'attr' and t[2] == 'parent':
            return plain(t[1]) == self.target
        if t[0] == 'call' and tail(t[1]) in ('dirname', 'parent', 'getparent'):
            return plain(t[3][0] if t[3] else t[2]) == self.target
        if t[0] == 'item' and t[2] == const(0) and t[1][0] == 'call' and \
                tail(t[1][1]) in ('split', 'splitpath'):
            return plain(t[1][3][0] if t[1][3] else t[1][2]) == self.target
        return False


PLACING = ('copy', 'copy2', 'copyfile', 'symlink', 'install', 'link')


def local(ck, bad):
    c = ck.prog.require_class(LOCAL)
    m = ck.prog.require_method(LOCAL, 'install')
    pol = Local(bad)
    pol.make_strict = True
    pol.file, pol.target, pol.perms = [('param', x) for x in m.params[1:4]]
    pol.put = False
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        ts = s.ts
        if ts.get('failed'):
            pol.say('copied', 'it succeeds although a step failed', m.node)
            continue
        if not ts.get('put'):
            pol.say('copied', 'it returns without having put the file in its '
                    'place', m.node)
            continue
        none = s.holds(('cmp', 'Is', pol.perms, NONE))
        if ts['put'] == 'link' or none is True:
            if ts['put'] == 'copyfile' and not ts.get('kept'):
                pol.say('mode', 'the installed file does not keep the '
                        'permissions of the file', m.node)
            continue
        if not ts.get('mode'):
            if s.holds(pol.perms) is False:
                pol.say('mode', 'permissions of 0 are not set', m.node)
            else:
                pol.say('mode', 'it returns without the permissions asked '
                        'for', m.node)
    if not pol.put:
        pol.say('copied', 'nothing is put in its place', m.node)
    report(ck, m, bad, ('copied', 'mode'))


# ------------------------------------------------------------------ the helper

class Remote(Base):
    given = None
    """ts: wrote = what was sent, flushed, got = the answer, closed, ended =
    the helper was waited for"""

    def inline(self, fi):
        return fi.cls is not None and fi.cls.qual == REMOTE and \
            fi.name != 'close' or super().inline(fi)

    def may_raise(self, name, recv):
        return tail(name) in ('write', 'flush', 'readline', 'wait') and \
            recv is not None and self.proc(recv)

    def proc(self, t):
        return any(x in (('attr', self.me, 'proc'), self.given)
                   for x in terms(t))

    def raised(self, name, recv):
        return 'builtins.OSError'

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['failed'] = True

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts, t = s.ts, tail(name)
        if t == 'write' and self.proc(recv or NONE) and args:
            msg = message(args[0])
            if msg is not None:
                ts['wrote'] = msg
            if any(x[0] == 'const' and isinstance(x[2], str) and
                   x[2].endswith('\n') for x in terms(args[0])):
                ts['line'] = True
            ts['flushed'] = False
        elif t == 'flush' and self.proc(recv or NONE):
            ts['flushed'] = bool(ts.get('line'))
        elif t in ('readline', 'read') and self.proc(recv or NONE):
            if not ts.get('flushed'):
                self.say('answered', 'it waits for an answer to a request '
                         'that may not have been sent', node)
            ts['asked'] = True
        elif name == REMOTE + '.close':
            ts['closed'] = True
        elif t == 'wait' and self.proc(recv or NONE):
            ts['ended'] = True
        elif name == 'set.attr' and recv == self.me and \
                args[0] == const('closed') and not ts.get('ended') and \
                args[1] == const(True):
            self.say('answered', 'the helper is taken as ended before it was '
                     'waited for', node)


def message(t):
    """What an encoded message is made of."""
    for x in terms(t):
        if x[0] == 'call' and x[1] == 'pickle.dumps' and x[3]:
            return x[3][0]
    return None


def listed(t, s):
    """The elements of a tuple."""
    if t[0] in ('tuple', 'list'):
        return list(t[1:])
    if t[0] == 'new':
        seq = s.heap.get((t, '$seq'))
        return list(seq[1:]) if seq else None
    return None


def remote(ck, bad):
    c = ck.prog.require_class(REMOTE)
    pol = Remote(bad)
    pol.me = ('self', REMOTE)
    # a file
    m = ck.prog.require_method(REMOTE, 'install')
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    want = [const('install')] + [('param', x) for x in m.params[1:4]]
    answers(pol, r, m, want)
    report(ck, m, bad, ('same', 'answered'))
    # closing
    m = ck.prog.require_method(REMOTE, 'close')
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    code = ('attr', ('attr', pol.me, 'proc'), 'returncode')
    for s, t in r.returns:
        if s.holds(('attr', pol.me, 'closed')) is True and \
                not s.ts.get('ended'):
            continue
        if s.ts.get('failed'):
            pol.say('answered', 'closing succeeds although the helper could '
                    'not be reached', m.node)
        if not s.ts.get('ended'):
            pol.say('answered', 'closing does not wait for the helper',
                    m.node)
        elif not zero(s, code):
            pol.say('answered', 'a helper that ended with an error is taken '
                    'as success', m.node)
    for s, t in r.raises:
        if t[0] == 'exc' and tail(t[1]) == 'SystemExit':
            v = t[2] if len(t) > 2 else NONE
            if v[0] == 'tuple' and len(v) == 2:
                v = v[1]
            if v[0] == 'const' and not v[2]:
                pol.say('answered', 'the program ends with status 0 although '
                        'the helper failed', m.node)
    report(ck, m, bad, ('answered',))
    # starting
    m = ck.prog.require_method(REMOTE, '__init__')
    pol.given = ('param', m.params[2])
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        w = listed(s.ts.get('wrote', NONE), s)
        if not w or w[0] != const('chdir') or len(w) != 2 or not (
                w[1][0] == 'call' and tail(w[1][1]) in ('getcwd', 'abspath')):
            pol.say('same', 'the helper is not told the directory it is to '
                    'work in', m.node)
    report(ck, m, bad, ('same',))


def zero(s, code):
    """Is the exit status known to be 0?"""
    if s.holds(code) is False or s.holds(
            ('cmp', 'Eq', *sorted([const(0), code], key=repr))) is True:
        return True
    return any(f[0] == 'cmp' and f[1] == 'Eq' and p and const(0) in f[2:] and
               any(x[0] == 'call' and tail(x[1]) in ('wait', 'poll')
                   for x in f[2:]) or
               not p and f[0] == 'call' and tail(f[1]) in ('wait', 'poll')
               for f, p in s.facts)


def answers(pol, r, m, want):
    n = 0
    for s, t in r.returns:
        n += 1
        if s.ts.get('failed'):
            pol.say('answered', 'it succeeds although the helper could not be '
                    'reached', m.node)
            continue
        got = listed(s.ts.get('wrote', NONE), s)
        if got != want:
            pol.say('same', 'the helper is not given the file, its place and '
                    'its permissions', m.node)
        done = any(p and f[0] == 'cmp' and f[1] == 'Eq' and any(
            x[0] == 'const' and isinstance(x[2], str) and
            x[2].strip() == 'done' for x in f[2:]) and any(
                y[0] == 'call' and tail(y[1]) == 'readline'
                for x in f[2:] for y in terms(x))
            for f, p in s.facts)
        if not done and not s.ts.get('closed'):
            pol.say('answered', 'it returns although the helper did not say '
                    'it was done', m.node)
    if not n:
        pol.say('answered', 'it never returns', m.node)


class Helper(Base):
    """ts: do = what was done for this message, said = it was answered"""

    def may_raise(self, name, recv):
        return name in (LOCAL + '.install', 'os.chdir')

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['failed'] = True

    def on_branch(self, s):
        for f, p in s.facts:
            if p and f[0] == 'cmp' and f[1] == 'Eq':
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if a[0] == 'const' and isinstance(a[2], str) and \
                            self.word(b):
                        self.words.add(a[2])
                        return {'cmd': a[2]}
        return {}

    def word(self, t):
        return t[0] == 'item' and (
            t[2] == const(0) and self.msg(t[1]))

    def msg(self, t):
        return t[0] == 'call' and tail(t[1]) == '_decode' or \
            t[0] == 'call' and t[1] == 'pickle.loads'

    def rest(self, t):
        if t[0] == 'star':
            t = t[1]
        while t[0] == 'call' and t[1] in ('builtins.tuple', 'builtins.list') \
                and len(t[3]) == 1:
            t = t[3][0]
        if t[0] == 'item' and t[2][0] == 'slice' and \
                t[2][1:3] == (const(1), NONE) and self.msg(t[1]):
            return True
        if t[0] == 'rest' and t[2] == 1 and self.msg(t[1]):
            return True
        return False

    def on_iter(self, s, E, node, it):
        for k in ('do', 'said', 'cmd'):
            s.ts.pop(k, None)

    def iter_done(self, s, E, node, it):
        ts = s.ts
        if not ts.get('said'):
            self.say('same', 'a request is not answered', node)
        if ts.get('failed'):
            self.say('answered', 'the helper goes on after a failure', node)
        if ts.get('cmd') == 'install' and ts.get('do') != 'install':
            self.say('same', 'a request to install does not install', node)
        if ts.get('cmd') == 'chdir' and ts.get('do') != 'chdir':
            self.say('same', 'the helper does not change to the directory it '
                     'is told', node)
        return ()

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        if name == 'builtins.print' or tail(name) == 'write':
            if any(a[0] == 'const' and isinstance(a[2], str) and
                   a[2].strip() == 'done' for a in args):
                if ts.get('failed'):
                    self.say('answered', 'the helper says it is done after a '
                             'failure', node)
                if ts.get('cmd') == 'install' and ts.get('do') != 'install':
                    self.say('answered', 'the helper says it is done before '
                             'it is', node)
                ts['said'] = True
        elif name == LOCAL + '.install':
            self.used = True
            ok = len(args) == 1 and self.rest(args[0]) or len(args) == 3 and \
                all(a[0] == 'item' and (
                    a[2] == const(i + 1) and self.msg(a[1]) or
                    a[2] == const(i) and self.rest(a[1]))
                    for i, a in enumerate(args))
            if not ok:
                self.say('same', 'the helper does not install the file it is '
                         'given in its place with its permissions', node)
            if ts.get('said'):
                self.say('answered', 'the helper says it is done before it '
                         'is', node)
            ts['do'] = 'install'
        elif name == 'os.chdir':
            a = args[0]
            if not (a[0] == 'item' and (
                    a[2] == const(1) and self.msg(a[1]) or
                    a[2] == const(0) and self.rest(a[1]))):
                self.say('same', 'the helper changes to another directory',
                         node)
            ts['do'] = 'chdir'


def helper(ck, bad):
    m = ck.prog.require_function(MOD + '.polkit_process')
    pol = Helper(bad)
    pol.words, pol.used = set(), False
    r = ck.explored(Interp(ck.prog, pol).run(m))
    for s, t in r.returns:
        if s.ts.get('failed'):
            pol.say('answered', 'the helper ends normally after a failure',
                    m.node)
    for s, t in r.raises:
        if t[0] == 'exc' and tail(t[1]) == 'SystemExit':
            if s.ts.get('failed'):
                v = t[2] if len(t) > 2 else NONE
                if v[0] == 'tuple' and len(v) == 2:
                    v = v[1]
                if v[0] == 'const' and not v[2]:
                    pol.say('answered', 'the helper exits with status 0 after '
                            'a failure', m.node)
            elif s.ts.get('cmd') != 'close':
                pol.say('same', 'the helper ends on another request than '
                        'close', m.node)
    for w in ('chdir', 'install', 'close'):
        if w not in pol.words:
            pol.say('same', 'the helper does not know the request %r' % w,
                    m.node)
    if not pol.used:
        pol.say('same', 'the helper does not install with the code of local '
                'installation', m.node)
    report(ck, m, bad, ('same', 'answered'))
    # both ends speak the same language
    c = ck.prog.require_class(REMOTE)
    e = ck.prog.require_method(REMOTE, '_encode')
    d = ck.prog.require_method(REMOTE, '_decode')
    x = chain(ck, e, c)
    y = chain(ck, d, c)
    inv = {'pickle.dumps': 'pickle.loads',
           'base64.b64encode': 'base64.b64decode', 'decode': 'encode'}
    ok = x is not None and y is not None and \
        [inv.get(n) for n in x] == list(reversed(y))
    ck.require('same', d.qual, ok, 'a request is not decoded the way it was '
               'encoded', where(d))


def chain(ck, m, c):
    """The conversions a function applies to its argument, in order."""
    r = ck.explored(Interp(ck.prog, Raw()).run(m, cls=c))
    got = set()
    p = ('param', m.params[-1])
    for s, t in r.returns:
        names = []
        while t != p:
            if t[0] != 'call':
                return None
            if t[2] is not None:
                names.append(tail(t[1]))
                t = t[2]
            elif t[3]:
                names.append(t[1])
                t = t[3][0]
            else:
                return None
        got.add(tuple(reversed(names)))
    return list(got.pop()) if len(got) == 1 else None


# ------------------------------------------------------------------- the whole

class Whole(Base):
    """ts: open = who was made to perform the installation, did, closed"""
    me = ('self', INSTALLER)

    def may_raise(self, name, recv):
        return name in (INSTALLER + '._install',) or tail(name) in (
            'access', '_load_polkit_process', '_find_pkexec',
            'install') or name == REMOTE

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['failed'] = True
        if name == INSTALLER + '._install':
            s.ts['used'] = args[0]

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        if name == INSTALLER + '._install':
            ts['did'] = min(ts.get('did', 0) + 1, 2)
            ts['used'] = args[0] if args else NONE
            ts.pop('closed', None)
            self.did = True
        elif tail(name) == 'close':
            if recv is not None:
                ts['closed'] = recv
            elif args:
                ts['closed'] = args[0]
        elif tail(name) == '_load_polkit_process' or name in (
                'fbuild.subprocess.killableprocess.Popen',):
            if not any(not p and f[0] == 'call' and tail(f[1]) == 'access'
                       for f, p in s.facts):
                self.say('closed', 'the helper is started although the '
                         'destination may be written', node)
            ts['helper'] = True


def whole(ck, bad):
    c = ck.prog.require_class(INSTALLER)
    m = ck.prog.require_method(INSTALLER, 'install')
    pol = Whole(bad)
    pol.did = False
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for out, kind in ((r.returns, 'it returns'), (r.raises, 'it fails')):
        for s, t in out:
            u = s.ts.get('used')
            if u is not None and s.ts.get('closed') != u:
                pol.say('closed', '%s without closing what performed the '
                        'installation' % kind, m.node)
    for s, t in r.returns:
        if s.ts.get('failed'):
            pol.say('every-file', 'it succeeds although a step failed',
                    m.node)
        if s.ts.get('did') != 1:
            pol.say('every-file', 'the files are not installed exactly once',
                    m.node)
        u = s.ts.get('used')
        if s.ts.get('helper') and u is not None and not (
                u[0] == 'call' and u[1] == REMOTE):
            pol.say('closed', 'the helper is started and not used', m.node)
    report(ck, m, bad, ('closed', 'every-file'))
