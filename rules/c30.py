"""Every method of Path is followed on every path, with the operation it
performs failing.  A method that bears the name of a function of os, os.path or
shutil must call that function, on this path, with its own parameters in order,
once; give its answer; and let its errors out.  What the other methods return is
reduced to the components it is joined from (split(p)[0] and dirname(p) being
the same, and so on) and compared with what the operation is to return; a
derived path must be made a Path.  Creating directories may ignore an error only
where the directory is known to exist."""
from .common import *
from .c21 import Base, report, terms

PATH = 'fbuild.path.Path'
ME = ('self', PATH)

# operations that take a path and change something, or whose answer is not a path
OS = ('access', 'chmod', 'lstat', 'mkdir', 'mknod', 'remove', 'removedirs',
      'rename', 'renames', 'rmdir', 'stat', 'utime', 'chflags', 'chown',
      'chroot', 'lchflags', 'lchmod', 'lchown', 'link', 'mkfifo', 'statvfs',
      'symlink')
OSPATH = ('exists', 'getatime', 'getctime', 'getmtime', 'getsize', 'isabs',
          'isdir', 'isfile', 'islink', 'ismount', 'lexists', 'samefile',
          'commonprefix')
SHUTIL = ('copy', 'copy2', 'copyfile', 'copymode', 'copystat', 'copytree',
          'move', 'rmtree')
# operations whose answer is a path
DERIVE = {'abspath': 'os.path', 'expanduser': 'os.path',
          'expandvars': 'os.path', 'normcase': 'os.path',
          'normpath': 'os.path', 'realpath': 'os.path', 'relpath': 'os.path',
          'readlink': 'os'}
# those without an answer
SILENT = ('chmod', 'mkdir', 'mknod', 'remove', 'removedirs', 'rename',
          'renames', 'rmdir', 'utime', 'chflags', 'chown', 'chroot',
          'lchflags', 'lchmod', 'lchown', 'link', 'mkfifo', 'symlink',
          'copymode', 'copystat', 'rmtree')
SAME = {'os.unlink': 'os.remove'}

T = {
    'operation': 'a method performs the operation of its name on its path',
    'answer': 'it gives the answer of that operation',
    'errors': 'it lets the errors of that operation out',
    'derived': 'a derived path is the one documented',
    'path': 'a derived path is a Path',
    'makedirs': 'creating directories ignores an error only if the directory '
                'is there',
    'selected': 'a search gives every path it found that is wanted and no '
                'other',
    'digest': 'the digest is that of the whole file',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('the modules os, os.path and shutil do what they say')
    c = ck.prog.require_class(PATH)
    bad = {}
    n = 0
    for mod, names in (('os', OS), ('os.path', OSPATH), ('shutil', SHUTIL)):
        for name in names:
            n += delegate(ck, c, name, mod, bad)
    for name, mod in sorted(DERIVE.items()):
        n += delegate(ck, c, name, mod, bad, derive=True)
    if n < 40:
        raise AnalysisBroken('only %d operations found' % n)
    derived(ck, c, bad)
    makedirs(ck, c, bad)
    listdir(ck, c, bad)
    walk(ck, c, bad)
    search(ck, c, bad)
    digest(ck, c, bad)
    for k in T:
        ck.at_least(k, 1)


def plain(t):
    """The same path without conversions."""
    while t[0] == 'call' and len(t[3]) == 1 and t[2] is None and \
            t[1] in (PATH, 'builtins.str', 'os.fspath'):
        t = t[3][0]
    return t


# --------------------------------------------------------------------- delegates

class Delegate(Base):
    """ts: ops = the operations performed"""
    fail = False
    extra = ()

    def operation(self, name, recv):
        return name.startswith(('os.', 'shutil.', 'pathlib.')) and \
            name not in ('os.fspath',) or \
            name.startswith(PATH + '.') or \
            name.startswith('.') and recv is not None and \
            plain(recv) == ME and tail(name) in (OS + SHUTIL)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if self.operation(name, recv):
            s.ts['ops'] = s.ts.get('ops', ())[:3] + (
                (SAME.get(name, name), recv, args, kwargs),)

    def may_raise(self, name, recv):
        return self.fail and self.operation(name, recv)

    def raised(self, name, recv):
        return 'builtins.OSError'


def own(m):
    """(positional, name of *, name of **) of the parameters after self"""
    a = m.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    return names, [x.arg for x in a.kwonlyargs], a.vararg, a.kwarg


def passed(m, args, kwargs):
    """What is wrong with the arguments passed on, or None."""
    if not args or plain(args[0]) != ME:
        return 'the operation is not performed on this path'
    names, kwonly, var, kw = own(m)
    rest = [a for a in args[1:]]
    d = dict(kwargs)
    pos = [plain(a) for a in rest if a[0] == 'param' or a[0] == 'call' or
           a[0] == 'const']
    i = 0
    for n in names + kwonly:
        t = ('param', n)
        if n in d:
            if plain(d[n]) != t:
                return '%s is not passed on' % n
        elif i < len(rest) and plain(rest[i]) == t and n in names:
            i += 1
        else:
            return '%s is not passed on in its place' % n
    for v in (var, kw):
        if v is not None and not any(
                v.arg in repr(x) for x in list(rest[i:]) + [
                    d.get('**', NONE)]):
            return 'what it is given is not passed on'
    if var is None and len(rest) > i:
        return 'the operation is given something else'
    return None


def delegate(ck, c, name, mod, bad, derive=False):
    m = c.find_method(name)
    if m is None or m.cls is None or m.cls.qual != PATH:
        if name in ('lchmod', 'lchflags', 'chflags', 'lchown', 'mkfifo',
                    'statvfs', 'readlink', 'symlink', 'link', 'chown',
                    'chroot', 'samefile'):
            return 0
        ck.require('operation', PATH + '.' + name, False,
                   'there is no such operation any more',
                   where(c.methods['__new__']))
        return 0
    op = '%s.%s' % (mod, name)

    def say(rule, why):
        bad.setdefault((rule, why), m.node.lineno)

    pol = Delegate(bad)
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        ops = s.ts.get('ops', ())
        mine = [o for o in ops if o[0] == op]
        others = [o for o in ops if o[0] != op and not (
            o[0].startswith('os.path.') and tail(o[0]) in OSPATH)]
        if others:
            say('operation', 'it performs %s' % others[0][0])
            continue
        if len(mine) != 1:
            say('operation', 'it performs %s %s' % (
                op, 'more than once' if mine else 'not on every path'))
            continue
        _, recv, args, kwargs = mine[0]
        why = passed(m, args, kwargs)
        if why:
            say('operation', why)
            continue
        call = ('call', op, recv, args, kwargs)
        if derive:
            if plain(t) != call:
                say('answer', 'it returns something else than the path '
                    'found')
            elif not is_path(t):
                say('path', 'what it returns is not a Path')
        elif name not in SILENT:
            if not same_answer(s, t, call):
                say('answer', 'it returns something else than the answer')
    pol = Delegate(bad)
    pol.fail = True
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    if not any(e[1] == 'builtins.OSError' for s, e in r.raises):
        say('errors', 'an error of the operation is ignored')
    for s, t in r.returns:
        if not any(o[0] == op for o in s.ts.get('ops', ())):
            say('errors', 'an error of the operation is ignored')
    report(ck, m, bad, ('operation', 'answer', 'errors') +
           (('path',) if derive else ()))
    return 1


def same_answer(s, t, call):
    while t[0] == 'call' and t[1] == 'builtins.bool' and len(t[3]) == 1:
        t = t[3][0]
    if t == call:
        return True
    if t[0] == 'const' and isinstance(t[2], bool):
        return s.holds(call) is t[2]
    return False


def is_path(t):
    return t[0] == 'call' and t[1] == PATH or t == ME


# ----------------------------------------------------------------- derived paths

def norm(t):
    """The components a path or string is put together from, in a form that does
    not depend on how that is written: ('join', ...), ('cat', ...) or an atom."""
    t0 = t
    if t[0] == 'call' and t[1] in (PATH, 'os.path.join', 'builtins.str',
                                   'os.fspath') and t[2] is None:
        out = []
        for x in t[3]:
            y = norm(x)
            out += y[1:] if y[0] == 'join' else [y]
        return out[0] if len(out) == 1 else ('join',) + tuple(out)
    if t[0] == 'bin' and t[1] == 'Div':
        return norm(('call', PATH, None, (t[2], t[3]), ()))
    if t[0] == 'bin' and t[1] == 'Add' or t[0] == 'call' and \
            t[1] in ('builtins.str.__add__', '.__add__'):
        xs = t[2:4] if t[0] == 'bin' else (
            t[3] if t[2] is None else (t[2],) + t[3])
        out = []
        for x in xs:
            y = norm(x)
            out += y[1:] if y[0] == 'cat' else [y]
        return ('cat',) + tuple(out)
    if t[0] == 'call' and t[1] in ('os.path.dirname', 'os.path.basename') \
            and t[3]:
        return (tail(t[1]), norm(t[3][0]))
    if t[0] == 'attr' and t[2] in ('parent', 'name', 'ext'):
        return ({'parent': 'dirname', 'name': 'basename', 'ext': 'ext'}[t[2]],
                norm(t[1]))
    if t[0] == 'item':
        k = t[2]
        c = t[1]
        while c[0] == 'call' and c[1] in ('builtins.tuple', 'builtins.list') \
                and len(c[3]) == 1:
            c = c[3][0]
        if c[0] == 'call' and tail(c[1]) in ('split', 'splitext',
                                             'splitdrive', 'splitunc') and \
                k in (const(0), const(1), const(-1)):
            who = c[3][0] if c[3] else c[2]
            if c[2] is None or c[3]:
                who = c[3][0]
            first = k == const(0)
            return ({'split': ('dirname', 'basename'),
                     'splitext': ('root', 'ext'),
                     'splitdrive': ('drive', 'tail'),
                     'splitunc': ('unc', 'rest')}[tail(c[1])][not first],
                    norm(who))
        if isinstance(k, tuple) and k[0] == 'slice':
            return ('slice', norm(c)) + tuple(
                x if x is None else norm(x) if isinstance(x, tuple) else x
                for x in k[1:])
        return ('item', norm(c), norm(k))
    if t[0] == 'call' and t[1] == 'builtins.len':
        return ('len', norm(t[3][0]))
    if t[0] == 'call' and tail(t[1]) == 'removeprefix' and t[2]:
        return ('unprefixed', norm(t[2]), norm(t[3][0]))
    return t0


def P(n):
    return ('param', n)


def derived(ck, c, bad):
    me = ME
    cases = {
        'name': [((), ('basename', me), True)],
        'basename': [((), ('basename', me), True)],
        'parent': [((), ('dirname', me), True)],
        'dirname': [((), ('dirname', me), True)],
        'ext': [((), ('ext', me), False)],
        '__truediv__': [((), ('join', me, 1), True)],
        '__rtruediv__': [((), ('join', 1, me), True)],
        '__add__': [((), ('cat', me, 1), True)],
        'addprefix': [((), ('join', ('dirname', me),
                            ('cat', 1, ('basename', me))), True)],
        'replaceext': [((), ('cat', ('root', me), 1), True)],
        'split': [((), (('dirname', me), ('basename', me)), (True, True))],
        'splitdrive': [((), (('drive', me), ('tail', me)), (True, True))],
        'splitext': [((), (('root', me), ('ext', me)), (True, False))],
        'splitunc': [((), (('unc', me), ('rest', me)), (True, True))],
        'addroot': [
            ((('startswith', True),), me, True),
            ((('startswith', False), ('isabs', True)),
             ('join', 1, ('basename', me)), True),
            ((('startswith', False), ('isabs', False)),
             ('join', 1, me), True)],
        'removeroot': [
            ((('startswith', True),),
             ('slice', me, ('len', 1)), True),
            ((('startswith', False),), me, True)],
        'replaceexts': [
            ((('has', True),), ('cat', ('root', me),
                                ('item', 1, ('ext', me))), True),
            ((('has', False),), me, True)],
    }
    for name, rows in sorted(cases.items()):
        m = c.find_method(name)
        if m is None:
            if name != 'splitunc':
                ck.require('derived', PATH + '.' + name, False,
                           'there is no such operation any more',
                           where(c.methods['__new__']))
            continue

        def say(rule, why):
            bad.setdefault((rule, why), m.node.lineno)

        arg = P(m.params[1]) if len(m.params) > 1 else None
        pol = Known(bad)
        pol.keep = lambda s: tuple(known(s, k, arg) for k in (
            'startswith', 'isabs', 'has')) if len(rows) > 1 else None
        r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
        if not r.returns:
            say('derived', 'it never returns')
        for s, t in r.returns:
            hits = [(w, p) for conds, w, p in rows if all(
                known(s, k, arg) in (v, None) for k, v in conds)]
            hits = [(fill(w, arg), p) for w, p in hits]
            if isinstance(rows[0][2], tuple):
                ts = members(s, t)
                if ts is None or len(ts) != len(rows[0][2]):
                    say('derived', 'it does not return %d parts' %
                        len(rows[0][2]))
                    continue
                for x, w, p in zip(ts, hits[0][0], hits[0][1]):
                    one(say, s, x, [(w, p)])
            else:
                one(say, s, t, hits, len(hits) != 1)
        report(ck, m, bad, ('derived', 'path'))

    m = ck.prog.require_method(PATH, 'splitall')
    pol = Apart(bad)
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        if pol.adds:
            pol.over(s, 0, m.node)
    if not pol.adds:
        bad.clear()
    for s, t in r.returns:
        while t[0] == 'call' and t[1] in ('builtins.list',) + \
                ('builtins.reversed',) and len(t[3]) == 1:
            t = t[3][0]
        got = s.coll.get(t)
        if got is not None:
            for k in got[1] | got[2]:
                if k[0] == 'one' and not is_path(k[1]):
                    bad['path', 'what it returns are not Paths'] = \
                        m.node.lineno
    report(ck, m, bad, ('derived', 'path'))

    m = ck.prog.require_method(PATH, 'getcwd')
    r = ck.explored(Interp(ck.prog, Base(bad)).run(m))
    for s, t in r.returns:
        if plain(t) != ('call', 'os.getcwd', None, (), ()):
            bad['derived', 'it is not the current directory'] = m.node.lineno
        elif not is_path(t):
            bad['path', 'what it returns is not a Path'] = m.node.lineno
    report(ck, m, bad, ('derived', 'path'))


class Apart(Base):
    """A path taken apart from its end, one component at a time.
    ts: last = the latest pair (head, tail); head, tail = it was added to the
    result"""
    adds = False

    def keep(self, s):
        return (s.ts.get('last'), s.ts.get('head'), s.ts.get('tail'))

    def over(self, s, i, node):
        last = s.ts.get('last')
        if last is None:
            return
        part = ('item', last, const(i))
        if not s.ts.get(('head', 'tail')[i]) and s.holds(part) is not False \
                and not self.empty(s, part):
            self.say('derived', 'the last component is left out of the '
                     'result' if i else 'the root the path starts from is '
                     'left out of the result', node)

    def empty(self, s, part):
        return any(p and f[0] == 'cmp' and f[1] == 'Eq' and part in f[2:] and
                   const('') in f[2:] for f, p in s.facts)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        if tail(name) == 'split' and (name == 'os.path.split' or
                                      name.startswith(PATH)):
            self.over(s, 1, node)
            ts['last'] = ('call', name, recv, tuple(args), tuple(kwargs))
            ts['head'] = ts['tail'] = False
        elif tail(name) in ('append', 'insert', 'appendleft') and args:
            last = ts.get('last')
            if last is None:
                return
            x = plain(args[-1])
            for i in (0, 1):
                if x == ('item', last, const(i)):
                    ts[('head', 'tail')[i]] = self.adds = True


class Known(Base):
    def may_miss(self, coll, key):
        return coll[0] == 'param'


def fill(w, arg):
    if w == 1 and not isinstance(w, bool):
        return arg
    if isinstance(w, tuple) and w and w[0] not in ('self', 'param'):
        return tuple(fill(x, arg) for x in w)
    return w


def known(s, what, arg):
    if arg is None:
        return None
    if what == 'has':
        for f, p in s.facts:
            if f[0] == 'cmp' and f[1] == 'In' and f[3] == arg:
                return p
            if f[0] == 'cmp' and f[1] == 'Is' and NONE in f[2:] and any(
                    x[0] == 'call' and tail(x[1]) == 'get' and x[2] == arg
                    for x in f[2:]):
                return not p
        for ev in s.must:
            if ev[0] == 'gone' and ev[1] == arg:
                return False
        return True         # looked up without an error
    for f, p in s.facts:
        if f[0] == 'call' and tail(f[1]) == what:
            who = f[2] if f[2] is not None else f[3][0] if f[3] else None
            if who is not None and plain(who) == ME and (
                    what != 'startswith' or plain(f[3][-1]) == arg):
                return p
    return None


def members(s, t):
    while t[0] == 'call' and t[1] == 'builtins.tuple' and len(t[3]) == 1:
        t = t[3][0]
    if t[0] == 'tuple':
        return t[1] if len(t) == 2 and isinstance(t[1], tuple) else t[1:]
    if t[0] == 'call' and tail(t[1]) in ('split', 'splitext', 'splitdrive'):
        return (('item', t, const(0)), ('item', t, const(1)))
    return None


def one(say, s, t, hits, several=False):
    got = norm(t)
    ok = [(w, p) for w, p in hits if got == w or
          w[0] == 'slice' and got[:3] == w[:3] or
          w[0] == 'slice' and got == ('unprefixed', w[1], w[2][1])]
    if not ok:
        say('derived', 'it does not return what it is documented to')
    elif any(p for w, p in ok) and not is_path(t) and not (
            t[0] == 'bin' and t[1] == 'Div'):
        say('path', 'what it returns is not a Path')
    elif several and len(ok) != len(hits):
        say('derived', 'what it returns does not depend on all it should')


# --------------------------------------------------------------------- the others

class Make(Base):
    fail = None

    def may_raise(self, name, recv):
        return name == 'os.makedirs'

    def raised(self, name, recv):
        return self.fail

    def on_raise(self, s, name, recv, args, node, it):
        s.ts['failed'] = True

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == 'os.makedirs':
            if 'failed' in s.ts:
                self.say('makedirs', 'it tries again', node)
            s.ts['made'] = True
            why = passed(self.m, args, tuple(
                (k, v) for k, v in kwargs if k != 'exist_ok' or
                v[0] == 'param'))
            if why:
                self.say('operation', why, node)


def makedirs(ck, c, bad):
    m = ck.prog.require_method(PATH, 'makedirs')
    for fail in ('builtins.OSError', 'builtins.FileExistsError',
                 'builtins.PermissionError', 'builtins.TypeError',
                 'builtins.KeyboardInterrupt'):
        pol = Make(bad)
        pol.fail, pol.m = fail, m
        r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
        for s, t in r.returns:
            if not s.ts.get('failed'):
                if not s.ts.get('made') and not there(s):
                    pol.say('operation', 'it may return without creating the '
                            'directories', m.node)
                continue
            if fail in ('builtins.TypeError', 'builtins.KeyboardInterrupt'):
                pol.say('makedirs', 'it ignores a %s' % tail(fail), m.node)
            elif not there(s):
                pol.say('makedirs', 'it ignores an error although the '
                        'directory may not be there', m.node)
        for s, e in r.raises:
            if s.ts.get('failed') and e[1] not in (fail, 'builtins.OSError'):
                pol.say('makedirs', 'it raises something else than the error '
                        'of creating the directories', m.node)
            if s.ts.get('failed') and there(s) and \
                    fail == 'builtins.FileExistsError':
                pol.say('makedirs', 'it fails for a directory that is '
                        'already there', m.node)
        if fail == 'builtins.FileExistsError' and not any(
                s.ts.get('failed') for s, t in r.returns) and not any(
                    dict(o.kwargs).get('exist_ok') == const(True)
                    for o in r.obs):
            pol.say('makedirs', 'it fails for a directory that is already '
                    'there', m.node)
    report(ck, m, bad, ('operation', 'makedirs'))


def there(s):
    for w in worlds(s):
        if not any(p and f[0] == 'call' and tail(f[1]) == 'isdir' and
                   plain(f[3][0] if f[3] else f[2]) == ME
                   for f, p in w.facts):
            return False
    return True


def is_listing(E):
    while E[0] == 'call' and E[1] in ('builtins.list', 'builtins.sorted') \
            and E[3]:
        E = E[3][0]
    return E[0] == 'call' and E[1] == 'os.listdir'


class Listing(Base):
    """ts: kept = what was put in a list for the entry in hand"""

    def on_iter(self, s, E, node, it):
        if is_listing(E):
            s.ts['kept'] = ()

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name in ('.append', '.insert', '.extend') or \
                name.startswith('aug.'):
            s.ts['kept'] = s.ts.get('kept', ())[:2] + (args[-1:],)

    def iter_done(self, s, E, node, it):
        if is_listing(E):
            if len(s.ts.pop('kept', ())) != 1:
                self.say('derived', 'it is not the list of all the entries '
                         'of the directory', node)
            return ('kept',)
        return ()


def listdir(ck, c, bad):
    m = ck.prog.require_method(PATH, 'listdir')
    r = ck.explored(Interp(ck.prog, Listing(bad)).run(m, cls=c))
    for s, t in r.returns:
        got = s.coll.get(plain(t))
        if got is not None and not got[2] and any(
                p and f[0] == 'forall_none' and is_listing(f[1])
                for f, p in s.facts):
            continue
        E, elts, conds = produced(s, t)
        if got is not None and any(k[0] == 'one' for k in got[2]) and not any(
                p and f[0] == 'forall' and f[1] == E for f, p in s.facts):
            E = None
        src = E
        while src is not None and src[0] == 'call' and src[1] in (
                'builtins.list', 'builtins.sorted'):
            src = src[3][0]
        if src is None or not (
                src[0] == 'call' and src[1] == 'os.listdir' and
                src[3] and plain(src[3][0]) == ME) or conds or \
                len(elts) != 1 or plain(elts[0]) != ('elem', E):
            bad['derived', 'it is not the list of all the entries of the '
                'directory'] = m.node.lineno
        elif not is_path(elts[0]):
            bad['path', 'what it returns are not Paths'] = m.node.lineno
    report(ck, m, bad, ('derived', 'path'))


def produced(s, t):
    """(collection, elements, conditions) a list is made of."""
    while t[0] == 'call' and t[1] in ('builtins.list', 'builtins.tuple') and \
            len(t[3]) == 1:
        t = t[3][0]
    if t[0] == 'call' and t[1] == 'builtins.map' and len(t[3]) == 2:
        f, E = t[3]
        if f == ('global', PATH):
            return E, [('call', PATH, None, (('elem', E),), ())], ()
    if t[0] == 'comp':
        return t[3], [t[2]], t[4]
    got = s.coll.get(t)
    if got is not None:
        kinds = [x for x in got[2]]
        if len(kinds) == 1 and kinds[0][0] == 'one':
            es = {x for x in terms(kinds[0][1]) if x[0] == 'elem'}
            if len(es) == 1:
                return es.pop()[1], [kinds[0][1]], ()
        if len(kinds) == 1 and kinds[0][0] in ('each', 'map', 'all') and \
                len(kinds[0]) >= 3:
            return kinds[0][1], [kinds[0][2]], ()
        es = [x for x in terms(repr_items(got)) if x[0] == 'elem']
        if es and len(got[2]) == 1:
            it = next(iter(got[2]))
            x = it[1] if len(it) > 1 else it
            return es[0][1], [x], ()
    return None, [], ()


def repr_items(got):
    return ('items',) + tuple(got[2])


class Walk(Base):
    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == 'yield':
            s.ts['out'] = s.ts.get('out', ())[:2] + (args[0],)

    def on_iter(self, s, E, node, it):
        if is_walk(E):
            s.ts['out'] = ()
            s.ts['in'] = E

    def iter_done(self, s, E, node, it):
        if not is_walk(E):
            return ()
        out = s.ts.pop('out', ())
        e = ('elem', E)
        if len(out) != 1:
            self.say('selected', 'a directory is handed out %s' % (
                'more than once' if out else 'not at all'), node)
            return ()
        x = out[0]
        got = members(s, x)
        want = [('item', e, const(i)) for i in range(3)]
        if got is None or len(got) != 3 or \
                [plain(got[0])] + list(got[1:]) != want:
            self.say('derived', 'it does not hand out what os.walk does',
                     node)
        elif not is_path(got[0]):
            self.say('path', 'the directory is not a Path', node)
        return ('out',)


def is_walk(E):
    return E[0] == 'call' and E[1] == 'os.walk'


def walk(ck, c, bad):
    m = ck.prog.require_method(PATH, 'walk')
    pol = Walk(bad)
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for o in r.obs:
        if o.name == 'os.walk':
            why = passed(m, o.args, o.kwargs)
            if why:
                pol.say('operation', why, m.node)
    for s, t in r.returns:
        if not any(f[0] in ('forall', 'forall_none') and is_walk(f[1])
                   for f, p in s.facts):
            pol.say('selected', 'it may stop early', m.node)
    report(ck, m, bad, ('operation', 'derived', 'path', 'selected'))


# ------------------------------------------------------------------------ search

class Search(Base):
    """The generators that hand out some of what they find.  ts: out = what was
    handed out for the item in hand"""
    source = None

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == 'yield':
            s.ts['out'] = s.ts.get('out', ())[:2] + (args[0],)

    def on_iter(self, s, E, node, it):
        if self.source(s, E):
            s.ts['out'] = ()

    def iter_done(self, s, E, node, it):
        if not self.source(s, E):
            return ()
        out = s.ts.pop('out', ())
        if len(out) > 1:
            self.say('selected', 'a path is handed out more than once', node)
        for x in out:
            if not self.item(x, E):
                self.say('derived', 'what is handed out is not the path '
                         'found', node)
            elif not (is_path(x) or x[0] == 'bin' and x[1] == 'Div'):
                self.say('path', 'what is handed out is not a Path', node)
        self.wanted(s, E, bool(out), node)
        return ('seen',)

    def ended(self, s):
        return any(f[0] in ('forall', 'forall_none') and
                   self.source(s, f[1]) for f, p in s.facts)


class Iglob(Search):
    exclude = None

    def source(self, s, E):
        return E[0] == 'call' and E[1] == 'fbuild.glob.iglob' and \
            plain(E[3][0]) == ME

    def item(self, x, E):
        return plain(x) == ('elem', E)

    def matches(self, f, e):
        """The pattern that f says e matches."""
        if f[0] == 'call' and tail(f[1]) == 'fnmatch':
            xs = f[3] if f[2] is None else (f[2],) + f[3]
            if len(xs) == 2 and plain(xs[0]) == e:
                return xs[1]
        return None

    def wanted(self, s, E, out, node):
        e = ('elem', E)
        hit = none = False
        for f, p in s.facts:
            if p and f[0] == 'forall' and f[2][0] != 'did' and \
                    self.matches(f[2], e) and not f[3] and \
                    self.patterns(s, f[1]):
                none = True
            elif p and f[0] == 'forall_none' and self.patterns(s, f[1]):
                none = True
            elif f[0] == 'call' and self.matches(f, e) is not None:
                if p:
                    hit = True
                elif self.matches(f, e) == self.exclude and \
                        self.exclude is not None:
                    none = True
            elif f[0] in ('call', 'comp') and not p and \
                    f[0] == 'call' and f[1] == 'builtins.any':
                none = True
            elif f[0] == 'call' and p and f[1] == 'builtins.any':
                hit = True
            elif not p and f == self.exclude:
                none = True
        if out and not none:
            self.say('selected', 'a path is handed out that may match one of '
                     'the patterns to exclude', node)
        if not out and not hit:
            self.say('selected', 'a path that matches no pattern to exclude '
                     'is left out', node)

    def patterns(self, s, E):
        while E[0] == 'call' and E[1] in ('builtins.list', 'builtins.tuple') \
                and len(E[3]) == 1:
            E = E[3][0]
        if E == self.exclude:
            return True
        got = s.coll.get(E)
        return got is not None and self.exclude in terms(repr_items(got)) or \
            self.exclude in terms(E)


class Find(Search):
    pattern = None

    def iter_done(self, s, E, node, it):
        got = super().iter_done(s, E, node, it)
        if is_walk(E):
            for w in worlds(s):
                if not any(p and f[0] in ('forall', 'forall_none') and
                           self.source(s, f[1]) for f, p in w.facts):
                    self.say('selected', 'it may leave a directory before '
                             'its last file', node)
            return ('walked',)
        return got

    def ended(self, s):
        return any(p and f[0] in ('forall', 'forall_none') and is_walk(f[1])
                   for f, p in s.facts)

    def source(self, s, E):
        return any(x[0] == 'elem' and is_walk(x[1]) for x in terms(E)) and \
            not is_walk(E)

    def item(self, x, E):
        n = norm(x)
        return n[0] == 'join' and len(n) == 3 and n[2] == ('elem', E) and \
            n[1][0] == 'item' and n[1][2] == const(0) and \
            n[1][1][0] == 'elem' and is_walk(n[1][1][1])

    def wanted(self, s, E, out, node):
        e = ('elem', E)
        for w in worlds(s):
            free = w.holds(('cmp', 'Is', self.pattern, NONE)) is True or \
                w.holds(self.pattern) is False
            hit = None
            for f, p in w.facts:
                if f[0] == 'call' and tail(f[1]) == 'fnmatch':
                    xs = f[3] if f[2] is None else (f[2],) + f[3]
                    if len(xs) == 2 and plain(xs[0]) == e and \
                            xs[1] == self.pattern:
                        hit = p
            if out and not free and hit is not True:
                self.say('selected', 'a path is handed out that may not match '
                         'the pattern', node)
            if not out and (free or hit is not False):
                self.say('selected', 'a path that matches the pattern is '
                         'left out', node)


def search(ck, c, bad):
    m = ck.prog.require_method(PATH, 'iglob')
    pol = Iglob(bad)
    pol.exclude = ('param', 'exclude')
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        if not pol.ended(s):
            pol.say('selected', 'it may stop early', m.node)
    report(ck, m, bad, ('derived', 'path', 'selected'))

    m = ck.prog.require_method(PATH, 'find')
    for dirs in (True, False):
        pol = Find(bad)
        pol.pattern = P(m.params[1])
        r = ck.explored(Interp(ck.prog, pol).run(
            m, cls=c, args={'include_dirs': const(dirs)}))
        for s, t in r.returns:
            if not pol.ended(s):
                pol.say('selected', 'it may stop early', m.node)
        for o in r.obs:
            x = o.recv
            if o.name in ('del.item', 'set.item') or tail(o.name) in (
                    'clear', 'remove', 'pop'):
                if x is not None and x[0] == 'item' and \
                        x[1][0] == 'elem' and is_walk(x[1][1]) and \
                        x[2] == const(1):
                    pol.say('selected', 'directories are left out of the '
                            'search', m.node)
        seen = set()
        for o in r.obs:
            if o.name != 'yield':
                continue
            for x in terms(o.args[0]):
                if x[0] == 'elem' and not is_walk(x[1]):
                    for y in terms(x[1]):
                        if y[0] == 'item' and y[1][0] == 'elem' and \
                                is_walk(y[1][1]):
                            seen.add(y[2])
        seen -= {const(0)}
        if const(2) not in seen:
            pol.say('selected', 'files are left out', m.node)
        if (const(1) in seen) != dirs:
            pol.say('selected', 'directories are %s' % (
                'left out' if dirs else 'handed out although only files were '
                'asked for'), m.node)
    report(ck, m, bad, ('derived', 'path', 'selected'))

    # all the results of glob, as a list, and of every pattern
    m = ck.prog.require_method(PATH, 'glob')
    r = ck.explored(Interp(ck.prog, Base(bad)).run(m, cls=c))
    ok = [o for o in r.obs if tail(o.name) == 'iglob' and
          passed_on(m, o, True)]
    for s, t in r.returns:
        if not ok or not any(tail(x[1]) == 'iglob' for x in terms(t)
                             if x[0] == 'call'):
            bad['selected', 'it does not give what iglob finds'] = \
                m.node.lineno
    report(ck, m, bad, ('selected',))

    m = ck.prog.require_method(PATH, 'globall')
    r = ck.explored(Interp(ck.prog, Base(bad)).run(m))
    ok = [o for o in r.obs if tail(o.name) == 'igloball' and
          passed_on(m, o, False)]
    for s, t in r.returns:
        if not ok or not any(tail(x[1]) == 'igloball' for x in terms(t)
                             if x[0] == 'call'):
            bad['selected', 'it does not give what igloball finds'] = \
                m.node.lineno
    report(ck, m, bad, ('selected',))

    m = ck.prog.require_method(PATH, 'igloball')
    pol = Every(bad)
    pol.var = m.node.args.vararg.arg if m.node.args.vararg else None
    pol.kw = m.node.args.kwarg.arg if m.node.args.kwarg else None
    r = ck.explored(Interp(ck.prog, pol).run(m))
    for s, t in r.returns:
        if not any(f[0] in ('forall', 'forall_none') and pol.given(f[1])
                   for f, p in s.facts):
            pol.say('selected', 'it may stop before the last pattern', m.node)
    report(ck, m, bad, ('selected',))


def passed_on(m, o, method):
    """Is everything the method is given handed to the call?"""
    a = m.node.args
    if method and not (o.recv is not None and plain(o.recv) == ME or
                       o.args and plain(o.args[0]) == ME):
        return False
    have = repr(o.args) + repr(o.kwargs)
    names = [x.arg for x in a.args[1 if method else 0:] + a.kwonlyargs]
    names += [x.arg for x in (a.vararg, a.kwarg) if x is not None]
    return all(n in have for n in names)


class Every(Base):
    """ts: out = (the pattern's paths were handed out)"""
    var = kw = None

    def given(self, E):
        return E[0] == 'param' and E[1].lstrip('*') == self.var

    def on_iter(self, s, E, node, it):
        if self.given(E):
            s.ts['out'] = ()
        elif 'out' in s.ts:
            s.ts['one'] = 0

    def on_loop(self, s, E, node, it):
        self.use(s, E, node)

    def use(self, s, E, node):
        for x in terms(E):
            if x[0] == 'call' and tail(x[1]) in (
                    'glob', 'iglob', 'globall', 'igloball'):
                whole = repr(x[3]) + repr(x[4]) + repr(x[2])
                if self.kw is not None and self.kw not in whole:
                    self.say('selected', 'what is to be excluded is not '
                             'passed on', node)
                if not any(y[0] == 'elem' and self.given(y[1])
                           for y in terms(x)):
                    continue
                s.ts['out'] = s.ts.get('out', ())[:2] + (x[1],)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == 'yield':
            if node is not None and isinstance(node, ast.YieldFrom):
                self.use(s, args[0], node)
                s.ts['handed'] = True
                return
            x = plain(args[0])
            if x[0] == 'elem':
                s.ts['one'] = s.ts.get('one', 0) + 1

    def iter_done(self, s, E, node, it):
        if self.given(E):
            out = s.ts.pop('out', ())
            if len(out) != 1:
                self.say('selected', 'the paths of a pattern are handed out '
                         '%s' % ('more than once' if out else 'not at all'),
                         node)
            return ('pattern',)
        n = s.ts.pop('one', None)
        if n is not None and n != 1:
            self.say('selected', 'a path found is handed out %s' % (
                'more than once' if n else 'not at all'), node)
        return ('path',)


# ------------------------------------------------------------------------ digest

class Digest(Base):
    """ts: part = the last part read; fed"""

    def file(self, t):
        while t is not None and t[0] == 'entered':
            t = t[1]
        return t is not None and t[0] == 'call' and t[1] == 'builtins.open'

    def part(self, t):
        """Is t the part of the file read last?"""
        if t[0] == 'call' and tail(t[1]) == 'read' and t[2] is not None and \
                self.file(t[2]):
            return True
        return t[0] == 'elem' and any(
            x[0] == 'call' and x[1] == 'builtins.open' or x[0] == 'closure'
            for x in terms(t[1]))

    def unfed(self, s):
        t = s.ts.get('part')
        return t is not None and not s.ts.get('fed') and \
            s.holds(t) is not False

    def on_iter(self, s, E, node, it):
        if self.part(('elem', E)):
            s.ts['part'], s.ts['fed'] = ('elem', E), False

    def iter_done(self, s, E, node, it):
        if self.part(('elem', E)):
            if self.unfed(s):
                self.say('digest', 'a part of the file is left out', node)
            s.ts['part'] = None
            s.ts['all'] = True
        return ('fed',)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        if name == 'builtins.open':
            mode = args[1] if len(args) > 1 else dict(kwargs).get('mode')
            if plain(args[0]) != ME:
                self.say('digest', 'it is not this file that is read', node)
            if mode not in (const('rb'), const('br')):
                self.say('digest', 'the file is not read as it is', node)
        elif tail(name) == 'read' and recv is not None and self.file(recv):
            if self.unfed(s):
                self.say('digest', 'a part of the file is left out', node)
            ts['part'] = ('call', name, recv, args, kwargs)
            ts['fed'] = False
            ts['all'] = not args and not kwargs
        elif name == 'builtins.iter' and len(args) == 2:
            # what was read is read again by the loop over it
            if args[1] != const(b''):
                self.say('digest', 'it may stop before the end of the file',
                         node)
            ts['part'], ts['fed'] = None, True
        elif tail(name) in ('seek', 'truncate', 'readline') and \
                recv is not None and self.file(recv):
            self.say('digest', 'it does not read the whole file', node)
        elif tail(name) == 'update' and args:
            if not self.part(args[0]):
                self.say('digest', 'something else than the file is put in '
                         'the digest', node)
            elif args[0] == ts.get('part'):
                if ts.get('fed'):
                    self.say('digest', 'a part of the file is put in the '
                             'digest twice', node)
                ts['fed'] = True


def digest(ck, c, bad):
    m = ck.prog.require_method(PATH, 'digest')
    pol = Digest(bad)
    pol.keep = lambda s: (s.ts.get('part') and s.holds(s.ts['part']),)
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    for s, t in r.returns:
        if not (t[0] == 'call' and tail(t[1]) in ('hexdigest', 'digest')):
            pol.say('digest', 'it does not return the digest', m.node)
            continue
        if pol.unfed(s):
            pol.say('digest', 'a part of the file is left out', m.node)
        p = s.ts.get('part')
        done = s.ts.get('all') or p is not None and s.holds(p) is False or \
            any(f[0] in ('forall', 'forall_none') and pol.part(
                ('elem', f[1])) for f, q in s.facts)
        if not done:
            pol.say('digest', 'it may stop before the end of the file',
                    m.node)
    report(ck, m, bad, ('digest',))
