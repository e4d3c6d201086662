"""The two context managers are followed with every choice of directory and of
removal, and with the user's code failing in every way at the point where the
path is handed out.  The path handed out must come from one new directory made on
that entry, in the directory asked for or else in the build's temporary
directory as it is then; after the user is done, every way out must have removed
exactly that directory if removal was requested and removed nothing if it was
not, and an error of the user must get out.  A generated file must have been
opened at the path handed out, have received the source and have been closed
before that.  The build must set its temporary directory, below the build root,
and make it anew before it runs."""
from .common import *
from .c21 import Base, plain, parts, report, terms

MOD = 'fbuild.temp'
DIR = MOD + '.tempdir'
FILE = MOD + '.tempfile'
DEFAULT = MOD + '._default_tempdir'
SET = MOD + '.set_default_tempdir'
CONTEXT = 'fbuild.context.Context'
FAILURES = ('builtins.ValueError', 'builtins.KeyboardInterrupt',
            'builtins.SystemExit', 'builtins.GeneratorExit',
            'builtins.OSError', 'fbuild.ExecutionError')

T = {
    'fresh': 'the directory handed out is one made for this user',
    'where': 'it is made in the directory asked for, or else in the temporary '
             'directory of the build',
    'removed': 'it is removed when its user is done, if that was requested, '
               'and nothing else is',
    'errors': 'an error of the user is not lost',
    'complete': 'a generated file is complete when it is handed out',
    'area': 'the temporary directory of the build is below the build root and '
            'made anew',
}
MAKE = ('tempfile.mkdtemp',)
REMOVE = ('rmtree', 'rmdir', 'remove', 'unlink', 'removedirs')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    ck.assume('the standard library modules tempfile, os and shutil do what '
              'they say')
    bad = {}
    directory(ck, bad)
    generated(ck, bad)
    area(ck, bad)
    for k in T:
        ck.at_least(k, 1)


class Dir(Base):
    """ts: made = number of directories made; handed = what was handed out;
    gone = what was removed after that"""
    fail = None
    delete = None
    dir = None

    def made(self, t):
        while t[0] in ('call', 'entered'):
            if t[0] == 'entered':
                t = t[1]
            elif t[1] in MAKE:
                return True
            elif t[1] in ('fbuild.path.Path', 'builtins.str', 'os.fspath',
                          'os.path.abspath') and len(t[3]) == 1:
                t = t[3][0]
            else:
                return False
        return False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name in MAKE:
            s.ts['made'] = min(s.ts.get('made', 0) + 1, 2)
            if 'handed' in s.ts:
                self.say('fresh', 'a directory is made after the user is '
                         'done', node)
            d = dict(kwargs).get('dir', args[2] if len(args) > 2 and
                                 args[2][0] != 'star' else None)
            want = ('global', DEFAULT) if self.dir == NONE else self.dir
            if d is None or plain(d) != want and d != want:
                self.say('where', 'without a directory given it is not made '
                         'in the temporary directory of the build'
                         if self.dir == NONE else
                         'it is not made in the directory given', node)
        elif name == 'yield':
            if 'handed' in s.ts:
                self.say('fresh', 'it hands out two paths', node)
            if s.ts.get('made') != 1 or not self.made(args[0]):
                self.say('fresh', 'what it hands out is not the directory '
                         'it has just made', node)
            s.ts['handed'] = args[0]
        elif tail(name) in REMOVE:
            what = recv if recv is not None and name.startswith('.') else \
                args[0] if args else recv
            if 'handed' not in s.ts and not s.ts.get('failed'):
                self.say('removed', 'something is removed before the '
                         'directory is handed out', node)
            elif what is None or not self.made(what):
                self.say('removed', 'something else than that directory is '
                         'removed', node)
            if self.delete is False:
                self.say('removed', 'the directory is removed although that '
                         'was not requested', node)
            if tail(name) == 'rmtree':
                s.ts['gone'] = True
            else:
                self.say('removed', 'only an empty directory is removed',
                         node)

    def may_raise(self, name, recv):
        return name == 'yield' and self.fail is not None

    def raised(self, name, recv):
        return self.fail

    def on_raise(self, s, name, recv, args, node, it):
        if name == 'yield':
            s.ts['handed'] = args[0] if args else ANY
            s.ts['failed'] = True


def directory(ck, bad):
    m = ck.prog.require_function(DIR)
    given = ('param', m.params[0])
    for d in (NONE, const('/somewhere')):
        for delete in (True, False):
            for fail in (None,) + FAILURES:
                pol = Dir(bad)
                pol.fail, pol.delete, pol.dir = fail, delete, d
                r = ck.explored(Interp(ck.prog, pol).run(m, args={
                    'dir': d, 'delete': const(delete)}))
                ends = [(s, None) for s, t in r.returns] + list(r.raises)
                lost = fail is not None
                for s, e in ends:
                    if 'handed' not in s.ts:
                        if e is None:
                            pol.say('fresh', 'it may end without handing out '
                                    'a directory', m.node)
                        continue
                    if delete and not s.ts.get('gone'):
                        pol.say('removed', 'a way out leaves the directory '
                                'although removal was requested' +
                                (' (the user failed with %s)' %
                                 tail(fail) if s.ts.get('failed') else ''),
                                m.node)
                    if s.ts.get('failed') and (e is None or e[1] != fail):
                        pol.say('errors', 'when the user failed with %s that '
                                'does not get out' % tail(fail), m.node)
    # only what was asked for is removed: by default nothing
    a = m.node.args
    names = [x.arg for x in a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update((x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults)
             if v is not None)
    for n in ('dir', 'delete'):
        v = d.get(n)
        if not (v is not None and isinstance(v, ast.Constant) and
                not v.value):
            bad.setdefault(('where' if n == 'dir' else 'removed',
                            'the default of %s is not to ask for anything' %
                            n), m.node.lineno)
    report(ck, m, bad, ('fresh', 'where', 'removed', 'errors'))


# --------------------------------------------------------------- generated files

class File(Base):
    """ts: inside = the directory in use; open = {file: path, written};
    handed"""
    fail = None
    src = None

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if name == DIR:
            d = dict(kwargs)
            rest = self.fi.node.args.kwarg
            if not (rest and d.get('**', NONE) in
                    (('param', rest.arg), ('param', '**' + rest.arg)) or
                    d.get('dir') == ('param', 'dir') and
                    d.get('delete') == ('param', 'delete')):
                self.say('where', 'the choices of directory and removal are '
                         'not passed on', node)
            s.ts['made'] = min(s.ts.get('made', 0) + 1, 2)
        elif name == 'with.enter' and recv[0] == 'call' and recv[1] == DIR:
            s.ts['inside'] = recv
        elif name == 'with.exit' and recv == s.ts.get('inside'):
            s.ts['left'] = True
        elif name == 'builtins.open':
            mode = args[1] if len(args) > 1 else dict(kwargs).get('mode')
            if mode not in (const('w'), const('wt'), const('x')):
                self.say('complete', 'the file is not opened for writing',
                         node)
            s.ts['path'] = plain(args[0])
            s.ts['state'] = 'open'
        elif name in ('with.exit',) and self.file(recv) or \
                name.startswith('.') and tail(name) == 'close' and \
                self.file(recv):
            if s.ts.get('state') == 'written':
                s.ts['state'] = 'closed'
        elif name == 'builtins.print' and self.file(
                dict(kwargs).get('file', NONE)) or \
                tail(name) in ('write', 'writelines') and recv and \
                self.file(recv):
            if any(self.src in terms(a) for a in args):
                if s.ts.get('state') == 'closed':
                    self.say('complete', 'the file is written after it was '
                             'closed', node)
                s.ts['state'] = 'written'
        elif name == 'yield':
            if 'handed' in s.ts:
                self.say('complete', 'it hands out two paths', node)
            if s.ts.get('made') != 1 or 'inside' not in s.ts or \
                    'left' in s.ts:
                self.say('fresh', 'the file is not in a directory made for '
                         'this user and still in use', node)
            if s.ts.get('state') != 'closed':
                self.say('complete', 'the file is handed out before the '
                         'source was written and the file closed', node)
            p = plain(args[0])
            if p != s.ts.get('path'):
                self.say('complete', 'what is handed out is not the path of '
                         'the file written', node)
            ps = list(terms(p))
            if first(p) != ('entered', s.ts.get('inside')):
                self.say('fresh', 'the file is not in the directory made for '
                         'this user', node)
            for q in ('name', 'suffix'):
                if ('param', q) not in ps:
                    self.say('complete', 'its name does not depend on %s' % q,
                             node)
            s.ts['handed'] = True
        elif tail(name) in REMOVE:
            self.say('removed', 'something is removed besides what the '
                     'directory does', node)

    def file(self, t):
        while t[0] == 'entered':
            t = t[1]
        return t[0] == 'call' and t[1] == 'builtins.open'

    def may_raise(self, name, recv):
        return name == 'yield' and self.fail is not None

    def raised(self, name, recv):
        return self.fail

    def on_raise(self, s, name, recv, args, node, it):
        if name == 'yield':
            s.ts['failed'] = True


def first(t):
    """What a path begins with."""
    while True:
        t = plain(t)
        if t[0] == 'bin' and t[1] in ('Div', 'Add'):
            t = t[2]
        elif t[0] == 'call' and t[3] and \
                t[1] in ('fbuild.path.Path', 'os.path.join'):
            t = t[3][0]
        else:
            return t


def generated(ck, bad):
    m = ck.prog.require_function(FILE)
    for fail in (None,) + FAILURES:
        pol = File(bad)
        pol.fail, pol.src, pol.fi = fail, ('param', m.params[0]), m
        r = ck.explored(Interp(ck.prog, pol).run(m))
        for s, e in [(s, None) for s, t in r.returns] + list(r.raises):
            if s.ts.get('failed'):
                if e is None or e[1] != fail:
                    pol.say('errors', 'when the user failed with %s that '
                            'does not get out' % tail(fail), m.node)
                if not s.ts.get('left'):
                    pol.say('removed', 'when the user failed with %s the '
                            'directory is not left' % tail(fail), m.node)
            elif not s.ts.get('handed'):
                if e is None:
                    pol.say('complete', 'it may end without handing out a '
                            'file', m.node)
            elif not s.ts.get('left'):
                pol.say('removed', 'the directory is not left when the user '
                        'is done', m.node)
    report(ck, m, bad, ('fresh', 'where', 'removed', 'errors', 'complete'))


# ------------------------------------------------------------- the build's area

class Area(Base):
    def on_event(self, s, name, recv, args, kwargs, node, it):
        me = ('attr', ('self', CONTEXT), 'tmpdir')
        what = recv if name.startswith('.') else args[0] if args else None
        if name == CONTEXT + '.clear_temp_dir':
            s.ts['area'] = 'cleared'
        elif tail(name) in REMOVE and what is not None:
            if plain(what) == me:
                s.ts['area'] = 'cleared'
            else:
                self.say('area', 'something else than the temporary '
                         'directory is removed', node)
        elif tail(name) in ('mkdir', 'makedirs') and what is not None and \
                plain(what) == me:
            if s.ts.get('area') != 'cleared':
                self.say('area', 'what an earlier build left in the '
                         'temporary directory is kept', node)
            s.ts['area'] = 'made'
        elif name == SET:
            s.ts['set'] = plain(args[0]) if args else None
        elif name == 'set.global' and args[0] == const(DEFAULT):
            s.ts['stored'] = args[1]


def area(ck, bad):
    c = ck.prog.require_class(CONTEXT)
    m = ck.prog.require_function(SET)
    r = ck.explored(Interp(ck.prog, Area(bad)).run(m))
    for s, t in r.returns:
        v = s.ts.get('stored')
        if v is None or not any(
                x[0] == 'call' and tail(x[1]) in ('abspath', 'realpath')
                for x in terms(v)) or ('param', m.params[0]) not in terms(v):
            bad['area', 'it does not make the directory given the default, '
                'as an absolute path'] = m.node.lineno
    report(ck, m, bad, ('area',))

    m = ck.prog.require_method(CONTEXT, 'clear_temp_dir')
    r = ck.explored(Interp(ck.prog, Area(bad)).run(m, cls=c))
    if any(s.ts.get('area') != 'cleared' for s, t in r.returns):
        bad['area', 'it may leave the temporary directory'] = m.node.lineno
    report(ck, m, bad, ('area',))

    m = ck.prog.require_method(CONTEXT, 'create_buildroot')
    r = ck.explored(Interp(ck.prog, Area(bad)).run(m, cls=c))
    if any(s.ts.get('area') != 'made' for s, t in r.returns):
        bad['area', 'the temporary directory may not be made after it was '
            'cleared'] = m.node.lineno
    report(ck, m, bad, ('area',))

    m = ck.prog.require_method(CONTEXT, '__init__')
    r = ck.explored(Interp(ck.prog, Area(bad)).run(m, cls=c))
    me = ('self', CONTEXT)
    for s, t in r.returns:
        v = s.heap.get((me, 'tmpdir'))
        got = s.ts.get('set')
        if got is None or v is None or \
                got not in (plain(v), ('attr', me, 'tmpdir')):
            bad['area', 'the temporary directory of the build is not made '
                'the default'] = m.node.lineno
        if v is not None and not below(v):
            bad['area', 'the temporary directory is not below the build '
                'root'] = m.node.lineno
    report(ck, m, bad, ('area',))


def below(v):
    """Is v a path strictly below the build root?"""
    ps = parts(plain(v))
    root = ps[0]
    return 'buildroot' in repr(root) and len(ps) > 1 and all(
        p[0] == 'const' and isinstance(p[2], str) and p[2] and
        not p[2].startswith(('/', '..')) for p in ps[1:])
