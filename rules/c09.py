"""Saving is followed path by path (a failing write or rename included) with a
typestate on the files it touches.  The state file is the attribute _connect
sets from its argument.  It may never be opened for writing, copied over or
removed; it changes only by a rename of a file that has been opened for writing
on the same path, has received the complete pickled state, and has been closed.
The old file may be moved aside only once such a file exists, and removed only
once that file has taken its place.  The pickled value must hold every table
_connect creates, and every path of _connect that loads it must put each
position back into the table that was saved there."""
import ast

from .common import *
from .effects import GROW, SHRINK, mem_tables

T = {
    'replaced-atomically': 'the state file changes only by renaming a complete, closed file onto it',
    'old-kept': 'the old state is touched only after the new one is complete, and removed only after that is in place',
    'in-place': 'every save that ends normally has put the new state in place',
    'every-table': 'the saved value holds every table of the engine, unchanged',
    'loads-back': 'loading puts every saved position back into the table it came from',
}
MOVES = ('os.rename', 'os.replace', 'shutil.move', 'os.renames', '.rename',
         '.replace', '.move', '.renames')
REMOVES = ('os.remove', 'os.unlink', 'shutil.rmtree', '.remove', '.unlink',
           '.rmtree', 'os.truncate', '.truncate')
COPIES = ('shutil.copy', 'shutil.copy2', 'shutil.copyfile', '.copy', '.copy2',
          '.copyfile', '.copytree', '.write_bytes', '.write_text')


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    n = 0
    for c in ck.prog.subclasses(BE, proper=True):
        if not mem_tables(ck.prog, c) or not state_attrs(ck, c):
            continue
        n += 1
        saving(ck, c)
        loading(ck, c)
    ck.require('in-place', 'engines', n >= 1,
               'no engine that keeps its tables in memory and saves them to '
               'a file was found', '')
    for k in T:
        ck.at_least(k, 1)


class LoadPolicy(SqlPolicy):
    """_connect with the one it inherits."""
    max_states = 300
    top = None

    def inline(self, fi):
        if fi.name == '_connect' and fi.cls is not None and \
                fi.qual != self.top:
            return True
        return super().inline(fi)


def load_run(ck, c):
    m = c.find_method('_connect')
    pol = LoadPolicy()
    pol.top = m.qual
    return m, run_method(ck, c, m, pol)


def state_attrs(ck, c):
    """Attributes _connect sets to the path it is given."""
    m = c.find_method('_connect')
    me = ('self', c.qual)
    if m is None or len(m.params) < 2:
        return set()
    it = Interp(ck.prog, SqlPolicy())
    out = set()
    for s, t in it.run(m, cls=c).returns:
        for (o, a), v in s.heap.items():
            if o == me and as_path(v) == param(m, 0):
                out.add(a)
    return out


def saved(ck, c):
    """[(observation, pickled value)] of the values close() pickles."""
    m = c.find_method('close')
    r = run_method(ck, c, m)
    out = []
    for o in r.obs:
        if tail(o.name) in ('dump', 'dumps') and o.args:
            out.append((o, o.args[0]))
    return m, out


def cells(t, st):
    """position -> term, of a tuple, list or dict with constant keys"""
    t = strip_copy(t)
    if (t, '$seq') in st.heap:
        t = st.heap[(t, '$seq')]
    if t[0] in ('tuple', 'list') and not any(x[0] == 'star' for x in t[1:]):
        return {i: x for i, x in enumerate(t[1:])}
    if t[0] == 'dict':
        out = {}
        for x in t[1:]:
            if x[0] in ('kv', 'pair') and x[1][0] == 'const':
                out[x[1][2]] = x[2]
        return out
    return {}


def position(t):
    """(source, position) of a part of a loaded value; position is negative
    -k-1 for a constant put in front of it."""
    if t[0] != 'item' or t[2][0] != 'const':
        return None
    src, k = t[1], t[2][2]
    while src[0] == 'item' and src[2][0] == 'slice' and isinstance(k, int) \
            and src[2][3] == NONE and src[2][1][0] == 'const' and \
            isinstance(src[2][1][2], (int, type(None))) and k >= 0 and \
            (src[2][1][2] or 0) >= 0:
        k += src[2][1][2] or 0
        src = src[1]
    if src[0] == 'bin' and src[1] == 'Add' and isinstance(k, int):
        a, b = src[2], src[3]
        if a[0] in ('tuple', 'list') and b[0] == 'call':
            n = len(a) - 1
            if k < n:
                return b, ('new', a[1 + k])
            return b, k - n
    if src[0] == 'call' and tail(src[1]) in ('load', 'loads'):
        return src, k
    return None


class Save(SqlPolicy):
    track_exc = True
    max_states = 400
    attrs = ()
    tables = ()
    me = None
    bad = None

    def follow(self, fi):
        return fi.cls is not None and fi.name in ('_disconnect', 'close')

    def inline(self, fi):
        return self.follow(fi) or super().inline(fi)

    def may_raise(self, name, recv):
        return name in MOVES or tail(name) in ('write', 'dump', 'open') or \
            name in REMOVES

    def mine(self, t):
        t = as_path(t)
        return t[0] == 'attr' and t[1] == self.me and t[2] in self.attrs

    def say(self, rule, why, node):
        self.bad.setdefault((rule, why), getattr(node, 'lineno', 0))

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        files = dict(ts.get('files', ()))     # path -> (handle, data, closed)
        kw = dict(kwargs)
        me = self.mine
        t = tail(name)
        if name in ('builtins.open', 'io.open', 'os.open', '.open'):
            path = args[0] if args and recv is None else recv
            mode = kw.get('mode')
            if mode is None:
                i = 1 if recv is None else 0
                mode = args[i] if len(args) > i else const('r')
            ro = mode[0] == 'const' and isinstance(mode[2], str) and \
                not set(mode[2]) & set('wax+')
            if path is not None and not ro:
                if me(path):
                    self.say('replaced-atomically',
                             'the state file itself is opened for writing',
                             node)
                if name != 'os.open' and not truncates(mode) and \
                        as_path(path) not in ts.get('gone', ()):
                    self.say('replaced-atomically', 'what an earlier, '
                             'interrupted save left in the new file stays '
                             'there', node)
                h = ('call', name, recv, args, kwargs)
                files[as_path(path)] = (h, False, False)
        elif t in ('dump', 'dumps') and recv is not None or \
                name in ('pickle.dump', 'pickle.dumps'):
            if recv is not None and recv[0] == 'call' and recv[3]:
                # the file the pickler was made for
                out = recv[3][-1]
            elif name == 'pickle.dump' and len(args) > 1:
                out = args[1]
            else:
                out = ('call', name, recv, args, kwargs)
            ts['full'] = ts.get('full', frozenset()) | {out}
            ts['dumped'] = True
            for p, (h, d, c) in files.items():
                if handle(out, h):
                    files[p] = (h, True, c)
        elif t in ('write', 'writelines') and recv is not None:
            for p, (h, d, c) in files.items():
                if handle(recv, h):
                    data = args[0] if args else NONE
                    if self.complete(data, ts):
                        files[p] = (h, True, c)
        elif name == 'with.exit' or t == 'close':
            for p, (h, d, c) in files.items():
                if recv is not None and handle(recv, h):
                    files[p] = (h, d, True)
        elif name in MOVES:
            src, dst = (recv, args[0]) if name.startswith('.') and args else \
                (args[0], args[1]) if len(args) > 1 else (NONE, NONE)
            if me(src):
                if not ts.get('in') and not any(
                        d and c for h, d, c in files.values()):
                    self.say('old-kept', 'the state file is moved away '
                             'before the new state is written and closed',
                             node)
                if ts.get('in'):
                    self.say('in-place', 'the new state file is moved away '
                             'again', node)
                    ts['in'] = False
                ts['old'] = ts.get('old', frozenset()) | {as_path(dst)}
                files.pop(as_path(dst), None)
            elif me(dst):
                f = files.get(as_path(src))
                if f is None:
                    self.say('replaced-atomically', 'a file that was not '
                             'written here becomes the state file', node)
                else:
                    if not f[1]:
                        self.say('replaced-atomically', 'a file that has not '
                                 'received the complete state becomes the '
                                 'state file', node)
                    if not f[2]:
                        self.say('replaced-atomically', 'a file that is '
                                 'still open for writing becomes the state '
                                 'file', node)
                    if name in ('shutil.move', '.move') and not any(
                            me(x) or x[0] == 'attr' and x[1] == self.me and
                            x[2] in self.attrs for x in subterms(src)):
                        self.say('replaced-atomically', 'the new state may '
                                 'be copied from another file system', node)
                    ts['in'] = f[1] and f[2]
                    del files[as_path(src)]
        elif name in COPIES:
            dst = recv if t.startswith('write') else \
                args[-1] if args else NONE
            if me(dst):
                self.say('replaced-atomically',
                         'the state file is copied over', node)
        elif name in REMOVES:
            x = recv if name.startswith('.') else args[0] if args else NONE
            if x is not None and me(x):
                self.say('old-kept', 'the state file is removed', node)
            elif x is not None and as_path(x) in ts.get('old', ()) and \
                    not ts.get('in'):
                self.say('old-kept', 'the old state is removed before the '
                         'new one is in place', node)
            elif x is not None:
                ts['gone'] = ts.get('gone', frozenset()) | {as_path(x)}
                files.pop(as_path(x), None)
        elif recv is not None and not ts.get('dumped'):
            r = recv
            while r[0] == 'item':
                r = r[1]
            if r[0] == 'attr' and r[1] == self.me and r[2] in self.tables \
                    and (t in GROW + SHRINK or name in ('set.item',
                                                        'del.item')):
                self.say('every-table', 'the table %s is changed before it '
                         'is saved' % r[2], node)
        ts['files'] = tuple(sorted(files.items(), key=repr))

    def complete(self, data, ts):
        """Is it all of what has been pickled?"""
        full = ts.get('full', ())
        if data in full:
            return True
        return data[0] == 'call' and data[1] in (
            '.getvalue', 'io.BytesIO.getvalue', '.getbuffer', '.read') and \
            not data[3] and data[2] in full


def truncates(mode):
    """Does opening with the mode start with an empty file?"""
    return all(x[0] != 'const' or not isinstance(x[2], str) or
               set(x[2]) & set('wx') for x in alts(mode))


def handle(t, h):
    return t == h or t[0] == 'entered' and t[1] == h or \
        t[0] == 'call' and t[1].endswith('__enter__') and t[2] == h


def saving(ck, c):
    m, dumps = saved(ck, c)
    tabs = mem_tables(ck.prog, c)
    me = ('self', c.qual)
    pol = Save()
    pol.attrs, pol.tables, pol.me, pol.bad = state_attrs(ck, c), tabs, me, {}
    it = Interp(ck.prog, pol)
    r = ck.explored(it.run(m, cls=c))
    for rule in ('replaced-atomically', 'old-kept', 'every-table'):
        bad = sorted((n, w) for (k, w), n in pol.bad.items() if k == rule)
        loc = where(m) if not bad else '%s:%d' % (m.module.relpath, bad[0][0])
        if rule != 'every-table' or bad:
            ck.require(rule, m.qual, not bad,
                       '; '.join(w for n, w in bad) + ': an interruption '
                       'then leaves something else than a complete state',
                       loc)
    bad = sorted((n, w) for (k, w), n in pol.bad.items() if k == 'in-place')
    left = [s for s, t in r.returns if not s.ts.get('in')]
    ck.require('in-place', m.qual, not left and not bad and r.returns,
               bad[0][1] if bad else
               'a path ends normally without the new state in place of the '
               'state file', where(m))
    got = set()
    for o, v in dumps:
        for x in cells(v, o.state).values():
            x = strip_copy(x)
            if x[0] == 'attr' and x[1] == me:
                got.add(x[2])
    for t in sorted(tabs):
        ck.require('every-table', '%s %s' % (m.qual, t), t in got,
                   'the table %s is not part of the saved value' % t,
                   where(m))


def loading(ck, c):
    m, dumps = saved(ck, c)
    tabs = mem_tables(ck.prog, c)
    me = ('self', c.qual)
    lay = {}
    for o, v in dumps:
        for k, x in cells(v, o.state).items():
            x = strip_copy(x)
            if x[0] == 'attr' and x[1] == me and x[2] in tabs:
                lay.setdefault(x[2], set()).add(k)
    ver = version_cells(ck, c)
    m, r = load_run(ck, c)
    loads = 0
    for s, t in r.returns:
        vals = {a: v for (o, a), v in s.heap.items() if o == me}
        got = {a: position(vals[a]) for a in tabs if a in vals}
        some = {a for a in got if got[a] is not None}
        if some:
            loads += 1
        for a in sorted(tabs):
            name = '%s %s' % (m.qual, a)
            if a not in vals and not fresh(s, me, a):
                ck.require('loads-back', name, False,
                           'a path ends without setting the table %s' % a,
                           where(m))
                continue
            v = vals.get(a)
            if v is None:
                continue
            if got[a] is None:
                ok = not some and (
                    v == ('dict',) or v in s.coll and s.coll[v][0] == 'E')
                ck.require('loads-back', name, ok,
                           'the table %s is not taken from the saved value '
                           'while others are' % a, where(m))
                continue
            k = got[a][1]
            shift = front(vals, ver)
            want = lay.get(a, set())
            ok = k in want if not shift else \
                isinstance(k, int) and k + shift in want
            ck.require('loads-back', name, ok,
                       'the table %s is loaded from position %s and saved in '
                       '%s' % (a, k, sorted(want, key=str)), where(m))
    ck.require('loads-back', m.qual, loads > 0,
               'no path loads the saved value', where(m))


def fresh(s, me, a):
    return any(e[0] == 'set.attr' and e[1] == me and e[2][0] == const(a)
               for e in s.must)


def version_cells(ck, c):
    m, dumps = saved(ck, c)
    me = ('self', c.qual)
    return {k for o, v in dumps for k, x in cells(v, o.state).items()
            if constant_of(x, me) == '_LATEST_VERSION'}


def constant_of(x, me):
    """The name of the version attribute a term reads."""
    if x[0] == 'attr' and (x[1] == me or x[1][0] in ('global', 'type')):
        return x[2]
    if x[0] == 'call' and tail(x[1]) == 'latest_version':
        return '_LATEST_VERSION'
    return None


def front(vals, ver):
    """How many positions the loaded value lacks in front: 1 where the
    version was put there by hand, 0 else."""
    v = vals.get('_version')
    if v is None:
        return 0
    p = position(v)
    if p is not None and isinstance(p[1], tuple):
        return 1
    return 0 if p is not None else 1 if any(
        k == 0 for k in ver) and v[0] in ('attr', 'const') else 0
