"""Program model of /repo/lib/fbuild: modules, scopes, classes, functions.

Everything here is read from the syntax tree of the current working tree; no
module of the analysed program is imported or executed.
"""

import ast
import builtins
import hashlib
import os
import warnings

warnings.simplefilter('ignore')

REPO = os.environ.get('FBUILD_SA_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor of a rule has vanished, or the source cannot be read."""


class FunctionInfo:
    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls                # ClassInfo if directly in a class body
        self.outer = outer            # enclosing FunctionInfo
        self.name = getattr(node, 'name', '<lambda>')
        self.is_lambda = isinstance(node, ast.Lambda)
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            self.decorators.append(d)
        self._locals = None
        self.is_generator = _is_generator(node)

    def __repr__(self):
        return '<F %s>' % self.qual

    @property
    def decorator_names(self):
        out = []
        for d in self.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            name = dotted(t)
            if name is not None:
                out.append(self.module.resolve_dotted(name))
        return out

    def has_decorator(self, *tails):
        return any(n.split('.')[-1] in tails for n in self.decorator_names)

    @property
    def is_static(self):
        return self.has_decorator('staticmethod')

    @property
    def is_classmethod(self):
        return self.has_decorator('classmethod')

    @property
    def is_property(self):
        return self.has_decorator('property', 'cacheproperty')

    @property
    def loc(self):
        return '%s:%d' % (self.module.relpath, self.node.lineno)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        a = self.node.args
        out = self.params + [x.arg for x in a.kwonlyargs]
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    @property
    def locals(self):
        if self._locals is None:
            self._locals = _compute_locals(self.node)
        return self._locals


class ClassInfo:
    def __init__(self, qual, node, module, outer=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.assigns = {}
        self.outer = outer
        self._mro = None

    def __repr__(self):
        return '<C %s>' % self.qual

    @property
    def loc(self):
        return '%s:%d' % (self.module.relpath, self.node.lineno)

    def base_names(self):
        out = []
        for b in self.node.bases:
            n = dotted(b)
            if n is not None:
                r = self.module.resolve_dotted(n)
                if r == self.qual:
                    # class x(x): the base is the x from another module
                    r = self.module.resolve_dotted(n, defs=False)
                out.append(r)
        return out

    def bases(self):
        prog = self.module.program
        out = []
        for n in self.base_names():
            r = prog.lookup(n)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def mro(self):
        if self._mro is None:
            self._mro = [self]           # cycle guard
            seqs = [b.mro()[:] for b in self.bases()] + [list(self.bases())]
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        del s[0]
                seqs = [[x for x in s if x is not c] for s in seqs]
            self._mro = out
        return self._mro

    def find_method(self, name, after=None):
        mro = self.mro()
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def is_subclass_of(self, qual):
        if any(c.qual == qual for c in self.mro()):
            return True
        for c in self.mro():
            if qual in c.base_names():
                return True
        return False

    def external_bases(self):
        out = []
        for c in self.mro():
            for n in c.base_names():
                if c.module.program.lookup(n) is None:
                    out.append(n)
        return out


class Module:
    def __init__(self, name, path, program, is_pkg):
        self.name = name
        self.path = path
        self.program = program
        self.is_pkg = is_pkg
        self.relpath = os.path.relpath(path, REPO)
        with open(path, encoding='utf-8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, path)
        self.lines = self.source.splitlines()
        self.imports = {}       # local alias -> dotted target
        self.star_imports = []
        self.defs = {}          # top-level name -> FunctionInfo/ClassInfo
        self.assigns = {}       # top-level name -> [value expr]
        self.digest = hashlib.sha256(self.source.encode()).hexdigest()[:16]

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def resolve_dotted(self, name, defs=True):
        """Resolve a dotted name used at module level to an absolute name."""
        head, _, rest = name.partition('.')
        if defs and head in self.defs:
            base = self.name + '.' + head
        elif head in self.imports:
            base = self.imports[head]
        elif head in self.assigns:
            base = self.name + '.' + head
        elif hasattr(builtins, head):
            base = 'builtins.' + head
        else:
            base = None
            for m in self.star_imports:
                mod = self.program.modules.get(m)
                if mod and (head in mod.defs or head in mod.assigns or
                            head in mod.imports):
                    base = mod.resolve_dotted(head)
                    break
            if base is None:
                base = self.name + '.' + head
        full = base + ('.' + rest if rest else '')
        return self.program.canonical(full)


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    for n in walk_scope(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_scope(node):
    """Walk a function's body without entering nested function scopes."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda):
                yield n
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def _target_names(t, out):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)


def _compute_locals(node):
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    if isinstance(node, ast.Lambda):
        return out
    glob = set()
    for n in walk_scope(node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out - glob


class Program:
    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, 'lib')
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self.by_node = {}
        self._canon = {}
        self._attr_types = None
        self._load()

    # ---------------------------------------------------------------- loading

    def _load(self):
        base = os.path.join(self.root, 'fbuild')
        if not os.path.isdir(base):
            raise AnalysisBroken('no package at %s' % base)
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
                is_pkg = rel[-1] == '__init__'
                if is_pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                try:
                    self.modules[name] = Module(name, path, self, is_pkg)
                except (SyntaxError, UnicodeDecodeError) as e:
                    raise AnalysisBroken('cannot parse %s: %s' % (path, e))
        for m in self.modules.values():
            self._index_module(m)

    def _index_module(self, m):
        self._index_block(m, m.tree.body)
        # nested functions/lambdas/classes anywhere
        for f in list(self.functions.values()):
            pass

    def _index_block(self, m, stmts):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_function(m, s, m.name + '.' + s.name, None, None)
                m.defs[s.name] = fi
            elif isinstance(s, ast.ClassDef):
                ci = self._add_class(m, s, m.name + '.' + s.name, None)
                m.defs[s.name] = ci
            elif isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        m.imports[al.asname] = al.name
                    else:
                        h = al.name.split('.')[0]
                        m.imports[h] = h
            elif isinstance(s, ast.ImportFrom):
                base = self._import_base(m, s)
                for al in s.names:
                    if al.name == '*':
                        m.star_imports.append(base)
                    else:
                        m.imports[al.asname or al.name] = base + '.' + al.name
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in targets:
                    names = set()
                    _target_names(t, names)
                    for n in names:
                        m.assigns.setdefault(n, []).append(s.value)
                self._index_lambdas(m, s, None)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for field in ('body', 'orelse', 'finalbody'):
                    self._index_block(m, getattr(s, field, []))
                for h in getattr(s, 'handlers', []):
                    if h.name:
                        m.assigns.setdefault(h.name, []).append(None)
                    self._index_block(m, h.body)
                if isinstance(s, ast.For):
                    names = set()
                    _target_names(s.target, names)
                    for n in names:
                        m.assigns.setdefault(n, []).append(None)

    def _import_base(self, m, s):
        if not s.level:
            return s.module
        pkg = m.package().split('.')
        pkg = pkg[:len(pkg) - (s.level - 1)]
        return '.'.join(pkg + ([s.module] if s.module else []))

    def _add_function(self, m, node, qual, cls, outer):
        q = qual
        i = 2
        while q in self.functions:
            q = '%s#%d' % (qual, i)
            i += 1
        fi = FunctionInfo(q, node, m, cls, outer)
        self.functions[q] = fi
        self.by_node[node] = fi
        for n in walk_scope(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_function(m, n, q + '.<locals>.' + n.name, None, fi)
            elif isinstance(n, ast.ClassDef):
                self._add_class(m, n, q + '.<locals>.' + n.name, fi)
        self._index_lambdas(m, node, fi)
        return fi

    def _index_lambdas(self, m, root, outer):
        todo = list(ast.iter_child_nodes(root))
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef)):
                continue
            if isinstance(n, ast.Lambda):
                base = (outer.qual if outer else m.name)
                q = base + '.<lambda>'
                i = 1
                while '%s%d' % (q, i) in self.functions:
                    i += 1
                q = '%s%d' % (q, i)
                fi = FunctionInfo(q, n, m, None, outer)
                self.functions[q] = fi
                self.by_node[n] = fi
                self._index_lambdas(m, n, fi)
                continue
            todo.extend(ast.iter_child_nodes(n))

    def _add_class(self, m, node, qual, outer):
        q = qual
        i = 2
        while q in self.classes:
            q = '%s#%d' % (qual, i)
            i += 1
        ci = ClassInfo(q, node, m, outer)
        self.classes[q] = ci
        self.by_node[node] = ci
        self._class_block(m, ci, node.body, q)
        return ci

    def _class_block(self, m, ci, stmts, q):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._add_function(m, s, q + '.' + s.name, ci, ci.outer)
                ci.methods[s.name] = fi
            elif isinstance(s, ast.ClassDef):
                self._add_class(m, s, q + '.' + s.name, None)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.assigns[t.id] = s.value
                self._index_lambdas(m, s, None)
            elif isinstance(s, (ast.If, ast.Try)):
                self._class_block(m, ci, s.body, q)
                self._class_block(m, ci, getattr(s, 'orelse', []), q)

    # -------------------------------------------------------------- resolving

    def lookup(self, name):
        name = self.canonical(name)
        return self.functions.get(name) or self.classes.get(name) or \
            self.modules.get(name)

    def canonical(self, name):
        """Follow re-exports so that one object has one absolute name."""
        if name in self._canon:
            return self._canon[name]
        self._canon[name] = name          # cycle guard
        r = self._canonical(name)
        self._canon[name] = r
        return r

    def _canonical(self, name, depth=0):
        if depth > 12 or name in self.functions or name in self.classes or \
                name in self.modules:
            return name
        parts = name.split('.')
        for i in range(len(parts) - 1, 0, -1):
            prefix = '.'.join(parts[:i])
            m = self.modules.get(prefix)
            if m is None:
                c = self.classes.get(prefix)
                if c is not None:
                    meth = c.find_method(parts[i])
                    if meth is not None and i == len(parts) - 1:
                        return meth.qual
                    return name
                continue
            head = parts[i]
            rest = parts[i + 1:]
            if head in m.defs:
                d = m.defs[head]
                if rest:
                    if isinstance(d, ClassInfo):
                        meth = d.find_method(rest[0])
                        if meth is not None and len(rest) == 1:
                            return meth.qual
                    return name
                return d.qual
            if head in m.imports:
                target = m.imports[head]
                full = '.'.join([target] + rest)
                if full == name:
                    return name
                return self._canonical(full, depth + 1)
            for s in m.star_imports:
                sm = self.modules.get(s)
                if sm and (head in sm.defs or head in sm.imports or
                           head in sm.assigns):
                    return self._canonical('.'.join([s, head] + rest),
                                           depth + 1)
                if sm is None and head not in m.assigns:
                    return '.'.join([s, head] + rest)
            return name
        return name

    # ------------------------------------------------------------- attr types

    def attr_types(self):
        """(class qual, attr) -> set of class quals; ('*', attr) -> ditto.

        Inferred from assignments `X.attr = C(...)` in the program."""
        if self._attr_types is not None:
            return self._attr_types
        table = {}
        for fi in list(self.functions.values()):
            if fi.is_lambda:
                continue
            selfname = None
            if fi.cls is not None and fi.params and not fi.is_static:
                selfname = fi.params[0]
            for n in walk_scope(fi.node):
                if not isinstance(n, ast.Assign):
                    continue
                for t in n.targets:
                    if not isinstance(t, ast.Attribute):
                        continue
                    cq = self._ctor_class(fi, n.value)
                    if cq is None:
                        continue
                    table.setdefault(('*', t.attr), set()).add(cq)
                    if isinstance(t.value, ast.Name) and \
                            t.value.id == selfname:
                        table.setdefault((fi.cls.qual, t.attr), set()).add(cq)
        self._attr_types = table
        return table

    def _ctor_class(self, fi, value):
        if isinstance(value, ast.Call):
            name = dotted(value.func)
            if name is None:
                return None
            r = fi.module.resolve_dotted(name)
            d = self.lookup(r)
            if isinstance(d, ClassInfo):
                return d.qual
            if r.startswith('threading.') or r.startswith('queue.'):
                return r
        return None

    def attr_class(self, cls_qual, attr):
        t = self.attr_types()
        if cls_qual is not None:
            c = self.classes.get(cls_qual)
            for k in (c.mro() if c else []):
                s = t.get((k.qual, attr))
                if s:
                    return s
            return None
        return t.get(('*', attr))

    # ------------------------------------------------------------------ helpers

    def require_function(self, qual):
        f = self.functions.get(self.canonical(qual))
        if f is None:
            raise AnalysisBroken('anchor vanished: function %s' % qual)
        return f

    def require_class(self, qual):
        c = self.classes.get(self.canonical(qual))
        if c is None:
            raise AnalysisBroken('anchor vanished: class %s' % qual)
        return c

    def require_method(self, clsqual, name):
        c = self.require_class(clsqual)
        m = c.find_method(name)
        if m is None:
            raise AnalysisBroken('anchor vanished: method %s.%s' %
                                 (clsqual, name))
        return m

    def require_module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken('anchor vanished: module %s' % name)
        return m

    def subclasses(self, qual, proper=False):
        out = []
        for c in self.classes.values():
            if c.qual == qual and proper:
                continue
            if any(k.qual == qual for k in c.mro()):
                out.append(c)
        return sorted(out, key=lambda c: c.qual)
