"""What the methods of a storage engine write and remove, by table."""
import ast

from .common import *
from sa import sql

GROW = ('setdefault', 'update', 'append', 'extend', 'insert', 'add',
        '__setitem__')
SHRINK = ('pop', 'popitem', 'clear', 'remove', 'discard', '__delitem__',
          'difference_update', 'intersection_update')
WRITES = ('insert', 'replace', 'update', 'delete', 'drop', 'alter', 'create')


def reach(prog, c, *starts):
    """Methods of the class c reachable through self.x() / super().x(), and
    module functions they call by name."""
    seen, todo, out = set(), [], []
    for s in starts:
        m = c.find_method(s)
        if m is not None:
            todo.append(m)
    while todo:
        m = todo.pop()
        if m.qual in seen:
            continue
        seen.add(m.qual)
        out.append(m)
        for x in ast.walk(m.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                f = prog.functions.get(m.module.name + '.' + x.id)
                if f is not None:
                    todo.append(f)
            if not isinstance(x, ast.Attribute):
                continue
            if isinstance(x.value, ast.Name) and x.value.id in ('self',
                                                                'cls'):
                n = c.find_method(x.attr)
                if n is not None:
                    todo.append(n)
            elif isinstance(x.value, ast.Call) and isinstance(
                    x.value.func, ast.Name) and x.value.func.id == 'super' \
                    and m.cls is not None:
                for b in m.cls.mro()[1:]:
                    if x.attr in getattr(b, 'methods', {}):
                        todo.append(b.methods[x.attr])
                        break
    return out


def constants(prog, m):
    """String constants of the method, also those it refers to by the name of
    a module or class variable."""
    doc = ast.get_docstring(m.node, clean=False)
    for x in ast.walk(m.node):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            if x.value != doc:
                yield x.value, x
            continue
        name = None
        bodies = []
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            name, bodies = x.id, [m.module.tree.body]
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            name = x.attr
            if m.cls is not None:
                bodies = [b.node.body for b in m.cls.mro()
                          if hasattr(b, 'node')]
        for body in bodies:
            for st in body:
                if isinstance(st, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == name
                        for t in st.targets) and isinstance(
                        st.value, ast.Constant) and isinstance(
                        st.value.value, str):
                    yield st.value.value, x


def statements(prog, m):
    """(statement, node) of the SQL in the method."""
    for text, x in constants(prog, m):
        w = text.split()
        if not w or w[0].lower() not in WRITES + ('select', 'pragma'):
            continue
        for st in sql.parse(text):
            yield st, x


def mem_tables(prog, c):
    """Attributes the engine keeps its records in: those _connect fills with
    new dictionaries."""
    out = set()
    found = [m for b in c.mro() if '_connect' in getattr(b, 'methods', {})
             for m in [b.methods['_connect']]]
    for m in found + reach(prog, c, '_connect'):
        for x in ast.walk(m.node):
            if isinstance(x, ast.Assign) and (
                    isinstance(x.value, ast.Dict) or
                    isinstance(x.value, ast.Call) and isinstance(
                        x.value.func, (ast.Name, ast.Attribute)) and
                    (getattr(x.value.func, 'id', None) or
                     x.value.func.attr) in ('dict', 'defaultdict',
                                            'OrderedDict')):
                for t in x.targets:
                    if isinstance(t, ast.Attribute):
                        out.add(t.attr)
    return out


def aliases(m, tables):
    """local name -> tables it may hold a part of"""
    al = {}
    for _ in range(4):
        before = {k: set(v) for k, v in al.items()}
        for x in ast.walk(m.node):
            pairs = []
            if isinstance(x, ast.Assign):
                pairs = [(t, x.value) for t in x.targets]
            elif isinstance(x, (ast.For, ast.comprehension)):
                pairs = [(x.target, x.iter)]
            elif isinstance(x, ast.NamedExpr):
                pairs = [(x.target, x.value)]
            for t, v in pairs:
                got = part_of(v, tables, al)
                if not got:
                    continue
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and isinstance(y.ctx,
                                                              ast.Store):
                        al.setdefault(y.id, set()).update(got)
        if before == al:
            break
    return al


def part_of(v, tables, al):
    """tables the value may be (a mutable part of)"""
    if isinstance(v, ast.Attribute):
        if v.attr in tables:
            return {v.attr}
        return part_of(v.value, tables, al)
    if isinstance(v, ast.Name):
        return al.get(v.id, set())
    if isinstance(v, ast.Subscript):
        return part_of(v.value, tables, al)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
            v.func.attr in ('setdefault', 'get', 'items', 'values', 'pop'):
        return part_of(v.func.value, tables, al)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
            v.func.id in ('enumerate', 'list', 'tuple', 'sorted', 'zip',
                          'iter', 'next'):
        out = set()
        for a in v.args:
            out |= part_of(a, tables, al)
        return out
    if isinstance(v, (ast.Tuple, ast.List)):
        out = set()
        for a in v.elts:
            out |= part_of(a, tables, al)
        return out
    if isinstance(v, ast.IfExp):
        return part_of(v.body, tables, al) | part_of(v.orelse, tables, al)
    if isinstance(v, ast.BoolOp):
        out = set()
        for a in v.values:
            out |= part_of(a, tables, al)
        return out
    return set()


def effects(prog, c, m):
    """(kind, table, node) with kind 'write', 'remove' or 'other'"""
    for st, x in statements(prog, m):
        if st.kind in ('insert', 'update', 'replace'):
            yield 'write', st.table, x
        elif st.kind == 'delete':
            yield 'remove', st.table, x
        elif st.kind == 'other' and st.text.split()[0].lower() not in (
                'pragma',):
            yield 'other', st.text[:60], x
    tables = mem_tables(prog, c)
    al = aliases(m, tables)

    def targets(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                yield from targets(e)
        elif isinstance(t, ast.Starred):
            yield from targets(t.value)
        else:
            yield t
    for x in ast.walk(m.node):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t0 in (x.targets if isinstance(x, ast.Assign)
                       else [x.target]):
                for t in targets(t0):
                    if isinstance(t, ast.Subscript):
                        for a in sorted(part_of(t.value, tables, al)):
                            yield 'write', a, x
                    elif isinstance(t, ast.Attribute) and t.attr in tables:
                        yield 'write', t.attr, x
        elif isinstance(x, ast.Delete):
            for t0 in x.targets:
                for t in targets(t0):
                    if isinstance(t, ast.Subscript):
                        for a in sorted(part_of(t.value, tables, al)):
                            yield 'remove', a, x
                    elif isinstance(t, ast.Attribute) and t.attr in tables:
                        yield 'remove', t.attr, x
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            kind = 'write' if x.func.attr in GROW else \
                'remove' if x.func.attr in SHRINK else None
            if kind:
                for a in sorted(part_of(x.func.value, tables, al)):
                    yield kind, a, x


def tables_of(prog, c, *methods):
    """tables the operations write, directly or through helpers that are not
    operations of the store themselves"""
    out = set()
    ops = operations(prog)
    for name in methods:
        m0 = c.find_method(name)
        if m0 is None:
            continue
        for m in reach(prog, c, name):
            if m.name in ops and m.name != name:
                continue
            out |= {t for k, t, x in effects(prog, c, m) if k == 'write'}
    return out


def operations(prog):
    """names of the operations of the store: the methods of the base class"""
    return {n for n in prog.require_class(BE).methods}
