"""A reader for the small SQL subset that the store uses.

parse(text) -> [Stmt]; parameters (?) are numbered left to right over the
whole text."""
import re

TOK = re.compile(r"\s*(?:(--[^\n]*)|([A-Za-z_][A-Za-z_0-9.]*)|('[^']*')|"
                 r"(\d+)|(\?|<>|!=|<=|>=|[-+(),;=<>*/|]))")

KEYWORDS = {'select', 'from', 'where', 'join', 'using', 'and', 'or', 'insert',
            'into', 'values', 'update', 'set', 'delete', 'replace', 'in',
            'union', 'all', 'on', 'distinct', 'order', 'by', 'limit', 'like',
            'not', 'null', 'is', 'exists', 'inner', 'left', 'natural', 'as',
            'cross', 'outer', 'group', 'having', 'asc', 'desc', 'default'}


class Stmt:
    def __init__(self, kind):
        self.kind = kind            # select insert update delete create other
        self.tables = []            # first one is the target of a write
        self.cols = []              # selected or inserted columns
        self.sets = {}              # column -> parameter number or literal
        self.where = []             # [(column, op, parameter/column/Stmt)]
        self.disjunctive = False
        self.using = []
        self.replace = False
        self.limit = False
        self.distinct = False
        self.unions = []
        self.query = None           # of INSERT ... SELECT
        self.text = ''

    def eq(self):
        """column -> parameter for the conjuncts column = ?"""
        if self.disjunctive:
            return {}
        return {c.split('.')[-1].lower(): v for c, op, v in self.where
                if op == '='}

    @property
    def table(self):
        return self.tables[0].lower() if self.tables else None


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            if text[i:].strip() == '':
                break
            out.append(text[i])
            i += 1
            continue
        i = m.end()
        t = m.group(2) or m.group(3) or m.group(4) or m.group(5)
        if t:
            out.append(t)
    return out


class _P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.n = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j].lower() if j < len(self.t) else ''

    def next(self):
        x = self.t[self.i] if self.i < len(self.t) else ''
        self.i += 1
        return x

    def accept(self, *words):
        if self.peek() in words:
            return self.next()
        return None

    def operand(self):
        if self.peek() == '?':
            self.next()
            self.n += 1
            return ('param', self.n - 1)
        if self.peek() == '(':
            self.next()
            if self.peek() == 'select':
                s = self.select()
                self.accept(')')
                return s
            xs = []
            while self.peek() not in (')', ''):
                if self.peek() == ',':
                    self.next()
                    continue
                xs.append(self.operand())
            self.accept(')')
            return xs
        return self.next()

    def alias(self):
        self.accept('as')
        if self.peek() not in KEYWORDS and re.match('[a-z_]', self.peek()):
            self.next()

    def where(self, s):
        if not self.accept('where'):
            return
        while True:
            neg = self.accept('not')
            a = self.operand()
            op = self.next().lower()
            if op == 'not':
                op = 'not ' + self.next().lower()
            if op == 'is' and self.peek() == 'not':
                op = 'is not'
                self.next()
            b = self.operand()
            if neg:
                op = 'not ' + op
            if isinstance(a, tuple) and isinstance(b, str):
                a, b = b, a
            s.where.append((a if isinstance(a, str) else '', op, b))
            w = self.accept('and', 'or')
            if w is None:
                break
            if w.lower() == 'or':
                s.disjunctive = True

    def select(self):
        s = Stmt('select')
        self.accept('select')
        if self.accept('distinct'):
            s.distinct = True
        depth = 0
        col = ''
        while self.peek() not in ('from', ''):
            t = self.next()
            if t == '(':
                depth += 1
            if t == ')':
                depth -= 1
            if t == ',' and not depth:
                s.cols.append(col)
                col = ''
            elif t == '?':
                col += '?%d' % self.n
                self.n += 1
            else:
                col += t
        s.cols.append(col)
        self.accept('from')
        s.tables.append(self.next())
        while True:
            self.alias()
            while self.accept('inner', 'left', 'natural', 'cross', 'outer'):
                pass
            if self.accept('join', ','):
                s.tables.append(self.next())
                self.alias()
                if self.accept('using'):
                    self.accept('(')
                    while self.peek() not in (')', ''):
                        t = self.next()
                        if t != ',':
                            s.using.append(t)
                    self.accept(')')
                elif self.accept('on'):
                    a = self.next()
                    self.next()
                    b = self.next()
                    if a.split('.')[-1] == b.split('.')[-1]:
                        s.using.append(a.split('.')[-1])
                continue
            break
        self.where(s)
        while self.peek() in ('order', 'group', 'by', 'limit', 'asc', 'desc') \
                or (self.peek() not in KEYWORDS and
                    re.match('[a-z_0-9]', self.peek())):
            if self.peek() == 'limit':
                s.limit = True
            self.next()
            if self.peek() == ',':
                self.next()
        if self.accept('union'):
            self.accept('all')
            s.unions.append(self.select())
        return s

    def statement(self):
        k = self.peek()
        if k == 'select':
            return self.select()
        if k in ('insert', 'replace'):
            s = Stmt('insert')
            s.replace = k == 'replace'
            self.next()
            if self.accept('or'):
                w = self.next().lower()
                s.replace = w == 'replace'
                if w != 'replace':
                    s.kind = 'insert-' + w
            self.accept('into')
            s.tables.append(self.next())
            if self.accept('('):
                while self.peek() not in (')', ''):
                    t = self.next()
                    if t != ',':
                        s.cols.append(t)
                self.accept(')')
            if self.accept('values'):
                self.accept('(')
                i = 0
                while self.peek() not in (')', ''):
                    if self.accept(','):
                        continue
                    v = self.operand()
                    if i < len(s.cols):
                        s.sets[s.cols[i].lower()] = v
                    i += 1
                self.accept(')')
            elif self.peek() == 'select':
                s.query = q = self.select()
                for c, v in zip(s.cols, q.cols):
                    s.sets[c.lower()] = ('param', int(v[1:])) \
                        if v[:1] == '?' and v[1:].isdigit() else q
            return s
        if k == 'update':
            s = Stmt('update')
            self.next()
            if self.accept('or'):
                self.next()
            s.tables.append(self.next())
            self.accept('set')
            while True:
                c = self.next()
                self.accept('=')
                s.sets[c.lower()] = self.operand()
                s.cols.append(c)
                if not self.accept(','):
                    break
            self.where(s)
            return s
        if k == 'delete':
            s = Stmt('delete')
            self.next()
            self.accept('from')
            s.tables.append(self.next())
            self.where(s)
            return s
        s = Stmt('other')
        return s


def parse(text):
    toks = tokens(text)
    groups, cur = [], []
    for t in toks:
        if t == ';':
            if cur:
                groups.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        groups.append(cur)
    out = []
    n = 0
    for g in groups:
        if g[0].lower() == 'create' or g[0].lower() == 'pragma':
            s = Stmt(g[0].lower())
            s.text = ' '.join(g)
            s.toks = g
            out.append(s)
            continue
        p = _P(g)
        p.n = n
        s = p.statement()
        s.text = ' '.join(g)
        n = p.n
        out.append(s)
    return out


def schema(stmts):
    """table -> {'cols': {...}, 'fks': [(col, table, refcol, on delete)],
    'unique': [[cols]]} from CREATE TABLE statements."""
    out = {}
    for s in stmts:
        if s.kind != 'create':
            continue
        t = [x.lower() for x in s.toks]
        if 'table' not in t[:3]:
            continue
        i = t.index('table') + 1
        if t[i:i + 3] == ['if', 'not', 'exists']:
            i += 3
        name = t[i]
        body, depth, items, cur = t[i + 2:], 0, [], []
        for x in body:
            if x == '(':
                depth += 1
            if x == ')':
                if depth == 0:
                    break
                depth -= 1
            if x == ',' and depth == 0:
                items.append(cur)
                cur = []
            else:
                cur.append(x)
        items.append(cur)
        tb = {'cols': {}, 'fks': [], 'unique': []}
        for it in items:
            if not it:
                continue
            if it[0] in ('primary', 'unique'):
                j = it.index('(')
                tb['unique'].append([x for x in it[j + 1:it.index(')')]
                                     if x != ','])
                continue
            if it[0] == 'foreign':
                j = it.index('(')
                c = it[j + 1]
                r = it.index('references')
                tb['fks'].append((c, it[r + 1], it[r + 3], _ondel(it)))
                continue
            tb['cols'][it[0]] = it[1:]
            if 'references' in it:
                r = it.index('references')
                ref = it[r + 3] if r + 3 < len(it) and it[r + 2] == '(' \
                    else it[0]
                tb['fks'].append((it[0], it[r + 1], ref, _ondel(it)))
            if 'unique' in it or 'primary' in it:
                tb['unique'].append([it[0]])
        out[name] = tb
    return out


def _ondel(it):
    for i in range(len(it) - 2):
        if it[i] == 'on' and it[i + 1] == 'delete':
            return it[i + 2]
    return None
