"""Terms: the value-origin domain.

A term says where a value came from: a parameter, a constant, an attribute of
another value, the result of a call, an element of an iteration, ...  Terms are
plain nested tuples, so they compare and hash structurally.
"""

ANY = ('any',)
NONE = ('const', 'NoneType', None)
TRUE = ('const', 'bool', True)
FALSE = ('const', 'bool', False)


def const(v):
    return ('const', type(v).__name__, v)


def is_const(t, *vals):
    if t[0] != 'const':
        return False
    if not vals:
        return True
    return any(t == const(v) for v in vals)


def phi(terms, cap=10):
    out = set()
    for t in terms:
        if t[0] == 'phi':
            out.update(t[1])
        else:
            out.add(t)
    if len(out) == 1:
        return next(iter(out))
    if len(out) > cap or ANY in out:
        return ANY
    return ('phi', frozenset(out))


def alts(t):
    return sorted(t[1], key=repr) if t[0] == 'phi' else [t]


def elem(t):
    return ('elem', t)


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (tuple, frozenset)):
            for c in x:
                if isinstance(c, (tuple, frozenset)):
                    todo.append(c)


_ment = {}


def mentions(t, sub):
    """Does term t contain sub?"""
    if t == sub:
        return True
    k = (t, sub)
    r = _ment.get(k)
    if r is None:
        r = False
        if isinstance(t, (tuple, frozenset)):
            for c in t:
                if isinstance(c, (tuple, frozenset)) and mentions(c, sub):
                    r = True
                    break
        if len(_ment) > 400000:
            _ment.clear()
        _ment[k] = r
    return r


def substitute(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(substitute(c, old, new)
                     if isinstance(c, (tuple, frozenset)) else c for c in t)
    if isinstance(t, frozenset):
        return frozenset(substitute(c, old, new)
                         if isinstance(c, (tuple, frozenset)) else c
                         for c in t)
    return t


def tail(name):
    return name.rsplit('.', 1)[-1] if name else name


def show(t, depth=0):
    """Readable rendering of a term for reports."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if depth > 5:
        return '...'
    d = depth + 1
    if k == 'any':
        return '?'
    if k == 'const':
        return repr(t[2])
    if k == 'param':
        return t[1]
    if k == 'self':
        return 'self'
    if k == 'attr':
        return '%s.%s' % (show(t[1], d), t[2])
    if k == 'item':
        return '%s[%s]' % (show(t[1], d), show(t[2], d)
                           if isinstance(t[2], tuple) else t[2])
    if k == 'elem':
        return 'each(%s)' % show(t[1], d)
    if k == 'global':
        return t[1]
    if k == 'bound':
        return '%s.%s' % (show(t[1], d), tail(t[2]))
    if k == 'call':
        a = [show(x, d) for x in t[3]] + \
            ['%s=%s' % (n, show(x, d)) for n, x in t[4]]
        pre = show(t[2], d) + '.' if t[2] is not None else ''
        nm = t[1]
        if t[2] is not None:
            nm = tail(nm)
        return '%s%s(%s)' % (pre, nm, ', '.join(a))
    if k == 'phi':
        return '{%s}' % ' | '.join(show(x, d) for x in alts(t))
    if k == 'not':
        return 'not %s' % show(t[1], d)
    if k in ('and', 'or'):
        return '(%s)' % (' %s ' % k).join(show(x, d) for x in t[1:])
    if k == 'cmp':
        return '%s %s %s' % (show(t[2], d), t[1], show(t[3], d))
    if k == 'bin':
        return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
    if k in ('tuple', 'list', 'set'):
        return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1:]))
    if k == 'new':
        return 'new-%s' % t[1]
    if k == 'comp':
        return '%s(%s for %s%s)' % (t[1], show(t[2], d), show(t[3], d),
                                    ' if ...' if t[4] else '')
    if k == 'closure':
        return tail(t[1])
    if k == 'star':
        return '*' + show(t[1], d)
    if k == 'exc':
        return 'exception %s' % t[1]
    if k == 'slice':
        return 'slice'
    return k + '(' + ', '.join(show(x, d) for x in t[1:]
                               if isinstance(x, tuple)) + ')'
