"""Interned value terms of the abstract interpreter."""

_tab = {}


class Term:
    __slots__ = ('op', 'a', 'id', '_subs')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.id, t._subs = op, a, len(_tab), None
        _tab[k] = t
    return t


def isT(x):
    return isinstance(x, Term)


def subterms(t):
    """set of all sub-terms (including t); looks into nested tuples"""
    if t._subs is None:
        s = {t}
        work = list(t.a)
        while work:
            x = work.pop()
            if isinstance(x, Term):
                s |= subterms(x)
            elif isinstance(x, tuple):
                work.extend(x)
        t._subs = frozenset(s)
    return t._subs


TRUE = mk('b', True)
FALSE = mk('b', False)
NULL = mk('null')
THIS = mk('this')
VOID = mk('void')
EMPTY = mk('list', ())


def I(n):
    return mk('i', n)


def B(v):
    return TRUE if v else FALSE


def S(s):
    return mk('s', s)


def E(name, ty='Kind'):
    return mk('e', name, ty)


CONSTOPS = {'b', 'i', 's', 'e', 'null', 'fl'}


def isconst(t):
    return t.op in CONSTOPS


# terms that can never denote null
NONNULL = {'new', 'addr', 'list', 'push', 'lambda', 'this', 'i', 's', 'b', 'e'}


def not_(t):
    if t.op == 'b':
        return B(not t.a[0])
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


def has(c, k):
    if c is EMPTY:
        return FALSE
    if c.op == 'set' and c.a[1] is k or c.op == 'ins' and (c.a[1] is k or c.a[1].op == 'pair' and c.a[1].a[0] is k):
        return TRUE
    if c.op == 'erase' and len(c.a) == 2 and c.a[1] is k:
        return FALSE
    if c.op == 'set' and isconst(c.a[1]) and isconst(k):
        return has(c.a[0], k)
    return mk('has', c, k)


def eq(a, b):
    if a is b:
        return TRUE
    ca, cb = isconst(a), isconst(b)
    if ca and cb:
        if a.op == 'i' and b.op == 'b':
            return B(bool(a.a[0]) == b.a[0])
        if a.op == 'b' and b.op == 'i':
            return B(bool(b.a[0]) == a.a[0])
        return FALSE
    if ca:
        a, b = b, a
        ca, cb = cb, ca
    if b.op == 'b':
        return a if b.a[0] else not_(a)
    if b.op == 'null' and a.op in NONNULL:
        return FALSE
    if b.op == 'i' and b.a[0] == 0 and a.op == 'not':
        return a.a[0]
    if not cb and b.id < a.id:
        a, b = b, a
    # iterator comparisons: m.find(k) == m.end()
    for x, y in ((a, b), (b, a)):
        if x.op == 'find' and y.op == 'end' and x.a[0] is y.a[0]:
            return not_(has(x.a[0], x.a[1]))
    if cb and b.op == 'i' and b.a[0] == 0 and a.op == 'count':
        return not_(has(a.a[0], a.a[1]))
    return mk('eq', a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'i' and b.op == 'i':
        return B(a.a[0] < b.a[0])
    if b.op == 'size' and a.op == 'i' and a.a[0] == 0:
        return not_(eq(b, I(0)))
    if b.op == 'count' and a.op == 'i' and a.a[0] == 0:
        return has(b.a[0], b.a[1])
    if a.op == 'size' and b.op == 'i' and b.a[0] == 1:
        return eq(a, I(0))
    if b.op == 'i' and b.a[0] == 0 and a.op in ('size', 'count'):
        return FALSE
    return mk('lt', a, b)


def size(t):
    if t.op == 'list':
        return I(len(t.a[0]))
    if t.op == 's':
        return I(len(t.a[0]))
    if t.op == 'push':
        s = size(t.a[0])
        return I(s.a[0] + 1) if s.op == 'i' else mk('plus', s, I(1))
    if t.op == 'pop':
        s = size(t.a[0])
        if s.op == 'i' and s.a[0] > 0:
            return I(s.a[0] - 1)
        return mk('minus', s, I(1))
    if t.op == 'set' and t.a[0].op in ('list',):
        return size(t.a[0])
    if t.op == 'resize':
        return t.a[1]
    return mk('size', t)


def knownprefix(c):
    """a lower bound of the size"""
    if c.op == 'list':
        return len(c.a[0])
    if c.op == 'push':
        return knownprefix(c.a[0]) + 1
    if c.op == 'cat':
        return knownprefix(c.a[0]) + (knownprefix(c.a[1]) if isT(c.a[1]) else 0)
    return 0


def index(c, i):
    if c.op == 'list' and i.op == 'i' and 0 <= i.a[0] < len(c.a[0]):
        return c.a[0][i.a[0]]
    if c.op == 'set':
        if c.a[1] is i:
            return c.a[2]
        if isconst(c.a[1]) and isconst(i):
            return index(c.a[0], i)
    if c.op == 'push' and i.op == 'i':
        s = size(c.a[0])
        if s.op == 'i':
            return c.a[1] if s.a[0] == i.a[0] else index(c.a[0], i)
    if i.op == 'i' and c.op in ('cat', 'push') and i.a[0] < knownprefix(c.a[0]):
        return index(c.a[0], i)
    if i.op == 'minus' and i.a[1].op == 'i' and i.a[1].a[0] == 1 and i.a[0] is size(c):
        return back(c)
    return mk('idx', c, i)


def back(c):
    if c.op == 'push':
        return c.a[1]
    if c.op == 'list' and c.a[0]:
        return c.a[0][-1]
    return mk('back', c)


def push(c, x):
    if c.op == 'list':
        return mk('list', c.a[0] + (x,))
    return mk('push', c, x)


def pop(c):
    if c.op == 'push':
        return c.a[0]
    if c.op == 'list' and c.a[0]:
        return mk('list', c.a[0][:-1])
    return mk('pop', c)


def deref(t):
    if t.op == 'begin':
        return index(t.a[0], I(0))
    if t.op == 'find':
        return mk('entry', t.a[0], t.a[1])
    if t.op == 'addr':
        return None
    return mk('deref', t)


def mkpair(a, b):
    if a.op == 'fld' and b.op == 'fld' and a.a[1] is b.a[1] and a.a[0].endswith('pair::first') and b.a[0].endswith('pair::second'):
        return a.a[1]
    return mk('pair', a, b)


def fld(f, t):
    if t.op == 'pair':
        if f.endswith('::first'):
            return t.a[0]
        if f.endswith('::second'):
            return t.a[1]
    if t.op == 'insres':
        if f.endswith('::first'):
            return mk('find', t.a[0], t.a[1])
        if f.endswith('::second'):
            return not_(mk('has', t.a[0], t.a[1]))
    if t.op == 'entry':
        if f.endswith('::first'):
            return t.a[1]
        if f.endswith('::second'):
            return index(t.a[0], t.a[1])
    return mk('fld', f, t)


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 7:
        return '…'
    o, a = t.op, t.a
    if o in ('i', 'b', 'e', 'fl'):
        return str(a[0])
    if o == 's':
        return '"%s"' % a[0]
    if o in ('null', 'this', 'void'):
        return o
    if o == 'p':
        return '$' + str(a[1])
    if o == 'r':
        nm = a[0].split('::')[-1]
        s = ', '.join(show(x, d + 1) for x in a[2])
        ob = ''
        if a[1] is not None and a[1].op != 'this':
            ob = show(a[1], d + 1) + '.'
        return '%s%s(%s)' % (ob, nm, s)
    if o == 'f':
        b = show(a[1], d + 1) if isT(a[1]) else show(a[1], d + 1)
        return ('' if b == 'this' else b + '.') + a[0].split('::')[-1]
    if o == 'it':
        return 'loop(%s)' % show(a[-1], d + 1)
    if o == 'phi':
        return 'phi(%s)' % (show(a[-1], d + 1),)
    if o == 'eq':
        return '%s == %s' % (show(a[0], d + 1), show(a[1], d + 1))
    if o == 'lt':
        return '%s < %s' % (show(a[0], d + 1), show(a[1], d + 1))
    if o == 'not':
        return '!(%s)' % show(a[0], d + 1)
    if o == 'list':
        return '[' + ', '.join(show(x, d + 1) for x in a[0]) + ']'
    if o == 'idx':
        return '%s[%s]' % (show(a[0], d + 1), show(a[1], d + 1))
    if o == 'o':
        return '%s#out%s' % (a[0].split('::')[-1], a[2])
    return o + '(' + ', '.join(show(x, d + 1) for x in a) + ')'
