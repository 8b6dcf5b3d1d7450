"""The numbers, bit vectors and strings that literals are made of."""
from common import *

STR = 'std::basic_string'
MPZ = {'ior': 'or', 'and': 'and', 'xor': 'xor', 'com': 'com', 'mul_2exp': 'mul2', 'fdiv_r_2exp': 'fr2', 'fdiv_q_2exp': 'fq2', 'fdiv_q': 'fq',
       'fdiv_r': 'fr', 'cdiv_q': 'cq', 'cdiv_r': 'cr', 'pow_ui': 'pow', 'get_ui': 'ui', 'fits_uint_p': 'fits', 'sizeinbase': 'digits', 'sgn': 'sgn',
       'add': '+', 'sub': '-', 'neg': 'neg', 'mul': '*', 'set': 'id', 'setbit': 'setbit', 'get_str': 'text', 'cmp': 'cmp', 'cmp_ui': 'cmp', 'cmp_si': 'cmp'}
INT = {'bitwiseOr': 'or', 'bitwiseAnd': 'and', 'bitwiseXor': 'xor', 'bitwiseNot': 'com', 'multiplyByPow2': 'mul2', 'modByPow2': 'fr2',
       'floorDivideQuotient': 'fq', 'floorDivideRemainder': 'fr', 'pow': 'pow', 'toUnsignedInt': 'ui', 'fitsUnsignedInt': 'fits', 'sgn': 'sgn',
       'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/', 'operator|': 'or', 'operator&': 'and', 'operator^': 'xor', 'operator~': 'com',
       'toString': 'text', 'get_str': 'text', 'fits_uint_p': 'fits', 'get_ui': 'ui', 'getValue': 'id', 'get_mpz': 'id', 'oneExtend': 'ones', 'length': 'digits',
       'get_num': 'num', 'get_den': 'den'}
SYM = ('or', 'and', 'xor', 'eq', '*')


class Nv:
    """values as terms over the object and the parameters"""

    def __call__(self, t):
        if not isT(t):
            return self.path(t) if isinstance(t, tuple) else t
        o = t.op
        if o in ('i', 's', 'b'):
            return t.a[0]
        if o == 'this':
            return 'this'
        if o == 'p':
            return 'p%d' % t.a[0]
        if o == 'deref':
            return self(t.a[0])
        if o == 'addr':
            return self(t.a[0])
        if o in ('f', 'fld'):
            return self.member(t.a[0], self(t.a[1]))
        if o == 'new':
            return self.new(t.a[0].split('::')[-1], [self(x) for x in t.a[1]])
        if o == 'r':
            return self.call(t.a[0], None if t.a[1] is None else self(t.a[1]), [self(x) for x in t.a[2]])
        if o in ('plus', 'minus'):
            return self.app('+' if o == 'plus' else '-', [self(x) for x in t.a])
        if o == 'neg':
            return self.app('-', [self(t.a[0])])
        if o == 'arith':
            return self.app(t.a[0] if t.a[0] in ('*', '%') else 'i' + t.a[0], [self(x) for x in t.a[1:]])
        if o in ('erase', 'rep'):
            return (o,) + tuple(self(x) for x in t.a)
        if o in ('eq', 'lt', 'not', 'size', 'begin', 'end', 'cat', 'idx', 'and', 'or', 'front'):
            return self.app(o if o not in ('and', 'or') else 'b' + o, [self(x) for x in t.a])
        if o == 'list':
            return ('list',) + tuple(self(x) for x in t.a[0])
        return ('?', o, t.id)

    def path(self, p):
        if p[0] in ('F', 'S'):
            return self.member(p[2], self(p[1]))
        if p[0] in ('T', 'D'):
            return self(p[1])
        return ('loc',) + tuple(str(x) for x in p[1:])

    def member(self, f, b):
        m = f.split('::')[-1]
        if f in (q('Integer::d_value'), q('Rational::d_value')):
            return b
        if m == 'd_size':
            return b[1] if isinstance(b, tuple) and b[0] == 'bv' else ('width', b)
        if m == 'd_value':
            return self.val(b)
        if m == 'd_str':
            return b[1] if isinstance(b, tuple) and b[0] == 'string' else ('chars', b)
        if m in ('#num', '_mp_num'):
            return ('num', b)
        if m in ('#den', '_mp_den'):
            return ('den', b)
        return (m, b)

    def val(self, b):
        if isinstance(b, tuple) and b[0] == 'bv':
            return self.app('fr2', [b[2], b[1]])
        return ('val', b)

    def bv(self, n, x):
        """x modulo two to the n"""
        def strip(y):
            if isinstance(y, tuple) and y[0] == 'fr2' and y[2] == n:
                return strip(y[1])
            if isinstance(y, tuple) and y[0] == '+':
                r = y[2]
                for a, k in y[1]:
                    r = self.app('+', [r, self.app('*', [k, strip(a)])])
                return r
            if isinstance(y, tuple) and y[0] == '*':
                return self.app('*', [strip(a) for a in y[1:]])
            return y
        return ('bv', n, strip(x))

    def new(self, n, xs):
        if n == '__gmp_expr':
            return xs[0] if len(xs) == 1 else ('frac', *xs) if xs else 0
        if n == 'Integer':
            return 0 if not xs else xs[0] if len(xs) == 1 else ('read', *xs)
        if n == 'Rational':
            if len(xs) == 1 or not xs:
                return xs[0] if xs else 0
            return ('readq' if isinstance(xs[1], int) and xs[1] in (2, 10, 16) and not (isinstance(xs[0], tuple) and xs[0][0] in ('read', 'val')) else 'frac', *xs)
        if n == 'BitVector':
            if len(xs) <= 1:
                return self.bv(xs[0] if xs else 0, 0)
            return self.bv(*xs) if not isinstance(xs[1], int) or xs[1] not in (2, 16) or self.width(xs[0]) else ('readbv', *xs)
        if n == 'String':
            return ('string', xs[0] if xs else ('list',)) if len(xs) <= 1 else ('string', *xs)
        return (n, *xs)

    def width(self, x):
        return isinstance(x, int) or isinstance(x, tuple) and x[0] in ('width', '+')

    def lin(self, x):
        if isinstance(x, bool) or not isinstance(x, (int, tuple, str)):
            return {x: 1}, 0
        if isinstance(x, int):
            return {}, x
        if isinstance(x, tuple) and x[0] == '+':
            return dict(x[1]), x[2]
        return {x: 1}, 0

    def unlin(self, d, k):
        d = {a: n for a, n in d.items() if n}
        if not d:
            return k
        if k == 0 and len(d) == 1 and list(d.values()) == [1]:
            return next(iter(d))
        return ('+', tuple(sorted(d.items(), key=repr)), k)

    def app(self, n, xs):
        if n in ('+', '-', 'neg', 'com', '*') and not any(isinstance(x, str) and not x.startswith('p') and x != 'this' for x in xs) \
                and all(isinstance(x, (int, tuple, str)) for x in xs):
            if n in ('+', '-') and len(xs) == 2 and not (n == '+' and any(isinstance(x, tuple) and x[0] in ('text', 'rep', 'hex') for x in xs)):
                (a, k), (b, m) = self.lin(xs[0]), self.lin(xs[1])
                s = 1 if n == '+' else -1
                r = dict(a)
                for x, c in b.items():
                    r[x] = r.get(x, 0) + s * c
                return self.unlin(r, k + s * m)
            if n in ('-', 'neg') and len(xs) == 1:
                a, k = self.lin(xs[0])
                return self.unlin({x: -c for x, c in a.items()}, -k)
            if n == 'com':
                a, k = self.lin(xs[0])
                return self.unlin({x: -c for x, c in a.items()}, -k - 1)
            if n == '*' and len(xs) == 2:
                for x, y in (xs, xs[::-1]):
                    if isinstance(x, int):
                        a, k = self.lin(y)
                        return self.unlin({z: c * x for z, c in a.items()}, k * x)
        if n == 'id':
            return xs[0]
        if n == 'cat':
            xs = [y for x in xs for y in (x[1:] if isinstance(x, tuple) and x[0] == 'cat' else (x,)) if y != ('list',)]
            if len(xs) == 1:
                return xs[0]
        if n in SYM:
            xs = sorted(xs, key=repr)
        if n == 'not':
            if isinstance(xs[0], tuple) and xs[0][0] == 'not':
                return xs[0][1]
            if isinstance(xs[0], bool):
                return not xs[0]
        if n in ('eq', 'lt'):
            for x, y in (xs, xs[::-1]):
                # the sign of a comparison
                if isinstance(x, tuple) and x[0] == 'cmp' and y == 0 and isinstance(y, int):
                    return self.app(n, list(x[1:]) if x is xs[0] else list(x[:0:-1]))
                if isinstance(x, tuple) and x[0] == '_mp_size' and y == 0 and isinstance(y, int):
                    return self.app(n, [self.app('sgn', [x[1]]) if z is x else z for z in xs])
        if n == 'sgn' and isinstance(xs[0], tuple) and xs[0][0] == 'num':
            xs = [xs[0][1]]
        if n == 'mul2' and isinstance(xs[0], int) and isinstance(xs[1], int) and 0 <= xs[1] < 64:
            return xs[0] << xs[1]
        if n == 'fr2' and isinstance(xs[0], int) and xs[0] == 0:
            return 0
        return (n, *xs)

    def call(self, name, obj, xs):
        n = name.split('::')[-1]
        xs = ([obj] if obj is not None else []) + xs
        if name.startswith('__gmpz_'):
            return self.app(MPZ.get(name[7:], name), xs)
        if name == 'canonicalize':
            # in lowest terms
            x = xs[0]
            return ('lowest', *x) if isinstance(x, tuple) and x[0] in ('frac', 'read') else x
        if name.startswith('ethos::operator') and obj is None and len(xs) in (1, 2):
            # bit vectors
            if n in ('operator==', 'operator!='):
                r = ('samebv', *sorted(xs, key=repr))
                return r if n == 'operator==' else ('not', r)
            w = ('width', xs[0]) if not (isinstance(xs[0], tuple) and xs[0][0] == 'bv') else xs[0][1]
            if n in ('operator<<',):
                return (n, *xs)
            return self.bv(w, self.app(INT.get(n, n), [self.val(x) for x in xs]))
        if name.startswith(q('BitVector::')):
            if n == 'getSize':
                return self.member('BitVector::d_size', xs[0])
            if n in ('getValue', 'toInteger'):
                return self.val(xs[0])
        if n in ('operator==', 'operator!=', 'operator>', 'operator<', 'operator>=', 'operator<=', 'equals'):
            op = n[8:] if n != 'equals' else '=='
            a = {'==': ('eq', 0, 1), '!=': ('eq', 0, 1), '<': ('lt', 0, 1), '>=': ('lt', 0, 1), '>': ('lt', 1, 0), '<=': ('lt', 1, 0)}[op]
            r = self.app(a[0], [xs[a[1]], xs[a[2]]])
            return r if op in ('==', '<', '>') else self.app('not', [r])
        if name.startswith((q('Integer::'), q('Rational::'), '__gmp_expr::')) or name.startswith('operator') or name == 'sgn' or name == 'cmp':
            k = INT.get(n, n)
            if k == 'text' and len(xs) == 1:
                xs.append(10)
            return self.app(k, xs)
        if name.startswith(q('String::')):
            if n == 'size':
                return ('size', self.member('String::d_str', xs[0]))
            if n == 'getVec':
                return self.member('String::d_str', xs[0])
        if n == 'find' and len(xs) == 3 and xs[2] == 0:
            xs = xs[:2]
        return (n, *xs)

    def facts(self, s):
        r = {}

        def put(n, v):
            while isinstance(n, tuple) and n[0] == 'not':
                n, v = n[1], not v
            r[n] = v
            if isinstance(n, tuple) and n[0] == 'eq' and v is True:
                r[('lt', n[1], n[2])] = r[('lt', n[2], n[1])] = False
        for k, v in s.facts.items():
            put(self(k), v)
        for k, d in s.dom.items():
            x = self(k)
            for y in d[1]:
                if d[0] != 'in' or len(d[1]) == 1:
                    put(self.app('eq', [x, self(y)]), d[0] == 'in')
        for k, (lo, hi) in s.rng.items():
            x = self(k)
            if lo is not None:
                put(self.app('lt', [x, lo]), False)
            if hi is not None:
                put(self.app('lt', [hi, x]), False)
        self.ranges = [(self(k), v) for k, v in s.rng.items()]
        return r

    def signs(self, s, x):
        """signs that x may have"""
        F = self.facts(s)
        r = set()
        for g in (-1, 0, 1):
            ok = True
            for k, v in F.items():
                if not (isinstance(k, tuple) and k[0] in ('eq', 'lt')):
                    continue
                a, b = k[1], k[2]
                if a in (('sgn', x), x) and isinstance(b, int):
                    w = None if a == x and b != 0 else (g == b if k[0] == 'eq' else g < b)
                elif b in (('sgn', x), x) and isinstance(a, int):
                    w = None if b == x and a != 0 else (g == a if k[0] == 'eq' else a < g)
                else:
                    continue
                ok = ok and (w is None or w is v)
            if ok:
                r.add(g)
        return r


N = Nv()
T, A, B2 = 'this', 'p0', 'p1'


def sig(f):
    r = []
    for p in f.params:
        t = p.get('ty', '').replace('const ', '').replace(' &', '').strip()
        r.append('z' if '__mpz' in t else 'qq' if '__mpq' in t else 'str' if t.startswith(STR) else 'vec' if t.startswith('std::vector') else t.replace('ethos::', ''))
    return tuple(r)


def add(*xs):
    r = 0
    for x in xs:
        r = N.app('+', [r, x])
    return r


def neg(x):
    return N.app('-', [x])


# functions with one value: [name, types of the parameters, values]
W, V = (lambda b: ('width', b)), (lambda b: ('val', b))
PLAIN = [
    ('Integer::operator==', None, [N.app('eq', [T, A])]), ('Integer::operator>', None, [('lt', A, T)]), ('Integer::operator>=', None, [('not', ('lt', T, A))]),
    ('Integer::operator-', None, [neg(T)]), ('Integer::operator+', None, [add(T, A)]), ('Integer::operator*', None, [N.app('*', [T, A])]),
    ('Integer::bitwiseOr', None, [N.app('or', [T, A])]), ('Integer::bitwiseAnd', None, [N.app('and', [T, A])]), ('Integer::bitwiseXor', None, [N.app('xor', [T, A])]),
    ('Integer::bitwiseNot', None, [N.app('com', [T])]), ('Integer::multiplyByPow2', None, [('mul2', T, A)]), ('Integer::modByPow2', None, [('fr2', T, A)]),
    ('Integer::fitsUnsignedInt', None, [('fits', T)]), ('Integer::toUnsignedInt', None, [('ui', T)]),
    ('Integer::extractBitRange', None, [('fq2', ('fr2', T, add(A, B2)), B2), ('fr2', ('fq2', T, B2), A)]),
    ('Integer::floorDivideQuotient', None, [('fq', T, A)]), ('Integer::floorDivideRemainder', None, [('fr', T, A)]),
    ('Integer::pow', None, [('pow', T, A)]), ('Integer::toString', None, [('text', T, A)]), ('Integer::getValue', None, [T]), ('Integer::get_mpz', None, [T]),
    ('Rational::floor', None, [('fq', ('num', T), ('den', T))]), ('Rational::operator-', None, [neg(T)]), ('Rational::operator+', None, [add(T, A)]),
    ('Rational::operator*', None, [N.app('*', [T, A])]), ('Rational::operator/', None, [('/', T, A)]), ('Rational::operator==', None, [N.app('eq', [T, A])]),
    ('Rational::operator>', None, [('lt', A, T)]), ('Rational::isIntegral', None, [N.app('eq', [('den', T), 1])]), ('Rational::toString', None, [('text', T, A)]),
    ('Rational::toStringDecimal', None, [('text', T, 10)]),
    ('BitVector::getSize', None, [W(T)]), ('BitVector::getValue', None, [V(T)]), ('BitVector::toInteger', None, [V(T)]),
    ('BitVector::concat', None, [N.bv(add(W(T), W(A)), add(('mul2', V(T), W(A)), V(A))), N.bv(add(W(T), W(A)), N.app('or', [('mul2', V(T), W(A)), V(A)]))]),
    ('BitVector::extract', None, [N.bv(add(A, neg(B2), 1), ('extractBitRange', V(T), add(A, neg(B2), 1), B2)), N.bv(add(A, neg(B2), 1), ('fq2', V(T), B2))]),
    ('operator~', ('BitVector',), [N.bv(W(A), N.app('com', [V(A)]))]), ('operator-', ('BitVector',), [N.bv(W(A), neg(V(A)))]),
    ('operator+', ('BitVector', 'BitVector'), [N.bv(W(x), add(V(A), V(B2))) for x in (A, B2)]),
    ('operator*', ('BitVector', 'BitVector'), [N.bv(W(x), N.app('*', [V(A), V(B2)])) for x in (A, B2)]),
    ('operator|', ('BitVector', 'BitVector'), [N.bv(W(x), N.app('or', [V(A), V(B2)])) for x in (A, B2)]),
    ('operator&', ('BitVector', 'BitVector'), [N.bv(W(x), N.app('and', [V(A), V(B2)])) for x in (A, B2)]),
    ('operator^', ('BitVector', 'BitVector'), [N.bv(W(x), N.app('xor', [V(A), V(B2)])) for x in (A, B2)]),
    ('String::concat', None, [('string', ('cat', ('chars', T), ('chars', A)))]), ('String::size', None, [('size', ('chars', T))]),
    ('String::getVec', None, [('chars', T)]), ('String::num_codes', None, [196608]), ('String::operator==', None, [N.app('eq', [('cmp', T, A), 0]), N.app('eq', [T, A]),
                                                                                                                  N.app('eq', [('chars', T), ('chars', A)])]),
]
# constructors: {types: {member: value}}
CTOR = {
    'Integer': {('z',): A, (): 0, ('unsigned int',): A, ('Integer',): A, ('str', 'unsigned int'): ('frac', A, B2)},
    'Rational': {('qq',): A, (): 0, ('Rational',): A, ('Integer',): A, ('str', 'unsigned int'): ('lowest', 'frac', A, B2), ('Integer', 'Integer'): ('lowest', 'frac', A, B2)},
    'BitVector': {('unsigned int', 'Integer'): (A, ('fr2', B2, A)), ('unsigned int',): (A, 0), ('unsigned int', 'BitVector'): (A, V(B2)), ('BitVector',): (W(A), V(A))},
    'String': {('str', 'bool'): ('toInternal', A, B2), ('String',): ('chars', A), (): ('list',), ('vec',): A},
}
KEY = {'Integer': ('d_value',), 'Rational': ('d_value',), 'BitVector': ('d_size', 'd_value'), 'String': ('d_str',)}


def overloads(c, name, types):
    r = []
    for f in c.prog.fn(name):
        if f.blocks and (types is None and f.file.startswith('util/') or types is not None and sig(f) == types):
            r.append(f)
    return r


def ana(c, f, **kw):
    return c.analyze(f, inv=True, wrap=True, **kw)


def run(c, escape=True):
    c.rule('value-plain', 'an operation on numbers, bit vectors or strings has its mathematical value', 40)
    c.rule('value-made', 'a number, bit vector or string is made with the value it is given, in lowest terms and within its width', 12)
    c.rule('value-euclid', 'quotient and remainder of integers are Euclidean', 2)
    c.rule('value-sign', 'the sign of a number', 4)
    c.rule('value-bv', 'a bit vector that is read has the width of its digits, and is written with all of them', 6)
    c.rule('value-string', 'strings are compared, searched, cut and written character by character', 10)
    plain(c)
    made(c)
    euclid(c)
    signs(c)
    decimal(c)
    readbv(c)
    writebv(c)
    samebv(c)
    divbv(c)
    extend(c)
    strings(c)
    written(c)
    if escape:
        c.rule('value-escape', 'a well formed escape sequence is its code point, everything else is kept as it is written', 20)
        escapes(c)


def reading(c):
    """what the text of a literal denotes"""
    c.rule('value-made', 'a number, bit vector or string is made with the value it is given, in lowest terms and within its width', 12)
    c.rule('value-bv', 'a bit vector that is read has the width and the value of its digits', 4)
    c.rule('value-escape', 'a well formed escape sequence is its code point, everything else is kept as it is written', 20)
    c.rule('value-string', 'hexadecimal digits', 2)
    ranges(c, 'String::isDigit', [(48, 57)])
    ranges(c, 'String::isHexDigit', [(48, 57), (65, 70), (97, 102)], inline={q('String::isDigit')})
    made(c)
    decimal(c)
    readbv(c)
    escapes(c)


def plain(c):
    for name, types, want in PLAIN:
        for f in overloads(c, name, types):
            r = ana(c, f, inline=PRINT if name.startswith('Rational::to') else ())
            c.ob('value-plain', bool(r.exits), f, '%s ends' % name)
            for t, s in r.exits:
                v = N(t)
                c.ob('value-plain', v in want, f, name, detail='%s' % (v,), st=s)


def made(c):
    for cls, ctors in CTOR.items():
        for f in c.prog.fn('%s::%s' % (cls, cls)):
            k = sig(f)
            if k not in ctors or not f.blocks:
                continue
            r = ana(c, f)
            for t, s in r.exits:
                want = ctors[k] if len(KEY[cls]) > 1 else (ctors[k],)
                for m, w in zip(KEY[cls], want):
                    x = post(r, s, '%s::%s' % (cls, m))
                    v = N(x) if x is not None else None
                    ok = v == w
                    c.ob('value-made', ok, f, '%s of a %s made from (%s)' % (m, cls, ', '.join(k)), detail='%s' % (v,), st=s)
    for cls in ('Integer', 'Rational', 'BitVector', 'String'):
        for f in c.prog.fn('%s::operator=' % cls):
            if not f.blocks:
                continue
            for t, s in ana(c, f).exits:
                for m in KEY[cls]:
                    x = post(None, s, '%s::%s' % (cls, m))
                    v = N(x)
                    w = {'d_size': W, 'd_value': V, 'd_str': lambda b: ('chars', b)}[m] if cls in ('BitVector', 'String') else (lambda b: b)
                    same = any(isinstance(k, tuple) and k[0] == 'eq' and b is True and 'this' in k[1:] for k, b in N.facts(s).items())
                    c.ob('value-made', v == w(A) or same and v == w(T), f, '%s of a %s that is assigned' % (m, cls), detail='%s' % (v,), st=s)


PRINT = {q('Rational::toString')}


def post(r, s, field, base=THIS):
    fn = q(field)
    p = ('F', base, fn)
    v = s.env.get(p)
    if v is not None:
        return v
    return mk('f', fn, base, s.ep.get(fn, 0))


def euclid(c):
    for fn, kind_ in (('Integer::euclidianDivideQuotient', 'q'), ('Integer::euclidianDivideRemainder', 'r')):
        for f in overloads(c, fn, None):
            r = ana(c, f, inline={q('Integer::euclidianQR'), q('Integer::operator='), q('Integer::Integer')})
            c.ob('value-euclid', bool(r.exits), f, '%s ends' % fn)
            fq, fr = ('fq', T, A), ('fr', T, A)
            for t, s in r.exits:
                v = N(t)
                sr, sy = N.signs(s, fr), N.signs(s, A)
                # the remainder of a division rounded down has the sign of the divisor
                sy -= {0}
                if 1 not in sr and -1 not in sr:
                    neg_ = {False}
                else:
                    neg_ = {g < 0 for g in sr if g == 0 or g in sy}
                ok = True
                for n in neg_:
                    if not n:
                        good = [fq, ] if kind_ == 'q' else [fr]
                        if sy == {-1}:
                            good += [('cq', T, A)] if kind_ == 'q' and False not in () else [('cr', T, A)]
                    else:
                        good = [add(fq, 1), ('cq', T, A)] if kind_ == 'q' else [add(fr, neg(A)), ('cr', T, A)]
                    ok = ok and v in good
                c.ob('value-euclid', ok, f, '%s' % fn, detail='%s' % (v,), st=s)


def signs(c):
    for fn in ('Integer::sgn', 'Rational::sgn'):
        for f in overloads(c, fn, None):
            r = ana(c, f)
            for t, s in r.exits:
                v = N(t)
                g = N.signs(s, T)
                ok = v == ('sgn', T) or isinstance(v, int) and not isinstance(v, bool) and g == {v} or \
                    v == ('lt', 0, ('sgn', T)) and -1 not in g or g == {v}
                c.ob('value-sign', ok, f, fn, detail='%s %s' % (v, g), st=s)


def decimal(c):
    for f in overloads(c, 'Rational::fromDecimal', None):
        r = ana(c, f)
        P = ('find', A, '.')
        for t, s in r.exits:
            v, F = N(t), N.facts(s)
            none = [b for k, b in F.items() if isinstance(k, tuple) and k[0] == 'eq' and P in k[1:] and any(isinstance(x, int) and abs(x) >= 1 << 31 or x == -1 for x in k[1:])]
            digits = ('erase', A, P, 1)
            if True in none:
                c.ob('value-made', v in (('readq', A, 10), ('frac', ('read', A, 10), 1), ('read', A, 10)), f, 'a decimal without point', detail='%s' % (v,), st=s)
                continue
            places = [add(('size', digits), neg(P)), add(('size', A), neg(P), -1)]
            c.ob('value-made', False in none, f, 'a decimal with point has one', st=s)
            ok = isinstance(v, tuple) and v[0] == 'frac' and v[1] == ('read', digits, 10) and isinstance(v[2], tuple) and v[2][:2] == ('pow', 10)
            n = v[2][2] if ok else None
            c.ob('value-made', ok and n in places, f, 'a decimal with point', detail='%s' % (v,), st=s)


def readbv(c):
    for f in c.prog.fn('BitVector::BitVector'):
        if sig(f) != ('str', 'unsigned int'):
            continue
        for base, k in ((2, 1), (16, 4)):
            r = ana(c, f, params={1: I(base)})
            c.ob('value-bv', bool(r.exits), f, 'reading in base %d ends' % base)
            for t, s in r.exits:
                w, v = N(post(r, s, 'BitVector::d_size')), N(post(r, s, 'BitVector::d_value'))
                c.ob('value-bv', w == N.app('*', [k, ('size', A)]), f, 'width of digits in base %d' % base, detail='%s' % (w,), st=s)
                c.ob('value-bv', v == ('read', A, base), f, 'value of digits in base %d' % base, detail='%s' % (v,), st=s)


def writebv(c):
    for f in overloads(c, 'BitVector::toString', None):
        for base in (2, 16):
            r = ana(c, f, params={0: I(base)})
            c.ob('value-bv', bool(r.exits), f, 'writing in base %d ends' % base)
            txt = ('text', V(T), base)
            n = W(T) if base == 2 else N.app('i/', [add(W(T), 3), 4])
            for t, s in r.exits:
                F = N.facts(s)
                short = F.get(('lt', ('size', txt), n))
                if short is None:
                    short = {True: False, False: None}.get(F.get(N.app('eq', [('size', txt), n])))
                zero = F.get(N.app('eq', [W(T), 0]))
                if zero is None:
                    zero = {True: True, False: False}.get(F.get(('lt', W(T), 1)))
                if t is S(''):
                    ok = zero is True
                elif N(t) == txt:
                    ok = short is False and zero is False
                else:
                    ok = short is not False and padded(r, s, t, txt, n)
                c.ob('value-bv', ok, f, 'digits in base %d' % base, detail='%s short %s empty %s' % (show(t), short, zero), st=s)


def padded(r, s, t, txt, n):
    """zeros and the digits, n characters in all"""
    if t.op == 'plus' and N(t.a[1]) == txt:
        z = t.a[0]
        if z.op == 'rep':
            return z.a[1] in (S('0'), I(48)) and N(z.a[0]) == add(n, neg(('size', txt)))
        if z.op == 'it' and z.a[-1] is S('') and z in r.loopvals:
            return all(one_zero(w, z) for w in r.loopvals[z]) and times(r, s, z, add(n, neg(('size', txt))), [])
        return False
    if t.op == 'it' and N(t.a[-1]) == txt:
        return all(w.op == 'plus' and w.a[0] is S('0') and w.a[1] is t for w in r.loopvals.get(t, ())) and times(r, s, t, add(n, neg(('size', txt))), [(t, n)])
    if t.op == 'insert' or t.op == 'r' and t.a[0].split('::')[-1] == 'insert':
        return False
    return False


def one_zero(w, z):
    """one zero appended to z"""
    if w.op in ('plus', 'cat', 'push'):
        return w.a[0] is z and w.a[1] in (S('0'), I(48))
    return w.op in ('o', 'r') and w.a[0].split('::')[-1] in ('append', 'push_back', 'operator+=') and any(S('0') in a or I(48) in a for a in w.a if isinstance(a, tuple))


def times(r, s, z, n, grown):
    """the loop of z runs n times"""
    site = z.a[0]
    for u, b in s.facts.items():
        if u.op != 'lt' or b is not False:
            continue
        x, y = u.a
        for i, lim, up in ((x, y, True), (y, x, False)):
            if i.op == 'it' and i.a[0] == site and i in r.loopvals and i not in r.unsure and i is not z:
                i0 = i.a[-1]
                ws = r.loopvals[i]
                if up and all(N(w) == add(N(i), 1) for w in ws) and add(N(lim), neg(N(i0))) == n:
                    return True
                if not up and all(N(w) == add(N(i), -1) for w in ws) and add(N(i0), neg(N(lim))) == n:
                    return True
        if grown and x.op == 'size' and x.a[0] is z and N(y) == grown[0][1]:
            return True
    for i, vs in r.loopvals.items():
        if i.op == 'it' and i.a[0] == site and i not in r.unsure and (s.truth(eq(i, I(0))) is True or s.truth(lt(I(0), i)) is False) and all(N(w) == add(N(i), -1) for w in vs) and N(i.a[-1]) == n:
            return True
    return False


def samebv(c):
    for f in overloads(c, 'operator==', ('BitVector', 'BitVector')):
        r = ana(c, f)
        wd = N.app('eq', [W(A), W(B2)])
        vl = N.app('eq', [V(A), V(B2)])
        for t, s in r.exits:
            v, F = N(t), N.facts(s)
            if v is True:
                ok = F.get(wd) is True and F.get(vl) is True
            elif v is False:
                ok = F.get(wd) is False or F.get(vl) is False
            elif v == vl:
                ok = F.get(wd) is True
            elif v == wd:
                ok = F.get(vl) is True
            else:
                ok = v in (('band', wd, vl), ('band', vl, wd))
            c.ob('value-plain', ok, f, 'equality of bit vectors', detail='%s' % (v,), st=s)


def divbv(c):
    for fn, by0, op in (('unsignedDivTotal', None, 'fq'), ('unsignedRemTotal', V(T), 'fr')):
        for f in overloads(c, 'BitVector::' + fn, None):
            r = ana(c, f)
            for t, s in r.exits:
                v, g = N(t), N.signs(s, V(A)) - {-1}
                ones = [N.bv(W(T), ('ones', 1, 1, add(W(T), -1))), N.bv(W(T), -1), N.bv(W(T), N.app('com', [0])), N.bv(W(T), add(('mul2', 1, W(T)), -1)),
                        N.bv(W(T), ('ones', 0, 0, W(T)))]
                zero = ones if op == 'fq' else [N.bv(W(T), V(T)), T]
                other = [N.bv(W(x), (op, V(T), V(A))) for x in (T, A)]
                ok = (0 not in g or v in zero) and (1 not in g or v in other)
                c.ob('value-plain', ok, f, fn, detail='%s divisor %s' % (v, g), st=s)


def extend(c):
    for f in overloads(c, 'Integer::oneExtend', None):
        r = ana(c, f)
        for t, s in r.exits:
            while t.op == 'new' and len(t.a[1]) == 1:
                t = t.a[1][0]
            ok = t.op == 'it' and N(t.a[-1]) == T and t in r.loopvals and t not in r.unsure
            if not ok:
                v = N(t)
                ok = v in (add(T, ('mul2', add(('mul2', 1, B2), -1), A)),)
            else:
                for w in r.loopvals[t]:
                    ok = ok and w.op == 'r' and w.a[0] == '__gmpz_setbit' and w.a[2][0] is t
                    i = w.a[2][1] if ok else VOID
                    ok = ok and i.op == 'it' and N(i.a[-1]) == A and all(N(x) == add(N(i), 1) for x in r.loopvals[i])
                    ok = ok and any(u.op == 'lt' and b is False and u.a[0] is i and N(u.a[1]) == add(A, B2) for u, b in s.facts.items())
            c.ob('value-plain', ok, f, 'ones in front of a number', detail=show(t), st=s)


def ranges(c, fn, want, inline=()):
    """a predicate on characters: true exactly for the intervals in want"""
    for f in overloads(c, fn, None):
        r = ana(c, f, inline=inline)
        p = mk('p', 0, f.params[0]['name'])
        for t, s in r.exits:
            for b in (True, False):
                s2 = s.copy()
                if t.op == 'b' and t.a[0] is not b or t.op != 'b' and not s2.assume(t, b):
                    continue
                lo, hi = s2.interval(p)
                lo = 0 if lo is None else lo
                hi = (1 << 32) - 1 if hi is None else hi
                if lo > hi:
                    continue
                if b:
                    ok = any(x <= lo and hi <= y for x, y in want)
                else:
                    ok = not any(x <= hi and lo <= y for x, y in want)
                c.ob('value-string', ok, f, '%s is %s' % (fn, b), detail='from %d to %d' % (lo, hi), st=s2)


def strings(c):
    ranges(c, 'String::isDigit', [(48, 57)])
    ranges(c, 'String::isHexDigit', [(48, 57), (65, 70), (97, 102)], inline={q('String::isDigit')})
    ranges(c, 'String::isPrintable', [(32, 126)])
    CT, CA = ('chars', T), ('chars', A)
    for f in overloads(c, 'String::cmp', None):
        r = ana(c, f)
        for t, s in r.exits:
            v, F = N(t), N.facts(s)
            c.ob('value-string', isinstance(v, int), f, 'strings are compared', detail='%s' % (v,), st=s)
            sz = F.get(N.app('eq', [('size', CT), ('size', CA)]))
            if v == 0 and isinstance(v, int):
                # all characters were found to be equal
                ok = sz is True and bool(r.backs)
                for g, h, st, ctx in r.backs:
                    ok = ok and any(same_char(r, s, k) for k, b in st.facts.items() if b is True and k.op == 'eq')
                c.ob('value-string', ok, f, 'equal strings have equal characters', st=s)
            else:
                ch = [k for k, b in s.facts.items() if k.op == 'eq' and b is False and same_place(k)]
                c.ob('value-string', sz is False or bool(ch), f, 'different strings differ', st=s)
    for f in overloads(c, 'String::find', None):
        r = ana(c, f)
        for t, s in r.exits:
            v, F = N(t), N.facts(s)
            sz = lambda x: ('size', x)
            beyond = F.get(('lt', sz(CT), add(sz(CA), B2)))
            empty = F.get(N.app('eq', [sz(CA), 0]))
            me = F.get(N.app('eq', [sz(CT), 0]))
            hit = ('search', add(('begin', CT), B2), ('end', CT), ('begin', CA), ('end', CA))
            found = {True: False, False: True}.get(F.get(N.app('eq', [hit, ('end', CT)])))
            if isinstance(v, int) and (v < 0 or v >= 1 << 31):
                # a nonempty string is not found in an empty one
                ok = beyond is True or empty is False and (found is False or me is True)
            elif v == B2:
                ok = beyond is False and empty is True
            else:
                ok = beyond is False and found is True and v in (add(hit, neg(('begin', CT))), ('distance', ('begin', CT), hit))
            c.ob('value-string', ok, f, 'position of a string', detail='%s' % (v,), st=s)
    for f in overloads(c, 'String::substr', None):
        r = ana(c, f)
        for t, s in r.exits:
            x = t.a[1][0] if t.op == 'new' and t.a[0] == q('String') and len(t.a[1]) == 1 else None
            lo, hi = add(('begin', CT), A), add(('begin', CT), A, B2)
            ok = False
            if x is not None and x.op == 'o' and x.a[0].split('::')[-1] in ('insert', 'assign'):
                a = [N(y) for y in x.a[3]] if len(x.a) > 3 and isinstance(x.a[3], tuple) else []
                ok = a[-2:] == [lo, hi]
            elif x is not None and x.op == 'cont' and x.a[0] == 'vector':
                ok = [N(y) for y in x.a[1][:2]] == [lo, hi]
            elif x is not None:
                v = N(x)
                ok = v in (('vector', lo, hi), ('slice', CT, A, add(A, B2))) or isinstance(v, tuple) and v[-2:] == (lo, hi)
            c.ob('value-string', ok, f, 'part of a string', detail=show(t), st=s)


def same_place(k):
    x, y = k.a
    return x.op == 'idx' and y.op == 'idx' and x.a[1] is y.a[1] and {N(x.a[0]), N(y.a[0])} == {('chars', T), ('chars', A)}


def same_char(r, s, k):
    """k compares the characters at a place that goes over the whole string"""
    if not same_place(k):
        return False
    x, y = k.a
    return any(sweep(r, s, z, 0) == (z.a[0], 1) or counted(r, s, z.a[1], (x.a[0], y.a[0])) for z in (x, y))


def counted(r, s, i, strs):
    if not (i.op == 'it' and i.a[-1] is I(0) and i in r.loopvals and all(N(w) == add(N(i), 1) for w in r.loopvals[i])):
        return False
    return ended(s, i, [('size', N(x)) for x in strs])


def ended(s, i, sizes):
    """the counter i has come to the end"""
    return any(u.op == 'lt' and b is False and u.a[0] is i and N(u.a[1]) in sizes or u.op == 'eq' and b is True and (u.a[0] is i and N(u.a[1]) in sizes or u.a[1] is i and N(u.a[0]) in sizes)
               for u, b in s.facts.items())


def chars_of(t):
    """a sequence as [items], the first may be a whole sequence"""
    if t.op == 'push':
        return chars_of(t.a[0]) + [t.a[1]]
    if t.op == 'list':
        return list(t.a[0])
    if t.op == 'cat':
        return chars_of(t.a[0]) + [('all', t.a[1])] if t.a[1].op not in ('list', 'push') else chars_of(t.a[0]) + chars_of(t.a[1])
    return [('all', t)]


def escapes(c):
    """String::toInternal: every character is kept, but for well formed escape sequences"""
    for f in overloads(c, 'String::toInternal', None):
        P, U = mk('p', 0, f.params[0]['name']), mk('p', 1, f.params[1]['name'])
        r = ana(c, f, inline={q('String::addCharToInternal')}, watch=lambda e: e.kind == 'out')
        c.ob('value-escape', bool(r.exits), f, 'reading of characters ends')
        for t, s in r.exits:
            if t.op != 'it' or t not in r.loopstates:
                c.ob('value-escape', False, f, 'the characters that were read', detail=show(t), st=s)
                continue
            # the place of the outer loop
            ctr = [i for i in r.loopvals if i.op == 'it' and i.a[0] == t.a[0] and i.a[-1] is I(0)]
            at = [(i, x) for i in ctr for x in (lt(i, size(P)),) if s.truth(x) is False]
            if len(at) != 1:
                c.ob('value-escape', False, f, 'all characters are read', st=s)
                continue
            i0 = at[0][0]
            c.ob('value-escape', t.a[-1] is EMPTY or t.a[-1].op == 'list' and not t.a[-1].a[0], f, 'nothing before the first character', st=s)
            for w, st in r.loopstates[t]:
                j = [v for k, v in st.env.items() if k[0] == 'L' and k[-1] == i0.a[1]]
                J = j[0] if len(j) == 1 else VOID
                step(c, f, r, t, w, st, P, U, i0, J)


def step(c, f, r, t, w, st, P, U, i0, J):
    ch = lambda i: index(P, i)
    nxt = mk('plus', i0, I(1))
    esc = st.truth(eq(ch(i0), I(92)))
    u = st.truth(U)
    if w is t:
        c.ob('value-escape', J is i0, f, 'no character is left out', detail=show(J), st=st)
        return
    new = chars_of(w)
    if not new or new[0] != ('all', t):
        c.ob('value-escape', False, f, 'what was read is kept', detail=show(w), st=st)
        return
    new = new[1:]
    if len(new) == 1 and isT(new[0]) and new[0] is ch(i0) and J is nxt and (esc is False or u is False):
        c.ob('value-escape', True, f, 'an ordinary character')
        return
    V = new[0] if len(new) == 1 and isT(new[0]) else VOID
    if V.op == 'o' or V.op == 'r' and V.a[0].split('::')[-1] in ('stoul', 'stoi', 'stol', 'strtoul'):
        escape(c, f, r, st, P, U, i0, J, V)
        return
    ok = lockstep(r, new, J, i0, P)
    c.ob('value-escape', ok, f, 'what is no escape sequence is kept as it is written', detail='%s up to %s' % (new, show(J)), st=st)
    # and why it is none
    why = esc is False or u is False or st.truth(lt(nxt, size(P))) is False or st.truth(eq(ch(nxt), I(117))) is False
    brace, empty, four, many, val = known_escape(r, st)
    for k in chars_seen(st, P):
        if any(v is False and x.op == 'r' and x.a[0] == q('String::isHexDigit') and x.a[2] == (k,) for x, v in st.facts.items()):
            why = True
        if st.truth(eq(k, I(125))) is True and (brace is False or empty is True or empty is None and brace is not True):
            why = True
    for i in r.loopvals:
        if i.op == 'it' and i.a[0] != i0.a[0] and st.truth(lt(i, size(P))) is False:
            why = True
    why = why or val is False or many is True
    c.ob('value-escape', why, f, 'only what is no escape sequence is kept as it is written', detail=show(w), st=st)


def chars_seen(st, P):
    return {x for k in list(st.facts) + list(st.dom) for x in subterms(k) if x.op == 'idx' and x.a[0] is P}


def known_escape(r, st):
    """(in braces, without digits, four digits, too many digits, a code point)"""
    brace = empty = four = many = val = None
    B_ = [i for i in r.loopvals if i.op == 'it' and i.a[-1] is FALSE and TRUE in r.loopvals[i]]
    for i in B_:
        if st.truth(i) is not None:
            brace = st.truth(i)
    for z in {x for k in list(st.facts) + list(st.dom) + list(st.rng) for x in subterms(k) if x.op == 'size' and streamy(x.a[0])}:
        lo, hi = st.interval(z)
        if st.truth(eq(z, I(0))) is not None:
            empty = st.truth(eq(z, I(0)))
        elif lo is not None and lo > 0:
            empty = False
        four = st.truth(eq(z, I(4))) if four is None else four
        if st.truth(lt(I(5), z)) is not None:
            many = st.truth(lt(I(5), z))
    for k, v in st.facts.items():
        if k.op == 'lt' and k.a[0].op in ('o', 'r') and (k.a[1] is I(196608) or k.a[1].op == 'r' and k.a[1].a[0] == q('String::num_codes')):
            val = v
        if k.op == 'lt' and k.a[1].op in ('o', 'r') and k.a[0] is I(196607):
            val = not v
    for k, (lo, hi) in st.rng.items():
        if k.op == 'o' and hi == 196607:
            val = True
        if k.op == 'o' and lo == 196608:
            val = False
    return brace, empty, four, many, val


def streamy(t):
    return any(x.op == 'new' and 'stringstream' in x.a[0] for x in subterms(t)) or t.op in ('it', 'push', 'plus')


def lockstep(r, new, J, i0, P, depth=0):
    """the characters from i0 up to J, in order"""
    cur = J
    for x in reversed(new):
        if isinstance(x, tuple):
            x = x[1]
            # characters kept by an inner loop, together with its place
            if not (x.op == 'it' and x in r.loopstates and cur.op == 'it' and cur in r.loopvals and cur.a[0] == x.a[0]):
                return False
            for w, st in r.loopstates[x]:
                js = [v for k, v in st.env.items() if k[0] == 'L' and k[-1] == cur.a[1]]
                y, n = w, 0
                while y.op == 'push':
                    n += 1
                    if len(js) != 1 or index(P, minus(js[0], n)) is not y.a[1]:
                        return False
                    y = y.a[0]
                if y is not x or len(js) != 1 or minus(js[0], n) is not cur:
                    return False
            inner = chars_of(x.a[-1])
            if any(isinstance(z, tuple) for z in inner):
                return False
            return new.index(('all', x)) == 0 and lockstep(r, inner, cur.a[-1], i0, P, depth + 1)
        cur = minus(cur, 1)
        if x is not index(P, cur):
            return False
    return cur is i0


def minus(t, n):
    if n == 0:
        return t
    if t.op == 'plus' and t.a[1].op == 'i':
        k = t.a[1].a[0] - n
        return t.a[0] if k == 0 else mk('plus', t.a[0], I(k))
    if t.op == 'i':
        return I(t.a[0] - n)
    return mk('minus', t, I(n))


def escape(c, f, r, st, P, U, i0, J, V):
    ch = lambda i: index(P, i)
    nxt = mk('plus', i0, I(1))
    ok = st.truth(eq(ch(i0), I(92))) is True and st.truth(U) is True and st.truth(eq(ch(nxt), I(117))) is True
    c.ob('value-escape', ok, f, 'an escape sequence starts with a backslash and u', st=st)
    brace, empty, four, many, val = known_escape(r, st)
    c.ob('value-escape', val is True, f, 'an escape sequence is a code point', st=st)
    last = ch(minus(J, 1))
    hexd = any(v is True and x.op == 'r' and x.a[0] == q('String::isHexDigit') and x.a[2] == (last,) for x, v in st.facts.items())
    closed = st.truth(eq(last, I(125))) is True and brace is True and empty is False
    plain = hexd and brace is False and four is True
    c.ob('value-escape', closed or plain, f, 'an escape sequence ends after four digits or with a brace', detail='last %s brace %s empty %s four %s' % (show(last), brace, empty, four), st=st)
    # the digits
    outs = [e for e in r.events if e.kind == 'out']
    ins = [e for e in outs if e.short == 'operator<<']
    exs = [e for e in outs if e.short == 'operator>>']
    for e in ins:
        d = e.args[0]
        c.ob('value-escape', d.op == 'idx' and d.a[0] is P and any(v is True and x.op == 'r' and x.a[0] == q('String::isHexDigit') and x.a[2] == (d,) for x, v in e.st.facts.items()), f,
             'only hexadecimal digits are read', detail=show(d), st=e.st)
    c.ob('value-escape', V.op == 'r' and V.a[2][-1] is I(16) or any(e.args[0].op == 'fn' and 'std::hex' in str(e.args[0].a[0]) for e in exs), f, 'digits are hexadecimal', st=st)
    # the inner loop
    for g, h, s2, ctx in r.backs:
        js = [k for k in chars_seen(s2, P) if k.a[1].op == 'it' and k.a[1].a[0] != i0.a[0]]
        if not js or js[0].a[1].a[0][-1] != h:
            continue
        for b in [i for i in r.loopvals if i.op == 'it' and i.a[0] == js[0].a[1].a[0] and i.a[-1] is FALSE and i.a[0] != i0.a[0]]:
            v = [x for k, x in s2.env.items() if k[0] == 'L' and k[-1] == b.a[1]]
            if v == [TRUE]:
                first = [i for i in r.loopvals if i.op == 'it' and i.a[0] == b.a[0] and i.a[-1] is TRUE and FALSE in r.loopvals[i]]
                c.ob('value-escape', any(s2.truth(eq(k, I(123))) is True for k in js) and (any(s2.truth(i) is True for i in first) or any(s2.truth(eq(k.a[1], mk('plus', i0, I(2)))) is True for k in js)),
                     f, 'a brace is opened before the first digit', st=s2)
        for b in [i for i in r.loopvals if i.op == 'it' and i.a[0] == js[0].a[1].a[0] and i.a[-1] is TRUE and FALSE in r.loopvals[i]]:
            v = [x for k, x in s2.env.items() if k[0] == 'L' and k[-1] == b.a[1]]
            c.ob('value-escape', v == [FALSE] or v == [b] and s2.truth(b) is False, f, 'only the first character may open a brace', st=s2)
        hx = [k for k in js if any(v is True and x.op == 'r' and x.a[0] == q('String::isHexDigit') and x.a[2] == (k,) for x, v in s2.facts.items())]
        if hx:
            br, em, fo, mny, va = known_escape(r, s2)
            c.ob('value-escape', br is True and mny is False or br is False and fo is False, f, 'digits are counted', st=s2)


def written(c):
    """String::toString: printable characters but the backslash as they are, all others as code points"""
    for f in overloads(c, 'String::toString', None):
        def on(e):
            if e.kind != 'out' or e.short != 'operator<<':
                return ()
            n = len([x for x in e.st.ts if isinstance(x, tuple) and x[0] == 'w'])
            return (('w', n, e.args[0], e.objpath or ('T', e.obj)),)
        backs = []

        def clear(g, h, s):
            return frozenset(x for x in s.ts if not (isinstance(x, tuple) and x[0] == 'w'))

        def back(g, h, s):
            backs.append(s.copy())
            return clear(g, h, s)
        r = ana(c, f, on=on, loophead=clear, loopback=back)
        n = 0
        for s in backs:
            W = [x[2:] for x in sorted((x for x in s.ts if isinstance(x, tuple) and x[0] == 'w'), key=lambda x: x[1])]
            chs = {x for w, p in W for x in subterms(w) if x.op in ('idx', 'deref') and (elem_of(x) is not None and N(elem_of(x)) == ('chars', T) or x.op == 'idx' and N(x.a[0]) == ('chars', T))}
            n += 1
            if len(chs) != 1:
                c.ob('value-string', False, f, 'every character is written', detail=str([show(w) for w, p in W]), st=s)
                continue
            d = chs.pop()
            pr = [v for k, v in s.facts.items() if k.op == 'r' and k.a[0] == q('String::isPrintable') and k.a[2] == (d,)]
            fl = s.truth(mk('p', 0, f.params[0]['name']))
            bs = s.truth(eq(d, I(92)))
            if len(W) == 1:
                ok = W[0][0] is d and pr == [True] and bs is False and fl is False
                c.ob('value-string', ok, f, 'a character written as it is', detail=str([show(w) for w, p in W]), st=s)
                continue
            hexed = [k for k, (w, p) in enumerate(W) if w is d]
            fmt = [k for k, (w, p) in enumerate(W) if w.op == 'fn' and 'std::hex' in str(w.a[0])]
            text = [w for w, p in W if w.op == 's']
            ok = len(hexed) == 1 and len(fmt) >= 1 and fmt[0] < hexed[0] and W[fmt[0]][1] == W[hexed[0]][1] and [w.a[0] for w in text] == ['\\u{', '}']
            c.ob('value-string', ok, f, 'a character written as a code point', detail=str([show(w) for w, p in W]), st=s)
            c.ob('value-string', pr == [False] or bs is True or fl is True, f, 'printable characters are written as they are', st=s)
        c.ob('value-string', n > 0, f, 'every character is written', detail='%d' % n)
        for t, s in r.exits:
            ok = any(i.op == 'it' and i.a[-1] is I(0) and all(N(w) == add(N(i), 1) for w in r.loopvals[i]) and ended(s, i, [('size', ('chars', T))]) for i in r.loopvals) or \
                any(k.op == 'eq' and v is True and any(x.op == 'end' and N(x.a[0]) == ('chars', T) for x in k.a) for k, v in s.facts.items())
            c.ob('value-string', ok, f, 'all characters are written', st=s)
