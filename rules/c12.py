"""Builtin operators on literals."""
from common import *
import values

EV = 'Literal::evaluate'
MEM = {'BOOLEAN': 'd_bool', 'NUMERAL': 'd_int', 'RATIONAL': 'd_rat', 'DECIMAL': 'd_rat', 'BINARY': 'd_bv', 'HEXADECIMAL': 'd_bv', 'STRING': 'd_str'}
KINDS = tuple(MEM)
NUM, BV = ('NUMERAL', 'RATIONAL', 'DECIMAL'), ('BINARY', 'HEXADECIMAL')
ARITY = dict(EVAL_NOT=1, EVAL_NEG=1, EVAL_IS_NEG=1, EVAL_LENGTH=1, EVAL_TO_INT=1, EVAL_TO_RAT=1, EVAL_TO_STRING=1, EVAL_INT_DIV=2, EVAL_INT_MOD=2,
             EVAL_RAT_DIV=2, EVAL_GT=2, EVAL_FIND=2, EVAL_TO_BIN=2, EVAL_EXTRACT=3)
NARY = ('EVAL_AND', 'EVAL_OR', 'EVAL_XOR', 'EVAL_ADD', 'EVAL_MUL', 'EVAL_CONCAT')
COMM = {'operator+', 'operator*', 'operator&', 'operator|', 'operator^', 'eq'}
X0, X1 = ('x', 0), ('x', 1)
SG = 'sgn'
# steps of the n-ary operators
STEP = {('EVAL_ADD', k): 'operator+' for k in NUM + BV}
STEP.update({('EVAL_MUL', k): 'operator*' for k in NUM + BV})
STEP.update({('EVAL_CONCAT', k): 'concat' for k in BV + ('STRING',)})
STEP.update({(o, k): s for o, s in (('EVAL_AND', 'operator&'), ('EVAL_OR', 'operator|'), ('EVAL_XOR', 'operator^')) for k in BV})
BOOL = {'EVAL_AND': lambda a, b: a and b, 'EVAL_OR': lambda a, b: a or b, 'EVAL_XOR': lambda a, b: a != b}


def args_term(f):
    return mk('p', 1, f.params[1]['name'])


def member(t):
    """(element term, member) if t is a member of a literal"""
    if isT(t) and t.op in ('f', 'fld') and t.a[0].split('::')[-1].startswith('d_') and 'Literal' in t.a[0]:
        b = t.a[1]
        while isinstance(b, tuple) and b[0] == 'S':
            b = b[1]
        if isinstance(b, tuple) and b[0] == 'F':
            return b[1], t.a[0].split('::')[-1]
    return None, None


class Nf:
    """terms over the arguments, without names and positions"""

    def __init__(self, f, ks, el=None):
        self.A = args_term(f)
        self.ks, self.el = ks, el      # kinds of the arguments

    def arg(self, b):
        if b.op == 'idx' and b.a[0] is self.A:
            if b.a[1].op == 'i':
                return b.a[1].a[0]
        return None

    def __call__(self, t):
        if not isT(t):
            return t
        o = t.op
        if o in ('i', 'b', 's', 'e'):
            return t.a[0]
        b, m = member(t)
        if b is not None:
            i = self.arg(b)
            if i is not None:
                # the member must be that of the kind of the argument
                return ('x', i) if i < len(self.ks) and MEM.get(self.ks[i]) == m else ('?', m, i)
        if o == 'deref' and self.arg(t.a[0]) is not None:
            return ('lit', self.arg(t.a[0]))
        if o in ('kind', 'f') and isT(t.a[-1] if o == 'kind' else t.a[1]):
            x = t.a[0] if o == 'kind' else t.a[1]
            if (o == 'kind' or t.a[0].endswith('::d_kind')) and self.arg(x) is not None:
                i = self.arg(x)
                return self.ks[i] if i < len(self.ks) else ('kind', i)
        if o == 'new':
            n = t.a[0].split('::')[-1]
            xs = [self(x) for x in t.a[1]]
            if n == 'String' and len(xs) == 2 and xs[1] is False:
                xs = xs[:1]
            if n == 'Integer' and len(xs) == 2 and xs[1] == 10:
                xs = [int(xs[0])] if isinstance(xs[0], str) and xs[0].lstrip('-').isdigit() else xs[:1]
            if n in ('Integer', 'Rational', 'BitVector', 'String') and len(xs) == 1 and isinstance(xs[0], tuple) and self.type_of(xs[0]) == n:
                return xs[0]    # a copy
            return (n,) + tuple(xs)
        if o == 'r':
            n = t.a[0].split('::')[-1]
            xs = ([self(t.a[1])] if t.a[1] is not None else []) + [self(x) for x in t.a[2]]
            if n == 'toString' and t.a[1] is not None and self.arg(t.a[1]) is not None:
                return ('toString', ('lit', self.arg(t.a[1])))
            if n == 'find' and len(xs) == 3 and xs[2] == 0:
                xs = xs[:2]
            if n == 'getValue':
                n = 'toInteger'
            return self.op(n, xs)
        if o == 'list':
            return ('list',) + tuple(self(x) for x in t.a[0])
        if o == 'idx' or o == 'size' or o in ('plus', 'minus', 'not', 'ite', 'and', 'or'):
            return self.op(o, [self(x) for x in t.a])
        if o in ('eq', 'lt'):
            return self.op(o, [self(x) for x in t.a])
        return ('?', o, t.id)

    def op(self, n, xs):
        if n == 'operator>':
            return self.op('lt', [xs[1], xs[0]])
        if n == 'operator<':
            return self.op('lt', xs)
        if n == 'operator>=':
            return ('not', self.op('lt', xs))
        if n == 'operator<=':
            return ('not', self.op('lt', [xs[1], xs[0]]))
        if n in ('operator==', 'equals'):
            return self.op('eq', xs)
        if n == 'operator!=':
            return ('not', self.op('eq', xs))
        if n in ('plus', 'minus') and len(xs) == 2 and not any(isinstance(x, str) for x in xs):
            return (n, *xs)
        if n in ('isZero',):
            return ('eq', (SG, xs[0]), 0)
        if n in ('strictlyNegative',):
            return ('lt', (SG, xs[0]), 0)
        if n in COMM and len(xs) == 2:
            xs = sorted(xs, key=repr)
            if n == 'eq' and isinstance(xs[0], (int, bool)):
                xs = xs[::-1]
        if n == 'eq' and xs[0] and xs[0][0] == SG and xs[1] == -1:
            return ('lt', xs[0], 0)
        if n == 'not' and isinstance(xs[0], tuple) and xs[0][0] == 'not':
            return xs[0][1]
        return (n, *xs)

    def type_of(self, x):
        if x[0] == 'x':
            return {'d_int': 'Integer', 'd_rat': 'Rational', 'd_bv': 'BitVector', 'd_str': 'String'}.get(MEM.get(self.ks[x[1]]))
        return {'extract': 'BitVector', 'substr': 'String', 'toInteger': 'Integer', 'floor': 'Integer', 'concat': None}.get(x[0], x[0] if x[0] in ('Integer', 'Rational', 'BitVector', 'String') else
                self.type_of(x[1]) if x[0] in ('operator/', 'operator-', 'operator~') and isinstance(x[1], tuple) else None)

    def facts(self, s):
        """what is known in a state: {normal form: truth}"""
        K = {}

        def put(t, v):
            n = self(t)
            while isinstance(n, tuple) and n[0] == 'not':
                n, v = n[1], not v
            K[n] = v
        for t, v in s.facts.items():
            put(t, v)
        for t, d in s.dom.items():
            if d[0] == 'ni':
                for x in d[1]:
                    put(eq(t, x), False)
            elif len(d[1]) == 1:
                put(eq(t, next(iter(d[1]))), True)
        for t, (lo, hi) in s.rng.items():
            n = self(t)
            if lo is not None:
                K[('ge', n, lo)] = True
                if lo > 0:
                    K[('eq', n, 0)] = False
                if lo >= 0:
                    K[('lt', n, 0)] = False
            if hi is not None and hi < 0:
                K[('lt', n, 0)] = True
                K[('eq', n, 0)] = False
            if lo is not None and lo == hi:
                K[('eq', n, lo)] = True
                if lo < 0:
                    K[('lt', n, 0)] = True
        return K


def value(n, v, kk):
    """(kind, value) of a literal built by the constructor call of normal form n; None for a literal without kind"""
    if n[0] == 'lit':
        return ('lit', n[1])
    if n[0] != 'Literal':
        return None
    if len(n) == 1:
        return ('none',)
    return n[1:]


# the value of the operators of fixed arity: (op, kind) -> list of (conditions, result); the first argument of a result of a
# kind that cannot be told from the constructor is the kind
def spec(op, k):
    z = (('eq', (SG, X1), 0), False)
    R = {}
    if op == 'EVAL_NOT':
        R.update({'BOOLEAN': ([], [(('not', X0),)])})
        R.update({b: ([], [(b, ('operator~', X0))]) for b in BV})
    elif op == 'EVAL_NEG':
        R.update({b: ([], [(b, ('operator-', X0))]) for b in BV + ('RATIONAL', 'DECIMAL')})
        R['NUMERAL'] = ([], [(('operator-', X0),)])
    elif op in ('EVAL_INT_DIV', 'EVAL_INT_MOD'):
        d = op == 'EVAL_INT_DIV'
        R['NUMERAL'] = ([z], [(('euclidianDivideQuotient' if d else 'euclidianDivideRemainder', X0, X1),)])
        R.update({b: ([(('allSameBitWidth',), True)], [(b, ('unsignedDivTotal' if d else 'unsignedRemTotal', X0, X1))]) for b in BV})
    elif op == 'EVAL_RAT_DIV':
        R['NUMERAL'] = ([z], [('RATIONAL', ('Rational', X0, X1))])
        R.update({b: ([z], [('RATIONAL', ('operator/', X0, X1))]) for b in ('RATIONAL', 'DECIMAL')})
    elif op == 'EVAL_IS_NEG':
        R.update({b: ([], [(('lt', (SG, X0), 0),)]) for b in NUM})
    elif op == 'EVAL_LENGTH':
        R['BINARY'] = ([], [(('Integer', ('getSize', X0)),)])
        R['STRING'] = ([], [(('Integer', ('size', X0)),)])
    elif op == 'EVAL_TO_INT':
        R.update({b: ([], [(('floor', X0),)]) for b in ('RATIONAL', 'DECIMAL')})
        R['NUMERAL'] = ([], [('lit', 0), (X0,)])
        R['BINARY'] = ([], [(('toInteger', X0),)])
        R['STRING'] = ([(('eq', ('size', X0), 1), True)], [(('Integer', ('idx', ('getVec', X0), 0)),), (('Integer', ('front', X0)),)])
    elif op == 'EVAL_TO_RAT':
        R['RATIONAL'] = ([], [('lit', 0), ('RATIONAL', X0)])
        R['DECIMAL'] = ([], [('RATIONAL', X0)])
        R['NUMERAL'] = ([], [('RATIONAL', ('Rational', X0))])
    elif op == 'EVAL_TO_STRING':
        R['DECIMAL'] = ([], [(('String', ('toStringDecimal', X0)),), (('String', ('toString', ('lit', 0))),)])
        u = ('toUnsignedInt', X0)
        R['NUMERAL'] = ([(('fitsUnsignedInt', X0), True), (('lt', u, ('num_codes',)), True)], [(('String', ('list', u)),)])
        R['RATIONAL'] = ([], [(('String', ('toString', ('lit', 0))),)])
        for b, p, w in (('HEXADECIMAL', '#x', 16), ('BINARY', '#b', 2)):
            R[b] = ([], [(('String', ('plus', p, ('toString', ('lit', 0)))),), (('String', ('plus', p, ('toString', X0, w))),)])
        R['STRING'] = ([], [('lit', 0), (X0,)])
    elif op == 'EVAL_GT':
        R.update({b: ([], [(('lt', X1, X0),)]) for b in NUM})
        R.update({b: ([], [(('lt', ('toInteger', X1), ('toInteger', X0)),)]) for b in BV})
    elif op == 'EVAL_FIND':
        R['STRING'] = ([], [(('Integer', ('find', X0, X1)),), (('Integer', -1),)])
    return R.get(k)


def run(c):
    c.rule('literal-value', 'an operator on literals of a kind it supports has the specified value, of the specified kind', 60)
    c.rule('literal-nary', 'an operator with any number of arguments combines all of them, in order', 18)
    c.rule('literal-none', 'an operator has no value only for kinds it does not support, or if its condition fails', 90)
    c.rule('literal-extract', 'the part of a literal between two positions is taken within its bounds', 12)
    c.rule('literal-guard', 'kinds and widths of the arguments are compared for all arguments', 4)
    f = c.prog.fn1(EV)
    guards(c)
    ops = list(ARITY) + list(NARY)
    for op in ops:
        if op in ('EVAL_EXTRACT', 'EVAL_TO_BIN'):
            continue
        for k in KINDS + ('NONE',):
            fixed(c, f, op, k)
    extract(c, f)
    tobin(c, f)
    others(c, f)
    values.run(c, escape=False)


def go(c, f, op, kinds, ka=None, n=None):
    A = args_term(f)
    facts = [(lt(size(A), I(n or 2)), False)]
    for i, k in enumerate(kinds):
        x = index(A, I(i))
        facts += [(eq(mk('kind', x), kind(k)), True), (eq(mk('f', q('ExprValue::d_kind'), x, 0), kind(k)), True)]
    return c.analyze(f, params={0: kind(op)}, inv=True, facts=facts, results={q('allSameKind'): lambda a, o, s: kind(ka) if ka and a == [A] else None})


def fixed(c, f, op, k):
    n = ARITY.get(op, 2)
    ks = [k] * 3
    r = go(c, f, op, [] if k == 'NONE' else ks, k, n)
    N = Nf(f, ks)
    c.ob('literal-value', bool(r.exits) or k == 'NONE', f, '%s on %s ends' % (op, k))
    sp = spec(op, k)
    nary = (op, k) in STEP or op in BOOL and k == 'BOOLEAN'
    for t, s in r.exits:
        v = value(N(t), None, None)
        F = N.facts(s)
        at = '%s on %s' % (op, k)
        if v == ('none',):
            if nary:
                ok = k in BV and op != 'EVAL_CONCAT' and F.get(('allSameBitWidth', ('?', 'p', N.A.id))) is False
            elif sp:
                ok = any(F.get(cond(x, N)) is (not b) for x, b in sp[0])
            else:
                ok = True
            c.ob('literal-none', ok, f, 'no value of %s' % at, detail='no value although the operator applies', st=s)
            continue
        if nary:
            fold(c, f, r, op, k, t, s, F, N)
            continue
        if sp is None:
            c.ob('literal-none', False, f, '%s has no value' % at, detail='%s: %s' % (v, show(t)), st=s)
            continue
        ok = v in sp[1] and all(F.get(cond(x, N)) is b for x, b in sp[0])
        if op == 'EVAL_FIND' and ok:
            # no position is -1
            nf = [(x, b) for x, b in F.items() if isinstance(x, tuple) and x[0] == 'eq' and x[1] == ('find', X0, X1)]
            ok = any(isinstance(x[2], int) and abs(x[2]) > 1 << 60 and b is (v[0] == ('Integer', -1)) for x, b in nf) or \
                any(x == ('eq', ('find', X0, X1), -1) and b is (v[0] == ('Integer', -1)) for x, b in nf)
        c.ob('literal-value', ok, f, 'value of %s' % at, detail='%s: %s' % (v, show(t)), st=s)


def cond(x, N):
    return x if x != ('allSameBitWidth',) else ('allSameBitWidth', ('?', 'p', N.A.id))


def fold(c, f, r, op, k, t, s, F, N):
    A = N.A
    at = '%s on %s' % (op, k)
    if k in BV and op != 'EVAL_CONCAT':
        c.ob('literal-nary', F.get(cond(('allSameBitWidth',), N)) is True, f, '%s needs arguments of the same width' % at, st=s)
    ok = t.op == 'new' and t.a[0] == q('Literal')
    xs = t.a[1] if ok else ()
    typed = len(xs) == 2
    ok = ok and (typed and s.cval(xs[0]) is kind(k) and k not in ('BOOLEAN', 'NUMERAL', 'STRING') or len(xs) == 1 and k in ('BOOLEAN', 'NUMERAL', 'STRING'))
    v = xs[-1] if ok else VOID
    while v.op == 'new' and v.a[0] in (q('Integer'), q('Rational'), q('BitVector'), q('String')) and len(v.a[1]) in (1, 2) and isT(v.a[1][0]) and v.a[1][0].op == 'it':
        v = v.a[1][0]
    m = MEM[k]
    if v.op == 'b' and k == 'BOOLEAN' and op in ('EVAL_AND', 'EVAL_OR'):
        # an argument decides
        d = op == 'EVAL_OR'
        ok = v is B(d) and any(member(x)[1] == m and elem_of(member(x)[0]) is A and b is d for x, b in s.facts.items())
        c.ob('literal-nary', ok, f, 'value of %s' % at, detail=show(t), st=s)
        return
    if ok and k == 'BOOLEAN' and member(v)[1] == m and member(v)[0] is index(A, I(0)):
        # the other arguments make no difference
        good = bool(r.backs)
        for g, h, st, ctx in r.backs:
            els = [x for x, b in st.facts.items() if member(x)[1] == m and sweep(r, s, member(x)[0], 1) == (A, 1)]
            good = good and len(els) == 1 and all(BOOL[op](a, st.truth(els[0])) is a for a in (True, False))
        c.ob('literal-nary', good, f, 'value of %s' % at, detail=show(t), st=s)
        return
    e = v.a[-1] if v.op == 'it' else VOID
    if not (ok and v.op == 'it' and isT(e) and v in r.loopvals and v not in r.unsure):
        c.ob('literal-nary', False, f, 'value of %s' % at, detail=show(t), st=s)
        return
    if member(e)[1] == m and member(e)[0] is index(A, I(0)):
        start = 1
    elif k == 'BOOLEAN' and e is B(op == 'EVAL_AND') or k == 'NUMERAL' and e.op == 'new' and e.a[1][:1] in ((I(0 if op == 'EVAL_ADD' else 1),),):
        start = 0
    else:
        c.ob('literal-nary', False, f, '%s starts with the first argument' % at, detail=show(e), st=s)
        return
    allels = set()
    for w, st in r.loopstates[v]:
        els = [x for x in subterms(w) | {y for z in st.facts for y in subterms(z)} if member(x)[1] is not None and member(x)[0].op in ('idx', 'deref') and elem_of(member(x)[0]) is A
               and member(x)[0] is not index(A, I(0))]
        allels |= {x for x in els if member(x)[1] == m and sweep(r, s, member(x)[0], start) == (A, 1)}
    els = sorted(allels)
    for w, st in r.loopstates[v]:
        if k == 'BOOLEAN':
            ok = len(els) == 1
            for a in (True, False):
                for b in (True, False):
                    s2 = st.copy()
                    if ok and s2.assume(v, a) and s2.assume(els[0], b):
                        ok = truth2(s2, w) is BOOL[op](a, b)
            c.ob('literal-nary', ok, f, 'step of %s' % at, detail=show(w), st=st)
        else:
            ok = len(els) == 1
            while w.op == 'new' and len(w.a[1]) == 1:
                w = w.a[1][0]
            want = STEP[op, k]
            if ok and w.op == 'plus' and want == 'operator+':
                ok = set(w.a) == {v, els[0]}
            else:
                ops = ([w.a[1]] if w.op == 'r' and w.a[1] is not None else []) + list(w.a[2] if w.op == 'r' else ())
                ok = ok and w.op == 'r' and w.a[0].split('::')[-1] == want and (ops == [v, els[0]] or want in COMM and ops == [els[0], v])
            c.ob('literal-nary', ok, f, 'step of %s' % at, detail=show(w), st=st)
    c.ob('literal-nary', True, f, 'value of %s' % at)


def truth2(s, t):
    b = s.truth(t)
    if b is None and t.op == 'not':
        b = truth2(s, t.a[0])
        return None if b is None else not b
    if b is None and t.op == 'eq':
        x, y = s.truth(t.a[0]), s.truth(t.a[1])
        return None if x is None or y is None else x is y
    return b


def guards(c):
    """allSameKind and allSameBitWidth look at all arguments"""
    for fn, val in (('allSameKind', lambda x: (mk('kind', x), mk('f', q('ExprValue::d_kind'), x, 0))), ('allSameBitWidth', None)):
        f = c.prog.fn1(fn)
        A = mk('p', 0, f.params[0]['name'])
        r = c.analyze(f, inv=True)
        x0 = index(A, I(0))

        def ofarg(t):
            """the argument whose kind (or width) t is"""
            if fn == 'allSameKind':
                return t.a[0] if t.op == 'kind' else t.a[1] if t.op == 'f' and t.a[0] == q('ExprValue::d_kind') and isT(t.a[1]) else None
            if t.op == 'r' and t.a[0] == q('BitVector::getSize') and member(t.a[1])[1] == 'd_bv':
                return member(t.a[1])[0]
            return None
        for t, s in r.exits:
            yes = t is TRUE or ofarg(t) is x0
            differ = any(u.op == 'eq' and v is False and ofarg(u.a[0]) is not None and ofarg(u.a[1]) is x0 or
                         u.op == 'eq' and v is False and ofarg(u.a[0]) is x0 and ofarg(u.a[1]) is not None for u, v in s.facts.items())
            if not yes:
                c.ob('literal-guard', (t is FALSE or t is kind('NONE')) and differ, f, 'only different arguments are told apart', detail=show(t), st=s)
                continue
            # every iteration found an argument like the first, and they range over all
            ok = bool(r.backs)
            for g, h, st, ctx in r.backs:
                same = [ofarg(u.a[0]) if ofarg(u.a[1]) is x0 else ofarg(u.a[1]) for u, v in st.facts.items()
                        if u.op == 'eq' and v is True and ofarg(u.a[0]) is not None and ofarg(u.a[1]) is not None and x0 in (ofarg(u.a[0]), ofarg(u.a[1]))]
                ok = ok and any(sweep(r, s, x, 1) == (A, 1) or sweep(r, s, x, 0) == (A, 1) for x in same if x is not x0)
            c.ob('literal-guard', ok, f, 'the same for all arguments', detail=show(t), st=s)


def extract(c, f):
    op = 'EVAL_EXTRACT'
    for k in KINDS:
        for k1, k2 in (('NUMERAL', 'NUMERAL'), ('NUMERAL', 'RATIONAL'), ('DECIMAL', 'NUMERAL'), ('BINARY', 'BINARY')):
            r = go(c, f, op, (k, k1, k2), n=3)
            N = Nf(f, (k, k1, k2))
            c.ob('literal-extract', bool(r.exits), f, 'extract of %s ends' % k)
            good = k in BV + ('STRING',) and (k1, k2) == ('NUMERAL', 'NUMERAL')
            I1, I2 = ('x', 1), ('x', 2)
            nsz = ('getSize', X0) if k in BV else ('size', X0)
            D = ('Integer', nsz)
            for t, s in r.exits:
                v = value(N(t), None, None)
                F = N.facts(s)
                if v == ('none',):
                    c.ob('literal-none', not good, f, 'no value of %s on %s' % (op, k), st=s)
                    continue
                if not good:
                    c.ob('literal-none', False, f, '%s on %s, %s, %s has no value' % (op, k, k1, k2), detail=str(v), st=s)
                    continue
                u = lambda x: ('toUnsignedInt', x)
                lo = u(I1)
                last = {('minus', u(D), 1), ('minus', nsz, 1)}
                over = F.get(('lt', I2, D)) is False
                inside = F.get(('lt', I2, D)) is True
                his = ({u(I2)} if inside else set()) | (last if over else set())
                low = F.get(('lt', (SG, I1), 0)), F.get(('lt', (SG, I2), 0))
                beyond = F.get(('lt', D, I1))
                zero = F.get(('eq', (SG, D), 0)) is True or F.get(('eq', nsz, 0)) is True
                nonempty = F.get(('eq', (SG, D), 0)) is False or F.get(('eq', nsz, 0)) is False or F.get(('ge', nsz, 1)) is True
                empty = v in ((k, ('BitVector', 0)), (k, ('BitVector',))) if k in BV else v == (('String', ''),)
                hs = [h for h in his if F.get(('lt', h, lo)) is not None]
                if empty:
                    ok = True in low or beyond is True or zero or F.get(('lt', I1, D)) is False or any(F[('lt', h, lo)] is True for h in hs)
                    c.ob('literal-extract', ok, f, 'extract of %s is empty only for positions out of order or out of bounds' % k, detail=str(v), st=s)
                    continue
                ok = low == (False, False) and (beyond is False or F.get(('lt', I1, D)) is True) and nonempty and len(hs) >= 1
                if k in BV:
                    ok = ok and F[('lt', hs[0], lo)] is False and v in [(k, ('extract', X0, h, lo)) for h in hs]
                else:
                    b = F[('lt', hs[0], lo)] if ok else None
                    ln = [('minus', ('plus', h, 1), lo) for h in hs] + [('plus', ('minus', h, lo), 1) for h in hs]
                    ln += [('minus', u(D), lo), ('minus', nsz, lo)] if over else []
                    w = v[0]
                    ok = ok and len(v) == 1 and w[0] == 'substr' and w[1:3] == (X0, lo) and (w[3] == 0 if b else w[3] in ln)
                c.ob('literal-extract', ok, f, 'extract of %s lies between the positions' % k, detail='%s low %s beyond %s nonempty %s hs %s' % (v, low, beyond, nonempty, hs), st=s)


def tobin(c, f):
    op = 'EVAL_TO_BIN'
    for k0 in KINDS:
        for k1 in KINDS:
            r = go(c, f, op, (k0, k1), n=2)
            N = Nf(f, (k0, k1))
            good = k0 == 'NUMERAL' and k1 in BV + ('NUMERAL',)
            fits = ('fitsUnsignedInt', X0)
            w = ('toUnsignedInt', X0)
            for t, s in r.exits:
                v = value(N(t), None, None)
                F = N.facts(s)
                if v == ('none',):
                    c.ob('literal-none', not good or F.get(fits) is False, f, 'no value of %s on %s, %s' % (op, k0, k1), st=s)
                    continue
                want = ('BINARY', ('BitVector', w, X1 if k1 == 'NUMERAL' else ('toInteger', X1)))
                c.ob('literal-value', good and v == want and F.get(fits) is True, f, 'value of %s on %s, %s' % (op, k0, k1), detail=str(v), st=s)


def others(c, f):
    """no other operator has a value on literals here"""
    done = set(ARITY) | set(NARY)
    for op in [v['n'].split('::')[-1] for v in c.prog.enums['ethos::Kind']['values']]:
        if op.startswith('EVAL_') and op not in done:
            for k in KINDS:
                r = go(c, f, op, (k, k, k), k, n=1)
                N = Nf(f, (k, k, k))
                for t, s in r.exits:
                    c.ob('literal-none', value(N(t), None, None) == ('none',), f, '%s is no operator on literals' % op, detail=show(t))
