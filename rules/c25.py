"""List operators."""
from common import *

ELO = 'TypeChecker::evaluateLiteralOpInternal'
GNC, ISL, NTH, PRE, NIL = 'getNAryChildren', 'isNAryList', 'getNAryNthTail', 'TypeChecker::prependNAryChildren', 'TypeChecker::computeConstructorTermInternal'
LEFT = ('LEFT_ASSOC_NIL', 'LEFT_ASSOC_NS_NIL')
RIGHT = ('RIGHT_ASSOC_NIL', 'RIGHT_ASSOC_NS_NIL')
LISTARGS = {'EVAL_CONS': (2,), 'EVAL_LIST_CONCAT': (1, 2), 'EVAL_LIST_LENGTH': (1,), 'EVAL_LIST_NTH': (1,), 'EVAL_LIST_FIND': (1,),
            'EVAL_LIST_REV': (1,), 'EVAL_LIST_ERASE': (1,), 'EVAL_LIST_ERASE_ALL': (1,), 'EVAL_LIST_SETOF': (1,), 'EVAL_LIST_MINCLUDE': (1, 2),
            'EVAL_LIST_MEQ': (1, 2), 'EVAL_LIST_DIFF': (1, 2), 'EVAL_LIST_INTER': (1, 2), 'EVAL_LIST_SINGLETON_ELIM': (1,)}


def run(c):
    c.rule('list-form', 'an operator evaluates only if its list arguments are lists of the given function, ending in its terminator', 14)
    c.rule('list-orient', 'lists are taken apart and put together in the direction the function associates', 12)
    c.rule('list-result', 'the result is that of the documented list operation', 20)
    only_writers(c, 'list-form', 'TypeChecker::d_null', ())
    only_writers(c, 'list-result', 'TypeChecker::d_negOne', (ELO, 'TypeChecker::TypeChecker'))
    helpers(c)
    for k in LISTARGS:
        Op(c, k).run()
    Op(c, 'EVAL_NIL').nil_()


# ------------------------------------------------------------------ walking and building
def P(f, i):
    return mk('p', i, f.params[i]['name'])


def cell(st, e, op, left):
    """e is an application of op to an element and a tail, in the state st"""
    k0 = mkkid(e, 0)
    return st.cval(kterm(e)) is kind('APPLY') and st.cval(kterm(k0)) is kind('APPLY') and st.truth(eq(mkkid(k0, 0), op)) is True


def head(e, left):
    return mkkid(e, 1) if left else mkkid(mkkid(e, 0), 1)


def tail(e, left):
    return mkkid(mkkid(e, 0), 1) if left else mkkid(e, 1)


def nocell(st, e, op):
    k0 = mkkid(e, 0)
    return st.cval(kterm(e)) is not kind('APPLY') and st.truth(eq(kterm(e), kind('APPLY'))) is False or \
        st.truth(eq(kterm(k0), kind('APPLY'))) is False or st.truth(eq(mkkid(k0, 0), op)) is False


def helpers(c):
    for left in (False, True):
        walk(c, c.prog.fn1(GNC), left, True)
        walk(c, c.prog.fn1(ISL), left, False)
        nth(c, c.prog.fn1(NTH), left)
        build(c, c.prog.fn1(PRE), left)


def flagparam(f, ty):
    xs = [i for i, p in enumerate(f.params) if p['ty'] == ty]
    return xs[0] if len(xs) == 1 else None


def walk(c, f, left, collect):
    il = flagparam(f, 'bool')
    r = c.analyze(f, params={il: B(left)}, inv=True, inline={q(GNC)} if not collect else ())
    e0, op, nil = P(f, 0), P(f, 1), P(f, 2)
    its = [t for t in r.loopvals if t.a[-1] is e0 and any(v is not t for v in r.loopvals[t])]
    c.ob('list-orient', len(its) == 1, f, 'walks down the list')
    if len(its) != 1:
        return
    it = its[0]
    c.ob('list-orient', it not in r.unsure, f, 'the position in the list is tracked')
    for v, s in r.loopstates[it]:
        c.ob('list-orient', cell(s, it, op, left) and v is tail(it, left), f, 'goes from a cell of the function to its tail (%s-associative)' % ('left' if left else 'right'),
             detail='next: ' + show(v), st=s)
    if collect:
        for t, vs in r.loopstates.items():
            if t.a[0] == it.a[0] and any(v is not t and v.op == 'push' for v, s in vs):
                for v, s in vs:
                    c.ob('list-orient', v.op == 'push' and v.a[0] is t and v.a[1] is head(it, left), f, 'collects the element of each cell', detail=show(v), st=s)
                break
        else:
            c.ob('list-orient', False, f, 'collects the elements')
    for t, s in r.exits:
        ends = t is it or (not collect and (t is TRUE or t.op == 'eq' and it in t.a and nil in t.a))
        done = nocell(s, it, op)
        if collect and s.truth(eq(t, NULL)) is True or t is NULL:
            ok = s.truth(eq(it, nil)) is False and s.truth(eq(nil, NULL)) is False and done
            c.ob('list-form', ok, f, 'rejects only lists with another end', detail=show(t), st=s)
        elif collect:
            ok = ends and done and (s.truth(eq(nil, NULL)) is True or s.truth(eq(it, nil)) is True)
            c.ob('list-form', ok, f, 'accepts only lists that end in the terminator', detail=show(t), st=s)
        else:
            b = s.truth(t)
            ok = done and (t.op == 'eq' and ends or b is not None and s.truth(eq(it, nil)) is b)
            c.ob('list-form', ok, f, 'tells whether the list ends in the terminator', detail=show(t), st=s)


def nth(c, f, left):
    il = flagparam(f, 'bool')
    r = c.analyze(f, params={il: B(left)}, inv=True)
    e0 = P(f, 0)
    n = [P(f, i) for i in range(1, len(f.params)) if i != il][0]
    its = [t for t in r.loopvals if t.a[-1] is e0 and any(v is not t for v in r.loopvals[t])]
    c.ob('list-orient', len(its) == 1, f, 'walks down the list')
    for it in its[:1]:
        for v, s in r.loopstates[it]:
            c.ob('list-orient', v is tail(it, left), f, 'steps to the tail (%s-associative)' % ('left' if left else 'right'), detail=show(v), st=s)
        for t, s in r.exits:
            ok = t is it and counted(r, s, it.a[0], n)
            c.ob('list-orient', ok, f, 'takes as many steps as asked for', detail=show(t), st=s)


def counted(r, s, site, n):
    """the loop at site has run n times when s is reached"""
    for x, v in s.facts.items():
        if x.op == 'lt' and v is False:
            a, b = x.a
            if a.op == 'it' and a.a[0] == site and a.a[-1] is I(0) and b is n and step_of(r, a) == 1:
                return True
            if b.op == 'it' and b.a[0] == site and b.a[-1] is n and a is I(0) and step_of(r, b) == -1:
                return True
        if x.op == 'eq' and v is True:
            for a, b in (x.a, x.a[::-1]):
                if a.op == 'it' and a.a[0] == site and (a.a[-1] is I(0) and b is n and step_of(r, a) == 1 or a.a[-1] is n and b is I(0) and step_of(r, a) == -1):
                    return True
    for x, (lo, hi) in s.rng.items():
        if x.op == 'it' and x.a[0] == site and x.a[-1] is n and hi == 0 and step_of(r, x) == -1:
            return True
    return False


def build(c, f, left):
    il = flagparam(f, 'bool')
    r = c.analyze(f, params={il: B(left)}, inv=True)
    op, ret, hs = P(f, 0), P(f, 1), P(f, 2)
    its = [t for t in r.loopvals if t.a[-1] is ret and any(v is not t for v in r.loopvals[t])]
    c.ob('list-orient', len(its) == 1, f, 'adds the elements to the tail')
    for it in its[:1]:
        els = set()
        for v, s in r.loopstates[it]:
            el = None
            if is_call(v, 'State::mkExprInternal') and cargs(v)[0] is kind('APPLY') and cargs(v)[1].op == 'list' and len(cargs(v)[1].a[0]) == 2:
                x, y = cargs(v)[1].a[0]
                if is_call(x, 'State::mkExprInternal') and cargs(x)[0] is kind('APPLY') and cargs(x)[1].op == 'list' and len(cargs(x)[1].a[0]) == 2:
                    o, z = cargs(x)[1].a[0]
                    if o is op and (z if left else y) is it:
                        el = y if left else z
            c.ob('list-orient', el is not None, f, 'each step applies the function to an element and the list so far (%s-associative)' % ('left' if left else 'right'),
                 detail=show(v), st=s)
            els.add(el)
        for t, s in r.exits:
            w = t is it and len(els) == 1 and None not in els and sweep(r, s, next(iter(els)))
            c.ob('list-orient', bool(w) and w[1] == -1 and unloop(r, w[0]) is hs, f, 'from the last element to the first', detail=show(t), st=s)


def unloop(r, t):
    while t.op == 'it' and t in r.loopvals and t not in r.unsure and all(v is t or v is t.a[-1] for v in r.loopvals[t]):
        t = t.a[-1]
    return t


# ------------------------------------------------------------------ the operators
class Op:
    def __init__(self, c, k):
        self.c, self.k = c, k
        self.f = c.prog.fn1(ELO)
        inl = {q('TypeChecker::evaluateList%sInternal' % x) for x in ('Erase', 'Rev', 'SetOf', 'MPred', 'DiffInter')}
        self.r = c.analyze(self.f, params={0: kind(k)}, inline=inl, unroll=True, inv=True, cap=6000,
                           facts=[(eq(mk('f', q('TypeChecker::d_null'), THIS, 0), NULL), True)])
        self.args = P(self.f, 1)
        self.ARG = [index(self.args, I(i)) for i in range(4)]

    def run(self):
        c, r, k = self.c, self.r, self.k
        n = 0
        for t, s in r.exits:
            if isnull(s, t) or s.truth(eq(t, NULL)) is True or absurd(r, s):
                continue
            if is_call(t, 'Literal::evaluate') or is_call(t, 'State::mkLiteralInternal') and calls_in(t, 'Literal::evaluate'):
                continue      # all arguments are literals: the literal operators (no list operator is one of them)
            n += 1
            e = self.env(s)
            c.ob('list-form', e is not None, self.f, '%s: list arguments are checked' % k, detail='result %s' % show(t), st=s)
            if e is None:
                continue
            self.op, self.nil, self.left, self.lists = e
            self.s, self.rel, self.comp = s, {}, {}
            for i in LISTARGS[k]:
                c.ob('list-form', i in self.lists, self.f, '%s: argument %d is a list' % (k, i), detail='result %s' % show(t), st=s)
            for x in subterms(t):
                if is_call(x, PRE) or is_call(x, NTH) or is_call(x, GNC):
                    c.ob('list-orient', self.sides(cargs(x)[1 if is_call(x, NTH) else -1], s) , self.f, '%s: in the direction of the function' % k,
                         detail=show(x), st=s)
            for left in ((False, True) if self.left is None else (self.left,)):
                why = getattr(self, k[5:].lower())(t, s, left)
                c.ob('list-result', why, self.f, '%s: the documented result (%s-associative)' % (k, 'left' if left else 'right'), detail=show(t), st=s)
        c.ob('list-result', n > 0, self.f, '%s evaluates' % k)

    def states(self, x):
        """[(value, state)] at the ends of the iterations of the loop of x that can lead to the exit at hand"""
        if x not in self.rel:
            self.rel[x] = [(v, st) for v, st in self.r.loopstates.get(x, ()) if self.compatible(st)]
        return self.rel[x]

    def compatible(self, st):
        k = id(st)
        if k not in self.comp:
            self.comp[k] = not any(st.truth(t) is (not v) for t, v in self.s.facts.items() if not any(y.op == 'it' for y in subterms(t)))
        return self.comp[k]

    def nil_(self):
        c, r = self.c, self.r
        n = 0
        for t, s in r.exits:
            if isnull(s, t) or is_call(t, 'Literal::evaluate') or is_call(t, 'State::mkLiteralInternal') and calls_in(t, 'Literal::evaluate'):
                continue
            n += 1
            ok = is_call(t, NIL) and self.infook(cargs(t)[0], s)
            l = cargs(t)[1] if ok else None
            ok = ok and l.op == 'list' and len(l.a[0]) == 2 and l.a[0][0] is self.ARG[0]
            x = l.a[0][1] if ok else None
            ok = ok and is_call(x, 'State::mkSymbol') and cargs(x)[0] is kind('CONST') and cargs(x)[2] is self.ARG[1]
            c.ob('list-result', ok, self.f, 'the terminator for the given type', detail=show(t), st=s)
        c.ob('list-result', n > 0, self.f, 'EVAL_NIL evaluates')

    def opterm(self, s):
        """the function, without the annotation of a parameterized terminator"""
        p = s.truth(eq(kterm(self.ARG[0]), kind('PARAMETERIZED')))
        return None if p is None else mkkid(self.ARG[0], 1) if p else self.ARG[0]

    def infook(self, ac, s):
        op = self.opterm(s)
        if op is None or not is_call(ac, 'State::getAppInfo') or cargs(ac)[0] is not op or not not_null(s, ac):
            return False
        a = self.attr_of(ac, s)
        return all(self.excluded(s, a, x) for x in (v['n'].split('::')[-1] for v in self.c.prog.enums['ethos::Attr']['values']) if x not in LEFT + RIGHT)

    def attr_of(self, ac, s):
        for t in s.facts:
            for x in subterms(t):
                if field(x, 'd_attrCons') and x.a[1] is ac:
                    return x
        return fld(q('AppInfo::d_attrCons'), ac)

    def excluded(self, s, a, x):
        s2 = s.copy()
        return not s2.assume(eq(a, attr(x)), True)

    def env(self, s):
        """(function, terminator, left-associative (None: unknown), {argument: its elements or None})"""
        op = self.opterm(s)
        lists, nil = {}, None
        if op is None:
            return None
        for t, v in list(s.facts.items()):
            for x in subterms(t):
                if is_call(x, GNC) and not_null(s, x) or is_call(x, ISL) and s.truth(x) is True:
                    a = cargs(x)
                    if a[0] not in self.ARG or a[1] is not op or not self.nilok(a[2], s) or not self.sides(a[-1], s):
                        continue
                    i = self.ARG.index(a[0])
                    nil = nil or a[2]
                    if a[2] is not nil:
                        continue
                    if is_call(x, GNC):
                        lists[i] = a if a[3] is EMPTY else None
                    else:
                        lists.setdefault(i, None)
        if nil is None:
            return None
        ac = cargs(nil)[0]
        at = self.attr_of(ac, s)
        ok = [x for x in LEFT + RIGHT if not self.excluded(s, at, x)]
        left = True if all(x in LEFT for x in ok) else False if all(x in RIGHT for x in ok) else None
        return op, nil, left, lists

    def nilok(self, t, s):
        """t is the terminator of the function, known to exist"""
        if not is_call(t, NIL) or not self.infook(cargs(t)[0], s) or not not_null(s, t):
            return False
        l = cargs(t)[1]
        return l.op == 'list' and tuple(l.a[0]) == (self.ARG[0], self.ARG[1])

    def sides(self, t, s):
        """t is whether the function associates to the left"""
        acs = {x for f in s.facts for x in subterms(f) if is_call(x, 'State::getAppInfo') and cargs(x)[0] is self.opterm(s)}
        for ac in acs:
            at = self.attr_of(ac, s)
            ok = True
            for x in LEFT + RIGHT:
                s2 = s.copy()
                if s2.assume(eq(at, attr(x)), True):
                    ok = ok and s2.truth(t) is (x in LEFT)
            if ok:
                return True
        return False

    def elems(self, t, i):
        """t is the vector of the elements of list argument i"""
        t = unloop(self.r, t)
        a = self.lists.get(i)
        return is_out(t, GNC, 3) and a is not None and t.a[3] == a

    def pre(self, t):
        """(tail, elements) if t is a list built by the helper"""
        if is_call(t, PRE) and cargs(t)[0] is self.op:
            return cargs(t)[1], cargs(t)[2]
        return None, None

    # -------------------------------------------------------------- results
    def cons(self, t, s, left):
        tl, hs = self.pre(t)
        return tl is self.ARG[2] and hs.op == 'list' and tuple(hs.a[0]) == (self.ARG[1],)

    def list_concat(self, t, s, left):
        hd, tl = (2, 1) if left else (1, 2)
        if t is self.ARG[hd]:
            return s.truth(eq(self.ARG[tl], self.nil)) is True
        if t is self.ARG[tl]:
            return s.truth(eq(self.ARG[hd], self.nil)) is True
        x, hs = self.pre(t)
        return x is self.ARG[tl] and self.elems(hs, hd)

    def integer(self, t):
        """the argument of the numeral t is built from"""
        if is_call(t, 'State::mkLiteralInternal') and cargs(t):
            t = cargs(t)[0]
            for cls in ('Literal', 'Integer'):
                if t.op == 'new' and t.a[0] == q(cls) and t.a[1]:
                    t = t.a[1][0]
                else:
                    return None
            return t
        return None

    def list_length(self, t, s, left):
        x = self.integer(t)
        return x is not None and x.op == 'size' and self.elems(x.a[0], 1)

    def list_nth(self, t, s, left):
        if t.op != 'idx' or not self.elems(t.a[0], 1):
            return False
        i = t.a[1]
        ok = i.op == 'r' and i.a[0] == q('Integer::toUnsignedInt') and self.numeral(i.a[1], self.ARG[2])
        fits = any(x.op == 'r' and x.a[0] == q('Integer::fitsUnsignedInt') and x.a[1] is i.a[1] and v is True for x, v in s.facts.items())
        return ok and fits and s.truth(lt(i, size(t.a[0]))) is True and s.cval(kterm(self.ARG[2])) is kind('NUMERAL')

    def numeral(self, t, e):
        return isT(t) and t.op in ('f', 'fld') and t.a[0].endswith('d_int') and mk('lit', e) in deepterms(t)

    def list_find(self, t, s, left):
        x = self.integer(t)
        e = self.ARG[2]
        if field(t, 'd_negOne') or x is S('-1') or x is I(-1):
            if field(t, 'd_negOne') and s.truth(eq(t, NULL)) is not False:
                return False
            if any(y.op == 'has' and y.a[1] is e and v is False and self.elems(y.a[0], 1) for y, v in s.facts.items()):
                return True
            return any(self.whole(L, s, lambda el, st: st.truth(eq(el, e)) is False) for L in self.vectors(s, 1))
        if x is None:
            return False
        dist = x.op == 'r' and x.a[0] == 'std::distance'
        if dist or x.op == 'minus':
            a, b = cargs(x) if dist else x.a[::-1]
            return a.op == 'begin' and b.op == 'find' and a.a[0] is b.a[0] and b.a[1] is e and self.elems(a.a[0], 1) and s.truth(has(a.a[0], e)) is True
        if x.op == 'it' and x.a[-1] is I(0) and step_of(self.r, x) == 1:
            for L in self.vectors(s, 1):
                if s.truth(eq(index(L, x), e)) is True and s.truth(lt(x, size(L))) is True:
                    sts = self.states(x)
                    return all(st.truth(eq(index(L, x), e)) is False for _, st in sts)
        return False

    def vectors(self, s, i):
        """terms for the elements of argument i that occur in s"""
        out = set()
        for t in list(s.facts) + list(s.rng):
            for x in subterms(t):
                if x.op in ('o', 'it') and self.elems(x, i):
                    out.add(x)
        return out

    def current(self, it_states, L, site):
        """elements of L at hand in the loop at site"""
        out = []
        for t in self.r.loopvals:
            if t.a[0] == site and step_of(self.r, t) == 1:
                if t.a[-1] is I(0):
                    out.append(index(L, t))
                elif isT(t.a[-1]) and t.a[-1].op == 'begin' and unloop(self.r, t.a[-1].a[0]) is unloop(self.r, L):
                    out.append(mk('deref', t))
        return out

    def loops(self, L):
        return {t.a[0] for t in self.r.loopvals}

    def whole(self, L, s, pred):
        """a loop over all of L has ended in s, and pred holds at the end of every iteration"""
        for site in self.loops(L):
            for el in self.current(None, L, site):
                w = sweep(self.r, s, el)
                if w is None or unloop(self.r, w[0]) is not unloop(self.r, L) or w[1] != 1:
                    continue
                it = next(x for x in subterms(el) if x.op == 'it' and x.a[0] == site and x in self.r.loopvals and step_of(self.r, x) == 1)
                if all(pred(el, st) for _, st in self.states(it)):
                    return True
        return False

    def list_rev(self, t, s, left):
        x, hs = self.pre(t)
        return x is self.nil and hs.op == 'reverse' and self.elems(hs.a[0], 1)

    def list_singleton_elim(self, t, s, left):
        for L in self.vectors(s, 1):
            one = s.truth(eq(size(L), I(1)))
            if one is True:
                if t is index(L, I(0)) or t is back(L):
                    return True
            elif one is False:
                if t is self.ARG[1]:
                    return True
        return False

    # -------------------------------------------------------------- operators that drop elements
    def list_erase_all(self, t, s, left):
        e = self.ARG[2]
        return self.filtered(t, s, left, lambda el, st, env: not_b(st.truth(eq(el, e))))

    def list_erase(self, t, s, left):
        """everything up to the first occurrence is kept, it is dropped, and what follows is taken as it is"""
        e = self.ARG[2]
        for L in self.vectors(s, 1):
            if any(y.op == 'has' and y.a[1] is e and v is False and y.a[0] is L for y, v in s.facts.items()) and t is self.ARG[1]:
                return True
        if self.filtered(t, s, left, lambda el, st, env: not_b(st.truth(eq(el, e))), dropless=True):
            return True
        x, res = self.pre(t)
        if x is None or res.op != 'it' or not is_call(x, NTH) or cargs(x)[0] is not self.ARG[1]:
            return False
        site = res.a[0]
        for L in self.vectors(s, 1):
            for el in self.current(None, L, site):
                it = next(y for y in subterms(el) if y.op == 'it' and y.a[0] == site and step_of(self.r, y) == 1 and y in self.r.loopvals)
                cnt = {y for y in self.r.loopvals if y.a[0] == site and y.a[-1] is I(0) and step_of(self.r, y) == 1}
                if s.truth(eq(el, e)) is not True or not any(not ladd(linear(n), {y: 1, None: 1}, -1) for n in cargs(x)[1:] for y in cnt):
                    continue
                if res.a[-1] is not EMPTY or res in self.r.unsure:
                    continue
                if all(v.op == 'push' and v.a[0] is res and v.a[1] is el and st.truth(eq(el, e)) is False for v, st in self.states(res)):
                    return True
        return False

    def list_setof(self, t, s, left):
        def keep(el, st, env):
            # a set that starts empty and to which every element is added
            for y, v in env.items():
                if y.a[-1] is EMPTY and (v.op == 'ins' and v.a[0] is y and v.a[1] is el or v is y and st.truth(has(y, el)) is True) and y not in self.r.unsure \
                        and all(w.op == 'ins' and w.a[0] is y and w.a[1] in self.current(None, el_of(el), y.a[0]) or w is y and any(st2.truth(has(y, z)) is True for z in self.current(None, el_of(el), y.a[0]))
                                for w, st2 in self.states(y)):
                    return not_b(st.truth(has(y, el)))
            return None
        return self.filtered(t, s, left, keep)

    def counts(self, M, i):
        """the map M gives the number of occurrences of each element of argument i"""
        if M.op != 'it' or M.a[-1] is not EMPTY or M in self.r.unsure:
            return False
        vs = self.states(M)
        if not vs:
            return False
        els = set()
        for v, st in vs:
            if v.op == 'set' and v.a[0] is M and not ladd(linear(v.a[2]), {index(M, v.a[1]): 1, None: 1}, -1):
                els.add(v.a[1])
            else:
                return False
        return len(els) == 1 and M.a[0] in self.done(next(iter(els)), i, M)

    def done(self, el, i, M):
        """sites of loops over all elements el of argument i"""
        for t, s in self.r.exits:
            w = sweep(self.r, s, el)
            if w is not None and self.elems(w[0], i):
                return {M.a[0]}
        return ()

    def take(self, diff):
        def keep(el, st, env):
            for y, v in env.items():
                M = y.a[-1]
                if not isT(M) or not self.counts(M, 2) or y in self.r.unsure:
                    continue
                b = st.truth(has(y, el))
                if b is None:
                    # present unless counted down to zero
                    z = st.truth(eq(index(y, el), I(0)))
                    if z is None:
                        lo = st.interval(index(y, el))[0]
                        z = False if lo is not None and lo > 0 else None
                    if z is None:
                        return None
                    less = not ladd(linear(v.a[2]), {index(y, el): 1, None: -1}, -1) if v.op == 'set' and v.a[0] is y and v.a[1] is el else False
                    if z and not (v is y or v.op == 'set' and v.a[1] is el and v.a[2] is index(y, el)) or not z and not less:
                        return None
                    b = not z
                elif b:
                    w, gone = v, False
                    if w.op == 'erase' and len(w.a) == 2 and (w.a[1] is el or w.a[1].op == 'find' and w.a[1].a[1] is el):
                        w, gone = w.a[0], True
                    one = st.truth(eq(index(y, el), I(1)))
                    if w.op == 'set' and w.a[0] is y and w.a[1] is el:
                        if ladd(linear(w.a[2]), {index(y, el): 1, None: -1}, -1):
                            return None
                        z = st.truth(eq(w.a[2], I(0)))
                        one = z if z is not None else one
                    elif not (gone and w is y and one is True):
                        return None
                    if one is not gone:
                        return None
                else:
                    if v is not y:
                        return None
                return b is not diff
            return None
        return keep

    def list_diff(self, t, s, left):
        if t is self.nil:
            return s.truth(eq(self.ARG[1], self.ARG[2])) is True or s.truth(eq(self.ARG[1], self.nil)) is True
        return self.filtered(t, s, left, self.take(True))

    def list_inter(self, t, s, left):
        if t is self.ARG[1] and s.truth(eq(self.ARG[1], self.ARG[2])) is True:
            return True
        return self.filtered(t, s, left, self.take(False))

    def filtered(self, t, s, left, keep, dropless=False):
        """t is the list argument without the elements for which keep is False: a loop over all elements has collected those to keep;
        the rest of the list may be shared if nothing has been dropped from it"""
        r = self.r
        for L in self.vectors(s, 1):
            for site in self.loops(L):
                for el in self.current(None, L, site):
                    w = sweep(r, s, el)
                    if w is None or w[1] != 1 or unloop(r, w[0]) is not unloop(r, L):
                        continue
                    if self.filtered_at(t, s, left, keep, L, site, el, dropless):
                        return True
        return False

    def filtered_at(self, t, s, left, keep, L, site, el, dropless):
        r = self.r
        it = next(y for y in subterms(el) if y.op == 'it' and y.a[0] == site and step_of(r, y) == 1 and y in r.loopvals)
        rows = []
        for _, st in self.states(it):
            env = {y: v for y in r.loopstates if y.a[0] == site for v, st2 in self.states(y) if st2 is st}
            k = keep(el, st, env)
            if k is None:
                return False
            rows.append((k, st, env))
        cnt = [y for y in r.loopvals if y.a[0] == site and y.a[-1] is I(0) and step_of(r, y) == 1]
        vars_ = {y for k, st, env in rows for y in env}

        def vec(y):
            return y.a[-1] is EMPTY and y not in r.unsure and \
                all((env.get(y) is push(y, el)) if k else (env.get(y) is y) for k, st, env in rows)

        def mark(y, of):
            """y is what of was (or the position after the element) when the last element was dropped, 0 before"""
            return y.a[-1] is I(0) and y not in r.unsure and all((env.get(y) is y) if k else of(env.get(y)) for k, st, env in rows)

        isindex = lambda y: mark(y, lambda v: v is not None and any(not ladd(linear(v), {n: 1, None: 1}, -1) for n in cnt))

        def flag(y):
            """y tells whether something has been dropped: (value while nothing has)"""
            v0 = y.a[-1]
            if y in r.unsure or v0.op != 'b':
                return None
            if all((env.get(y) is y or env.get(y) is v0 and st.truth(y) is v0.a[0]) if k else env.get(y) is not_(v0) for k, st, env in rows):
                return v0.a[0]
            return None
        if t is self.ARG[1]:
            if not any(not k for k, st, env in rows):
                return True
            for y in vars_:
                if isindex(y) and (s.truth(eq(y, I(0))) is True or s.interval(y)[1] == 0):
                    return True
                b = flag(y)
                if b is not None and s.truth(y) is b:
                    return True
                if vec(y) and any(s.truth(eq(size(y), size(x))) is True for x in self.vectors(s, 1)):
                    return True
            return False
        if dropless:
            return False
        tl, hs = self.pre(t)
        if tl is None:
            return False
        if tl is self.nil:
            return hs in vars_ and vec(hs)
        if not is_call(tl, NTH) or cargs(tl)[0] is not self.ARG[1]:
            return False
        if not any(n in vars_ and isindex(n) for n in cargs(tl)[1:]):
            return False
        if hs.op == 'resize' and hs.a[0] in vars_ and vec(hs.a[0]) and hs.a[1] in vars_:
            return mark(hs.a[1], lambda v: v is size(hs.a[0]))
        # elements as they were when the last one was dropped
        return False

    # -------------------------------------------------------------- multisets
    def included(self, t, s, equal):
        r = self.r
        same = s.truth(eq(self.ARG[1], self.ARG[2]))
        val = True if is_call(t, 'State::mkTrue') else False if is_call(t, 'State::mkFalse') else \
            cargs(t)[0].a[0] if is_call(t, 'State::mkBool') and cargs(t)[0].op == 'b' else None
        if val is None:
            return False
        if same is True:
            return val
        pairs = []
        maps = [y for y in r.loopvals if self.counts(y, 1)], [y for y in r.loopvals if self.counts(y, 2)]
        sizes = lambda: [s.truth(eq(size(a), size(b))) for a in maps[0] for b in maps[1]] + \
            [s.truth(eq(size(a), size(b))) for a in self.vectors(s, 1) for b in self.vectors(s, 2)]
        for site in {y.a[0] for y in r.loopvals}:
            for it in [y for y in r.loopvals if y.a[0] == site and isT(y.a[-1]) and y.a[-1].op == 'begin' and step_of(r, y) == 1]:
                M1 = unloop(r, it.a[-1].a[0])
                if M1 not in maps[0]:
                    continue
                part = lambda x, n: field(x, n) and x.a[1] in (it, mk('deref', it))

                def fits(st):
                    for x, v in st.facts.items():
                        if x.op == 'lt' and not equal or x.op == 'eq' and equal:
                            for a, b in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                                if part(b, 'second') and a.op == 'idx' and part(a.a[1], 'first') and self.count2(a, maps[1]):
                                    return v if equal else (not v) if x.a[1] is b else None
                        if x.op == 'has' and part(x.a[1], 'first') and v is False and unloop(r, x.a[0]) in maps[1]:
                            return False
                    return None
                if not val:
                    if s.truth(eq(it, mk('end', it.a[-1].a[0]))) is False and fits(s) is False:
                        return True
                elif s.truth(eq(it, mk('end', it.a[-1].a[0]))) is True and all(fits(st) is True for _, st in self.states(it)):
                    if not equal or any(x is True for x in sizes()):
                        return True
        return equal and not val and any(x is False for x in sizes())

    def count2(self, o, maps):
        return unloop(self.r, o.a[0]) in maps

    def list_minclude(self, t, s, left):
        return self.included(t, s, False)

    def list_meq(self, t, s, left):
        return self.included(t, s, True)


def not_b(b):
    return None if b is None else not b


def el_of(el):
    if el.op == 'idx':
        return el.a[0]
    return el.a[0].a[-1].a[0]


def not_null(s, t):
    return s.truth(eq(t, NULL)) is False or s.truth(t) is True


def deepterms(t):
    out = set()
    work = [t]
    while work:
        x = work.pop()
        if isT(x):
            out.add(x)
            work.extend(x.a)
        elif isinstance(x, tuple):
            work.extend(x)
    return out


