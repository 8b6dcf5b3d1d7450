"""Applications are desugared as their operator declares."""
from common import *

XI, AI, MX = 'State::mkExprInternal', 'State::mkApplyInternal', 'State::mkExpr'
ASSOC = {'LEFT_ASSOC': (True, False, False), 'RIGHT_ASSOC': (False, False, False), 'LEFT_ASSOC_NIL': (True, True, False), 'RIGHT_ASSOC_NIL': (False, True, False),
         'LEFT_ASSOC_NS_NIL': (True, True, True), 'RIGHT_ASSOC_NS_NIL': (False, True, True)}
ALL = ['NONE', 'IMPLICIT', 'TYPE', 'SORRY', 'LIST', 'PROGRAM', 'BINDER', 'LET_BINDER', 'OPAQUE', 'SYNTAX', 'RESTRICT', 'PROOF_RULE', 'RIGHT_ASSOC', 'LEFT_ASSOC', 'RIGHT_ASSOC_NIL', 'LEFT_ASSOC_NIL',
       'RIGHT_ASSOC_NS_NIL', 'LEFT_ASSOC_NS_NIL', 'CHAINABLE', 'PAIRWISE', 'ARG_LIST', 'AMB', 'DATATYPE', 'DATATYPE_CONSTRUCTOR', 'AMB_DATATYPE_CONSTRUCTOR']


def run(c):
    ALIAS.clear()
    c.rule('curried', 'an application of several arguments applies its operator to one argument after the other', 5)
    c.rule('function-type', 'a function type of several arguments takes one argument after the other', 3)
    c.rule('assoc', 'associative operators combine the arguments in the declared direction', 40)
    c.rule('terminated', 'operators with a nil terminator end in the nil terminator or a list', 12)
    c.rule('chained', 'chainable and pairwise operators combine neighbours or all pairs, in order', 10)
    c.rule('packed', 'argument lists and opaque arguments are packed as declared', 6)
    c.rule('plain', 'operators without such an attribute are applied to the arguments as they are', 10)
    c.rule('dispatch', 'every application goes through the attribute of its operator', 8)
    c.rule('one-at-a-time', 'no application of several arguments is built, except those of programs and rules', 6)
    c.rule('binders', 'the variables of a binder are packed with the constructor it declares, in order', 4)
    c.rule('definition', 'a definition that is given all its arguments is its body with every parameter replaced by the argument in its place', 3)
    currying(c)
    functype(c)
    assoc(c)
    chain(c)
    packed(c)
    plain(c)
    apply(c)
    definition(c)
    nary(c)
    flat(c)
    binders(c)


# ------------------------------------------------------------------ helpers
def val(t):
    while t.op == 'value':
        t = t.a[0]
    return t


def elems(r, t, hyp=()):
    """{index: element} of a vector term with known length; None if unknown"""
    if t.op == 'list':
        return {i: x for i, x in enumerate(t.a[0])}
    if t.op == 'push':
        e = elems(r, t.a[0], hyp)
        if e is None:
            return None
        return dict(e, **{}) | {len(e): t.a[1]}
    if t.op == 'set':
        e = elems(r, t.a[0], hyp)
        if e is None or t.a[1].op != 'i':
            return None
        return e | {t.a[1].a[0]: t.a[2]}
    if t.op == 'cat':
        a, b = elems(r, t.a[0], hyp), elems(r, t.a[1], hyp)
        return None if a is None or b is None else a | {len(a) + i: x for i, x in b.items()}
    if t is EMPTY:
        return {}
    if t.op == 'it':
        if t in hyp:
            return hyp[t]
        if t not in r.loopstates or t in r.unsure:
            return None
        e = elems(r, t.a[-1], hyp or {})
        if e is None:
            return None
        # an element stays what it was if no iteration changes it
        gen = {i: mk('at', t, I(i)) for i in e}
        keep = dict(e)
        for v, s in r.loopstates[t]:
            w = elems(r, v, dict(hyp or {}) | {t: gen})
            if w is None or len(w) != len(e):
                return None
            for i in e:
                if w[i] is not gen[i] and w[i] is not e[i]:
                    keep[i] = gen[i]
        return keep
    return None


ALIAS = {}


def aliases(r, C):
    """copies of C made by a loop over all of it"""
    ALIAS.clear()
    for x in list(r.loopstates):
        if x.op == 'it' and isT(x.a[-1]) and x.a[-1] is EMPTY:
            for s in [s for t, s in r.exits] + [e.st for e in r.events]:
                if rest_of(r, s, x, C, L(0)) == {}:
                    ALIAS[x] = C
                    break


def lin(t):
    """linear form, with the sizes of copies identified"""
    return {(size(ALIAS[k.a[0]]) if k is not None and k.op == 'size' and k.a[0] in ALIAS else k): v for k, v in linear(t).items()}


def is_(a, C):
    return a is C or ALIAS.get(a) is C


def locate(t, C):
    """index (linear form) of the element t of the vector C, or None"""
    t = val(t)
    if t.op == 'back' and is_(t.a[0], C):
        return ladd(lin(size(C)), {None: 1}, -1)
    if t.op == 'front' and is_(t.a[0], C):
        return {}
    if t.op == 'idx' and is_(t.a[0], C):
        return lin(t.a[1])
    if t.op == 'deref':
        return iterpos(t.a[0], C)
    if t.op == 'it':
        return iterpos(t, C)       # it->...
    return None


def iterpos(t, C):
    """position of an iterator into C"""
    lf = lin(t)
    b = [k for k in lf if k is not None and k.op in ('begin', 'end', 'rbegin', 'rend') and is_(k.a[0], C)]
    if len(b) == 1 and lf[b[0]] == 1:
        rest = {k: v for k, v in lf.items() if k is not b[0]}
        n = lin(size(C))
        if b[0].op == 'begin':
            return rest
        if b[0].op == 'end':
            return ladd(n, rest)
        if b[0].op == 'rbegin':
            return ladd(ladd(n, {None: 1}, -1), rest, -1)
        return ladd({None: -1}, rest, -1)
    if len(b) == 0:
        its = [k for k in lf if k is not None and k.op == 'it' and isT(k.a[-1])]
        if len(its) == 1 and lf[its[0]] == 1:
            e = iterpos(its[0].a[-1], C)
            if e is None:
                return None
            rev = any(k.op in ('rbegin', 'rend') for k in subterms(its[0].a[-1]))
            d = ladd(lf, {its[0]: 1}, -1)
            # position relative to the entry: the iterator itself is the unknown, counted from its entry
            return ladd(ladd(e, d, -1 if rev else 1), {mk('steps', its[0]): -1 if rev else 1})
    return None


def span(r, s, t, C):
    """(first, last, step) of the positions that the element t of C takes in a loop that has run to its end in s; linear forms.
    A loop in which no iteration is possible is fine."""
    p = locate(t, C)
    if p is None:
        return None
    its = [k for k in p if k is not None and (k.op == 'it' or k.op == 'steps')]
    if len(its) != 1 or abs(p[its[0]]) != 1:
        return None
    k = its[0]
    it = k if k.op == 'it' else k.a[0]
    st = step_of(r, it)
    if st not in (1, -1):
        return None
    co = p[k]
    rest = {x: v for x, v in p.items() if x is not k}
    if k.op == 'steps':
        if st != 1:
            return None
        start = {}
        ends = []
        for h, v in s.facts.items():
            if h.op == 'eq' and v is True and it in h.a:
                o = h.a[0] if h.a[1] is it else h.a[1]
                a, b = iterpos(o, C), iterpos(it.a[-1], C)
                if a is not None and b is not None:
                    d = ladd(a, b, -1)
                    ends.append(d if co == 1 else ladd({}, d, -1))
    else:
        start = lin(it.a[-1])
        ends = bounds(s, it, st)
    res = []
    for e in ends:
        last = ladd(e, {None: st}, -1)
        res.append((ladd(rest, start, co), ladd(rest, last, co), st * co))
    return res


def bounds(s, it, st):
    """values at which the loop of the counter it has ended"""
    out = []
    for h, v in s.facts.items():
        if h.op == 'lt' and v is False:
            for a, b, sg in ((h.a[0], h.a[1], 1), (h.a[1], h.a[0], -1)):
                la, lb = lin(a), lin(b)
                if la.get(it) == 1 and it not in lb and sg == st:
                    out.append(ladd(lb, {k: x for k, x in la.items() if k is not it}, -1))
        elif h.op == 'lt' and v is True and st == 1:
            # stops as soon as it is beyond
            la, lb = lin(h.a[0]), lin(h.a[1])
            if lb.get(it) == 1 and it not in la:
                out.append(ladd(ladd(la, {None: 1}), {k: x for k, x in lb.items() if k is not it}, -1))
        elif h.op == 'eq' and v is True:
            for a, b in (h.a, h.a[::-1]):
                la, lb = lin(a), lin(b)
                if la.get(it) == 1 and it not in lb:
                    out.append(ladd(lb, {k: x for k, x in la.items() if k is not it}, -1))
    lo, hi = s.interval(it)
    if st == -1 and hi is not None:
        out.append({None: hi} if hi else {})
    # a known bound
    d = s.dom.get(it)
    if st == 1 and lo is not None and it.a[-1].op == 'i' and lo > it.a[-1].a[0]:
        out.append({None: lo})
    return out


def covers(r, s, t, C, first, last):
    """does t take the positions first..last (linear forms; in this order if first <= last is read upwards, with sign d)"""
    for a, b, d in span(r, s, t, C) or ():
        if not ladd(a, first, -1) and not ladd(b, last, -1):
            return d
    return None


def L(n, C=None, k=0):
    """n + k * size"""
    r = {None: n} if n else {}
    return ladd(r, lin(size(C)), k) if C is not None else r


def marked(s, t):
    """is the term marked as a list (True/False/None)"""
    t = val(t)
    x = None
    for cand in [h for h in list(s.dom) if is_call(h, 'State::getConstructorKind')] + \
            [a for h in s.facts if h.op == 'eq' for a in h.a if is_call(a, 'State::getConstructorKind')]:
        if val(cargs(cand)[0]) is t:
            x = cand
            b = s.truth(eq(cand, attr('LIST')))
            if b is not None:
                return b
    return None


def built(t):
    """(how, kind, vector) of a term built from a vector of children"""
    t = val(t)
    if is_call(t, AI):
        return 'apply', kind('APPLY'), cargs(t)[0]
    if is_call(t, XI) or is_call(t, MX):
        return ('raw' if is_call(t, XI) else 'mk'), cargs(t)[0], cargs(t)[1]
    return None, None, None


def same(C, a, b):
    if val(a) is val(b):
        return True
    pa, pb = locate(a, C), locate(b, C)
    return pa is not None and pa == pb


# ------------------------------------------------------------------ currying
def currying(c):
    f = c.prog.fn1(AI)
    C = mk('p', 0, f.params[0]['name'])
    r = c.analyze(f, inv=True)
    c.ob('curried', bool(r.exits), f, 'returns')
    for t, s in r.exits:
        c.ob('curried', leftfold(c, r, s, t, C, 'APPLY', C, 1), f, 'one argument after the other, in order', detail=str(t), st=s)


def leftfold(c, r, s, t, hd, K, C, start):
    """t = K(K(hd, C[start]), C[start+1]) ..., up to the end of C"""
    t = val(t)
    if t.op != 'it' or t in r.unsure or not r.loopstates.get(t):
        return False
    h = t.a[-1]
    if not (locate(h, C) == {} if hd is C else val(h) is val(hd)):
        return False
    for v, st in r.loopstates[t]:
        how, k, vec = built(v)
        e = elems(r, vec) if vec is not None else None
        if how != 'raw' or k is not kind(K) or e is None or len(e) != 2 or val(e[0]) is not t:
            return False
        if covers(r, s, e[1], C, L(start), L(-1, C, 1)) != 1:
            return False
    return True


def functype(c):
    f = c.prog.fn1('State::mkFunctionType')
    C, ret = mk('p', 0, f.params[0]['name']), mk('p', 1, f.params[1]['name'])
    r = c.analyze(f, inv=True)
    for t, s in r.exits:
        t = val(t)
        if t is ret or val(t) is val(ret):
            c.ob('function-type', s.truth(eq(size(C), I(0))) is True, f, 'no arguments', detail=str(t), st=s)
            continue
        ok = t.op == 'it' and val(t.a[-1]) is ret and bool(r.loopstates.get(t)) and t not in r.unsure
        for v, st in r.loopstates.get(t, ()):
            how, k, vec = built(v)
            e = elems(r, vec) if vec is not None else None
            ok = ok and how == 'raw' and k is kind('FUNCTION_TYPE') and e is not None and len(e) == 2 and val(e[1]) is t \
                and covers(r, s, e[0], C, L(-1, C, 1), L(0)) == -1
        c.ob('function-type', ok, f, 'from the last argument to the first', detail=str(t), st=s)


# ------------------------------------------------------------------ attributes
def attrrun(c, A, **kw):
    f = c.prog.fn1('State::mkApplyAttr')
    ai, V, ct = (mk('p', i, f.params[i]['name']) for i in range(3))
    d = mk('f', q('AppInfo::d_attrCons'), ai, 0)
    r0 = getattr(c, '_r0', None)
    if r0 is None:
        from absint import St
        r0 = c._r0 = c.analyze(f, inv=True, facts=[(eq(size(mk('p', 1, f.params[1]['name'])), I(1)), True)])
    d = pre(r0, 'AppInfo::d_attrCons', ai)
    r = c.analyze(f, inv=True, facts=[(eq(d, attr(A)), True), (lt(size(V), I(1)), False)], **kw)
    return f, r, ai, V, ct


def assoc(c):
    for A, (left, nil, ns) in sorted(ASSOC.items()):
        f, r, ai, V, ct = attrrun(c, A)
        hd = mk('idx', V, I(0))
        n = 0
        for t, s in r.exits:
            if s.truth(lt(size(V), I(2))) is True:
                c.ob('assoc', val(t) is ct, f, A + ': no arguments', detail=str(t), st=s)
                continue
            n += 1
            how, k, vec = built(t)
            x = val(t)
            elim = False
            if how == 'mk' and k is kind('EVAL_LIST_SINGLETON_ELIM'):
                e = elems(r, vec)
                c.ob('terminated', ns and e is not None and len(e) == 2 and locate(e[0], V) == {}, f, A + ': singleton', detail=str(t), st=s)
                if e is None or len(e) != 2:
                    continue
                elim, x = True, val(e[1])
            if x.op != 'it' or x in r.unsure or not r.loopstates.get(x):
                c.ob('assoc', False, f, A + ': what is built', detail=str(t), st=s)
                continue
            e0 = val(x.a[-1])
            endp = L(1) if left else L(-1, V, 1)
            used = locate(e0, V) == endp
            edge = index(V, I(1)) if left else back(V)
            if nil:
                mark = None
                for h in [y for z in s.facts for y in subterms(z) if is_call(y, 'State::getConstructorKind')] + [y for y in s.dom if is_call(y, 'State::getConstructorKind')]:
                    if locate(cargs(h)[0], V) == endp:
                        b = s.truth(eq(h, attr('LIST')))
                        mark = b if b is not None else mark
                if used:
                    ok = mark is True
                elif e0 is ct:
                    ok = mark is False and s.truth(eq(ct, NULL)) is False
                else:
                    ok = mark is False and s.truth(eq(ct, NULL)) is True and nilof(r, e0, V)
                c.ob('terminated', ok, f, A + ': the end of the list', detail='%s %s' % (e0, mark), st=s)
            else:
                c.ob('assoc', used, f, A + ': starts with the outermost argument', detail=str(e0), st=s)
            cnt = {}
            for v, st in r.loopstates[x]:
                how, k, vec = built(v)
                e = elems(r, vec) if vec is not None else None
                if e is None or len(e) != 3:
                    c.ob('assoc', False, f, A + ': step', detail=str(v), st=st)
                    continue
                X, Y = (e[2], e[1]) if left else (e[1], e[2])
                c.ob('assoc', locate(e[0], V) == {} and val(Y) is x, f, A + ': operator and what was built so far', detail=str(e), st=st)
                k0 = 2 if used else 1
                d = covers(r, s, X, V, L(k0), L(-1, V, 1)) if left else covers(r, s, X, V, L(-k0, V, 1), L(1))
                c.ob('assoc', d == (1 if left else -1), f, A + ': every further argument, in order', detail=str(X), st=st)
                m = marked(st, X)
                if how == 'raw' and k is kind('EVAL_LIST_CONCAT'):
                    c.ob('assoc', nil and m is True, f, A + ': lists are concatenated', detail=str(m), st=st)
                    cnt[id(st)] = 0
                else:
                    c.ob('assoc', how == 'apply' and (not nil or m is False), f, A + ': others are applied', detail='%s %s' % (how, m), st=st)
                    cnt[id(st)] = 1
            if ns:
                ok = False
                for y in r.loopstates:
                    if y.op == 'it' and y.a[0] == x.a[0] and y.a[-1].op == 'i' and y not in r.unsure and set(cnt) <= {id(st) for v, st in r.loopstates[y]} and all(
                            linear(v) == ladd({y: 1}, {None: cnt[id(st)]} if cnt[id(st)] else {}) for v, st in r.loopstates[y] if id(st) in cnt):
                        lo, hi = s.interval(y)
                        b = y.a[-1].a[0]
                        ok = ok or (hi is not None and hi - b <= 1 if elim else lo is not None and lo - b >= 2)
                c.ob('terminated', ok, f, A + ': a list of fewer than two elements may be a singleton', detail=str(elim), st=s)
            else:
                c.ob('assoc', not elim, f, A + ': as built', st=s)
        c.ob('assoc', n >= (3 if nil else 1), f, A + ': cases', detail=str(n))


def nilof(r, t, V):
    """(eo::nil f (eo::typeof t1))"""
    how, k, vec = built(t)
    e = elems(r, vec) if vec is not None else None
    if how != 'raw' or k is not kind('EVAL_NIL') or e is None or len(e) != 2 or locate(e[0], V) != {}:
        return False
    how, k, vec = built(e[1])
    e = elems(r, vec) if vec is not None else None
    return how == 'raw' and k is kind('EVAL_TYPE_OF') and e is not None and len(e) == 1 and locate(e[0], V) == L(1)


def chain(c):
    for A in ('CHAINABLE', 'PAIRWISE'):
        f, r, ai, V, ct = attrrun(c, A)
        n = 0
        for t, s in r.exits:
            how, k, vec = built(t)
            x = val(t)
            if x.op == 'idx' and x.a[1] is I(1):
                X = x.a[0]
                c.ob('chained', s.truth(eq(size(X), I(2))) is True, f, A + ': a single pair', st=s)
            elif x.op == 'back':
                X = x.a[0]
                c.ob('chained', s.truth(eq(size(X), I(2))) is True, f, A + ': a single pair', st=s)
            else:
                c.ob('chained', how == 'mk' and k is kind('APPLY') and s.truth(eq(size(vec), I(2))) is False, f, A + ': the pairs are combined', detail=str(t), st=s)
                if how != 'mk':
                    continue
                X = vec
            n += 1
            ok = X.op == 'it' and elems(r, X.a[-1]) == {0: ct} and bool(r.loopstates.get(X)) and X not in r.unsure
            c.ob('chained', ok, f, A + ': with the declared operator', detail=str(X), st=s)
            if not ok:
                continue
            inner = X
            outer_states = r.loopstates[X]
            if A == 'PAIRWISE':
                ins = {v for v, st in outer_states}
                inner = ins.pop() if len(ins) == 1 else None
                ok = inner is not None and inner.op == 'it' and inner.a[-1] is X and bool(r.loopstates.get(inner)) and inner not in r.unsure
                c.ob('chained', ok, f, A + ': all pairs', detail=str(inner), st=s)
                if not ok:
                    continue
            for v, st in r.loopstates[inner]:
                h2, k2, v2 = built(v.a[1]) if v.op == 'push' and v.a[0] is inner else (None, None, None)
                e = elems(r, v2) if v2 is not None else None
                ok = h2 == 'apply' and e is not None and len(e) == 3 and locate(e[0], V) == {}
                c.ob('chained', ok, f, A + ': a pair is added', detail=str(v), st=st)
                if not ok:
                    continue
                a, b = locate(e[1], V), locate(e[2], V)
                if A == 'CHAINABLE':
                    ok = a is not None and b is not None and ladd(b, a, -1) == {None: 1} and covers(r, s, e[1], V, L(1), L(-2, V, 1)) == 1
                    c.ob('chained', ok, f, A + ': of neighbours', detail=str(e), st=st)
                else:
                    ok = covers(r, s, e[1], V, L(1), L(-2, V, 1)) == 1 or covers(r, s, e[1], V, L(1), L(-1, V, 1)) == 1
                    c.ob('chained', ok, f, A + ': the first of a pair', detail=str(e[1]), st=st)
                    for w, so in outer_states:
                        ok = a is not None and covers(r, so, e[2], V, ladd(a, {None: 1}), L(-1, V, 1)) == 1
                        c.ob('chained', ok, f, A + ': the second of a pair', detail=str(e[2]), st=so)
        c.ob('chained', n >= 2, f, A + ': cases')


def rest_of(r, s, vec, C, start):
    """segments of vec: (known prefix elements) if it ends with exactly the elements of C from start on"""
    if vec.op == 'it':
        if vec in r.unsure or not r.loopstates.get(vec):
            return None
        e = elems(r, vec.a[-1])
        for v, st in r.loopstates[vec]:
            if v.op != 'push' or v.a[0] is not vec or covers(r, s, v.a[1], C, start, L(-1, C, 1)) != 1:
                return None
        return e
    if vec.op == 'pushf':
        return {0: vec.a[1]} if slice_(vec.a[0], C, start, L(0, C, 1)) else None
    if vec.op == 'cat':
        return elems(r, vec.a[0]) if slice_(vec.a[1], C, start, L(0, C, 1)) else None
    if slice_(vec, C, start, L(0, C, 1)):
        return {}
    return None


def packed(c):
    f, r, ai, V, ct = attrrun(c, 'ARG_LIST')
    for t, s in r.exits:
        how, k, vec = built(t)
        e = elems(r, vec) if vec is not None else None
        ok = how == 'raw' and k is kind('APPLY') and e is not None and len(e) == 2 and locate(e[0], V) == {}
        c.ob('packed', ok, f, 'the operator is applied to the list', detail=str(t), st=s)
        if not ok:
            continue
        m = None
        one = s.truth(eq(size(V), I(2)))
        m = marked(s, index(V, I(1)))
        if locate(e[1], V) == L(1):
            c.ob('packed', one is True and m is True, f, 'a list is passed as it is', detail=str((one, m)), st=s)
        else:
            how, k, vec = built(e[1])
            ok = how == 'mk' and k is kind('APPLY')
            p_ = rest_of(r, s, vec, V, L(1)) if ok else None
            c.ob('packed', ok and p_ is not None and len(p_) == 1 and p_[0] is ct and (one is False or m is False), f, 'the arguments are packed in order', detail=str(e[1]), st=s)
    f, r, ai, V, ct = attrrun(c, 'OPAQUE')
    n = 0
    for t, s in r.exits:
        if isnull(s, t):
            continue
        n += 1
        how, k, vec = built(t)
        x = val(t)
        pre_ = None
        if x.op != 'it':
            ok = how == 'apply' or how == 'raw' and k is kind('APPLY') and (s.interval(size(vec))[1] or 9) <= 2
            c.ob('packed', ok, f, 'the opaque term is applied to the other arguments', detail=str(t), st=s)
            if not ok or vec.op not in ('cat', 'it'):
                c.ob('packed', False, f, 'the other arguments', detail=str(vec), st=s)
                continue
            e = elems(r, vec.a[0]) if vec.op == 'cat' else elems(r, vec.a[-1])
            if e is None or len(e) != 1:
                c.ob('packed', False, f, 'the operator', detail=str(vec), st=s)
                continue
            x = val(e[0])
            pre_ = vec
        ok = x.op == 'it' and locate(x.a[-1], V) == {} and bool(r.loopstates.get(x)) and x not in r.unsure
        ends = set()
        for v, st in r.loopstates.get(x, ()):
            how, k, vec = built(v)
            e = elems(r, vec) if vec is not None else None
            if not (how == 'raw' and k is kind('APPLY_OPAQUE') and e is not None and len(e) == 2 and val(e[0]) is x):
                ok = False
                continue
            sp = [(b, d) for a, b, d in span(r, s, e[1], V) or () if a == {None: 1} and d == 1 and opaque_count(b, ai)]
            ok = ok and bool(sp)
            ends |= {tuple(sorted(((str(k_), v_) for k_, v_ in b.items()))) for b, d in sp}
            last = sp[0][0] if sp else None
        c.ob('packed', ok, f, 'as many opaque arguments as declared', detail=str(x), st=s)
        if not ok:
            continue
        if pre_ is not None:
            c.ob('packed', rest_of(r, s, pre_, V, ladd(last, {None: 1})) is not None, f, 'all other arguments', detail=str(pre_), st=s)
        else:
            d = any(h.op == 'eq' and v and not ladd(ladd(linear(h.a[0]), linear(h.a[1]), -1), ladd(linear(size(V)), ladd(last, {None: 1}), -1), sg)
                    for h, v in s.facts.items() for sg in (1, -1))
            c.ob('packed', d, f, 'no other arguments', st=s)
    c.ob('packed', n >= 2, f, 'opaque: cases')


def opaque_count(lf, ai):
    ks = [k for k in lf if k is not None]
    return len(ks) == 1 and lf[ks[0]] == 1 and not lf.get(None) and is_call(ks[0], 'Integer::toUnsignedInt') and any(
        field(y, 'd_attrConsTerm') and any(z is ai for z in subterms(y)) for y in subterms(ks[0]))


def plain(c):
    for A in ALL:
        if A in ASSOC or A in ('CHAINABLE', 'PAIRWISE', 'ARG_LIST', 'OPAQUE'):
            continue
        f, r, ai, V, ct = attrrun(c, A)
        for t, s in r.exits:
            c.ob('plain', isnull(s, t), f, A + ' changes nothing', detail=str(t), st=s)
    known_ = {n for n in enum_names(c, 'Attr')}
    c.ob('plain', known_ <= set(ALL), 'src/attr.h', 'attributes', detail=str(sorted(known_ - set(ALL))))


def enum_names(c, e):
    s = set()
    for f in c.prog.funcs.values():
        for n in f.nodes:
            if n['k'] == 'enum' and n.get('ty', '').split('::')[-1] == e:
                s.add(n['n'].split('::')[-1])
    return s


# ------------------------------------------------------------------ applications
def apply(c):
    f = c.prog.fn1(MX)
    k, C = mk('p', 0, f.params[0]['name']), mk('p', 1, f.params[1]['name'])
    D = 'AppInfo::d_kind'
    r = c.analyze(f, inv=True, facts=[(eq(k, kind('APPLY')), True)], watch=watch(XI, AI, MX, 'State::mkApplyAttr', 'State::mkFunctionType', 'TypeChecker::computeConstructorTermInternal'), cap=4000)
    n = 0
    aliases(r, C)

    def whole_(vec, s, start=0):
        """is vec the vector of the arguments of mkExpr from start on"""
        if start == 1 and vec.op in ('erase', 'slice', 'slicefrom', 'popf', 'pop_front', 'erased'):
            pass
        return is_(vec, C) and not start or rest_of(r, s, vec, C, L(start)) == {}
    for e in r.events:
        s = e.st
        if e.kind != 'call':
            continue
        if e.name == q('State::mkApplyAttr'):
            n += 1
            a, v, ct = e.args
            ok = is_call(a, 'State::getAppInfo') and locate(cargs(a)[0], C) == {} and whole_(v, s)
            c.ob('dispatch', ok, f, 'the attribute of the operator and all arguments', detail=str((a, v)), st=s)
            ct = val(ct)
            c.ob('dispatch', is_call(ct, 'TypeChecker::computeConstructorTermInternal') and cargs(ct)[0] is a and whole_(cargs(ct)[1], s), f, 'the declared constructor', detail=str(ct), st=s)
        elif e.name == q(AI):
            n += 1
            v = e.args[0]
            c.ob('dispatch', whole_(v, s) or opaque_app(v, s, C, r), f, 'all arguments are applied', detail=str(v), st=s)
            tried(c, f, s, C, r, v)
        elif e.name == q(XI) and s.cval(e.args[0]) is kind('APPLY'):
            n += 1
            v = e.args[1]
            c.ob('dispatch', whole_(v, s) or opaque_app(v, s, C, r), f, 'all arguments are applied at once', detail=str(v), st=s)
            short = (s.interval(size(v))[1] or 99) <= 2 or (s.interval(size(C))[1] or 99) <= 2
            c.ob('one-at-a-time', short or headkind(s, C) in ('PROGRAM_CONST', 'PROOF_RULE'), f, 'one argument, or a program or rule', detail=str(headkind(s, C)), st=s)
            tried(c, f, s, C, r, v)
        elif e.name == q('State::mkFunctionType'):
            n += 1
            ok = slice_(e.args[0], C, L(1), L(-1, C, 1)) and locate(e.args[1], C) == L(-1, C, 1)
            c.ob('function-type', ok, f, 'the last one is the result', detail=str(e.args), st=s)
        elif e.name == q(MX):
            if e.args[0].op == 'e':
                continue
            n += 1
            ok = field(e.args[0], 'd_kind') and slice_(e.args[1], C, L(1), L(0, C, 1))
            c.ob('dispatch', ok, f, 'builtin operators get all arguments', detail=str(e.args), st=s)
    c.ob('dispatch', n >= 6, f, 'applications', detail=str(n))
    # what mkApplyAttr gives is the result
    for t, s in r.exits:
        for h, v in list(s.facts.items()):
            pass
        at = [x for h in s.facts for x in subterms(h) if is_call(x, 'State::mkApplyAttr')]
        for x in at:
            b = s.truth(eq(x, NULL))
            if b is False:
                c.ob('dispatch', val(t) is x, f, 'the desugared term is the result', detail=str(t), st=s)
    ALIAS.clear()
    only_callers(c, 'dispatch', 'State::mkApplyAttr', [MX, 'State::getOverloadInternal'])


def definition(c):
    f = c.prog.fn1(MX)
    k, C = mk('p', 0, f.params[0]['name']), mk('p', 1, f.params[1]['name'])
    EV = 'TypeChecker::evaluate'
    r = c.analyze(f, inv=True, facts=[(eq(k, kind('APPLY')), True)], opaque={q(EV)}, cap=4000)
    aliases(r, C)
    n = 0
    for t, s in r.exits:
        t = val(t)
        lam = [x for x in {y for h in s.facts for y in subterms(h)} if x.op == 'kind' and locate(x.a[0], C) == {} and s.truth(eq(x, kind('LAMBDA'))) is True]
        if not lam:
            if is_call(t, EV):
                b = val(cargs(t)[0])
                c.ob('definition', not (b.op == 'idx' and b.a[0].op == 'children'), f, 'only the body of a definition replaces it', detail=str(t), st=s)
            continue
        hd = lam[0].a[0]
        P = mk('children', index(mk('children', hd), I(0)))
        P = next((y for h in s.facts for y in subterms(h) if y.op == 'children' and val(y.a[0]).op == 'idx' and y.a[0].a[0].op == 'children' and locate(y.a[0].a[0].a[0], C) == {}), P)
        want = ladd(ladd(lin(size(C)), lin(size(P)), -1), {None: 1}, -1)
        known = None
        for h, b in s.facts.items():
            if h.op == 'eq':
                try:
                    d = ladd(lin(h.a[0]), lin(h.a[1]), -1)
                except Exception:
                    continue
                if d == want or ladd({}, d, -1) == want:
                    known = b
        if known is not True:
            c.ob('definition', not is_call(t, EV), f, 'its body only if every parameter has its argument', detail=str(t), st=s)
            continue
        n += 1
        if not is_call(t, EV):
            c.ob('definition', False, f, 'the body', detail=str(t), st=s)
            continue
        b, ctx = val(cargs(t)[0]), cargs(t)[1]
        ok = b.op == 'idx' and b.a[0].op == 'children' and locate(b.a[0].a[0], C) == {} and b.a[1] is I(1)
        c.ob('definition', ok, f, 'the body of the definition that is applied', detail=str(b), st=s)
        ok = ctx.op == 'it' and ctx.a[-1] is EMPTY and ctx not in r.unsure and bool(r.loopstates.get(ctx))
        for v, st in r.loopstates.get(ctx, ()):
            kv = v.a[1:3] if v.op == 'set' else v.a[1].a if v.op == 'ins' and v.a[1].op == 'pair' else None
            ok = ok and kv is not None and v.a[0] is ctx and together(r, locate(kv[0], P), locate(kv[1], C)) \
                and (covers(r, s, kv[0], P, L(0), L(-1, P, 1)) == 1 or covers(r, s, kv[0], P, L(-1, P, 1), L(0)) == -1)
        c.ob('definition', ok, f, 'every parameter stands for the argument in its place', detail=str((ctx, [v for v, st in r.loopstates.get(ctx, ())])), st=s)
    c.ob('definition', n >= 1, f, 'definitions are applied', detail=str(n))
    ALIAS.clear()


def together(r, p, v):
    """is the second position always one after the first"""
    if p is None or v is None:
        return False

    def start(x):
        its = [k for k in x if k is not None and k.op in ('it', 'steps')]
        if len(its) != 1:
            return None
        k = its[0]
        it = k if k.op == 'it' else k.a[0]
        st = step_of(r, it)
        if st is None:
            return None
        rest = {a: b for a, b in x.items() if a is not k}
        return (ladd(rest, lin(it.a[-1]), x[k]) if k.op == 'it' else rest), x[k] * st, it.a[0]
    a, b = start(p), start(v)
    return a is not None and b is not None and a[1:] == b[1:] and ladd(b[0], a[0], -1) == {None: 1}


def opaque_app(v, s, C, r):
    """the arguments of (_ f ...), without the _"""
    y = v
    while y.op in ('set', 'o', 'erase', 'slice', 'slicefrom'):
        break
    if not any(b and h.op == 'eq' and kind('APPLY') in h.a and any(field(x, 'd_kind') for x in h.a) for h, b in s.facts.items()):
        return False
    return slice_(v, C, L(1), L(0, C, 1)) or erased_first(v, C, r, s)


def erased_first(v, C, r, s):
    if v.op in ('erase', 'erased', 'rm') and rest_of(r, s, v.a[0], C, L(0)) == {}:
        a = [iterpos(x, v.a[0]) for x in v.a[1:]]
        return a == [{}, {None: 1}] or a == [{}]
    return False


def slice_(t, C, a, b):
    """are the elements of t those of C from position a up to b"""
    if is_(t, C):
        return not a and not ladd(b, L(0, C, 1), -1)
    if t.op == 'slice' and is_(t.a[0], C):
        return not ladd(lin(t.a[1]), a, -1) and not ladd(b, L(0, C, 1), -1)
    if t.op == 'slicefrom':
        x = t.a
    elif t.op == 'cont' and t.a[0] == 'vector':
        x = t.a[1]
    elif t.op == 'prefix' and is_(t.a[0], C):
        x = (mk('begin', C), t.a[1])
    else:
        return False
    if len(x) < 2:
        return False
    x, y = iterpos(x[0], C), iterpos(x[1], C)
    return x is not None and y is not None and not ladd(x, a, -1) and not ladd(y, b, -1)


def headkind(s, C):
    for k in ('PROGRAM_CONST', 'PROOF_RULE'):
        for h, b in s.facts.items():
            if b and h.op == 'eq' and kind(k) in h.a:
                x = h.a[0] if h.a[1] is kind(k) else h.a[1]
                if x.op == 'kind' and locate(x.a[0], C) == {}:
                    return k
    for h, d in s.dom.items():
        if h.op == 'kind' and locate(h.a[0], C) == {} and d[0] == 'in' and all(x in (kind('PROGRAM_CONST'), kind('PROOF_RULE')) for x in d[1]):
            return 'PROOF_RULE'
    return None


def tried(c, f, s, C, r, v):
    """before an application is built as it is, its operator has no attribute that says otherwise"""
    hds = set()
    for h, b in list(s.facts.items()):
        for x in subterms(h):
            if is_call(x, 'State::getAppInfo') and locate(cargs(x)[0], C) == {}:
                hds.add(x)
    ok = False
    for x in hds:
        if s.truth(eq(x, NULL)) is True:
            ok = True
    for h, b in s.facts.items():
        for x in subterms(h):
            if is_call(x, 'State::mkApplyAttr') and s.truth(eq(x, NULL)) is True:
                ok = True
    if not ok and opaque_app(v, s, C, r):
        ok = True
    c.ob('dispatch', ok, f, 'applied as it is only without an attribute', st=s)


def nary(c):
    """(eo::add a b c) is (eo::add (eo::add a b) c)"""
    f = c.prog.fn1(MX)
    k, C = mk('p', 0, f.params[0]['name']), mk('p', 1, f.params[1]['name'])
    m = 0
    for K in ('EVAL_ADD', 'EVAL_AND', 'EVAL_CONCAT', 'EVAL_IS_EQ'):
        r = c.analyze(f, inv=True, facts=[(eq(k, kind(K)), True), (lt(I(2), size(C)), True)])
        aliases(r, C)
        for t, s in r.exits:
            t = val(t)
            if t.op != 'it' or t in r.unsure:
                continue
            m += 1
            how, k0, vec = built(t.a[-1])
            e = elems(r, vec) if vec is not None else None
            first = 2
            if how != 'mk' and locate(t.a[-1], C) == {}:
                ok, first = True, 1     # starting from the first argument itself
            else:
                ok = how == 'mk' and s.cval(k0) in (kind(K), k) and e is not None and len(e) == 2 and locate(e[0], C) == {} and locate(e[1], C) == L(1)
            for v, st in r.loopstates.get(t, ()):
                how, k0, vec = built(v)
                e = elems(r, vec) if vec is not None else None
                ok = ok and how == 'mk' and s.cval(k0) in (kind(K), k) and e is not None and len(e) == 2 and val(e[0]) is t and covers(r, s, e[1], C, L(first), L(-1, C, 1)) == 1
            c.ob('curried', ok, f, '%s of several arguments' % K, detail=str(t), st=s)
    ALIAS.clear()
    c.ob('curried', m >= 3, f, 'operators of several arguments', detail=str(m))


def flat(c):
    """applications built elsewhere have one argument, or belong to programs and rules"""
    p = c.prog
    for f in p.funcs.values():
        if not f.blocks or f.name in (q('State::mkApplyAttr'), q(MX), q(AI)) or not any(n['k'] == 'call' and n.get('n') == q(XI) for n in f.nodes):
            continue
        if not any(n['k'] == 'enum' and n.get('n', '').split('::')[-1] == 'APPLY' and n.get('ty', '').split('::')[-1] == 'Kind' for n in f.nodes):
            continue
        r = c.analyze(f, inv=True, watch=watch(XI), cap=4000)
        for e in r.events:
            if e.kind == 'call' and e.st.cval(e.args[0]) is kind('APPLY') and e.args[1].op in ('list', 'push', 'cat', 'set', 'it'):
                v = e.args[1]
                n = elems(r, v)
                hi = e.st.interval(size(v))[1]
                h = val(n[0]) if n else None
                prog = e.st.cval(mk('kind', h)) if h is not None else None
                if n is None and hi is None and v.op == 'it':
                    continue       # as the arguments of an existing application (C29)
                c.ob('one-at-a-time', n is not None and len(n) <= 2 or hi is not None and hi <= 2 or prog in (kind('PROGRAM_CONST'), kind('PROOF_RULE')) or program_app(e.st, n), f, 'one argument, or a program or rule', detail=str(v)[:300], st=e.st)


def program_app(s, n):
    return bool(n) and any(is_call(val(n[0]), x) for x in ('State::mkSymbol', 'State::mkSymbolInternal'))


def binders(c):
    p = c.prog
    f = p.fn1('State::mkBinderList')
    vs = mk('p', 1, f.params[1]['name'])
    r = c.analyze(f, inv=True)
    for t, s in r.exits:
        how, k, vec = built(t)
        pf = rest_of(r, s, vec, vs, {}) if how == 'mk' and k is kind('APPLY') else None
        c.ob('binders', pf is not None and len(pf) == 1 and consterm(pf[0], f, r, s), f, 'the constructor and all variables', detail=str(t), st=s)
    f = p.fn1('State::mkLetBinderList')
    vs = mk('p', 1, f.params[1]['name'])
    r = c.analyze(f, inv=True)
    for t, s in r.exits:
        how, k, vec = built(t)
        ok = how == 'mk' and k is kind('APPLY')
        pf = None
        W = None
        if ok and vec.op == 'cat':
            W = vec.a[1]
            pf = elems(r, vec.a[0])
        elif ok and vec.op == 'it':
            W, pf = vec, elems(r, vec.a[-1])
        ok = ok and pf is not None and len(pf) == 1 and kid(val(pf[0]))[1] is I(1) and consterm(kid(val(pf[0]))[0], f, r, s)
        c.ob('binders', ok, f, 'the list constructor', detail=str(t), st=s)
        if W is not None and W.op in ('slicefrom', 'slice'):
            W = None
        okp = W is not None and W.op == 'it' and bool(r.loopstates.get(W)) and W not in r.unsure
        for v, st in r.loopstates.get(W, ()):
            h2, k2, v2 = built(v.a[1]) if v.op == 'push' and v.a[0] is W else (None, None, None)
            e = elems(r, v2) if v2 is not None else None
            if not (h2 == 'mk' and k2 is kind('APPLY') and e is not None and len(e) == 3):
                okp = False
                continue
            x, y = e[1], e[2]
            hd_ = kid(val(e[0]))
            okp = okp and hd_[1] is I(0) and consterm(hd_[0], f, r, s) and part(x, 'first') is not None and part(x, 'first') is part(y, 'second') and sweep(r, s, part(x, 'first')) == (vs, 1)
        c.ob('binders', okp, f, 'a pair of every variable and its value, in order', detail=str(W), st=s)
    # mkList
    f = p.fn1('State::mkList')
    a = mk('p', 0, f.params[0]['name'])
    r = c.analyze(f, inv=True)
    for t, s in r.exits:
        if field(t, 'd_listNil'):
            c.ob('binders', s.truth(eq(size(a), I(0))) is True, f, 'the empty list', st=s)
            continue
        how, k, vec = built(t)
        pf = rest_of(r, s, vec, a, {}) if how == 'mk' and k is kind('APPLY') else None
        c.ob('binders', pf is not None and len(pf) == 1 and field(pf[0], 'd_listCons'), f, 'a list of all elements', detail=str(t), st=s)


def part(t, which):
    """the pair that t is a part of"""
    t = val(t)
    if t.op == ('fst' if which == 'first' else 'snd'):
        return t.a[0]
    if t.op in ('f', 'fld') and t.a[0] == 'std::pair::' + which:
        b = t.a[1]
        return mk('deref', b) if b.op == 'it' else b
    return None


def consterm(t, f, r, s):
    """the constructor term that the operator (the first parameter) declares"""
    t = val(t)
    if not field(t, 'd_attrConsTerm'):
        return False
    todo, seen = list(t.a), set()
    while todo:
        x = todo.pop()
        if isT(x):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'p' and x.a[0] == 0:
                return True
            todo += list(x.a)
        elif isinstance(x, tuple):
            if x and x[0] == 'L' and len(x) == 3:
                v = r.interp.load(x, s)
                if isT(v) and v not in seen:
                    todo.append(v)
            todo += list(x)
    return False
