"""A use of a name with several meanings means the newest that fits."""
from common import *

GO, GI = 'State::getOverloads', 'State::getOverloadInternal'
AIF, AT, CT, XI, AP, TY = 'State::getAppInfo', 'State::mkApplyAttr', 'TypeChecker::computeConstructorTermInternal', 'State::mkExprInternal', 'State::mkApplyInternal', 'TypeChecker::getType'


def run(c):
    c.rule('candidates', 'a symbol stands for all meanings of the name it was found under', 5)
    c.rule('choice', 'the newest meaning that fits is chosen, and none only if none fits', 20)
    c.rule('application', 'an application of such a symbol is an application of the meaning chosen', 8)
    c.rule('ascription', 'a type given for a symbol selects the meaning with that type', 8)
    c.rule('owner', 'meanings are chosen only there', 2)
    candidates(c)
    choice(c)
    application(c)
    ascription(c)
    only_callers(c, 'owner', GI, ['State::mkExpr'])
    only_callers(c, 'owner', GO, ['State::mkExpr'])


def candidates(c):
    r = c.analyze(GO)
    f = r.f
    e, ai = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    ov = pre(r, 'State::d_overloads')
    on, name = mk('f', q('AppInfo::d_isOverloaded'), ai), mk('f', q('AppInfo::d_overloadName'), ai)
    n = set()
    for t, s in r.exits:
        flag = [s.truth(h) for h in s.facts if field(h, 'd_isOverloaded')]
        noai = s.truth(eq(ai, NULL)) is True
        keys = [h.a[1] for h in s.facts if h.op == 'has' and h.a[0] is ov]
        okkey = all(field(k, 'd_overloadName') for k in keys) and len(set(keys)) <= 1
        found = s.truth(mk('has', ov, keys[0])) if keys else None
        last = s.truth(eq(e, back(index(ov, keys[0])))) if keys else None
        if t is NULL or s.truth(t) is False:
            n.add('none')
            c.ob('candidates', noai or flag == [False] or okkey and (found is False or last is False), f, 'no candidates', detail='without a reason', st=s)
            continue
        n.add('some')
        v = t
        if t.op == 'addr':
            v = r.interp.load(t.a[0], s)
        isv = keys and (v is index(ov, keys[0]) or v.op == 'fld' and v.a[0].endswith('second') or t.op == 'addr' and str(t.a[0][-1]).endswith('pair::second'))
        c.ob('candidates', flag == [True] and okkey and found is True and last is True, f, 'the symbol is what its name means', st=s)
        c.ob('candidates', bool(isv), f, 'the candidates are those of the name', detail='%s %s' % (t, v), st=s)
    c.ob('candidates', n == {'none', 'some'}, f, 'cases', detail=str(n))


def tail_of(r, t, C, depth=0):
    """are the elements of t from 1 on those of C"""
    if t is C:
        return True
    if depth > 6:
        return False
    if t.op == 'set' and t.a[1] is I(0):
        return tail_of(r, t.a[0], C, depth + 1)
    lp = loop_pushed(r, t)
    if lp and len(lp[1]) == 1 and None not in lp[1]:
        x = next(iter(lp[1]))
        g = [y for k, y in segments(lp[0])] if lp[0] is not EMPTY else []
        if x.op in ('deref', 'idx') and elem_of(x) is C:
            if x.op == 'deref':
                b = x.a[0].a[-1]
                start = 0 if b.op == 'begin' else b.a[1].a[0]
            else:
                start = 0 if x.a[1].op == 'it' and x.a[1].a[-1] is I(0) else 1 if x.a[1].op == 'it' and x.a[1].a[-1] is I(1) else 9
            return start == len(g) and start <= 1
        return False
    if t.op == 'it' and t in r.loopvals and t not in r.unsure:
        for v in r.loopvals[t]:
            w = v
            while w is not t and w.op == 'set' and w.a[1] is I(0):
                w = w.a[0]
            if w is not t:
                return False
        return tail_of(r, t.a[-1], C, depth + 1)
    return False


def same(x, y):
    return x is y or isT(x) and isT(y) and x.op == 'idx' and y.op == 'idx' and x.a[0] is y.a[0] and not ladd(linear(x.a[1]), linear(y.a[1]), -1)


def head_of(t):
    return index(t, I(0))


def choice(c):
    r = c.analyze(GI, inv=True, opaque={q(AT), q(CT), q(XI), q(AP), q(AIF)})
    f = r.f
    O, C, RT, RA = (mk('p', i, y['name']) for i, y in enumerate(f.params))

    def typed(s):
        """applications whose type is examined: {term: (has a type, type term)}"""
        out = {}
        for h in list(s.facts) + list(s.dom):
            for u in subterms(h) if isT(h) else ():
                if is_call(u, TY):
                    b = s.truth(eq(u, NULL))
                    if b is not None:
                        out[cargs(u)[0]] = (not b, u)
        return out

    def built(s, x, where):
        """the candidate that x is an application of"""
        if is_call(x, AT):
            ai, ch, ct = cargs(x)
            h = head_of(ch)
            ok = tail_of(r, ch, C) and is_call(ai, AIF) and same(cargs(ai)[0], h) and s.truth(eq(ai, NULL)) is False and is_call(ct, CT) and cargs(ct)[0] is ai \
                and same(head_of(cargs(ct)[1]), h) and tail_of(r, cargs(ct)[1], C)
            c.ob('choice', ok, f, 'an application by the rules of the candidate', detail='%s %s' % (where, x), st=s)
            return h
        if is_call(x, XI) or is_call(x, AP):
            ch = cargs(x)[-1]
            h = head_of(ch)
            two = s.truth(lt(I(2), size(ch)))
            ok = tail_of(r, ch, C) and (two is False and cargs(x)[0] is kind('APPLY') if is_call(x, XI) else two is True)
            c.ob('choice', ok, f, 'a plain application of the candidate', detail='%s %s' % (where, x), st=s)
            ai = [u for hh in s.facts for u in subterms(hh) if is_call(u, AIF) and same(cargs(u)[0], h)]
            rules = [u for hh in s.facts for u in subterms(hh) if is_call(u, AT) and same(head_of(cargs(u)[1]), h)]
            ok = any(s.truth(eq(a, NULL)) is True for a in ai) or any(s.truth(eq(a, NULL)) is True for a in rules)
            c.ob('choice', ok, f, 'a candidate without rules of its own', detail='%s %s' % (where, x), st=s)
            return h
        return None

    heads = set()
    for g, h, st, ctx in r.backs:
        ty = typed(st)
        if not ty:
            continue
        c.ob('choice', len(ty) == 1, f, 'one candidate at a time', detail=str(len(ty)), st=st)
        x, (has, t) = next(iter(ty.items()))
        hd = built(st, x, 'rejected')
        c.ob('choice', hd is not None, f, 'candidate', detail=str(x), st=st)
        heads.add((hd, h))
        ok = not has or st.truth(eq(RT, NULL)) is False and st.truth(eq(RT, t)) is False
        c.ob('choice', ok, f, 'a candidate is rejected if it has no type or another type than wanted', detail=str(x), st=st)
    c.ob('choice', len(heads) == 1, f, 'one sequence of candidates', detail=str(heads))
    hd = next(iter(heads))[0] if heads else None
    n = set()
    for t, s in r.exits:
        if absurd(r, s):
            continue
        if isnull(s, t):
            n.add('none')
            c.ob('choice', hd is not None and sweep(r, s, hd) == (O, -1), f, 'none if all were tried, newest first', detail=str(hd), st=s)
            continue
        ty = typed(s)
        ra = s.truth(RA)
        ok = len(ty) == 1 and ra is not None
        c.ob('choice', ok, f, 'one candidate is chosen', detail=str(t), st=s)
        if not ok:
            continue
        x, (has, tt) = next(iter(ty.items()))
        h = built(s, x, 'chosen')
        n.add('some')
        c.ob('choice', h is not None and hd is not None and same(h, hd), f, 'the candidate chosen is the one examined', detail='%s %s' % (h, hd), st=s)
        c.ob('choice', same(t, x if ra else h), f, 'the application, or the meaning, is returned', detail=str(t), st=s)
        c.ob('choice', has and (s.truth(eq(RT, NULL)) is True or s.truth(eq(RT, tt)) is True), f, 'it has a type, and the one wanted', st=s)
    c.ob('choice', n == {'none', 'some'}, f, 'cases', detail=str(n))


OPQ = {q(x) for x in ('State::mkFunctionType', AT, 'State::mkSymbol', GO, GI, AP, XI, CT, 'TypeChecker::evaluate', 'TypeChecker::evaluateProgram')}


def all_of(r, t, C):
    if t is C:
        return True
    lp = loop_pushed(r, t)
    return lp is not None and lp[0] is EMPTY and len(lp[1]) == 1 and None not in lp[1] and tail_of(r, t, C)


def head_is(r, t, C):
    return t is index(C, I(0)) or t.op == 'idx' and t.a[1] is I(0) and all_of(r, t.a[0], C)


def application(c):
    f = c.prog.fn1('State::mkExpr')
    r = c.analyze(f, params={0: kind('APPLY')}, opaque=OPQ)
    C = mk('p', 1, f.params[1]['name'])
    n = {}
    for t, s in r.exits:
        info = {u for h in s.facts for u in subterms(h) if is_call(u, AIF) and head_is(r, cargs(u)[0], C)}
        no = [u for u in info if s.truth(eq(u, NULL)) is True]
        yes = [u for u in info if s.truth(eq(u, NULL)) is False]
        if no:
            n['plain'] = 1
            c.ob('application', not yes, f, 'a symbol without properties', st=s)
            continue
        c.ob('application', len(yes) == 1, f, 'the properties of the head are consulted', detail=str(t), st=s)
        if len(yes) != 1:
            continue
        ai = yes[0]
        fk = {u for h in s.facts for u in subterms(h) if field(u, 'd_kind') and ai in u.a}
        builtin = s.truth(eq(fk.pop(), kind('NONE'))) if len(fk) == 1 else None
        if builtin is False:
            n['builtin'] = 1
            continue
        ovs = {u for h in s.facts for u in subterms(h) if is_call(u, GO) and head_is(r, cargs(u)[0], C) and cargs(u)[1] is ai}
        dec = [u for u in ovs if s.truth(eq(u, NULL)) is not None]
        c.ob('application', builtin is True and len(dec) == 1, f, 'the meanings of the head are looked up', detail=str(t), st=s)
        if builtin is not True or len(dec) != 1:
            continue
        G = {u for h in s.facts for u in subterms(h) if is_call(u, GI)} | ({t} if is_call(t, GI) else set())
        if s.truth(eq(dec[0], NULL)):
            n['single'] = 1
            c.ob('application', not G, f, 'a symbol with one meaning', detail=str(t), st=s)
            continue
        ok = len(G) == 1
        if ok:
            g = next(iter(G))
            a = cargs(g)
            ok = a[0] is mk('deref', dec[0]) and all_of(r, a[1], C) and a[2] is NULL and a[3] is TRUE
            isn = s.truth(eq(g, NULL))
            n['chosen', isn] = 1
            ok = ok and (isn is True and t is not g or isn is False and t is g)
        c.ob('application', ok, f, 'the application chosen is the result', detail='%s %s' % (t, G), st=s)
    for k in ('plain', 'builtin', 'single', ('chosen', True), ('chosen', False)):
        c.ob('application', k in n, f, 'case %s' % (k,))


def ascription(c):
    f = c.prog.fn1('State::mkExpr')
    r = c.analyze(f, params={0: kind('AS')}, opaque=OPQ)
    C = mk('p', 1, f.params[1]['name'])
    T = index(C, I(1))
    n = {}

    def istype(u):
        return u is T or u.op == 'idx' and u.a[1] is I(1) and all_of(r, u.a[0], C)

    def ftype(u, which):
        return u.op == 'fld' and u.a[0] == 'std::pair::' + which and is_call(u.a[1], 'Expr::getFunctionType') and istype(u.a[1].a[1])

    for t, s in r.exits:
        sz = {u for h in list(s.facts) + list(s.rng) + list(s.dom) if isT(h) for u in subterms(h) if u.op == 'size' and all_of(r, u.a[0], C)} | {size(C)}
        two = [True] if any(s.truth(eq(u, I(2))) is True for u in sz) else [False]
        if two != [True]:
            n['other'] = 1
            c.ob('ascription', is_call(t, XI) and cargs(t)[0] is kind('AS') and all_of(r, cargs(t)[1], C), f, 'an unusual ascription stays as it is', detail=str(t), st=s)
            continue
        G = {u for h in s.facts for u in subterms(h) if is_call(u, GI)} | ({t} if is_call(t, GI) else set())
        ok = len(G) == 1
        c.ob('ascription', ok, f, 'a meaning is chosen', detail=str(t), st=s)
        if not ok:
            continue
        g = next(iter(G))
        a = cargs(g)
        ovs = {u for h in s.facts for u in subterms(h) if is_call(u, GO)}
        ok = len(ovs) == 1
        if ok:
            o = next(iter(ovs))
            oa = cargs(o)
            isn = s.truth(eq(o, NULL))
            ok = head_is(r, oa[0], C) and is_call(oa[1], AIF) and head_is(r, cargs(oa[1])[0], C)
            one = a[0].op == 'list' and len(a[0].a[0]) == 1 and head_is(r, a[0].a[0][0], C)
            ok = ok and (isn is True and one or isn is False and a[0] is mk('deref', o))
            n['several', isn] = 1
        c.ob('ascription', ok, f, 'among the meanings of the symbol', detail=str(a[0]), st=s)
        lp = loop_pushed(r, a[1])
        ok = lp is not None and lp[0].op == 'list' and len(lp[0].a[0]) == 1 and len(lp[1]) == 1 and None not in lp[1]
        if ok:
            x = next(iter(lp[1]))
            ok = is_call(x, 'State::mkSymbol') and cargs(x)[0] is kind('CONST') and (elem_of(cargs(x)[2]) is not None) and ftype(elem_of(cargs(x)[2]), 'first') \
                and (cargs(x)[2].op == 'deref' and cargs(x)[2].a[0].a[-1].op == 'begin' or cargs(x)[2].op == 'idx' and cargs(x)[2].a[1].op == 'it' and cargs(x)[2].a[1].a[-1] is I(0))
        c.ob('ascription', ok, f, 'applied to arguments of the types given', detail='%s' % (lp,), st=s)
        c.ob('ascription', ftype(a[2], 'second') and a[3] is FALSE, f, 'with the type given', detail=str(a[2:]), st=s)
        isn = s.truth(eq(g, NULL))
        n['chosen', isn] = 1
        c.ob('ascription', isn is False and t is g or isn is True and is_call(t, XI) and cargs(t)[0] is kind('AS') and all_of(r, cargs(t)[1], C), f, 'the meaning chosen is the result', detail=str(t), st=s)
    for k in ('other', ('several', True), ('several', False), ('chosen', True), ('chosen', False)):
        c.ob('ascription', k in n, f, 'case %s' % (k,))
