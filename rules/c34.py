"""Declarations and definitions give names exactly what they state."""
from common import *

EV = {q(x) for x in ('ExprParser::bind', 'State::bind', 'State::defineProgram', 'ExprParser::typeCheck', 'State::setLiteralTypeRule', 'State::markConstructorKind', 'State::addReferenceAssert', 'State::define',
                     'ExprParser::typeCheckProgramPair', 'ExprParser::parseAttributeList', 'ExprParser::processAttributeMap', 'ExprParser::processAttributeMaps', 'State::includeFile', 'State::reset', 'State::echo',
                     'State::notifyAssume', 'State::addAssumption', 'State::notifyStep')}
OPQ = EV | {q(x) for x in ('State::mkExpr', 'State::mkSymbol', 'State::pushScope', 'State::popScope', 'ExprParser::parseExpr', 'ExprParser::parseType', 'ExprParser::parseFormula', 'State::mkLiteral',
                           'State::mkFunctionType', 'State::mkProgramType', 'State::mkTypeConstant', 'State::mkQuoteType', 'State::mkDisambiguatedType', 'State::mkProof', 'State::mkBinderList', 'State::mkList',
                           'State::mkPair', 'State::mkRequires', 'State::getVar', 'State::getProgram', 'ExprParser::parseAndBindSortedVarList', 'ExprParser::parseSymbolList', 'ExprParser::parseTypeList',
                           'ExprParser::parseExprPairList', 'ExprParser::parseExprList', 'ExprParser::parseDatatypesDef', 'ExprParser::parseIntegerNumeral', 'ExprParser::parseLiteralKind', 'ExprParser::parseStr',
                           'ExprParser::parseSymbol', 'TypeChecker::getType', 'ExprParser::findFreeVar', 'Expr::getVariables', 'Expr::hasVariable', 'Expr::getFunctionType')}
PT, PE, PV, MS, MFT, MX, QT, DT = 'ExprParser::parseType', 'ExprParser::parseExpr', 'ExprParser::parseAndBindSortedVarList', 'State::mkSymbol', 'State::mkFunctionType', 'State::mkExpr', 'State::mkQuoteType', 'State::mkDisambiguatedType'


def run(c):
    c.rule('symbol', 'a declaration gives the name a new symbol of the declared type', 10)
    c.rule('parameters', 'the parameters of a declaration become its argument types, in order', 8)
    c.rule('attribute', 'the declared attribute is given to the symbol, or the declaration is rejected', 8)
    c.rule('define', 'a definition gives the name the defined term over all its parameters', 8)
    c.rule('checked', 'a definition with a type is checked against it', 6)
    c.rule('program', 'a program is defined once, by all of its cases, which apply it to all its arguments', 8)
    c.rule('literals', 'the declared type of literals is recorded for their kind', 4)
    c.rule('types', 'function types and sorts take their arguments in order', 6)
    const(c, 'DECLARE_CONST')
    const(c, 'DECLARE_FUN')
    const(c, 'DECLARE_PARAMETERIZED_CONST')
    sorts(c)
    defines(c)
    definefun(c)
    programs(c)
    literals(c)
    types(c)
    attributes(c)
    quiet(c)


def on(e):
    if e.kind == 'out' and e.args and any(isT(x) and x.op == 'size' for x in e.args):
        return [('out', x) for x in e.args if isT(x) and x.op == 'size']
    if e.kind == 'call' and e.name == q('State::popScope'):
        return [('pop', sum(1 for x in e.st.ts if isinstance(x, tuple) and x[0] == 'pop'))]
    if e.kind == 'call' and e.name in EV:
        return [('ev', e.name[7:], tuple(e.args), e.ret)]
    return ()


def evs(s, *names):
    return [x for x in s.ts if isinstance(x, tuple) and x[0] == 'ev' and x[1] in names]


def isname(x):
    return is_call(x, 'ExprParser::parseSymbol') and not any(isT(y) and y.op == 'it' for y in subterms(x))


def bound(s):
    """{what the name of the command is bound to}, the name"""
    b = [x for x in evs(s, 'ExprParser::bind', 'State::bind') if isname(x[2][0])]
    ns = {x[2][0] for x in b}
    return {x[2][1] for x in b}, (ns.pop() if len(ns) == 1 else None)


def cmd(c, tk):
    r = command(c, tk, on=on, opaque=OPQ, cap=3000)
    return r, [s for s in accepting(r) if not absurd(r, s)], r.f


def one(c, rule, r, s, f, tk):
    xs, N = bound(s)
    ok = len(xs) == 1 and N is not None
    c.ob(rule, ok, f, '%s binds its name, to one term' % tk, detail=str((xs, N))[:300], st=s)
    return (xs.pop(), N) if ok else (None, None)


def listof(t, *xs):
    return t.op == 'list' and tuple(t.a[0]) == xs or segments(t) == [('one', x) for x in xs]


def istype(x):
    """the type that was read; a function type without arguments is its result"""
    return is_call(x, PT) or is_call(x, MFT) and cargs(x)[0] in (EMPTY, mk('list', ())) and is_call(cargs(x)[1], PT)


# ------------------------------------------------------------------ declarations
def const(c, tk):
    r, acc, f = cmd(c, tk)
    n = set()
    for s in acc:
        X, N = one(c, 'symbol', r, s, f, tk)
        if X is None:
            continue
        ok = is_call(X, MS) and cargs(X)[0] is kind('CONST') and cargs(X)[1] is N
        c.ob('symbol', ok, f, '%s: a new symbol of that name' % tk, detail=str(X), st=s)
        if not ok:
            continue
        ty = cargs(X)[2]
        mark = None
        if tk == 'DECLARE_CONST':
            c.ob('symbol', istype(ty), f, '%s: of the type given' % tk, detail=str(ty), st=s)
        elif tk == 'DECLARE_FUN':
            if is_call(ty, PT):
                ls = [x for x in s.rng if x.op == 'size' and is_call(x.a[0], 'ExprParser::parseTypeList') and s.truth(eq(x, I(0))) is True]
                ok = len(ls) == 1
            else:
                ok = is_call(ty, MFT) and is_call(cargs(ty)[0], 'ExprParser::parseTypeList') and is_call(cargs(ty)[1], PT)
            c.ob('symbol', ok, f, '%s: of the function type given' % tk, detail=str(ty), st=s)
        else:
            mark = paramtype(c, r, s, f, ty, N)
            if mark is False:
                continue
        # the attribute
        ms = [x for x in evs(s, 'State::markConstructorKind') if x[2][0] is X]
        if tk == 'DECLARE_FUN':
            c.ob('attribute', not ms, f, '%s takes no attribute' % tk, detail=str(ms), st=s)
            continue
        pa, pm = evs(s, 'ExprParser::parseAttributeList'), evs(s, 'ExprParser::processAttributeMap')
        ok = len(pa) == 1 and len(pm) == 1 and is_out(pm[0][2][0], 'ExprParser::parseAttributeList', 2) and pa[0][2][0] is kind('CONST')
        c.ob('attribute', ok, f, '%s: the attributes given are read' % tk, detail=str((pa, pm))[:300], st=s)
        if not ok:
            continue
        A, V = (next((x for t in list(s.dom) + [y for m in ms for y in m[2]] for x in subterms(t) if is_out(x, 'ExprParser::processAttributeMap', i)), None) for i in (1, 2))
        if mark:
            want = mark
            ok = A is not None and s.truth(eq(A, attr('NONE'))) is True
            c.ob('attribute', ok, f, '%s: an ambiguous or opaque function takes no attribute' % tk, detail=str(ms), st=s)
        else:
            no = s.truth(eq(A, attr('NONE'))) if A is not None else None
            c.ob('attribute', no is not None, f, '%s: is there an attribute' % tk, st=s)
            n.add(no)
            if no is True:
                c.ob('attribute', not ms, f, '%s: none was given' % tk, detail=str(ms), st=s)
                continue
            want = A
        ok = len(ms) == 1 and ms[0][2][1] is want or len(ms) == 1 and s.cval(ms[0][2][1]) is want
        c.ob('attribute', ok, f, '%s: the symbol gets its attribute' % tk, detail=str((ms, want))[:300], st=s)
        if ok:
            c.ob('attribute', s.truth(ms[0][3]) is True, f, '%s: a symbol that cannot have it is rejected' % tk, st=s)
            if not mark:
                c.ob('attribute', is_out(ms[0][2][2], 'ExprParser::processAttributeMap', 2), f, '%s: with its term' % tk, detail=str(ms[0][2][2]), st=s)
            elif mark is attr('OPAQUE'):
                lit = ms[0][2][2]
                k = cargs(ty)[0]
                ok = is_call(lit, 'State::mkLiteral') and cargs(lit)[0] is kind('NUMERAL') and (any(x is size(k) for x in subterms(lit)) or ('out', size(k)) in s.ts)
                c.ob('attribute', ok, f, '%s: with the number of its opaque arguments' % tk, detail=str(lit), st=s)
    c.ob('symbol', bool(acc), f, '%s is analysed' % tk)
    if tk != 'DECLARE_FUN':
        c.ob('attribute', n >= {True, False}, f, '%s: with and without an attribute' % tk)


def paramtype(c, r, s, f, ty, N):
    """the type of a declare-parameterized-const; gives the attribute that its parameters imply, None if there is none, False if it is not understood"""
    P = next((x for t in list(s.rng) for x in subterms(t) if is_call(x, PV)), None)
    amb = opq = None
    if is_call(ty, DT) and cargs(ty)[2] is N:
        ft, ty2 = cargs(ty)[:2]
        amb = (ft, ty2)
        ty = ty2
    elif is_call(ty, MFT) and not istype(ty):
        opq, ty = cargs(ty)
    elif is_call(ty, DT):
        c.ob('parameters', False, f, 'the type is understood', detail=str(ty), st=s)
        return False
    none = s.truth(eq(size(P), I(0))) if P is not None else None
    c.ob('parameters', P is not None and none is not None and cargs(P)[0] is kind('CONST'), f, 'the parameters are read', st=s)
    if P is None:
        return False
    # is it ambiguous
    fs = [x for x in s.dom if is_call(x, 'ExprParser::findFreeVar')]
    ok = len(fs) == 1
    if ok:
        e, vs = cargs(fs[0])
        ret = lambda x, fl: x.op == 'fld' and x.a[0].endswith(fl) and is_call(x.a[1], 'Expr::getFunctionType') and x.a[1].a[1] is ty
        sg = segments(cargs(vs)[0]) if is_call(vs, 'Expr::getVariables') else []
        ok = ret(e, '::second') and len(sg) in (1, 2) and sg[0][0] == 'all' and ret(sg[0][1], '::first')
        # opaque arguments count as arguments
        full = len(sg) == 2 and sg[1][0] == 'all'
        O = sg[1][1] if full else None
        c.ob('parameters', ok, f, 'the type is ambiguous if its result has variables that no argument has', detail=str(fs[0]), st=s)
        isamb = s.truth(eq(fs[0], NULL)) is False
        c.ob('parameters', (amb is not None) == isamb and (not amb or amb[0] is e), f, 'an ambiguous function is disambiguated by its result', detail=str(amb), st=s)
        oe = next((s.truth(eq(size(x), I(0))) for x in ([O] if O is not None else [])), True)
        c.ob('parameters', (opq is not None) == (oe is False) and (opq is None or opq is O), f, 'opaque arguments come first', detail=str((opq, O)), st=s)
    else:
        c.ob('parameters', False, f, 'is the type ambiguous', detail=str(fs), st=s)
    if none:
        c.ob('parameters', istype(ty), f, 'without parameters, the type given', detail=str(ty), st=s)
    else:
        ok = ty.op == 'it' and istype(ty.a[-1])
        c.ob('parameters', ok, f, 'with parameters, the type over them', detail=str(ty), st=s)
        if not ok:
            return False
        fold(c, r, s, f, ty, P)
    return attr('AMB') if amb else attr('OPAQUE') if opq is not None else None


def fold(c, r, s0, f, ty, P):
    ops = {id(st): (O, w) for O, l in r.loopstates.items() for w, st in l if O.a[0] == ty.a[0] and O.a[-1] in (EMPTY, mk('list', ())) and O.op == 'it' and (w is O or 'push' in w.op)}
    seen = set()
    for v, st in r.loopstates.get(ty, ()):
        O, w = ops.get(id(st), (None, None))
        if v is ty:
            sg = segments(w, r, st) if w is not None else []
            ok = len(sg) == 2 and sg[0][0] == 'one' and sg[1] == ('all', O)
            t = sg[0][1] if ok else None
            how = 'opaque'
        else:
            ok = is_call(v, MFT) and cargs(v)[1] is ty and cargs(v)[0].op == 'list' and len(cargs(v)[0].a[0]) == 1 and w is O
            t = cargs(v)[0].a[0][0] if ok else None
            how = 'argument'
            if ok and O is not None:
                c.ob('parameters', st.truth(eq(size(O), I(0))) is True, f, 'opaque parameters precede the others', st=st)
        c.ob('parameters', ok, f, 'a parameter becomes an argument', detail=str((v, w))[:300], st=st)
        if not ok:
            continue
        quoted = is_call(t, QT)
        p = cargs(t)[0] if is_call(t, QT) or is_call(t, 'TypeChecker::getType') else None
        sw = sweep(r, s0, p) if p is not None else None
        c.ob('parameters', sw == (P, -1), f, 'every parameter, the last first', detail=str((p, sw)), st=st)
        hs = [(h, b) for h, b in st.facts.items() if is_call(h, 'Expr::hasVariable') and cargs(h)[0] is ty]
        ok = len(hs) == 1 and hs[0][1] is quoted and [y for y in subterms(cargs(hs[0][0])[1]) if y is p]
        c.ob('parameters', bool(ok), f, 'a parameter that occurs in the type is quoted, of another the type is taken', detail=str(t), st=st)
        # opaque iff marked
        m = [b for h, b in st.facts.items() if h.op == 'has' and h.a[1] is attr('OPAQUE')]
        c.ob('parameters', (how == 'opaque') == (m == [True]), f, 'a parameter is opaque iff it is marked', detail=str((how, m)), st=st)
        seen.add((how, quoted))
    c.ob('parameters', len(seen) == 4, f, 'plain, quoted and opaque parameters', detail=str(seen))


def sorts(c):
    r, acc, f = cmd(c, 'DECLARE_SORT')
    for s in acc:
        X, N = one(c, 'symbol', r, s, f, 'DECLARE_SORT')
        if X is not None:
            ok = is_call(X, 'State::mkTypeConstant') and cargs(X)[0] is N and any(is_call(x, 'ExprParser::parseIntegerNumeral') for x in subterms(cargs(X)[1])) and (is_call(cargs(X)[1], 'ExprParser::parseIntegerNumeral') or cargs(X)[1].op == 'cast')
            c.ob('symbol', ok, f, 'DECLARE_SORT: a sort of that name and arity', detail=str(X), st=s)
    c.ob('symbol', bool(acc), f, 'DECLARE_SORT is analysed')


def quiet(c):
    """commands that bind nothing but what the properties of proofs say"""
    for tk in ('ECHO', 'EXIT', 'INCLUDE', 'REFERENCE', 'RESET', 'DECLARE_CONSTS'):
        r, acc, f = cmd(c, tk)
        for s in acc:
            b = [x for x in evs(s, 'ExprParser::bind', 'State::bind') if not (tk == 'DECLARE_CONSTS' and x[2][0] is S('eo::self'))]
            d = evs(s, 'State::defineProgram', 'State::markConstructorKind', 'State::define')
            c.ob('define', not b and not d, f, '%s binds and defines nothing itself' % tk, detail=str((b, d))[:300], st=s)
        c.ob('define', bool(acc), f, '%s is analysed' % tk)


# ------------------------------------------------------------------ definitions
def defines(c):
    r, acc, f = cmd(c, 'DEFINE_CONST')
    for s in acc:
        X, N = one(c, 'define', r, s, f, 'DEFINE_CONST')
        if X is None:
            continue
        c.ob('define', is_call(X, PE), f, 'DEFINE_CONST: the term given', detail=str(X), st=s)
        tc = [x for x in evs(s, 'ExprParser::typeCheck') if len(x[2]) == 2 and x[2][0] is X and is_call(x[2][1], PT)]
        c.ob('checked', bool(tc), f, 'DEFINE_CONST: the term has the type given', st=s)
    c.ob('define', bool(acc), f, 'DEFINE_CONST is analysed')
    n = set()
    r, acc, f = cmd(c, 'DEFINE')
    for s in acc:
        X, N = one(c, 'define', r, s, f, 'DEFINE')
        if X is None:
            continue
        P = next((x for t in list(s.rng) + [X] for x in subterms(t) if is_call(x, PV)), None)
        no = s.truth(eq(size(P), I(0))) if P is not None else None
        n.add(no)
        pa = [x for x in evs(s, 'ExprParser::parseAttributeList') if x[2][0] is kind('LAMBDA')]
        Y = X
        if is_out(X, 'ExprParser::parseAttributeList', 1) and len(pa) == 1:
            Y = pa[0][2][1]
        ok = is_call(Y, PE) if no is True else no is False and abstracted(Y, lambda b: is_call(b, PE), lambda l: l is P)
        c.ob('define', ok, f, 'DEFINE: the term over all its parameters', detail=str(X), st=s)
        c.ob('checked', len(pa) == 1 and pa[0][2][1] is Y, f, 'DEFINE: its attributes are read for that term', detail=str(pa), st=s)
        rebound(c, r, s, f, P)
    c.ob('define', n == {True, False}, f, 'DEFINE is analysed with and without parameters')
    n = set()
    r, acc, f = cmd(c, 'DEFINE_SORT')
    for s in acc:
        X, N = one(c, 'define', r, s, f, 'DEFINE_SORT')
        if X is None:
            continue
        L = next((x for t in list(s.rng) for x in subterms(t) if is_call(x, 'ExprParser::parseSymbolList')), None)
        no = s.truth(eq(size(L), I(0))) if L is not None else None
        n.add(no)
        ok = is_call(X, PT) if no is True else no is False and abstracted(X, lambda b: is_call(b, PT), lambda l: typeparams(r, s, l, L))
        c.ob('define', ok, f, 'DEFINE_SORT: the type over all its parameters', detail=str(X), st=s)
        # the parameters are bound while the type is read
        pb = [x for x in evs(s, 'ExprParser::bind', 'State::bind') if not isname(x[2][0])]
        c.ob('define', all(is_call(x[2][1], MS) and cargs(x[2][1])[1] is x[2][0] for x in pb), f, 'DEFINE_SORT: its parameters are bound under their names', detail=str(pb), st=s)
    for it, l in r.loopstates.items():
        for w, st in l:
            if w.op == 'push' and is_call(w.a[1], MS) and cargs(w.a[1])[0] is kind('PARAM'):
                ok = any(x[2][1] is w.a[1] for x in evs(st, 'ExprParser::bind', 'State::bind'))
                c.ob('define', ok, f, 'DEFINE_SORT: its parameters are bound', st=st)
    c.ob('define', n == {True, False}, f, 'DEFINE_SORT is analysed with and without parameters')


def abstracted(X, body, params):
    if not (is_call(X, MX) and cargs(X)[0] is kind('LAMBDA')):
        return False
    ks = cargs(X)[1]
    if ks.op != 'list' or len(ks.a[0]) != 2:
        return False
    vl, b = ks.a[0]
    return body(b) and is_call(vl, MX) and cargs(vl)[0] is kind('TUPLE') and params(cargs(vl)[1])


def typeparams(r, s, l, L):
    lp = loop_pushed(r, l)
    if not lp or lp[0] not in (EMPTY, mk('list', ())) or len(lp[1]) != 1:
        return False
    v = next(iter(lp[1]))
    return v is not None and is_call(v, MS) and cargs(v)[0] is kind('PARAM') and any(is_call(x, 'State::mkType') or field(x, 'd_type') for x in (cargs(v)[2],)) and sweep(r, s, cargs(v)[1]) == (L, 1)


def rebound(c, r, s, f, P):
    """what is bound again in a definition are its parameters, under their names"""
    for x in evs(s, 'ExprParser::bind', 'State::bind'):
        if isname(x[2][0]):
            continue
        v = x[2][1]
        ok = x[2][0] in (mk('symbol', v),) and (sweep(r, None, v) or sweep(r, s, v)) in ((P, 1), (P, -1))
        c.ob('define', ok, f, 'the parameters are bound under their names', detail=str(x[2]), st=s)
    # the list of parameters leaves out those that are implicit: the body must not see these
    M = next((x for t in s.facts for x in subterms(t) if is_out(x, 'ExprParser::parseAndBindSortedVarList', 1)), None)
    given = M is not None and P is not None and (s.truth(lt(size(P), size(M))) is False or s.truth(eq(size(P), size(M))) is True)
    pops = sum(1 for x in s.ts if isinstance(x, tuple) and x[0] == 'pop')
    c.ob('define', given or pops > 1, f, 'the body sees no parameter that is implicit', detail='%d scopes closed' % pops, st=s)


def definefun(c):
    n = set()
    r, acc, f = cmd(c, 'DEFINE_FUN')
    for s in acc:
        tys = {x for h in list(s.dom) + [y for e in evs(s, 'ExprParser::typeCheck') for y in e[2]] for x in subterms(h) if is_call(x, PT)}
        if any(s.truth(eq(x, NULL)) is True for x in tys):
            continue        # a type that was read is not null
        X, N = one(c, 'define', r, s, f, 'DEFINE_FUN')
        if X is None:
            continue
        ok = is_call(X, MS) and cargs(X)[0] is kind('CONST') and cargs(X)[1] is N
        c.ob('define', ok, f, 'DEFINE_FUN: a new symbol of that name', detail=str(X), st=s)
        if not ok:
            continue
        ty = cargs(X)[2]
        P = next((x for t in list(s.rng) + [X] for x in subterms(t) if is_call(x, PV)), None)
        no = s.truth(eq(size(P), I(0))) if P is not None else None
        n.add(no)
        if no is True:
            ok = is_call(ty, PT)
            res = ty
        else:
            ok = is_call(ty, MFT) and is_call(cargs(ty)[1], PT)
            res = cargs(ty)[1] if ok else None
            lp = loop_pushed(r, cargs(ty)[0]) if ok else None
            v = next(iter(lp[1])) if lp and len(lp[1]) == 1 else None
            ok = ok and v is not None and segments(lp[0]) in ([], [('all', EMPTY)]) and (is_call(v, 'ExprParser::typeCheck') or is_call(v, 'TypeChecker::getType')) and sweep(r, s, arg0(v)) == (P, 1)
        c.ob('define', bool(ok), f, 'DEFINE_FUN: of the function type of its parameters', detail=str(ty), st=s)
        tc = [x for x in evs(s, 'ExprParser::typeCheck') if len(x[2]) == 2 and is_call(x[2][0], PE) and x[2][1] is res]
        c.ob('checked', bool(tc), f, 'DEFINE_FUN: the body has the type given', st=s)
        # what is asserted of it
        rs = evs(s, 'State::addReferenceAssert')
        ok = len(rs) == 1 and is_call(rs[0][2][0], MX) and cargs(rs[0][2][0])[0] is kind('APPLY')
        if ok:
            ks = cargs(rs[0][2][0])[1]
            ks = ks.a[0] if ks.op == 'list' else ()
            ok = len(ks) == 3 and is_call(ks[0], 'State::getVar') and cargs(ks[0])[0] is S('=') and s.truth(eq(ks[0], NULL)) is False and ks[1] is X
            if ok and no:
                ok = is_call(ks[2], PE)
            elif ok:
                b = ks[2]
                bk = cargs(b)[1].a[0] if is_call(b, MX) and cargs(b)[0] is kind('APPLY') and cargs(b)[1].op == 'list' else ()
                ok = len(bk) == 3 and is_call(bk[0], 'State::getVar') and cargs(bk[0])[0] is S('lambda') and s.truth(eq(bk[0], NULL)) is False and is_call(bk[2], PE) \
                    and is_call(bk[1], 'State::mkBinderList') and cargs(bk[1])[0] in (bk[0], mk('val', bk[0])) and cargs(bk[1])[1] is P
        c.ob('define', ok, f, 'DEFINE_FUN: the symbol equals its definition', detail=str(rs)[:300], st=s)
        rebound(c, r, s, f, P)
    c.ob('define', n == {True, False}, f, 'DEFINE_FUN is analysed with and without parameters')


def arg0(v):
    return cargs(v)[0]


# ------------------------------------------------------------------ programs
def programs(c):
    r, acc, f = cmd(c, 'PROGRAM')
    n = set()
    for s in acc:
        X, N = one2(c, r, s, f)
        if X is None:
            continue
        A = next((x for t in list(s.rng) + list(s.dom) for x in subterms(t) if is_call(x, 'ExprParser::parseTypeList')), None)
        c.ob('program', A is not None and s.truth(eq(size(A), I(0))) is False, f, 'a program has arguments', st=s)
        isty = lambda t: is_call(t, 'State::mkProgramType') and is_call(cargs(t)[0], 'ExprParser::parseTypeList') and is_call(cargs(t)[1], PT)
        if is_call(X, 'State::getVar'):
            ok = cargs(X)[0] is N and s.truth(eq(mk('kind', X), kind('PROGRAM_CONST'))) is True
            pg = [h for h in s.dom if is_call(h, 'State::getProgram') and any(y is X for y in subterms(cargs(h)[0]))]
            ok = ok and len(pg) == 1 and s.truth(eq(pg[0], NULL)) is True
            c.ob('program', ok, f, 'only a program without a definition is defined later', detail=str(X), st=s)
            tc = [x for x in evs(s, 'ExprParser::typeCheck') if len(x[2]) == 2 and x[2][0] is X and isty(x[2][1])]
            c.ob('program', bool(tc), f, 'it is defined for the type it was declared with', st=s)
            new = False
        else:
            ok = is_call(X, MS) and cargs(X)[0] is kind('PROGRAM_CONST') and cargs(X)[1] is N and isty(cargs(X)[2])
            c.ob('program', ok, f, 'a new program of that name and type', detail=str(X), st=s)
            pv = [h for h in s.dom if is_call(h, 'State::getVar') and cargs(h)[0] is N]
            c.ob('program', len(pv) == 1 and s.truth(eq(pv[0], NULL)) is True, f, 'whose name means nothing else', st=s)
            new = True
        ds = evs(s, 'State::defineProgram')
        ok = len(ds) == 1 and ds[0][2][0] is X
        c.ob('program', ok, f, 'the program gets its definition', detail=str(ds), st=s)
        if not ok:
            continue
        D = ds[0][2][1]
        if D is NULL or isT(D) and D.op == 'new' or field(D, 'd_null'):
            pk = [h for h in s.dom if is_call(h, 'Lexer::peekToken') and s.truth(eq(h, tok('RPAREN'))) is True]
            c.ob('program', bool(pk), f, 'a program without cases is declared only', detail=str(D), st=s)
            n.add((new, 'declared'))
            continue
        ok = is_call(D, MX) and cargs(D)[0] is kind('PROGRAM') and is_call(cargs(D)[1], 'ExprParser::parseExprPairList') and s.truth(eq(size(cargs(D)[1]), I(0))) is False
        c.ob('program', ok, f, 'its definition consists of all its cases', detail=str(D), st=s)
        if not ok:
            continue
        C = cargs(D)[1]
        n.add((new, 'defined'))
        # the loop that checks the cases
        fin = finished(s, C) or any(x.op == 'it' and sweep(r, s, index(C, x)) for h in list(s.facts) + list(s.rng) for x in subterms(h))
        c.ob('program', fin, f, 'all of its cases are checked', st=s)
    c.ob('program', n == {(a, b) for a in (True, False) for b in ('declared', 'defined')}, f, 'new and declared programs, with and without cases', detail=str(n))
    k = 0
    for g, h, st, cx in r.backs:
        cs = evs(st, 'ExprParser::typeCheckProgramPair')
        if g is not f:
            continue
        # an iteration over the cases
        els = {x for t in list(st.facts) + list(st.dom) for x in subterms(t) if elem_of(x) is not None and is_call(elem_of(x), 'ExprParser::parseExprPairList')}
        if not els:
            continue
        k += 1
        ok = False
        for E_ in els:
            pat, rhs = mkkid(E_, 0), mkkid(E_, 1)
            A = next((x for t in list(st.rng) + list(st.dom) + list(st.facts) for x in subterms(t) if is_call(x, 'ExprParser::parseTypeList')), None)
            hd = [y for y in (mkkid(pat, 0),)]
            same = [t for t, v in st.facts.items() if v is True and t.op == 'eq' and mkkid(pat, 0) in t.a and any(is_call(y, 'State::getVar') or is_call(y, MS) for y in t.a)]
            isapp = st.truth(eq(mk('kind', pat), kind('APPLY'))) is True
            ar = A is not None and any(v is True and t.op == 'eq' and not ladd(ladd(linear(t.a[0]), linear(t.a[1]), -1), ladd(linear(size(mk('children', pat))), ladd(linear(size(A)), {None: 1}), -1), sg)
                                       for t, v in st.facts.items() for sg in (-1, 1) if t.op == 'eq')
            chk = [x for x in cs if x[2][0] in (pat,) and x[2][1] in (rhs,)]
            c.ob('program', isapp and bool(same), f, 'a case is an application of the program', st=st)
            c.ob('program', ar, f, 'to as many arguments as it has', st=st)
            c.ob('program', bool(chk), f, 'and its pattern and result are checked', detail=str(cs), st=st)
    c.ob('program', k > 0, f, 'the cases of programs are analysed')
    pair(c)


def one2(c, r, s, f):
    """the program that is defined, and its name"""
    b = [x for x in evs(s, 'ExprParser::bind', 'State::bind') if isname(x[2][0])]
    ds = evs(s, 'State::defineProgram')
    ok = len(ds) == 1
    X = ds[0][2][0] if ok else None
    if ok and is_call(X, 'State::getVar'):
        N = cargs(X)[0]
        ok = isname(N) and all(x[2] [0]is N and x[2][1] is X for x in b)
    elif ok:
        ok = len({(x[2][0], x[2][1]) for x in b}) == 1 and b[0][2][1] is X
        N = b[0][2][0] if ok else None
    c.ob('program', ok, f, 'the name is bound to the program', detail=str((b, X))[:300], st=s)
    return (X, N) if ok else (None, None)


def pair(c):
    """patterns without evaluation, results without other variables"""
    r = c.analyze('ExprParser::typeCheckProgramPair', inv=True, opaque={q('ExprParser::ensureBound'), q('ExprParser::typeCheck'), q('TypeChecker::getType'), q('Expr::getVariables')},
                  on=lambda e: [('ev', e.name[7:], tuple(e.args), e.ret)] if e.kind == 'call' and e.name in (q('ExprParser::ensureBound'),) else (), loophead=lambda g, h, s: s.ts)
    f = r.f
    pat, rhs = (mk('p', i, y['name']) for i, y in enumerate(f.params[:2]))
    els = set()
    for g, h, st, cx in r.backs:
        ev = [x.a[0] for x, b in st.facts.items() if x.op == 'evaluatable' and b is False]
        c.ob('program', len(ev) == 1, f, 'no argument of a pattern contains evaluation', detail=str(ev), st=st)
        els |= set(ev)
    for t, s in r.exits:
        whole_ = s.truth(mk('evaluatable', pat)) is False
        if not whole_ and not absurd(r, s):
            ok = any(sweep(r, s, x, 1) in ((mk('children', pat), 1), (mk('children', pat), -1)) for x in els)
            c.ob('program', ok, f, 'every argument is looked at', detail=str(els), st=s)
        eb = [x for x in evs(s, 'ExprParser::ensureBound') if x[2][0] is rhs and is_call(x[2][1], 'Expr::getVariables') and cargs(x[2][1])[0] is pat]
        c.ob('program', bool(eb), f, 'the variables of the result are variables of the pattern', st=s)
    c.ob('program', bool(r.exits), f, 'cases are checked')
    r = c.analyze('ExprParser::ensureBound', opaque={q('ExprParser::findFreeVar')})
    for t, s in r.exits:
        fv = [h for h in s.dom if is_call(h, 'ExprParser::findFreeVar') and cargs(h) == tuple(mk('p', i, y['name']) for i, y in enumerate(r.f.params))]
        c.ob('program', len(fv) == 1 and s.truth(eq(fv[0], NULL)) is True, r.f, 'a term with another variable is rejected', st=s)
    r = c.analyze('ExprParser::findFreeVar', inv=True, opaque={q('Expr::getVariables')})
    e, bvs = (mk('p', i, y['name']) for i, y in enumerate(r.f.params))
    isself = lambda x: is_call(x, 'State::mkSelf') or field(x, 'd_self')
    member = lambda st, v: any(h.op in ('eq', 'in', 'has') and b is True and any(x is v for x in subterms(h)) and any(x is bvs for x in subterms(h)) for h, b in st.facts.items())
    notin = lambda st, v: [(h, b) for h, b in st.allfacts()]
    for t, s in r.exits:
        if t is NULL or field(t, 'd_null'):
            V = [x for h in list(s.facts) + list(s.rng) for x in subterms(h) if is_call(x, 'Expr::getVariables') and cargs(x)[0] is e]
            c.ob('program', bool(V) and (finished(s, V[0]) or s.truth(eq(size(V[0]), I(0))) is True), r.f, 'all variables are looked at', st=s)
        else:
            V = elem_of(t)
            c.ob('program', V is not None and is_call(V, 'Expr::getVariables') and cargs(V)[0] is e, r.f, 'a variable of the term', detail=str(t), st=s)
    for g, h, st, cx in r.backs:
        if g is not r.f:
            continue
        els = {x for hh in list(st.facts) + list(st.dom) for x in subterms(hh) if elem_of(x) is not None and is_call(elem_of(x), 'Expr::getVariables')}
        ok = len(els) == 1
        if ok:
            v = els.pop()
            selfv = any(b is True and hh.op == 'eq' and v in hh.a and any(isself(y) for y in hh.a) for hh, b in st.facts.items())
            found = mentions(st, v, bvs)
            ok = selfv or found
        c.ob('program', ok, r.f, 'only the given variables (and eo::self) are passed over', st=st)


def mentions(st, v, bvs):
    """v was found among bvs"""
    for h, b in st.facts.items():
        xs = list(subterms(h))
        if not any(x is v for x in xs) or not any(x is bvs for x in xs):
            continue
        if h.op == 'has' and h.a[0] is bvs and h.a[1] is v:
            return b is True
        if h.op == 'eq' and b is False and any(x.op == 'end' and x.a[0] is bvs for x in h.a):
            return True
        if h.op == 'eq' and b is True and v in h.a:
            return True
    return False


# ------------------------------------------------------------------ types of literals
def literals(c):
    r, acc, f = cmd(c, 'DECLARE_CONSTS')
    for s in acc:
        ls = evs(s, 'State::setLiteralTypeRule')
        ok = len(ls) == 1 and is_call(ls[0][2][0], 'ExprParser::parseLiteralKind') and is_call(ls[0][2][1], PT)
        c.ob('literals', ok, f, 'the type given is recorded for the kind given', detail=str(ls), st=s)
        b = [x for x in evs(s, 'ExprParser::bind', 'State::bind') if x[2][0] is S('eo::self')]
        ok = bool(b) and all(is_call(x[2][1], 'State::mkSelf') or field(x[2][1], 'd_self') for x in b)
        c.ob('literals', ok, f, 'the type may refer to the literal', detail=str(b), st=s)
    c.ob('literals', bool(acc), f, 'DECLARE_CONSTS is analysed')
    r = c.analyze('TypeChecker::setLiteralTypeRule')
    f = r.f
    K, Tt = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    R = 'TypeChecker::d_literalTypeRules'
    for t, s in r.exits:
        old = pre(r, R)
        now = post(r, s, R)
        x = index(old, K)
        has = s.truth(mk('has', old, K))
        un = s.truth(eq(x, NULL)) is True or any(b is True and h.op == 'eq' and NULL in h.a and any('d_literalTypeRules' in str(y) for y in h.a) for h, b in s.facts.items())
        same = any(b is True and h.op == 'eq' and Tt in h.a and any('d_literalTypeRules' in str(y) for y in h.a) for h, b in s.facts.items())
        c.ob('literals', has is True and (un or same), f, 'a kind of literals gets one type', st=s)
        c.ob('literals', now is mk('set', old, K, Tt), f, 'the type given', detail=str(now), st=s)
    r = c.analyze('State::setLiteralTypeRule', on=lambda e: [('ev', e.name[7:], tuple(e.args), e.ret)] if e.kind == 'call' and e.name == q('TypeChecker::setLiteralTypeRule') else (), opaque={q('TypeChecker::setLiteralTypeRule')})
    for t, s in r.exits:
        ls = evs(s, 'TypeChecker::setLiteralTypeRule')
        c.ob('literals', len(ls) == 1 and ls[0][2] == tuple(mk('p', i, y['name']) for i, y in enumerate(r.f.params)), r.f, 'the type checker gets it', detail=str(ls), st=s)
    r = c.analyze('ExprParser::parseLiteralKind', opaque={q('ExprParser::parseSymbol')})
    for t, s in r.exits:
        M = pre(r, 'ExprParser::d_strToLiteralKind')
        hs = [h for h, b in s.facts.items() if h.op == 'has' and h.a[0] is M and b is True and is_call(h.a[1], 'ExprParser::parseSymbol')]
        ok = len(hs) == 1 and (t is index(M, hs[0].a[1]) or t.op == 'fld' and t.a[0].endswith('second') and any(x is M for x in subterms(t)))
        c.ob('literals', ok, r.f, 'the kind that is named', detail=str(t), st=s)
    # the names of the kinds of literals
    r = c.analyze('ExprParser::ExprParser')
    want = {'<boolean>': 'BOOLEAN', '<numeral>': 'NUMERAL', '<decimal>': 'DECIMAL', '<rational>': 'RATIONAL', '<hexadecimal>': 'HEXADECIMAL', '<binary>': 'BINARY', '<string>': 'STRING'}
    for t, s in r.exits[:1]:
        d = table(post(r, s, 'ExprParser::d_strToLiteralKind'))
        got = {k.a[0]: v for k, v in (d or {}).items()}
        for k, v in want.items():
            c.ob('literals', got.get(k) is kind(v), r.f, '%s names the literals of kind %s' % (k, v), detail=str(sorted(got)))
        c.ob('literals', not set(got) - set(want), r.f, 'there are no other names', detail=str(set(got) - set(want)))


# ------------------------------------------------------------------ types
def types(c):
    r = c.analyze('State::mkTypeConstant', opaque={q('State::mkFunctionType'), q(MS)}, inv=True)
    f = r.f
    N, A = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    ty = pre(r, 'State::d_type')
    n = set()
    for t, s in r.exits:
        ok = is_call(t, MS) and cargs(t)[0] is kind('CONST') and cargs(t)[1] is N
        c.ob('types', ok, f, 'a sort is a new symbol', detail=str(t), st=s)
        if not ok:
            continue
        y = cargs(t)[2]
        zero = s.truth(eq(A, I(0)))
        n.add(zero)
        if y is ty:
            c.ob('types', zero is True, f, 'a sort without arguments is a type', st=s)
            continue
        ok = is_call(y, MFT) and cargs(y)[1] is ty
        L = cargs(y)[0] if ok else None
        if ok and L.op == 'it':
            lp = loop_pushed(r, L)
            cnt = [h for h, b in s.facts.items() if h.op == 'lt' and b is False and h.a[0].op == 'it' and h.a[0].a[0] == L.a[0] and h.a[0].a[-1] is I(0) and h.a[1] is A and step_of(r, h.a[0]) == 1]
            ok = lp is not None and lp[0] in (EMPTY, mk('list', ())) and lp[1] == {ty} and bool(cnt)
        elif ok:
            ok = L.op == 'resize' and L.a == (EMPTY, A, ty)
        c.ob('types', ok, f, 'a sort with arguments maps that many types to a type', detail=str(y), st=s)
    c.ob('types', len(r.exits) > 1, f, 'sorts are analysed')
    for nm in ('State::mkDisambiguatedType',):
        disamb(c, nm)
    # a function type has its arguments in order
    r = c.analyze('State::mkFunctionType', inv=True, opaque={q('State::mkExprInternal')})
    f = r.f
    args, ret = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    for t, s in r.exits:
        if t is ret:
            c.ob('types', s.truth(eq(size(args), I(0))) is True, f, 'without arguments, the result type', st=s)
            continue
        ok = t.op == 'it' and t.a[-1] is ret and t in r.loopvals
        good = bool(ok) or absurd(r, s)
        for v in r.loopvals.get(t, ()) if ok else ():
            ks = cargs(v)[1] if is_call(v, 'State::mkExprInternal') and cargs(v)[0] is kind('FUNCTION_TYPE') else None
            ks = ks.a[0] if ks is not None and ks.op == 'list' else ()
            good = good and len(ks) == 2 and ks[1] is t and sweep(r, s, ks[0]) == (args, -1)
        c.ob('types', good, f, 'the arguments are added from the last to the first', detail=str(t), st=s)
    r = c.analyze('State::mkProgramType', inv=True, opaque={q('State::mkExprInternal')})
    f = r.f
    args, ret = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    for t, s in r.exits:
        ok = is_call(t, 'State::mkExprInternal') and cargs(t)[0] is kind('PROGRAM_TYPE')
        if ok:
            g = segments(cargs(t)[1], r, s)
            ok = len(g) == 2 and g[1] == ('one', ret) and (g[0] == ('all', args) or pushed_all(r, s, g[0][1], args))
        c.ob('types', ok, f, 'the type of a program has all its argument types and its result type', detail=str(t), st=s)


def pushed_all(r, s, l, args):
    lp = loop_pushed(r, l)
    v = next(iter(lp[1])) if lp and len(lp[1]) == 1 else None
    return v is not None and lp[0] in (EMPTY, mk('list', ())) and sweep(r, s, v) == (args, 1)


def disamb(c, nm):
    r = c.analyze(nm, opaque={q(x) for x in ('State::mkExpr', 'State::mkSymbol', 'State::mkProgramType', MFT, QT, 'State::mkPair', 'State::defineProgram')},
                  on=lambda e: [('ev', e.name[7:], tuple(e.args), e.ret)] if e.kind == 'call' and e.name == q('State::defineProgram') else ())
    f = r.f
    pat, ret, name = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    ty = pre(r, 'State::d_type')
    L = lambda x: list(x.a[0]) if x.op == 'list' else None
    for t, s in r.exits:
        ok = is_call(t, MFT) and L(cargs(t)[0]) and len(L(cargs(t)[0])) == 1 and is_call(L(cargs(t)[0])[0], QT)
        v = cargs(L(cargs(t)[0])[0])[0] if ok else None
        app = cargs(t)[1] if ok else None
        ok = ok and is_call(v, MS) and cargs(v)[0] is kind('PARAM') and cargs(v)[2] is ty and is_call(app, MX) and cargs(app)[0] is kind('APPLY') and L(cargs(app)[1]) and len(L(cargs(app)[1])) == 2 and L(cargs(app)[1])[1] is v
        P = L(cargs(app)[1])[0] if ok else None
        ok = ok and is_call(P, MS) and cargs(P)[0] is kind('PROGRAM_CONST')
        c.ob('types', bool(ok), f, 'the type of an ambiguous function is a program applied to the type it is used at', detail=str(t), st=s)
        if not ok:
            continue
        ds = evs(s, 'State::defineProgram')
        good = False
        if len(ds) == 1 and ds[0][2][0] is P and is_call(ds[0][2][1], MX) and cargs(ds[0][2][1])[0] is kind('PROGRAM'):
            cs = L(cargs(ds[0][2][1])[1])
            if cs and len(cs) == 1 and is_call(cs[0], 'State::mkPair'):
                a, b = cargs(cs[0])
                good = b is ret and is_call(a, MX) and cargs(a)[0] is kind('APPLY') and L(cargs(a)[1]) == [P, pat]
        c.ob('types', good, f, 'which maps the result of the function to its type', detail=str(ds)[:300], st=s)


# ------------------------------------------------------------------ attributes
def attributes(c):
    r = c.analyze('State::markConstructorKind', keep=None)
    f = r.f
    v, a, t_ = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    n = set()
    for t, s in r.exits:
        ai = {k[-1].split('::')[-1]: x for k, x in s.env.items() if isinstance(k, tuple) and k[-1] and isinstance(k[-1], str) and k[-1].startswith(q('AppInfo::'))}
        res = s.truth(t)
        n.add(res)
        if res is True:
            c.ob('attribute', ai.get('d_attrCons') is a and ai.get('d_attrConsTerm') is t_, f, 'a symbol gets the attribute and its term', detail=str(ai), st=s)
            had = [b for h, b in s.facts.items() if h.op == 'eq' and attr('NONE') in h.a and any('d_attrCons' in str(y) for y in h.a)]
            c.ob('attribute', had == [True], f, 'only one without an attribute', st=s)
        else:
            c.ob('attribute', not ai, f, 'one with an attribute keeps it', detail=str(ai), st=s)
    c.ob('attribute', n == {True, False}, f, 'attributes are given or refused')
    # the attribute among those that were read
    r = c.analyze('ExprParser::processAttributeMap', inv=True, opaque={q('State::mkParameterized'), q('Expr::getVariables')})
    f = r.f
    M, A, V = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    an, vn = f.params[1]['name'], f.params[2]['name']
    root = lambda it: it if it.op != 'it' or not isT(it.a[-1]) or it.a[-1].op != 'it' or it.a[1] != it.a[-1].a[1] else root(it.a[-1])
    n = set()
    for it in r.loopstates:
        if not it.a[1].startswith(an + '@'):
            continue
        c.ob('attribute', root(it).a[-1] is attr('NONE') or root(it) is not it, f, 'at first there is no attribute', detail=str(root(it).a[-1]))
        vals = {id(st): (o, w) for o, l in r.loopstates.items() if o.a[0] == it.a[0] and o.a[1].startswith(vn + '@') for w, st in l}
        for w, st in r.loopstates[it]:
            o, x = vals.get(id(st), (None, None))
            if w.op == 'it' and w.a[1] == it.a[1]:
                # unchanged, or the result of the inner loop
                ok = x is None or x.op == 'it' and x.a[1] == o.a[1]
                c.ob('attribute', ok, f, 'the term belongs to the attribute', detail=str(x), st=st)
                continue
            # the element of the map
            ok = w.op in ('f', 'fld') and w.a[0].endswith('first') and st.truth(eq(it, attr('NONE'))) is True and any(h.op == 'kp' and h.a[-1] is w and b is True and {y.a[0].split('::')[-1] for y in h.a[0]} == CONS for h, b in st.facts.items()) or ok_in(st, w, it)
            c.ob('attribute', bool(ok), f, 'the first attribute of a kind that constructs terms', detail=str(w), st=st)
            av = cargs(x)[0] if x is not None and is_call(x, 'State::mkParameterized') else x
            av = av.a[0] if av is not None and av.op == 'val' else av
            K = elem_of(av) if av is not None else None
            ok = K is not None and (K.op in ('f', 'fld') and K.a[0].endswith('second') and w.op in ('f', 'fld') and K.a[1] is w.a[1] or K is index(M, w))
            c.ob('attribute', bool(ok), f, 'with a term given for it', detail=str(x), st=st)
            if not ok:
                continue
            ground, null = st.truth(mk('ground', av)), st.truth(eq(av, NULL))
            if is_call(x, 'State::mkParameterized'):
                ok = ground is False and null is False and is_call(cargs(x)[1], 'Expr::getVariables') and cargs(cargs(x)[1])[0] is av
            else:
                ok = ground is True or null is True
            n.add(is_call(x, 'State::mkParameterized'))
            c.ob('attribute', ok, f, 'a term with parameters is parameterized by all of them', detail=str(x), st=st)
    c.ob('attribute', n == {True, False}, f, 'terms with and without parameters', detail=str(n))
    r = c.analyze('State::mkParameterized', opaque={q(MX)})
    for t, s in r.exits:
        ks = cargs(t)[1] if is_call(t, MX) and cargs(t)[0] is kind('PARAMETERIZED') else None
        ks = ks.a[0] if ks is not None and ks.op == 'list' else ()
        hd, ps = (mk('p', i, y['name']) for i, y in enumerate(r.f.params))
        ok = len(ks) == 2 and is_call(ks[0], MX) and cargs(ks[0]) == (kind('TUPLE'), ps) and ks[1] in (hd, mk('expr', hd))
        c.ob('attribute', ok, r.f, 'its parameters, and the term', detail=str(t), st=s)
    read(c)
    # the names of attributes
    r = c.analyze('ExprParser::ExprParser')
    for t, s in r.exits[:1]:
        d = table(post(r, s, 'ExprParser::d_strToAttr'))
        got = {k.a[0]: v for k, v in (d or {}).items()}
        for k, v in ATTRS.items():
            c.ob('attribute', got.get(':' + k) is attr(v), r.f, ':%s is the attribute %s' % (k, v), detail=str(sorted(got)))


def ok_in(st, w, it):
    """w is known to be an attribute that constructs terms, and none was found before"""
    d = st.dom.get(w)
    return bool(d) and d[0] == 'in' and {x.a[0].split('::')[-1] for x in d[1]} <= CONS and st.truth(eq(it, attr('NONE'))) is True


CONS = {'RIGHT_ASSOC', 'LEFT_ASSOC', 'RIGHT_ASSOC_NIL', 'LEFT_ASSOC_NIL', 'RIGHT_ASSOC_NS_NIL', 'LEFT_ASSOC_NS_NIL', 'CHAINABLE', 'PAIRWISE', 'BINDER', 'LET_BINDER', 'ARG_LIST', 'LIST'}
ATTRS = {'right-assoc': 'RIGHT_ASSOC', 'left-assoc': 'LEFT_ASSOC', 'right-assoc-nil': 'RIGHT_ASSOC_NIL', 'left-assoc-nil': 'LEFT_ASSOC_NIL', 'right-assoc-non-singleton-nil': 'RIGHT_ASSOC_NS_NIL',
         'left-assoc-non-singleton-nil': 'LEFT_ASSOC_NS_NIL', 'chainable': 'CHAINABLE', 'pairwise': 'PAIRWISE', 'binder': 'BINDER', 'let-binder': 'LET_BINDER', 'arg-list': 'ARG_LIST', 'list': 'LIST', 'implicit': 'IMPLICIT',
         'opaque': 'OPAQUE', 'type': 'TYPE', 'sorry': 'SORRY', 'syntax': 'SYNTAX', 'restrict': 'RESTRICT'}
NOVAL, VAL, PAIR = {'RIGHT_ASSOC', 'LEFT_ASSOC'}, CONS - {'RIGHT_ASSOC', 'LEFT_ASSOC', 'LET_BINDER', 'LIST'}, {'LET_BINDER'}


def read(c):
    """attributes are recorded with what follows them"""
    ops = {q(x) for x in ('ExprParser::parseExpr', 'ExprParser::parseExprPair', 'ExprParser::parseLiteralKind', 'ExprParser::parseSymbolicExpr', 'ExprParser::typeCheck', 'State::markConstructorKind', 'State::markProofRuleSorry')}
    o = lambda e: [('ev', e.name[7:], tuple(e.args), e.ret)] if e.kind == 'call' and e.name in ops else ()
    for K, plk in (('CONST', None), ('LAMBDA', None), ('PARAM', 'CONST'), ('PARAM', 'LAMBDA')):
        ps = {0: kind(K)}
        if plk:
            ps[3] = kind(plk)
        r = c.analyze('ExprParser::parseAttributeList', inv=True, opaque=ops, params=ps, on=o, loophead=lambda g, h, s: ())
        f = r.f
        e = mk('p', 1, f.params[1]['name'])
        nm = f.params[2]['name']
        seen = set()
        for g, h, st, cx in r.backs:
            if g is not f:
                continue
            M = next((v for k, v in st.env.items() if k[0] == 'L' and k[-1].startswith(nm + '@')), None)
            es = evs(st, *[x[7:] for x in ops])
            known_ = [b for h_, b in st.facts.items() if h_.op == 'has' and field(h_.a[0], 'd_strToAttr')]
            if known_ == [False]:
                ok = M is not None and (M.op == 'it' or M.op == 'set' and M.a[1] is attr('NONE')) and not evs(st, 'State::markConstructorKind')
                c.ob('attribute', ok, f, 'an unknown attribute has no effect', detail=str(M), st=st)
                continue
            at = [t for t, d in st.dom.items() if d[0] == 'in' and len(d[1]) == 1 and any(field(x, 'd_strToAttr') for x in subterms(t)) and t.op in ('idx', 'fld')]
            names = {next(iter(st.dom[t][1])) for t in at}
            if known_ != [True] or len(names) != 1:
                # several attributes are handled alike
                at = [t for t, d in st.dom.items() if d[0] == 'in' and any(field(x, 'd_strToAttr') for x in subterms(t)) and t.op in ('idx', 'fld')]
                names = set().union(*[st.dom[t][1] for t in at]) if at else set()
            c.ob('attribute', known_ == [True] and bool(names), f, 'which attribute it is', detail=str(names), st=st)
            for A in sorted(names, key=str):
                a = A.a[0].split('::')[-1] if isT(A) and A.op == 'e' else str(A)
                seen.add(a)
                if a == 'LIST' and K == 'PARAM':
                    mk_ = evs(st, 'State::markConstructorKind')
                    ok = len(mk_) == 1 and mk_[0][2][0] is e and (mk_[0][2][1] is A or st.cval(mk_[0][2][1]) is A) and M.op == 'it'
                    c.ob('attribute', ok, f, 'a parameter marked as a list is one', detail=str(mk_), st=st)
                    continue
                c.ob('attribute', not evs(st, 'State::markConstructorKind', 'State::markProofRuleSorry'), f, ':%s marks nothing by itself' % a, st=st)
                ok = M is not None and M.op == 'set' and M.a[0].op == 'it' and (M.a[1] is A or st.cval(M.a[1]) is A) and M.a[2].op == 'push' and M.a[2].a[0] is index(M.a[0], M.a[1])
                c.ob('attribute', ok, f, ':%s is recorded' % a, detail=str(M), st=st)
                if not ok:
                    continue
                v = M.a[2].a[1]
                if K == 'LAMBDA':
                    tc = [x for x in evs(st, 'ExprParser::typeCheck') if len(x[2]) == 2 and x[2][0] is e and x[2][1] is v]
                    c.ob('checked', a == 'TYPE' and is_call(v, PE) and bool(tc), f, 'DEFINE: the term has the type given', detail=str(tc), st=st)
                elif K == 'CONST':
                    w = (isnull(st, v) or v.op == 'new') if a in NOVAL else is_call(v, PE) if a in VAL else is_call(v, 'ExprParser::parseExprPair') if a in PAIR else False
                    c.ob('attribute', w, f, ':%s is recorded with the term that follows' % a, detail=str(v), st=st)
                else:
                    w = is_call(v, PE) if a == 'RESTRICT' else a in ('IMPLICIT', 'OPAQUE', 'SYNTAX') and not any(is_call(x[3], PE) for x in es)
                    c.ob('attribute', w, f, ':%s of a parameter' % a, detail=str(v), st=st)
        want = {'CONST': CONS - {'LIST'}, 'LAMBDA': {'TYPE'}, 'PARAM': {'LIST', 'IMPLICIT', 'OPAQUE'}}[K]
        c.ob('attribute', seen >= want, f, 'the attributes of a %s' % K, detail=str(sorted(want - seen)))
