"""Datatypes declare exactly what they say."""
from common import *

PCL, PDD = 'ExprParser::parseConstructorDefinitionList', 'ExprParser::parseDatatypesDef'
MFT, MS, MX, DT, PS, PT, MTC, FV, GV, BD, MCK, ML = ('State::mkFunctionType', 'State::mkSymbol', 'State::mkExpr', 'State::mkDisambiguatedType', 'ExprParser::parseSymbol', 'ExprParser::parseType', 'State::mkTypeConstant',
                                                     'ExprParser::findFreeVar', 'Expr::getVariables', 'State::bind', 'State::markConstructorKind', 'State::mkList')
BINDS = {q(BD), q('ExprParser::bind')}


def run(c):
    c.rule('constructor', 'a constructor is a function from its fields, in order, to the datatype', 8)
    c.rule('field', 'a field has a selector and an updater of its type', 6)
    c.rule('sort', 'a datatype is a sort of its arity, and its constructors belong to it', 8)
    c.rule('bound', 'all symbols of a datatype are bound to their names', 6)
    c.rule('recorded', 'a datatype is recorded with its constructors, a constructor with its selectors', 8)
    c.rule('lists', 'the lists of constructors and selectors are the recorded ones', 8)
    constructors(c)
    datatypes(c)
    commands(c)
    lists(c)


def params(f):
    return [mk('p', i, y['name']) for i, y in enumerate(f.params)]


def on(e):
    if e.kind == 'out' and e.obj is not None:
        n = len([x for x in e.st.ts if isinstance(x, tuple) and x[0] == 'out' and x[1] is e.obj])
        return [('out', e.obj, n + i, a) for i, a in enumerate(e.args)]
    if e.kind == 'call' and (e.name in BINDS or e.name in (q(PCL), q(MCK))):
        return [('ev', e.name[7:], tuple(e.args), e.ret)]
    return ()


def evs(s, *names):
    return [x for x in s.ts if isinstance(x, tuple) and x[0] == 'ev' and x[1] in names]


def concat(s, t):
    """the parts of a string"""
    if t.op == 'plus' or t.op == 'cat':
        return concat(s, t.a[0]) + concat(s, t.a[1])
    if is_call(t, 'std::basic_stringstream::str') or t.op == 'r' and t.a[0].endswith('::str') and isT(t.a[1]):
        o = sorted((x for x in s.ts if isinstance(x, tuple) and x[0] == 'out' and x[1] is t.a[1]), key=lambda x: x[2])
        if o and [x[2] for x in o] == list(range(len(o))):
            return [y for x in o for y in concat(s, x[3])]
    return [t]


def lst(t):
    return [x for k, x in segments(t) if k == 'one'] if all(k == 'one' for k, x in segments(t)) else None


def fun(t, args, ret):
    return is_call(t, MFT) and lst(cargs(t)[0]) == list(args) and cargs(t)[1] is ret


def symbol(t, name):
    """the type of a new constant of that name"""
    return cargs(t)[2] if is_call(t, MS) and cargs(t)[0] is kind('CONST') and cargs(t)[1] is name else None


def pushed(v, it):
    """what is added to a container in an iteration"""
    out = []
    while v is not it and v.op == 'push':
        out.insert(0, v.a[1])
        v = v.a[0]
    return out, v


def pr(t):
    return (t.a[0], t.a[1]) if t.op == 'pair' and len(t.a) == 2 else (None, None)


# ------------------------------------------------------------------ constructors and fields
def constructors(c):
    r = c.analyze(PCL, inv=True, on=on, loophead=lambda g, h, s: (), opaque={q(x) for x in (MFT, MS, DT, PS, PT, FV, GV)})
    f = r.f
    D, CL, DC, TB, AC, PP = params(f)
    nm = [y['name'] for y in f.params]
    var = lambda it, i: it.a[1].startswith(nm[i] + '@')
    chain = lambda it: it if it.op != 'it' or not isT(it.a[-1]) or it.a[-1].op != 'it' else chain(it.a[-1])
    boolty = lambda t: is_call(t, 'State::mkBoolType') or field(t, 'd_boolType')
    # loops: the fields (selectors are collected), the constructors (they are added to the list)
    outer = [it for it in r.loopstates if var(it, 1)]
    c.ob('constructor', len(outer) == 1 and outer[0].a[-1] is CL, f, 'constructors are added to the list given', detail=str(outer))
    if len(outer) != 1:
        return
    site = outer[0].a[0]
    at = lambda i, s_: next((it for it in r.loopstates if it.a[0] == s_ and var(it, i)), None)
    val = lambda it, st: next((w for w, x in r.loopstates[it] if x is st), None) if it is not None else None
    dco, aco, tbo = at(2, site), at(4, site), at(3, site)
    c.ob('constructor', all(x is not None for x in (dco, aco, tbo)), f, 'constructors, their selectors and names are recorded', detail=str((dco, aco, tbo)))
    if None in (dco, aco, tbo):
        return
    n = set()
    fields = set()
    for w, st in r.loopstates[outer[0]]:
        new, base = pushed(w, outer[0])
        ok = len(new) == 1 and base is outer[0]
        c.ob('constructor', ok, f, 'one constructor at a time', detail=str(w), st=st)
        if not ok:
            continue
        K = new[0]
        N = cargs(K)[1] if is_call(K, MS) else None
        ty = symbol(K, N) if N is not None and is_call(N, PS) else None
        c.ob('constructor', ty is not None, f, 'a constructor is a new symbol of its name', detail=str(K), st=st)
        if ty is None:
            continue
        amb = is_call(ty, DT)
        base = ty
        if amb:
            base = cargs(ty)[1]
            c.ob('constructor', cargs(ty)[0] is D and cargs(ty)[2] is N, f, 'an ambiguous constructor is used at a datatype', detail=str(ty), st=st)
        FL = None
        ok = is_call(base, MFT) and cargs(base)[1] is D and cargs(base)[0].op == 'it' and cargs(base)[0].a[-1] in (EMPTY, mk('list', ()))
        c.ob('constructor', ok, f, 'it maps its fields to the datatype', detail=str(base), st=st)
        if not ok:
            continue
        FL = cargs(base)[0]
        # ambiguous: the datatype has parameters that no field has
        fs = [h for h in st.dom if is_call(h, FV)]
        noparam = st.truth(eq(size(PP), I(0)))
        if fs:
            ok = len(fs) == 1 and cargs(fs[0])[0] is D and is_call(cargs(fs[0])[1], GV) and cargs(cargs(fs[0])[1])[0] is FL
            c.ob('constructor', ok, f, 'parameters that no field has are looked for', detail=str(fs[0]), st=st)
            want = st.truth(eq(fs[0], NULL)) is False
        else:
            c.ob('constructor', noparam is True, f, 'a constructor of a datatype without parameters is not ambiguous', st=st)
            want = False
        c.ob('constructor', amb == want, f, 'a constructor is ambiguous iff its fields do not determine the datatype', st=st)
        n.add(want)
        # what is recorded of it
        av = val(aco, st)
        ok = av is not None and (av.op == 'ins' and av.a[0] is aco and av.a[1] in (K, mk('val', K)) if amb else av is aco)
        c.ob('recorded', ok, f, 'an ambiguous constructor is recorded as such', detail=str(av), st=st)
        dv = val(dco, st)
        ok = dv is not None and dv.op == 'set' and dv.a[0] is dco and dv.a[1] in (K, mk('val', K)) and dv.a[2].op == 'it' and dv.a[2].a[-1] in (EMPTY, mk('list', ())) and dv.a[2].a[0] == FL.a[0]
        c.ob('recorded', ok, f, 'a constructor is recorded with its selectors', detail=str(dv), st=st)
        if not ok:
            continue
        SL = dv.a[2]
        tv = val(tbo, st)
        new, base2 = pushed(tv, None) if tv is not None else ([], None)
        inner = at(3, FL.a[0])
        c.ob('bound', base2 is inner and inner is not None and inner.a[-1] is tbo, f, 'the names of the fields come with the constructor', detail=str(tv), st=st)
        pairs = [pr(x) for x in new]
        ok = len(pairs) == 2 and (N, K) in pairs
        c.ob('bound', ok, f, 'a constructor is bound to its name', detail=str(new), st=st)
        other = [(a, b) for a, b in pairs if b is not K]
        ok = len(other) == 1 and other[0][0] is not None and concat(st, other[0][0]) == [S('is-'), N]
        ok = ok and is_call(other[0][1], MS) and concat(st, cargs(other[0][1])[1]) == [S('is-'), N] and cargs(other[0][1])[0] is kind('CONST')
        ok = ok and is_call(cargs(other[0][1])[2], MFT) and lst(cargs(cargs(other[0][1])[2])[0]) == [D] and boolty(cargs(cargs(other[0][1])[2])[1])
        c.ob('bound', bool(ok), f, 'it has a tester from the datatype to Bool', detail=str(other), st=st)
        fields.add((FL, SL, inner))
    c.ob('constructor', n == {True, False}, f, 'ambiguous and other constructors')
    c.ob('field', len(fields) == 1, f, 'the fields of a constructor are read in one place', detail=str(len(fields)))
    k = 0
    for FL, SL, TBi in fields:
        for w, st in r.loopstates[FL]:
            k += 1
            new, base = pushed(w, FL)
            ok = len(new) == 1 and base is FL and is_call(new[0], PT)
            c.ob('field', ok, f, 'a field has the type given', detail=str(w), st=st)
            if not ok:
                continue
            ty = new[0]
            sv = val(SL, st)
            new, base = pushed(sv, SL) if sv is not None else ([], None)
            N = cargs(new[0])[1] if len(new) == 1 and is_call(new[0], MS) else None
            sel = new[0] if N is not None else None
            ok = base is SL and sel is not None and is_call(N, PS) and symbol(sel, N) is not None and fun(cargs(sel)[2], [D], ty)
            c.ob('field', ok, f, 'its selector maps the datatype to that type', detail=str(sv), st=st)
            tv = val(TBi, st)
            new, base = pushed(tv, TBi) if tv is not None else ([], None)
            pairs = [pr(x) for x in new]
            c.ob('bound', base is TBi and len(pairs) == 2 and (N, sel) in pairs, f, 'a selector is bound to its name', detail=str(tv), st=st)
            other = [(a, b) for a, b in pairs if b is not sel]
            ok = len(other) == 1 and other[0][0] is not None and concat(st, other[0][0]) == [S('update-'), N] and is_call(other[0][1], MS) and concat(st, cargs(other[0][1])[1]) == [S('update-'), N]
            ok = ok and cargs(other[0][1])[0] is kind('CONST') and fun(cargs(other[0][1])[2], [D, ty], D)
            c.ob('field', bool(ok), f, 'its updater maps the datatype and that type to the datatype', detail=str(other), st=st)
    c.ob('field', k > 0, f, 'fields are analysed')


# ------------------------------------------------------------------ datatypes
def datatypes(c):
    before = set()

    def head(g, h, s):
        """what was read stays known in the loops after it"""
        if not evs(s, PCL):
            before.add((g, h))
        if (g, h) in before and evs(s, PCL):
            return ()
        return [x for x in s.ts if isinstance(x, tuple) and x[0] == 'ev' and (x[1] == PCL or is_call(x[2][1], MTC))]
    r = c.analyze(PDD, inv=True, on=on, loophead=head, opaque={q(x) for x in (MFT, MS, DT, PS, PT, FV, GV, MTC, PCL, MX, 'ExprParser::parseSymbolList', 'State::pushScope', 'State::popScope')} | BINDS)
    f = r.f
    NS, AS, DTS, DCS, AMB = params(f)
    nm = [y['name'] for y in f.params]
    iscons = lambda t, i: is_out(t, PCL, i)
    outer = [it for it in r.loopstates if it.a[1].startswith(nm[2] + '@') and any(w.op == 'set' for w, _ in r.loopstates[it])]
    c.ob('sort', len(outer) == 1 and outer[0].a[-1] is DTS, f, 'datatypes are recorded in one place', detail=str(len(outer)))
    if len(outer) != 1:
        return
    O = outer[0]
    same = lambda it: it.a[0] == O.a[0]
    val = lambda it, st: next((w for w, x in r.loopstates[it] if x is st), None) if it is not None else None
    dco = next((it for it in r.loopstates if same(it) and it.a[1].startswith(nm[3] + '@')), None)
    aco = next((it for it in r.loopstates if same(it) and it.a[1].startswith(nm[4] + '@')), None)
    n = set()
    for w, st in r.loopstates[O]:
        neg = any(h.op == 'lt' and b is True and h.a[1] is I(0) and h.a[0].op == 'idx' and h.a[0].a[0] is AS for h, b in st.facts.items())
        if neg or absurd(r, st):
            continue        # sizes are not negative
        call = [h for h in (x for h in [w] + [v for it in (dco, aco) if it is not None for v in [val(it, st)] if v is not None] for x in subterms(h)) if h.op == 'o' and h.a[0] == q(PCL)]
        cs = evs(st, PCL)
        ok = w.op == 'set' and w.a[0] is O and iscons(w.a[2], 1) and len(cs) <= 1
        c.ob('sort', ok, f, 'a datatype gets its constructors', detail=str(w), st=st)
        ok2 = val(dco, st) is not None and iscons(val(dco, st), 2) and val(aco, st) is not None and iscons(val(aco, st), 4)
        c.ob('recorded', ok2, f, 'and what is known of them is kept', detail=str((val(dco, st), val(aco, st))), st=st)
        if not ok or len(cs) != 1:
            c.ob('sort', len(cs) == 1, f, 'the constructors are read', st=st)
            continue
        a = cs[0][2]
        dtv = w.a[1]
        dtv = dtv.a[0] if dtv.op == 'val' else dtv
        # the datatype is the one with that number
        ok = dtv.op == 'idx' and dtv.a[1].op == 'it' and dtv.a[1].a[-1] is I(0) and step_of(r, dtv.a[1]) == 1 and same(dtv.a[1])
        c.ob('sort', ok, f, 'the datatypes are defined in their order', detail=str(dtv), st=st)
        if not ok:
            continue
        ix = dtv.a[1]
        L = dtv.a[0]
        # a datatype whose arity was not known is made now
        known_ = [b for h, b in st.facts.items() if h.op == 'lt' and h.a[0] is ix and h.a[1] is size(AS)]
        late = known_ == [False]
        PL = a[5]
        mtc = lambda t, k: is_call(t, MTC) and cargs(t)[0] is index(NS, ix) and (cargs(t)[1] is k or st.cval(cargs(t)[1]) is st.cval(k))
        np = size(PL)
        b = {(x[2][0], x[2][1]) for x in evs(st, 'State::bind', 'ExprParser::bind')}
        if L.op == 'push' and L.a[0].op == 'it':
            made = L.a[1]
            ok = late and mtc(made, np)
            c.ob('sort', ok, f, 'a datatype whose arity is not given has as many arguments as parameters', detail=str(made), st=st)
            c.ob('bound', any(x is index(NS, ix) and y is made for x, y in b), f, 'a datatype is bound to its name', detail=str(b), st=st)
        else:
            ok = known_ == [True] and L.op == 'it'
            c.ob('sort', ok, f, 'a datatype whose arity is given is one made before', detail=str(L), st=st)
            ar = index(AS, ix)
            ok = st.truth(eq(ar, np)) is True or st.cval(ar) is st.cval(np) and st.cval(np).op == 'i' or any(h.op == 'eq' and v is True and set(h.a) == {ar, np} for h, v in st.facts.items()) or st.interval(ar) == st.interval(np) == (0, 0)
            c.ob('sort', ok, f, 'and has as many parameters as it was declared with', detail=str((st.interval(ar), st.interval(np))), st=st)
        n.add((late, st.truth(eq(np, I(0)))))
        # the type its constructors build
        dti = a[0]
        no = st.truth(eq(np, I(0)))
        if no is True:
            ok = dti is dtv
        else:
            ks = cargs(dti)[1] if is_call(dti, MX) and cargs(dti)[0] is kind('APPLY') else None
            g = segments(ks, r, st) if ks is not None else []
            ok = no is False and len(g) == 2 and g[0] == ('one', dtv) and g[1] == ('all', PL)
        c.ob('sort', ok, f, 'its constructors build the datatype, applied to all its parameters', detail=str(dti), st=st)
        # its parameters
        if PL.op == 'it':
            lp = loop_pushed(r, PL)
            v = next(iter(lp[1])) if lp and len(lp[1]) == 1 else None
            ok = v is not None and is_call(v, MS) and cargs(v)[0] is kind('PARAM') and lp[0] in (EMPTY, mk('list', ())) and (is_call(cargs(v)[2], 'State::mkType') or field(cargs(v)[2], 'd_type'))
            ok = ok and sweep(r, st, cargs(v)[1]) is not None and is_call(sweep(r, st, cargs(v)[1])[0], 'ExprParser::parseSymbolList') and sweep(r, st, cargs(v)[1])[1] == 1
            c.ob('sort', bool(ok), f, 'its parameters are types of the names given', detail=str(v), st=st)
        else:
            c.ob('sort', PL in (EMPTY, mk('list', ())), f, 'a datatype without par has no parameters', detail=str(PL), st=st)
    c.ob('sort', n >= {(a, b) for a in (True, False) for b in (True, False)}, f, 'datatypes with and without parameters, with and without arity', detail=str(n))
    # parameters are bound
    for it, l in r.loopstates.items():
        for w, st in l:
            if w.op == 'push' and is_call(w.a[1], MS) and cargs(w.a[1])[0] is kind('PARAM'):
                ok = any(x[2][0] is cargs(w.a[1])[1] and x[2][1] is w.a[1] for x in evs(st, 'State::bind', 'ExprParser::bind'))
                c.ob('bound', ok, f, 'a parameter is bound to its name', st=st)
    # the datatypes of given arity are made first
    k = 0
    for it, l in r.loopstates.items():
        if it.a[0] == O.a[0] or it.a[-1] not in (EMPTY, mk('list', ())):
            continue
        for w, st in l:
            new, base = pushed(w, it)
            if not (len(new) == 1 and is_call(new[0], MTC)) or base is not it:
                if any(x is it for x in (h for v, s2 in r.loopstates[O] for h in subterms(v))) and w is it:
                    given = [h for h, b in st.facts.items() if h.op == 'lt' and b is False and h.a[0].op == 'it' and h.a[1] is size(AS)]
                    c.ob('sort', bool(given), f, 'only a datatype without a given arity is made later', st=st)
                continue
            k += 1
            d = new[0]
            N, A = cargs(d)
            ok = N.op == 'idx' and N.a[0] is NS and A is index(AS, N.a[1]) and sweep(r, None, N) is None and N.a[1].op == 'it' and N.a[1].a[-1] is I(0) and step_of(r, N.a[1]) == 1
            c.ob('sort', ok, f, 'a sort of the name and arity given', detail=str(d), st=st)
            ok = any(x[2][0] is N and x[2][1] is d and st.truth(x[3]) is True for x in evs(st, 'State::bind', 'ExprParser::bind'))
            c.ob('bound', ok, f, 'which is bound to its name', st=st)
    c.ob('sort', k > 0, f, 'sorts of given arity are analysed')
    # all symbols are bound
    k = 0
    symb = [it for it in r.loopstates if isT(it.a[-1]) and it.a[-1].op == 'begin' and iscons(it.a[-1].a[0], 3)]
    symi = {x.a[1] for g, h, st, cx in r.backs for e in evs(st, 'State::bind', 'ExprParser::bind') for t in e[2] for x in subterms(t) if x.op == 'idx' and iscons(x.a[0], 3)}
    for st in [st for it in r.loopstates if it in symb or it in symi for w, st in r.loopstates[it]]:
        bs = evs(st, 'State::bind', 'ExprParser::bind')
        c.ob('bound', len(bs) >= 1, f, 'every symbol of the datatype is bound', st=st)
        for x in bs:
            if is_call(x[2][1], MTC):
                continue
            els = {y for t in x[2] for y in subterms(t) if y.op == 'it' and isT(y.a[-1]) and y.a[-1].op == 'begin' and iscons(y.a[-1].a[0], 3)}
            els |= {y for t in x[2] for y in subterms(t) if y.op == 'idx' and iscons(y.a[0], 3)}
            if not els:
                continue
            k += 1
            y = els.pop()
            ok = not els and is_field(x[2][0], 'first', y) and is_field(x[2][1], 'second', y) and st.truth(x[3]) is True
            c.ob('bound', ok, f, 'a symbol of the datatype is bound to its name', detail=str(x[2]), st=st)
    c.ob('bound', k > 0, f, 'the symbols of a datatype are bound')
    for w, st in r.loopstates[O]:
        e = [h for h in st.facts if h.op == 'eq' and st.facts[h] is True and any(iscons(y.a[0], 3) for y in h.a if y.op == 'end')] + \
            [h for h in st.facts if h.op == 'lt' and st.facts[h] is False and h.a[1].op == 'size' and iscons(h.a[1].a[0], 3) and h.a[0].a[-1] is I(0)]
        c.ob('bound', bool(e) or absurd(r, st), f, 'all symbols of the datatype are bound', st=st)
    for t, s in r.exits:
        if t is FALSE or s.truth(t) is False:
            continue
        # as many as there are names
        ok = any(h.op == 'eq' and b is True and size(NS) in h.a and any(y.op == 'it' and same(y) and y.a[-1] is I(0) and step_of(r, y) == 1 for y in h.a) for h, b in s.facts.items())
        c.ob('sort', ok, f, 'every datatype that was announced is defined', st=s)


def is_field(t, name, y):
    return t.op in ('f', 'fld') and t.a[0].endswith('::' + name) and (t.a[1] is y or t.a[1] is mk('deref', y))


# ------------------------------------------------------------------ the commands
def commands(c):
    opq = {q(x) for x in (PDD, MX, ML, MCK, PS, 'ExprParser::parseIntegerNumeral', 'ExprParser::bind', BD)}
    for tk in ('DECLARE_DATATYPE', 'DECLARE_DATATYPES'):
        r = command(c, tk, on=on, opaque=opq, cap=3000, inv=True, loophead=lambda g, h, s: ())
        f = r.f
        acc = [s for s in accepting(r) if not absurd(r, s)]
        call = None
        for s in acc:
            ps = [h for h, b in s.facts.items() if is_call(h, PDD) and b is True]
            c.ob('recorded', len(ps) == 1, f, '%s: the datatypes are read' % tk, st=s)
            if len(ps) != 1:
                continue
            call = ps[0]
            a = cargs(call)
            if tk == 'DECLARE_DATATYPE':
                ok = lst(a[0]) is not None and len(lst(a[0])) == 1 and is_call(lst(a[0])[0], PS) and a[1] in (EMPTY, mk('list', ()))
                c.ob('recorded', ok, f, '%s: one datatype of the name given' % tk, detail=str(a), st=s)
            else:
                lp, lq = loop_pushed(r, a[0]), loop_pushed(r, a[1])
                v = next(iter(lp[1])) if lp and len(lp[1]) == 1 else None
                w = next(iter(lq[1])) if lq and len(lq[1]) == 1 else None
                ok = v is not None and w is not None and is_call(v, PS) and any(is_call(x, 'ExprParser::parseIntegerNumeral') for x in subterms(w))
                ok = ok and s.truth(eq(size(a[0]), I(0))) is False
                c.ob('recorded', ok, f, '%s: the names and arities given' % tk, detail=str((v, w)), st=s)
            for i, what in ((2, 'datatypes'), (3, 'constructors')):
                fin = any(b is True and h.op == 'eq' and any(y.op == 'end' and is_out(y.a[0], PDD, i) for y in h.a) for h, b in s.facts.items())
                c.ob('recorded', fin, f, '%s: all %s are recorded' % (tk, what), st=s)
        c.ob('recorded', bool(acc), f, '%s is analysed' % tk)
        n = set()
        ends = {id(st): (it, st) for it, l in r.loopstates.items() if isT(it.a[-1]) and it.a[-1].op == 'begin' and it.a[-1].a[0].op == 'o' and it.a[-1].a[0].a[0] == q(PDD) for w, st in l}
        c.ob('recorded', len({it for it, st in ends.values()}) == 2, f, '%s: what is recorded is gone through' % tk)
        for it, st in ends.values():
            own = [x for x in evs(st, MCK) if any(y is it for y in subterms(x[2][0]))]
            c.ob('recorded', len(own) == 1, f, '%s: each is recorded' % tk, detail=str(it), st=st)
            for x in own:
                e, a, t = x[2][:3]
                its = {y for y in subterms(e) if y.op == 'it' and isT(y.a[-1]) and y.a[-1].op == 'begin' and y.a[-1].a[0].op == 'o' and y.a[-1].a[0].a[0] == q(PDD)}
                ok = len(its) == 1
                if not ok:
                    c.ob('recorded', False, f, '%s: what is marked is a datatype or a constructor' % tk, detail=str(e), st=st)
                    continue
                y = its.pop()
                which = y.a[-1].a[0].a[2]
                key = e.a[0] if e.op == 'expr' else e
                ok = is_field(key, 'first', y) and is_call(t, ML) and is_field(cargs(t)[0], 'second', y) and step_of(r, y) == 1
                c.ob('recorded', ok, f, '%s: with the list that belongs to it' % tk, detail=str(x[2]), st=st)
                if which == 2:
                    ok = a is attr('DATATYPE')
                else:
                    am = [b for h_, b in st.facts.items() if h_.op == 'has' and is_out(h_.a[0], PDD, 4) and (h_.a[1] is key or h_.a[1] is e)]
                    ok = which == 3 and am in ([True], [False]) and st.cval(a) is attr('AMB_DATATYPE_CONSTRUCTOR' if am == [True] else 'DATATYPE_CONSTRUCTOR')
                    if not ok and which == 3:
                        # marked in an earlier iteration
                        ok = len(evs(st, MCK)) > 1 and st.cval(a) in (attr('AMB_DATATYPE_CONSTRUCTOR'), attr('DATATYPE_CONSTRUCTOR'))
                    n.add(am == [True])
                c.ob('recorded', ok, f, '%s: as what it is' % tk, detail=str(a), st=st)
        c.ob('recorded', n == {True, False}, f, '%s: ambiguous and other constructors are marked' % tk)
    # the list of terms
    r = c.analyze('State::mkList', opaque={q(MX)})
    A = params(r.f)[0]
    for t, s in r.exits:
        e = s.truth(eq(size(A), I(0)))
        if is_call(t, MX):
            g = segments(cargs(t)[1], r, s)
            ok = cargs(t)[0] is kind('APPLY') and len(g) == 2 and g[0][0] == 'one' and field(g[0][1], 'd_listCons') and g[1] == ('all', A)
            c.ob('lists', ok and e is False, r.f, 'a list of all terms, in order', detail=str(t), st=s)
        else:
            c.ob('lists', field(t, 'd_listNil') and e is True, r.f, 'the empty list', detail=str(t), st=s)


# ------------------------------------------------------------------ the lists
def lists(c):
    nm = 'TypeChecker::evaluateLiteralOpInternal'
    opq = {q(x) for x in (MX, ML, 'getNAryChildren', 'TypeChecker::getType', 'State::getAppInfo', 'State::getConstructorKind', 'State::mkType', 'TypeChecker::checkArity')}
    none = lambda t: t is NULL or field(t, 'd_null')
    for K in ('EVAL_DT_SELECTORS', 'EVAL_DT_CONSTRUCTORS'):
        r = c.analyze(nm, params={0: kind(K)}, inv=True, opaque=opq, watch=watch('getNAryChildren'))
        f = r.f
        A = params(f)[1]
        x0 = index(A, I(0))
        n = set()
        for t, s in r.exits:
            if none(t):
                continue
            ai = [h for h, d in s.dom.items() if h.op in ('f', 'fld') and h.a[0].endswith('::d_attrCons')]
            ok = len(ai) == 1 and is_call(ai[0].a[1], 'State::getAppInfo')
            c.ob('lists', ok, f, '%s: of something recorded' % K, detail=str(ai), st=s)
            if not ok:
                continue
            app = ai[0].a[1]
            sy = cargs(app)[0]
            sy = sy.a[0] if sy.op == 'val' else sy
            d = {y.a[0].split('::')[-1] for y in s.dom[ai[0]][1]} if s.dom[ai[0]][0] == 'in' else set()
            isapp = s.truth(eq(mk('kind', x0), kind('APPLY')))
            whole_ = t.op in ('f', 'fld') and t.a[0].endswith('::d_attrConsTerm') and t.a[1] is app
            if K == 'EVAL_DT_SELECTORS':
                op = s.truth(eq(mk('kind', x0), kind('APPLY_OPAQUE')))
                want = mkkid(x0, 0) if op is True else x0 if op is False else None
                c.ob('lists', sy is want, f, '%s: of the constructor, without its type' % K, detail=str(sy), st=s)
                c.ob('lists', d and d <= {'DATATYPE_CONSTRUCTOR', 'AMB_DATATYPE_CONSTRUCTOR'} and whole_, f, '%s: its recorded selectors' % K, detail=str((d, t)), st=s)
                n |= {(y, op) for y in d}
                continue
            c.ob('lists', d == {'DATATYPE'}, f, '%s: of a datatype' % K, detail=str(d), st=s)
            ty = [b for h, b in s.facts.items() if h.op == 'eq' and any(is_call(y, 'TypeChecker::getType') and cargs(y)[0] is x0 for y in h.a) and any(is_call(y, 'State::mkType') or field(y, 'd_type') for y in h.a)]
            inst = isapp is True and ty == [True]
            n.add(inst)
            if not inst:
                c.ob('lists', sy is x0 and whole_, f, '%s: its recorded constructors' % K, detail=str((sy, t)), st=s)
                continue
            # the head of the application
            k, i = kid(sy)
            ok = k is not None and i is I(0) and (k is x0 or k.op == 'it' and k.a[-1] is x0 and all(v is mkkid(k, 0) for v in r.loopvals[k]) or k.op == 'it' and k.a[-1] is mkkid(x0, 0)) \
                or sy.op == 'it' and sy.a[-1] in (x0, mkkid(x0, 0)) and all(v is mkkid(sy, 0) for v in r.loopvals[sy])
            ok = ok and s.truth(eq(mk('kind', sy), kind('APPLY'))) is False
            c.ob('lists', ok, f, '%s: of the datatype that is applied' % K, detail=str(sy), st=s)
            ok = is_call(t, ML)
            lp = loop_pushed2(r, cargs(t)[0]) if ok else None
            c.ob('lists', lp is not None and lp[0] in (EMPTY, mk('list', ())), f, '%s: a list of constructors' % K, detail=str(t), st=s)
            if lp is None:
                continue
            m = set()
            for v, st in lp[1]:
                el = v
                am = [b for h, b in st.facts.items() if h.op == 'eq' and attr('AMB_DATATYPE_CONSTRUCTOR') in h.a and any(is_call(y, 'State::getConstructorKind') for y in h.a)]
                if is_call(v, MX):
                    ks = lst(cargs(v)[1]) if cargs(v)[0] is kind('APPLY_OPAQUE') else None
                    ok = ks is not None and len(ks) == 2 and ks[1] in (x0, mk('expr', x0)) and am == [True]
                    c.ob('lists', bool(ok), f, '%s: an ambiguous constructor is used at the datatype' % K, detail=str(v), st=st)
                    if not ok:
                        continue
                    el = ks[0]
                else:
                    c.ob('lists', am == [False], f, '%s: another constructor is listed as it is' % K, detail=str(v), st=st)
                el = el.a[0] if el.op == 'expr' else el
                who = [cargs(y)[0] for h in st.dom for y in [h] if is_call(y, 'State::getConstructorKind')]
                c.ob('lists', who == [el] or who == [mk('val', el)], f, '%s: is that constructor ambiguous' % K, detail=str(who), st=st)
                sw = sweep(r, s, el)
                ok = sw is not None and sw[1] == 1 and is_out(sw[0], 'getNAryChildren', 3)
                c.ob('lists', ok, f, '%s: every recorded constructor, in order' % K, detail=str(sw), st=st)
                m.add(am == [True])
            c.ob('lists', m == {True, False}, f, '%s: ambiguous and other constructors' % K)
            # which were taken from the recorded list
            g = [e for e in r.events if e.name == q('getNAryChildren')]
            c.ob('lists', all(term_of(e.args[0], app) and listcons(e.args[1]) for e in g) and bool(g), f, '%s: of the recorded list' % K, detail=str([e.args for e in g])[:300], st=s)
        want = {(a, b) for a in ('DATATYPE_CONSTRUCTOR', 'AMB_DATATYPE_CONSTRUCTOR') for b in (True, False)} if K == 'EVAL_DT_SELECTORS' else {True, False}
        c.ob('lists', n == want, f, '%s: all cases have a value' % K, detail=str(n))


def term_of(x, app):
    x = x.a[0] if x.op == 'val' else x
    return x.op in ('f', 'fld') and x.a[0].endswith('::d_attrConsTerm') and (x.a[1] is app or is_call(x.a[1], 'State::getAppInfo'))


def listcons(x):
    x = x.a[0] if x.op == 'val' else x
    return is_call(x, 'State::mkListCons') or field(x, 'd_listCons')


def loop_pushed2(r, t):
    if t.op != 'it' or t not in r.loopstates:
        return None
    out = []
    for v, st in r.loopstates[t]:
        if v.op != 'push' or v.a[0] is not t:
            return None
        out.append((v.a[1], st))
    return t.a[-1], out
