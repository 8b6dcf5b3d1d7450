"""Premise lists: the formulas of all premises, in order, under the declared constructor."""
from common import *

NIL = ('LEFT_ASSOC_NIL', 'RIGHT_ASSOC_NIL', 'LEFT_ASSOC_NS_NIL', 'RIGHT_ASSOC_NS_NIL')


def run(c):
    c.rule('list-collects', 'a rule with a premise list receives one proof: of the constructor applied to the formula of every premise, '
           'in order, or of the nil terminator if there are none', 2)
    c.rule('list-proofs', 'every collected premise is a proof', 1)
    c.rule('list-nil', 'without premises, the constructor has a nil terminator, which is used', 2)
    c.rule('list-declared', 'the constructor is the one given after :premise-list', 2)
    notify(c)
    nil(c)
    declare(c)


def notify(c):
    r = c.analyze('State::notifyStep', watch=watch('TypeChecker::evaluateProgramApp'))
    P = [mk('p', i, p['name']) for i, p in enumerate(r.f.params)]
    premises = P[3]
    n = 0
    for e in named(r.events, q('TypeChecker::evaluateProgramApp')):
        st = e.st
        segs = whole(e.args[0])
        pf = [v for k, v in segs if k == 'one' and is_call(v, 'State::mkProof')]
        if not pf:
            c.ob('list-collects', any(s == ('all', premises) for s in segs), e, 'premises are passed as they are, or as one proof', detail=show(e.args[0]))
            continue
        n += 1
        c.ob('list-collects', len(pf) == 1 and not any(premises in subterms(v) for k, v in segs if v is not pf[0]), e, 'one proof for the premises', detail=show(e.args[0]))
        x = cargs(pf[0])[0]
        collect(c, r, e, st, x, premises)
    c.ob('list-collects', n >= 2, r.f, 'premise lists are collected')


def collect(c, r, e, st, x, premises):
    if is_call(x, 'State::mkExpr') or is_call(x, 'State::mkApplies'):
        a = cargs(x)
        C = a[1] if len(a) > 1 else None
        ok = C is not None and a[0] is kind('APPLY')
        lp = loop_pushed(r, C) if ok else None
        good = False
        if lp:
            entry, xs = lp
            good = is_cons_list(entry)
            for y in xs:
                el = kid(y)[0] if kid(y)[1] is I(0) else None
                good = good and el is not None and full_iteration(st, el) is premises
            good = good and finished(st, premises)
            for v, s in r.loopstates.get(C, ()):
                y = v.a[1] if v.op == 'push' else None
                el = kid(y)[0]
                k = el is not None and s.cval(mk('kind', el))
                c.ob('list-proofs', k is kind('PROOF'), e, 'a collected premise is a proof', detail=show(v), st=s)
            some = st.truth(eq(size(C), I(1))) is False or st.truth(eq(size(premises), I(0))) is False
            c.ob('list-nil', some, e, 'the constructor is applied only to one formula or more', st=st)
        c.ob('list-collects', good, e, 'the constructor is applied to the formula of every premise', detail=show(x), st=st)
        return
    ok = field(x, 'd_attrConsTerm') and is_call(x.a[1], 'State::getAppInfo') and is_cons(strip(cargs(x.a[1])[0]))
    c.ob('list-collects', ok, e, 'without premises the nil terminator of the constructor', detail=show(x))
    if ok:
        pos = False
        for t, v in st.facts.items():
            if v and t.op == 'r' and t.a[0] == q('isListNilAttr'):
                y = cargs(t)[0]
                pos = pos or field(y, 'd_attrCons') and y.a[1] is x.a[1]
        for t, d in st.dom.items():
            if field(t, 'd_attrCons') and t.a[1] is x.a[1] and d[0] == 'in' and d[1] <= {attr(a) for a in NIL}:
                pos = True
        c.ob('list-nil', pos, e, 'the constructor is known to have a nil terminator', st=st)
        none = st.truth(eq(size(premises), I(0))) is True
        for cont in r.loopvals:
            lp = loop_pushed(r, cont)
            if lp and is_cons_list(lp[0]):
                lo, hi = st.interval(size(cont))
                none = none or hi is not None and size(lp[0]) is I(hi) and finished(st, premises)
        c.ob('list-nil', none, e, 'the nil terminator is used only without premises', st=st)


def is_cons_list(t):
    s = whole(t)
    return len(s) == 1 and s[0][0] == 'one' and is_cons(s[0][1])


def strip(t):
    return t.a[0] if t.op == 'value' else t


def is_cons(t):
    """a slot of the record of the rule"""
    x, i = kid(t)
    return x is not None and field(x, 'd_attrConsTerm') and i.op == 'i'


def nil(c):
    r = c.analyze('isListNilAttr')
    a = mk('p', 0, r.f.params[0]['name'])
    en = [x for x in c.prog.enum('Attr')]
    for n in en:
        vals = set()
        for t, s in r.exits:
            s2 = s.copy()
            if s2.assume(eq(a, attr(n)), True):
                vals.add(s2.truth(t))
        c.ob('list-nil', vals == {n in NIL}, r.f, '%s %s a nil terminator' % (n, 'has' if n in NIL else 'has not'), detail=str(vals))


def declare(c):
    ro = Roles()
    r = command(c, 'DECLARE_RULE', ['State::markConstructorKind'], on=ro.on)
    n = 0
    for e in r.events:
        if e.args[1] is not attr('PROOF_RULE'):
            continue
        tup = e.args[2]
        if 'premise-list' in keywords_known(e.st):
            cons = [t for t, v in ro.roles.items() if v == {('premise-list', 1)}]
            ok = any(x in cons for x in subterms(tup)) or any(e.st.truth(x) is False for x in cons)
            n += 1
            c.ob('list-declared', ok, e, 'the constructor read after :premise-list and its pattern is stored', detail=show(tup), st=e.st)
        else:
            bad = [x for x in subterms(tup) if (('premise-list', 1) in ro.roles.get(x, ()))]
            c.ob('list-declared', not bad, e, 'no constructor is stored without :premise-list', detail=show(tup))
    c.ob('list-declared', n > 0, r.f, ':premise-list is recognised')
