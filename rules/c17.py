"""Ground and evaluatable terms are recognised, and the parameters of terms are found."""
from common import *
from absint import St

FL = ('IS_FLAGS_COMPUTED', 'IS_EVAL', 'IS_NON_GROUND')
SF, GF, DF = 'ExprValue::setFlag', 'ExprValue::getFlag', 'ExprValue::d_flags'
EVALLEAF = {'PROGRAM_CONST', 'ANY'}
OPENLEAF = {'PARAM', 'ANY'}


def run(c):
    c.rule('leaf', 'a term without children is non-ground iff it is a parameter, and evaluatable iff it is a program (or stands for any term)', 2)
    c.rule('union', 'a term is non-ground (evaluatable) if one of its children is, and evaluatable if it is a builtin operator', 3)
    c.rule('order', 'a term is judged after all of its children', 3)
    c.rule('flag', 'the two properties are stored apart from each other, and only computed', 8)
    c.rule('asked', 'a property is computed before it is answered', 4)
    c.rule('operators', 'builtin operators are exactly the kinds that evaluate', 2)
    c.rule('parameters', 'every parameter of a term is found', 6)
    flags(c)
    bits(c)
    asked(c)
    operators(c)
    parameters(c)


def flag(n):
    return E(n, 'Flag')


def allkinds(c):
    return c.prog.enum('Kind')


def sf(e):
    if e.kind == 'call' and e.name == q(SF) and len(e.args) == 2:
        return [('set', e.args[0], e.obj, e.args[1])]
    if e.kind == 'write' and e.name == q(DF):
        return [('write', e.objpath, e.args[0])]
    if e.kind == 'cont' and e.short in ('pop_back', 'pop'):
        return [('pop', e.obj)]
    return ()


def top(t):
    while t.op in ('push', 'ins'):
        t = t.a[0]
    return t


def flags(c):
    f = c.prog.fn1('ExprValue::computeFlags')
    opq = {q(SF), q(GF)}
    r = c.analyze(f, inv=True, opaque=opq)
    outer = {it.a[0][3] for it in r.loopvals if it.op == 'it' and any(v.op == 'pop' and v.a[0] is it for v in r.loopvals[it])}
    # inner loops: what was done before is kept apart from what an iteration does
    r = c.analyze(f, inv=True, on=sf, opaque=opq, loophead=lambda g, h, s: () if h in outer else [x if x[0] == 'before' else ('before', x) for x in s.ts if isinstance(x, tuple)],
                  loopback=lambda g, h, s: () if h in outer else [x for x in s.ts if isinstance(x, tuple) and x[0] == 'before'])
    done = 0
    kinds = allkinds(c)
    lit = {k.a[0] for k in r.interp.kp.get(q('isLiteralOp')) or ()}
    c.ob('union', len(lit) > 20, 'src/kind.cpp', 'builtin operators', detail=str(len(lit)))
    started = False
    # the stack of terms
    ends = [(h, s, False) for g, h, s, ctx in r.backs] + [(None, s, True) for t, s in r.exits]
    stacks = [it for it in r.loopvals if it.op == 'it' and it.a[-1].op in ('list', 'push') and any(v.op == 'pop' and v.a[0] is it for v in r.loopvals[it])]
    c.ob('order', len(stacks) == 1, f, 'the stack of terms', detail=str(stacks))
    if len(stacks) != 1:
        return
    W = stacks[0]
    c.ob('order', W.a[-1].op == 'list' and W.a[-1].a[0] == (THIS,) or W.a[-1].op == 'push' and W.a[-1].a[1] is THIS, f, 'starts with the term itself', detail=str(W.a[-1]))
    cur = back(W)
    for v, s in r.loopstates[W]:
        step(c, f, r, W, cur, v, s, kinds, lit)
        done += 1
    for t, s in r.exits:
        g0 = mk('r', q(GF), THIS, (flag(FL[0]),))
        known_ = [h for h in s.facts if is_call(h, GF) and h.a[1] is THIS and cargs(h) == (flag(FL[0]),)]
        if any(s.facts[h] is True for h in known_):
            sets = [x for x in s.ts if isinstance(x, tuple) and x[0] in ('set', 'write')]
            c.ob('order', not sets, f, 'what was computed stays', st=s)
            continue
        # the last iteration: its state is among those of the loop, the stack is empty
        emp = None
        for v in set(r.loopvals[W]):
            if s.truth(eq(size(v), I(0))) is True:
                emp = v
        c.ob('order', emp is not None, f, 'ends when no term is left', detail=str(s.allfacts())[:300], st=s)
    c.ob('order', done >= 3, f, 'cases', detail=str(done))


def has_fact(s, cur):
    for h, b in s.facts.items():
        if h.op == 'has' and h.a[1] is cur and top(h.a[0]).op == 'it':
            return b, h.a[0]
    return None, None


def step(c, f, r, W, cur, v, s, kinds, lit):
    ts = [x[1] if x[0] == 'before' else x for x in s.ts if isinstance(x, tuple)]
    sets = {}
    for x in ts:
        if x[0] == 'set':
            sets.setdefault((x[1].a[0] if x[1].op == 'e' else str(x[1]), x[2]), set()).add(x[3])
    ch = mk('children', cur)
    none = s.truth(eq(size(ch), I(0)))
    popped = v.op == 'pop' and v.a[0] is W
    for (fl, o), vs in sets.items():
        c.ob('order', o is cur, f, 'properties of the current term', detail='%s of %s' % (fl, o), st=s)
    if none is True:
        c.ob('order', popped, f, 'a term without children is done', detail=str(v), st=s)
        for fl, want in (('IS_EVAL', EVALLEAF), ('IS_NON_GROUND', OPENLEAF)):
            vs = sets.get((fl, cur))
            ok = True
            bad = []
            for K in kinds:
                s2 = s.copy()
                if not s2.assume(eq(mk('kind', cur), kind(K)), True) or s2.truth(mk('kind', cur)) is False:
                    continue
                got = {s2.truth(x) for x in vs} if vs else {False}
                if got != {K in want}:
                    bad.append(K)
            c.ob('leaf', not bad, f, '%s of a leaf' % fl, detail=str(bad)[:200], st=s)
        return
    if none is None:
        c.ob('order', False, f, 'with or without children', st=s)
        return
    b, V = has_fact(s, cur)
    if popped:
        acc = {x[2] for x in ts if x[0] == 'write' and x[1][:1] == ('F',) and x[1][1] is cur}
        c.ob('order', b is True, f, 'a term is done when it comes up again', st=s)
        # builtin operators
        isl = {K in lit for K in kinds if s.copy().assume(eq(mk('kind', cur), kind(K)), True)}
        vs = sets.get(('IS_EVAL', cur))
        bad = []
        for K in kinds:
            s2 = s.copy()
            if not s2.assume(eq(mk('kind', cur), kind(K)), True):
                continue
            t = {s2.truth(x) for x in vs} if vs else {None}
            if K in lit and t != {True} or K not in lit and vs and t != {False}:
                bad.append(K)
        c.ob('union', not bad, f, 'builtin operators evaluate', detail=str((vs, ts, s.dom.get(mk('kind', cur)))) + str(bad)[:200], st=s)
        # every child adds its properties
        ok = False
        for x in r.loopstates:
            if x.op != 'it':
                continue
            for el in (mk('deref', x), index(ch, x)):
                if sweep(r, s, el) != (ch, 1):
                    continue
                sts = [(st) for w, st in r.loopstates[x]]
                ok = ok or bool(sts) and all(united(st, cur, el) or summed(r, st, x, acc, cur, el) for st in sts if st.truth(eq(size(ch), I(0))) is False and has_fact(st, cur)[0] is True)
        c.ob('union', ok, f, 'the properties of every child', st=s)
        return
    # the children are to be done first
    noted = any(w.op == 'ins' and w.a[1] is cur for it in r.loopstates if it.op == 'it' and it is not W and V is not None and it is top(V) for w, st in r.loopstates[it] if st is s)
    c.ob('order', b is False and noted, f, 'a term is noted when its children are to be done', detail=str((b, V)), st=s)
    ok = False
    if v.op == 'it' and v.a[-1] is W and r.loopstates.get(v) and v not in r.unsure:
        for x in r.loopstates:
            if x.op != 'it' or x.a[0] != v.a[0]:
                continue
            for el in (mk('deref', x), index(ch, x)):
                if (sweep(r, s, el) or (None,))[0] is ch:
                    ok = all(w.op == 'push' and w.a[0] is v and w.a[1] is el or w is v and computed(st, el) for w, st in r.loopstates[v])
    c.ob('order', ok, f, 'every child that is not done yet is put before it', detail=str(v), st=s)


def computed(st, el):
    return any(b is True and is_call(h, GF) and h.a[1] is el and cargs(h) == (flag(FL[0]),) for h, b in st.facts.items())


def summed(r, st, x, acc, cur, el):
    """are the properties gathered in a variable that is stored after the loop"""
    for a in acc:
        if len(acc) != 1 or a.op != 'it' or a.a[0] != x.a[0] or not (field(a.a[-1], 'd_flags') and a.a[-1].a[1] is cur):
            continue
        vs = r.loopvals.get(a) or ()
        if vs and all(v.op == 'arith' and v.a[0] == '|' and any(y is a for y in v.a[1:]) and any(field(y, 'd_flags') and y.a[1] is el for y in v.a[1:]) for v in vs):
            return True
    return False


def united(st, cur, el):
    """has this iteration added the properties of el to those of cur"""
    ts = [x for x in st.ts if isinstance(x, tuple)]
    for x in ts:
        if x[0] == 'write' and x[1][:1] == ('F',) and x[1][1] is cur and x[2].op == 'arith' and x[2].a[0] == '|':
            fs = x[2].a[1:]
            if any(field(y, 'd_flags') and y.a[1] is cur for y in fs) and any(field(y, 'd_flags') and y.a[1] is el for y in fs):
                return True
    for fl in FL[1:]:
        know = {b for h, b in st.facts.items() if is_call(h, GF) and h.a[1] is el and cargs(h) == (flag(fl),)}
        did = any(x[0] == 'set' and x[1] is flag(fl) and x[2] is cur and (st.truth(x[3]) is True) for x in ts)
        if not (know == {True} and did or know == {False}):
            return False
    return True


def bits(c):
    p = c.prog
    p.enum('ExprValue::Flag')
    vals = {x['n']: int(x['v']) for x in p.enums[q('ExprValue::Flag')]['values']}
    for n in FL:
        v = vals.get(n, 0)
        c.ob('flag', v > 0 and v & (v - 1) == 0 and v < 128 and all(v & w == 0 for m, w in vals.items() if m != n), 'src/expr.h', '%s is a bit of its own' % n, detail=str(vals))
    f = p.fn1(SF)
    fl, val_ = (mk('p', i, x['name']) for i, x in enumerate(f.params))
    r = c.analyze(f)
    old = pre(r, DF)
    for t, s in r.exits:
        v = post(r, s, DF)
        b = s.truth(val_)
        ok = b is True and v.op == 'arith' and v.a[0] == '|' and set(v.a[1:]) == {old, fl} or \
            b is False and v.op == 'arith' and v.a[0] == '&' and old in v.a[1:] and any(y.op == 'compl' and y.a[0] is fl for y in v.a[1:])
        c.ob('flag', ok, f, 'sets or clears just that bit', detail=str(v), st=s)
    f = p.fn1(GF)
    fl = mk('p', 0, f.params[0]['name'])
    r = c.analyze(f)
    for t, s in r.exits:
        base = t
        ok = any(x.op == 'arith' and x.a[0] == '&' and set(x.a[1:]) == {pre(r, DF), fl} for x in list(subterms(t)) + [y for h in s.facts for y in subterms(h)] + list(s.dom))
        if t.op == 'b':
            v = [x for h in list(s.facts) + list(s.dom) for x in subterms(h) if x.op == 'arith' and x.a[0] == '&']
            ok = ok and bool(v) and {s.truth(x) for x in v} == {t is TRUE}
        else:
            ok = ok and t.op != 'not' and (t.op == 'arith' or t.op == 'ne' or t.op == 'cast' or True)
            neg = s.copy()
            x = next((x for x in subterms(t) if x.op == 'arith' and x.a[0] == '&'), None)
            if ok and t is not x:
                a, b = s.copy(), s.copy()
                ok = a.assume(eq(x, I(0)), True) and a.truth(t) is False
        c.ob('flag', ok, f, 'reads just that bit', detail=str(t), st=s)
    only_writers(c, 'flag', DF, [SF, 'ExprValue::computeFlags', 'ExprValue::ExprValue'])
    only_callers(c, 'flag', SF, ['ExprValue::computeFlags'])
    only_callers(c, 'flag', GF, ['ExprValue::computeFlags', 'ExprValue::isGround', 'ExprValue::isEvaluatable'])
    for f in p.fn('ExprValue::ExprValue'):
        for b, i in [(b, i) for b, i in f.elements() if isinstance(i, dict) and i['k'] == 'initm' and i.get('n', '').endswith('d_flags')]:
            n = f.nodes[i['v']] if isinstance(i.get('v'), int) else {}
            while n.get('k') == 'cast':
                n = f.nodes[n['a']]
            c.ob('flag', n.get('k') in ('int', 'zero') and n.get('v', 0) in (0, '0'), f, 'a new term has no properties yet', detail=str(n))


def asked(c):
    for nm, fl, pos in (('isEvaluatable', 'IS_EVAL', True), ('isGround', 'IS_NON_GROUND', False)):
        f = c.prog.fn1('ExprValue::' + nm)
        r = c.analyze(f, opaque={q(GF), q('ExprValue::computeFlags')}, on=lambda e: [('done', e.obj)] if e.kind == 'call' and e.name == q('ExprValue::computeFlags') else
                      [('got', any(x == ('done', THIS) for x in e.st.ts), e.args[0])] if e.kind == 'call' and e.name == q(GF) else ())
        for t, s in r.exits:
            got = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'got']
            c.ob('asked', got == [('got', True, flag(fl))], f, 'computed first', detail=str(got), st=s)
            x = t.a[0] if t.op == 'not' else t
            neg = t.op == 'not'
            if t.op == 'b':
                h = [(y, b) for y, b in s.facts.items() if is_call(y, GF)]
                ok = len(h) == 1 and (h[0][1] is (t is TRUE)) == pos
            else:
                ok = is_call(x, GF) and x.a[1] is THIS and neg != pos
            c.ob('asked', ok, f, nm, detail=str(t), st=s)
        g = c.prog.fn1('Expr::' + nm)
        r = c.analyze(g)
        for t, s in r.exits:
            y = [x for x in subterms(t) if is_call(x, 'ExprValue::' + nm)]
            c.ob('asked', is_call(t, 'ExprValue::' + nm) or t.op == ('ground' if nm == 'isGround' else 'evaluatable') and t.a[0] is pre(r, 'Expr::d_value'), g, nm, detail=str(t), st=s)


def operators(c):
    """the kinds that evaluateLiteralOp treats are the builtin operators"""
    p = c.prog
    r = c.analyze('ExprValue::computeFlags', inv=True)
    lit = {k.a[0] for k in r.interp.kp.get(q('isLiteralOp')) or ()}
    kinds = set(allkinds(c))
    named_ = {k for k in kinds if k.startswith('EVAL_')}
    c.ob('operators', lit == named_, 'src/kind.cpp', 'builtin operators', detail=str(sorted(lit ^ named_)))
    treated = set()
    for nm in ('TypeChecker::evaluateLiteralOpInternal', 'TypeChecker::evaluateLiteralOp'):
        for f in p.fn(nm):
            for b in f.blocks.values():
                if 'lab' in b:
                    for x in ('v', 'hi'):
                        if x in b['lab']:
                            for i in f.subnodes(b['lab'][x]):
                                if f.nodes[i]['k'] == 'enum' and f.nodes[i].get('ty', '').split('::')[-1] == 'Kind':
                                    treated.add(f.nodes[i]['n'].split('::')[-1])
    lits = {'NUMERAL', 'DECIMAL', 'RATIONAL', 'BINARY', 'HEXADECIMAL', 'STRING', 'BOOLEAN'}
    c.ob('operators', {t for t in treated if t.startswith('EVAL_')} <= lit and len(treated & lit) > 15, 'src/type_checker.cpp', 'operators that are evaluated', detail=str(sorted(treated - lit)))


def parameters(c):
    p = c.prog
    f = [g for g in p.fn('Expr::getVariables') if 'vector' in g.params[0]['ty']]
    g1 = [g for g in p.fn('Expr::getVariables') if 'vector' not in g.params[0]['ty']]
    c.ob('parameters', len(f) == 1 and len(g1) == 1, 'src/expr.cpp', 'getVariables')
    if len(f) != 1 or len(g1) != 1:
        return
    e = mk('p', 0, g1[0].params[0]['name'])
    r = c.analyze(g1[0])
    for t, s in r.exits:
        a = cargs(t)[0] if is_call(t, 'Expr::getVariables') else None
        c.ob('parameters', a is not None and segments(a) == [('one', e)], g1[0], 'of one term', detail=str(t), st=s)
    walk(c, f[0], mk('p', 0, f[0].params[0]['name']), True)
    walk(c, p.fn1('Expr::hasVariable'), None, False)


def walk(c, f, start, collect):
    r = c.analyze(f, inv=True, cap=4000)
    Ws = [it for it in r.loopvals if it.op == 'it' and any(top2(v).op == 'pop' and top2(v).a[0] is it for v in r.loopvals[it])]
    c.ob('parameters', len(Ws) == 1, f, 'the terms to visit', detail=str(Ws))
    if len(Ws) != 1:
        return
    W = Ws[0]
    e0 = mk('p', 0, f.params[0]['name'])
    ok = W.a[-1] is start if start is not None else segments(W.a[-1]) == [('one', e0)]
    c.ob('parameters', ok, f, 'starts with the given terms', detail=str(W.a[-1]))
    cur = back(W)
    ch = mk('children', cur)
    for v, s in r.loopstates[W]:
        par = s.cval(mk('kind', cur)) is kind('PARAM')
        gr = [h for h, b in s.facts.items() if b is True and (is_call(h, 'Expr::isGround') or is_call(h, 'ExprValue::isGround') or h.op == 'ground') and (under(h.a[1] if h.op == 'r' else h.a[0]) is cur or under(h.a[1] if h.op == 'r' else h.a[0]) is e0)]
        b, V = has_fact2(s, cur)
        rest = v.op == 'pop' and v.a[0] is W
        if par and collect:
            # noted in the result
            res = [it for it in r.loopstates if it.op == 'it' and it is not W and it.a[-1] is EMPTY and any(w.op == 'push' and w.a[0] is it and under(w.a[1]) is cur and st is s for w, st in r.loopstates[it])]
            c.ob('parameters', bool(res) or bool(gr) or b is True, f, 'a parameter is found', st=s)
            continue
        if par and not collect:
            fnd = [h for h, bb in s.facts.items() if h.op == 'has' and under(h.a[1]) is cur and top(h.a[0]).op == 'p']
            c.ob('parameters', bool(gr) or b is True or any(s.facts[h] is False for h in fnd), f, 'a parameter is looked up', st=s)
            continue
        if gr or b is True:
            continue
        if b is False and not any(w.op == 'ins' and under(w.a[1]) is cur for it in r.loopstates if it.op == 'it' for w, st in r.loopstates[it] if st is s):
            c.ob('parameters', False, f, 'visited terms', st=s)
        ok = False
        if v.op == 'it' and v.a[-1].op == 'pop' and v.a[-1].a[0] is W and r.loopstates.get(v) and v not in r.unsure:
            els = {w.a[1] if w.op == 'push' and w.a[0] is v else None for w, st in r.loopstates[v]}
            ok = len(els) == 1 and None not in els and (sweep(r, s, under(next(iter(els)))) or (None,))[0] is ch
        if v.op == 'cat' and v.a[0].op == 'pop' and v.a[0].a[0] is W:
            ok = v.a[1] is ch
        if rest and s.truth(eq(size(ch), I(0))) is True:
            ok = True
        c.ob('parameters', ok, f, 'all children are visited', detail=str(v), st=s)
    if collect:
        for t, s in r.exits:
            left = s.truth(eq(size(W), I(0))) is True or any(s.truth(eq(size(v), I(0))) is True for v in set(r.loopvals[W]))
            c.ob('parameters', left, f, 'until all are visited', st=s)
            c.ob('parameters', t.op == 'it' and t.a[-1] is EMPTY and all(w is t or w.op == 'push' and w.a[0] is t for w in r.loopvals.get(t, ())) or any(w is t for it in r.loopvals for w in r.loopvals[it]), f, 'nothing found is lost', detail=str(t), st=s)
    else:
        for t, s in r.exits:
            if t is FALSE:
                left = s.truth(eq(size(W), I(0))) is True or any(s.truth(eq(size(v), I(0))) is True for v in set(r.loopvals[W]))
                none = s.truth(eq(size(mk('p', 1, f.params[1]['name'])), I(0))) is True or any(b is True and h.op == 'eq' and any(x.op == 'size' and x.a[0].op == 'p' for x in h.a) for h, b in s.facts.items())
                c.ob('parameters', left or none, f, 'none is found after all are visited', st=s)


def top2(t):
    while t.op in ('push', 'ins', 'it', 'cat'):
        t = t.a[-1] if t.op == 'it' else t.a[0]
    return t


def under(t):
    while isT(t) and t.op == 'value':
        t = t.a[0]
    return t


def has_fact2(s, cur):
    for h, b in s.facts.items():
        if h.op == 'has' and under(h.a[1]) is cur and localset(h.a[0]):
            return b, h.a[0]
    return None, None


def localset(t):
    while t.op == 'it' or t.op in ('ins', 'push'):
        t = t.a[-1] if t.op == 'it' else t.a[0]
    return t is EMPTY
