"""A term has the type its parts determine, or none."""
from common import *

TC = 'State::d_typeCache'
LT, GTI, GTA, GLO, RULE, MATCH, EV = ('State::lookupType', 'TypeChecker::getTypeInternal', 'TypeChecker::getTypeAppInternal', 'TypeChecker::getLiteralOpType',
                                      'TypeChecker::getOrSetLiteralTypeRule', 'TypeChecker::match', 'TypeChecker::evaluate')
LITS = ('NUMERAL', 'DECIMAL', 'RATIONAL', 'HEXADECIMAL', 'BINARY', 'STRING')
BOOLS = ('EVAL_IS_OK', 'EVAL_IS_EQ', 'EVAL_EQ', 'EVAL_IS_NEG', 'EVAL_COMPARE', 'EVAL_IS_Z', 'EVAL_IS_Q', 'EVAL_IS_BIN', 'EVAL_IS_STR', 'EVAL_IS_BOOL', 'EVAL_IS_VAR', 'EVAL_GT',
         'EVAL_LIST_MINCLUDE', 'EVAL_LIST_MEQ')
NUMS = ('EVAL_HASH', 'EVAL_INT_DIV', 'EVAL_INT_MOD', 'EVAL_TO_INT', 'EVAL_LENGTH', 'EVAL_FIND', 'EVAL_LIST_LENGTH', 'EVAL_LIST_FIND')
OPS = {}
OPS.update({k: 'bool' for k in BOOLS})
OPS.update({k: 'NUMERAL' for k in NUMS})
OPS.update({k: 'RATIONAL' for k in ('EVAL_RAT_DIV', 'EVAL_TO_RAT')})
OPS.update({k: 'STRING' for k in ('EVAL_NAME_OF', 'EVAL_TO_STRING')})
OPS.update({k: 'list' for k in ('EVAL_DT_CONSTRUCTORS', 'EVAL_DT_SELECTORS')})
OPS.update({'EVAL_TO_BIN': 'BINARY', 'EVAL_TYPE_OF': 'type', 'EVAL_VAR': 'arg1', 'EVAL_NIL': 'arg1', 'EVAL_IF_THEN_ELSE': 1, 'EVAL_REQUIRES': 2, 'EVAL_CONS': 2})
OPS.update({k: 0 for k in ('EVAL_ADD', 'EVAL_MUL', 'EVAL_NEG', 'EVAL_AND', 'EVAL_OR', 'EVAL_XOR', 'EVAL_NOT', 'EVAL_CONCAT', 'EVAL_EXTRACT')})
OPS.update({'EVAL_LIST_' + k: 1 for k in ('CONCAT', 'ERASE', 'ERASE_ALL', 'REV', 'SETOF', 'DIFF', 'INTER', 'SINGLETON_ELIM')})


def run(c):
    c.rule('recorded', 'a type is recorded for a term once its subterms have theirs, and only a type that is fully evaluated', 10)
    c.rule('kind', 'the type of a term is determined by its kind', 70)
    c.rule('application', 'an application has a type only if every argument matches what its head declares', 10)
    c.rule('operator', 'the type of a builtin operator', 60)
    c.rule('literal', 'a literal has the type declared for its kind, or none in particular', 8)
    c.rule('required', 'a term of another type is rejected where a type is required', 8)
    c.rule('declared', 'a symbol has the type it is declared with', 3)
    recorded(c)
    kinds(c)
    application(c)
    operators(c)
    literals(c)
    required(c)
    declared(c)


def lookup(t, x):
    """t is the recorded type of x"""
    return is_call(t, LT) and cargs(t)[0] is x


def recorded(c):
    cache = []
    r = c.analyze('TypeChecker::getType', inv=True, opaque={q(GTI)},
                  watch=lambda e: e.kind == 'write' and e.objpath is not None and e.objpath[0] == 'I' and q(TC) in str(e.objpath))
    f = r.f
    E_ = mk('p', 0, f.params[0]['name'])

    def isE(t):
        return t is E_ or t.op == 'deref' and t.a[0] is E_

    n = 0
    work = None
    for ev in r.events:
        n += 1
        val, st = ev.args[0], ev.st
        cur = ev.objpath[-1]
        c.ob('recorded', is_call(val, GTI) and cargs(val)[0] is cur, ev, 'the type recorded is that of the term', detail='%s for %s' % (val, cur))
        ok = st.truth(eq(val, NULL)) is False and (st.truth(mk('ground', val)) is False or st.truth(mk('evaluatable', val)) is False)
        c.ob('recorded', ok, ev, 'it is a type, and fully evaluated', detail=str(val), st=st)
        seen = [h for h in st.facts if h.op == 'has' and h.a[1] is cur and st.facts[h] is True]
        ok = len(seen) == 1
        c.ob('recorded', ok, ev, 'after its subterms', st=st)
        if ok:
            work = cur, seen[0].a[0]
    c.ob('recorded', n >= 1 and work is not None, f, 'types are recorded', detail=str(n))
    if work is None:
        return
    cur, V = work
    W = cur.a[0] if cur.op == 'back' else None
    c.ob('recorded', W is not None and W.op == 'it' and V.op == 'it' and segments(W.a[-1]) == [('one', E_)] or W is not None and W.a[-1].op == 'list' and len(W.a[-1].a[0]) == 1 and isE(W.a[-1].a[0][0]), f,
         'the terms to visit start with the term', detail=str(W))
    if W is None or V.op != 'it':
        return
    # every iteration
    kinds_ = set()

    def step(w, s, v, where):
        """an iteration that leaves the worklist w and the visited set v"""
        known = [h for h in s.facts if h.op == 'has' and h.a[1] is cur and (h.a[0] is not V)]
        had = s.truth(mk('has', V, cur))
        if w is pop(W):
            rec = [x for x in known if s.truth(x) is True]
            typed = any(is_call(u, GTI) and cargs(u)[0] is cur and s.truth(eq(u, NULL)) is False for h in s.facts for u in subterms(h))
            c.ob('recorded', bool(rec) or had is True and typed, f, 'a term is done once it has a type', detail=where, st=s)
            kinds_.add('done')
        else:
            g = segments(w)
            ok = had is False and g[:1] == [('all', W)] and [x for x in g[1:]] == [('all', mk('children', cur))] or \
                had is False and tail_pushed(r, w, W, mk('children', cur), s)
            c.ob('recorded', ok, f, 'the subterms of a term are visited first', detail='%s %s' % (where, w), st=s)
            ok = v is not V and (v.op in ('push', 'ins', 'add', 'set') and cur in v.a or str(cur) in str(v))
            c.ob('recorded', ok, f, 'a term is marked when its subterms are visited', detail=str(v), st=s)
            kinds_.add('open')
    vst = {id(s): v for v, s in r.loopstates.get(V, ())}
    for w, s in r.loopstates.get(W, ()):
        step(w, s, vst.get(id(s), V), 'next')
    c.ob('recorded', kinds_ == {'done', 'open'}, f, 'terms are visited and done', detail=str(kinds_))
    n = {}
    for t, s in r.exits:
        # leaving after the subterms were scheduled: the worklist is not empty then
        if any(h.op == 'size' and h.a[0] is not W and grows(r, h.a[0], W) and d == (0, 0) for h, d in s.rng.items()):
            continue
        if t.op == 'it' and (s.truth(eq(size(W), I(0))) is True or s.interval(size(W)) == (0, 0)):
            # between two iterations, with nothing left to visit
            wst = {id(x): w for w, x in r.loopstates.get(W, ())}
            vs = [(v, x) for v, x in r.loopstates.get(t, ()) if wst.get(id(x)) is pop(W)]
            ok = t not in r.unsure and bool(vs) and all(typeof(v, x, cur) for v, x in vs)
            n['some'] = 1
            c.ob('recorded', ok, f, 'the type of the term visited last is the result', detail=str([str(v) for v, x in vs]), st=s)
            continue
        if isnull(s, t) or is_call(t, GTI) and s.truth(eq(t, NULL)) is True:
            bad = [u for h in s.facts for u in subterms(h) if is_call(u, GTI) and cargs(u)[0] is cur]
            ok = any(s.truth(eq(u, NULL)) is True or s.truth(mk('ground', u)) is True and s.truth(mk('evaluatable', u)) is True for u in bad)
            c.ob('recorded', ok, f, 'a term has no type if a subterm has none', st=s)
            n['none'] = 1
            continue
        last = s.interval(size(W)) == (1, 1) or s.truth(eq(size(W), I(1))) is True or s.truth(eq(size(pop(W)), I(0))) is True
        ok = last and typeof(t, s, cur)
        n['some'] = 1
        c.ob('recorded', ok, f, 'the type of the term visited last is the result', detail=str(t), st=s)
    c.ob('recorded', set(n) == {'none', 'some'}, f, 'outcomes', detail=str(n))
    only_writers(c, 'recorded', TC, ['TypeChecker::getType', 'State::mkSymbolInternal', 'State::markDeleted', 'State::reset'])
    g = c.prog.fn1(LT)
    r = c.analyze(g)
    e = mk('p', 0, g.params[0]['name'])
    m = pre(r, TC)
    for t, s in r.exits:
        had = s.truth(mk('has', m, e))
        ok = had is True and (t is index(m, e) or t.op == 'fld' and t.a[0] == 'std::pair::second' or 'd_typeCache' in str(t)) or had is False and isnull(s, t)
        c.ob('recorded', ok, g, 'the recorded type is looked up', detail=str(t), st=s)


def typeof(t, s, cur):
    return is_call(t, GTI) and cargs(t)[0] is cur and s.truth(eq(t, NULL)) is False or t.op == 'idx' and t.a[1] is cur and 'd_typeCache' in str(t.a[0])


def grows(r, t, W):
    while t is not W:
        if t.op in ('cat', 'push'):
            t = t.a[0]
        elif loop_pushed(r, t):
            t = loop_pushed(r, t)[0]
        else:
            return False
    return True


def tail_pushed(r, w, W, ch, s):
    lp = loop_pushed(r, w)
    return lp is not None and lp[0] is W and len(lp[1]) == 1 and None not in lp[1] and sweep(r, s, next(iter(lp[1]))) in ((ch, 1), (ch, -1))


def isT_(t, what):
    return is_call(t, 'State::mk' + what)


def kinds(c):
    f = c.prog.fn1(GTI)
    e, out = (mk('p', i, x['name']) for i, x in enumerate(f.params))
    ch = mk('children', e)
    for K in c.prog.enum('Kind'):
        r = c.analyze(f, facts=[(eq(mk('kind', e), kind(K)), True)], inv=True, opaque={q('State::mkFunctionType'), q(GTA), q(GLO), q(RULE)})
        c.ob('kind', bool(r.exits), f, K + ' is handled')
        for t, s in r.exits:
            null = isnull(s, t)
            if K in ('APPLY', 'APPLY_OPAQUE'):
                ok = is_call(t, GTA) and cargs(t)[0] is ch and (cargs(t)[1] is EMPTY or str(cargs(t)[1]) == '[]')
            elif K == 'LAMBDA':
                ok = isT_(t, 'FunctionType') and lookup(cargs(t)[1], index(ch, I(1)))
                lp = loop_pushed(r, cargs(t)[0]) if ok else None
                ok = ok and lp is not None and lp[0] is EMPTY and len(lp[1]) == 1 and None not in lp[1]
                if ok:
                    x = next(iter(lp[1]))
                    ok = is_call(x, LT) and sweep(r, s, cargs(x)[0]) == (mk('children', index(ch, I(0))), 1)
            elif K in ('TYPE', 'BOOL_TYPE', 'FUNCTION_TYPE', 'PROGRAM_TYPE', 'ANY'):
                ok = isT_(t, 'Type')
            elif K == 'PROOF':
                lk = [u for h in s.facts for u in subterms(h) if lookup(u, index(ch, I(0)))]
                b = s.truth(eq(mk('kind', lk[0]), kind('BOOL_TYPE'))) if lk else None
                if b is None and lk:
                    b = any(s.truth(eq(lk[0], x)) is True for h in s.facts for x in subterms(h) if isT_(x, 'BoolType')) or None
                    if b is None and any(s.truth(eq(lk[0], x)) is False for h in s.facts for x in subterms(h) if isT_(x, 'BoolType')):
                        b = False
                ok = b is True and isT_(t, 'ProofType') or b is False and null
            elif K in ('QUOTE_TYPE', 'TUPLE'):
                ok = isT_(t, 'Any')
            elif K == 'BOOLEAN':
                ok = isT_(t, 'BoolType')
            elif K in LITS:
                ok = is_call(t, RULE) and known(s, cargs(t)[0]) in (kind(K), mk('kind', e)) and cargs(t)[1] is e
            elif K == 'PARAMETERIZED':
                ok = lookup(t, index(ch, I(1)))
            elif K.startswith('EVAL_'):
                ok = is_call(t, GLO) and known(s, cargs(t)[0]) in (kind(K), mk('kind', e)) and cargs(t)[1] is ch
                lp = loop_pushed(r, cargs(t)[2]) if ok else None
                ok = ok and lp is not None and lp[0] is EMPTY and len(lp[1]) == 1 and None not in lp[1]
                if ok:
                    x = next(iter(lp[1]))
                    ok = is_call(x, LT) and sweep(r, s, cargs(x)[0]) == (ch, 1)
            else:
                ok = null
            c.ob('kind', ok, f, 'type of ' + K, detail=str(t), st=s)
    only_callers(c, 'kind', GTI, ['TypeChecker::getType'])
    only_callers(c, 'kind', GLO, [GTI])


def application(c):
    f = c.prog.fn1(GTA)
    r = c.analyze(f, inv=True)
    C, ctx, out = (mk('p', i, x['name']) for i, x in enumerate(f.params))
    ht = mk('r', q(LT), None, None, None)
    some = False
    HT = {u for t, s in r.exits for h in s.facts for u in subterms(h) if lookup(u, index(C, I(0)))}
    c.ob('application', len(HT) == 1, f, 'the type of the head', detail=str(HT))
    if len(HT) != 1:
        return
    HT = HT.pop()
    D = mk('children', HT)

    def matched(s, where):
        """facts of an iteration that continued: its index, if the argument was matched"""
        out_ = set()
        for h, v in s.facts.items():
            if not is_call(h, MATCH) or v is not True:
                continue
            pat, x, cx = cargs(h)[:3]
            if not (cx is ctx or cx.op == 'it' and cx.a[-1] is ctx):
                continue
            d = pat
            quoted = False
            if kid(pat)[0] is not None and kid(pat)[1] is I(0) and kid(pat)[0].op == 'idx' and kid(pat)[0].a[0] is D:
                d, quoted = kid(pat)[0], True
            if not (d.op == 'idx' and d.a[0] is D):
                continue
            isq = s.truth(eq(mk('kind', d), kind('QUOTE_TYPE')))
            if quoted:
                # the argument itself, whose type is that of the parameter
                if isq is not True or not (x.op == 'idx' and x.a[0] is C):
                    continue
                tys = [(u, w) for g, b in s.facts.items() if g.op == 'eq' and b is True for u, w in (g.a, g.a[::-1]) if lookup(u, x) and lookup(w, pat)]
                if not tys:
                    continue
                arg = x
            else:
                if isq is not False or not (is_call(x, LT) and cargs(x)[0].op == 'idx' and cargs(x)[0].a[0] is C):
                    continue
                arg = cargs(x)[0]
            # argument i against the type i-1
            if ladd(ladd(linear(arg.a[1]), linear(d.a[1]), -1), {None: 1}, -1):
                continue
            if len(cargs(h)) > 3:
                vs = cargs(h)[3]
                if not (vs.op == 'it' and vs.a[-1] is EMPTY or vs is EMPTY):
                    continue
            out_.add(arg)
        return out_

    args = set()
    n = 0
    for g, h, st, cx in r.backs:
        if g is not f and getattr(g, 'name', g) != f.name:
            continue
        m = matched(st, 'next')
        n += 1
        c.ob('application', len(m) == 1, f, 'an argument is passed over only if it matches', detail=str([str(x) for x in m]), st=st)
        args |= m
    c.ob('application', n >= 2 and len(args) == 1, f, 'the arguments', detail='%d %s' % (n, [str(a) for a in args]))
    arg = args.pop() if len(args) == 1 else None
    for t, s in r.exits:
        k = s.dom.get(mk('kind', HT))
        fn = k is not None and k[0] == 'in' and k[1] <= {'FUNCTION_TYPE', 'PROGRAM_TYPE'} or s.truth(eq(mk('kind', HT), kind('FUNCTION_TYPE'))) is True or s.truth(eq(mk('kind', HT), kind('PROGRAM_TYPE'))) is True
        same = s.truth(eq(size(D), size(C))) is True
        if isnull(s, t):
            continue
        some = True
        ok = is_call(t, EV) and cargs(t)[0] is back(D) and (cargs(t)[1] is ctx or cargs(t)[1].op == 'it' and cargs(t)[1].a[-1] is ctx)
        c.ob('application', ok, f, 'its type is the return type of the head under the matches', detail=str(t), st=s)
        c.ob('application', fn and same, f, 'the head takes that many arguments', detail='%s %s' % (fn, same), st=s)
        sw = arg is not None and (sweep(r, s, arg, 1) or sweep_types(r, s, arg, D, C))
        c.ob('application', bool(sw), f, 'all arguments were matched', detail=str(arg), st=s)
    c.ob('application', some, f, 'applications have types')
    only_callers(c, 'application', GTA, [GTI, 'TypeChecker::computeConstructorTermInternal'])


def sweep_types(r, s, arg, D, C):
    """arguments 1..size(D)-1, where D has as many elements as C"""
    it = [k for k in linear(arg.a[1]) if k is not None]
    if len(it) != 1 or it[0].op != 'it':
        return None
    e2 = mk('idx', D, arg.a[1])
    return sweep(r, s, e2, 1)


def operators(c):
    f = c.prog.fn1(GLO)
    k, ch, ty, out = (mk('p', i, x['name']) for i, x in enumerate(f.params))
    names = [x for x in c.prog.enum('Kind') if x.startswith('EVAL_')]
    for K in c.prog.enum('Kind'):
        r = c.analyze(f, params={0: kind(K)}, opaque={q('TypeChecker::checkArity'), q(RULE)})
        some = 0
        for t, s in r.exits:
            ar = [v for h, v in s.facts.items() if is_call(h, 'TypeChecker::checkArity')]
            argok = [h for h in s.facts if is_call(h, 'TypeChecker::checkArity') and cargs(h)[0] is kind(K) and cargs(h)[1] in (size(ty), size(ch))]
            if isnull(s, t):
                c.ob('operator', ar == [False] or K not in OPS, f, 'type of ' + K, detail='none', st=s)
                continue
            some += 1
            c.ob('operator', ar == [True] and len(argok) == 1 and K.startswith('EVAL_'), f, 'number of arguments of ' + K, st=s)
            w = OPS.get(K)
            if w is None:
                continue
            if w == 'bool':
                ok = isT_(t, 'BoolType')
            elif w == 'list':
                ok = isT_(t, 'ListType')
            elif w == 'type':
                ok = isT_(t, 'Type')
            elif w == 'arg1':
                ok = t is index(ch, I(1))
            elif isinstance(w, int):
                ok = t is index(ty, I(w))
            else:
                ok = is_call(t, RULE) and cargs(t)[0] is kind(w)
            c.ob('operator', ok, f, 'type of ' + K, detail=str(t), st=s)
        if K in OPS:
            c.ob('operator', some, f, K + ' has a type')


def literals(c):
    T = 'TypeChecker::d_literalTypeRules'
    f = c.prog.fn1('TypeChecker::setLiteralTypeRule')
    r = c.analyze(f)
    K, X = (mk('p', i, x['name']) for i, x in enumerate(f.params))
    m = pre(r, T)
    for t, s in r.exits:
        now = post(r, s, T)
        old = [h for h in s.facts if h.op == 'has' and h.a == (m, K) and s.facts[h] is True]
        vals = {u for h in s.facts for u in subterms(h) if u is index(m, K) or u.op == 'fld' and u.a[0] == 'std::pair::second'}
        free = any(s.truth(eq(v, NULL)) is True or s.truth(eq(v, X)) is True for v in vals)
        c.ob('literal', bool(old) and free, f, 'the type of a kind of literals is declared once', st=s)
        ok = now is mk('set', m, K, X) or str(X) in str(now) and now is not m or any(k[0] in ('S', 'I') and v is X and 'second' in str(k[-1]) for k, v in s.env.items()) or any(v is X and 'd_literalTypeRules' in str(k) for k, v in s.env.items())
        c.ob('literal', ok, f, 'the type declared is recorded', detail=str(now), st=s)
    c.ob('literal', len(r.exits) >= 2, f, 'types are declared')
    f = c.prog.fn1(RULE)
    r = c.analyze(f, opaque={q(EV)})
    K, X = (mk('p', i, x['name']) for i, x in enumerate(f.params))
    m = pre(r, T)
    n = set()
    for t, s in r.exits:
        def decl(u):
            return u is index(m, K) or u.op == 'fld' and u.a[0] == 'std::pair::second' or is_call(u, 'State::mkBuiltinType') and cargs(u)[0] is K
        vals = {u for h in s.facts for u in subterms(h) if decl(u) and not is_call(u, 'State::mkBuiltinType')}
        und = any(s.truth(eq(u, NULL)) is True for u in vals)
        if is_call(t, EV):
            n.add('self')
            g = cargs(t)[0]
            ok = decl(g) and und == is_call(g, 'State::mkBuiltinType') and s.truth(mk('ground', g)) is False
            cx = cargs(t)[1]
            none = s.truth(eq(X, NULL))
            val = cx.a[2] if cx.op == 'set' else None
            ok = ok and cx.op == 'set' and cx.a[0] is EMPTY and (is_call(cx.a[1], 'State::mkSelf')) and \
                (none is True and is_call(val, 'State::mkAny') or none is False and val is X)
            c.ob('literal', ok, f, 'the declared type may refer to the literal', detail=str(t), st=s)
        else:
            n.add('plain')
            ok = decl(t) and und == is_call(t, 'State::mkBuiltinType') and s.truth(mk('ground', t)) is True
            c.ob('literal', ok, f, 'the declared type is used', detail=str(t), st=s)
    c.ob('literal', n == {'self', 'plain'}, f, 'uses', detail=str(n))
    only_callers(c, 'literal', 'TypeChecker::setLiteralTypeRule', ['CmdParser::parseNextCommand', 'State::setLiteralTypeRule'])
    only_callers(c, 'literal', 'State::setLiteralTypeRule', ['CmdParser::parseNextCommand'])
    only_writers(c, 'literal', T, ['TypeChecker::setLiteralTypeRule', RULE, 'TypeChecker::TypeChecker', 'TypeChecker::resetLiteralTypeRules'])


def required(c):
    GT = 'TypeChecker::getType'
    TCK = 'ExprParser::typeCheck'
    for f in c.prog.fn(TCK):
        r = c.analyze(f, opaque={q(GT)})
        e = mk('p', 0, f.params[0]['name'])
        n = 0
        for t, s in r.exits:
            n += 1
            ok = is_call(t, GT) and cargs(t)[0] in (e, mk('deref', e)) and s.truth(eq(t, NULL)) is False
            if len(f.params) == 2:
                ok = is_call(t, TCK) and len(cargs(t)) == 1 and cargs(t)[0] in (e, mk('deref', e)) or ok
                ok = ok and s.truth(eq(t, mk('p', 1, f.params[1]['name']))) is True
            c.ob('required', ok, f, 'a term without the type wanted is rejected', detail=str(t), st=s)
        c.ob('required', n, f, 'terms are accepted')
    PE = 'ExprParser::parseExpr'
    for fn, want in (('ExprParser::parseType', 'Type'), ('ExprParser::parseFormula', 'BoolType')):
        f = c.prog.fn1(fn)
        r = c.analyze(f, opaque={q(PE), q(TCK)}, on=lambda ev: [('ok', ev.args[0], ev.args[1])] if ev.kind == 'call' and ev.name == q(TCK) and len(ev.args) > 1 else (), watch=watch(TCK))
        n = 0
        for t, s in r.exits:
            if fn == 'ExprParser::parseType' and is_call(t, 'State::mkQuoteType'):
                x = cargs(t)[0]
                c.ob('required', s.truth(mk('p', 0, f.params[0]['name'])) is True and is_call(x, PE) and s.truth(eq(mk('kind', x), kind('PARAM'))) is True, f, 'a quoted argument is a parameter', detail=str(t), st=s)
                continue
            n += 1
            tags = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'ok']
            ok = is_call(t, PE) and any(isT_(x[2], want) for x in tags)
            c.ob('required', ok, f, 'the term read is checked to be a ' + want, detail=str(t), st=s)
            if fn == 'ExprParser::parseType':
                ev, gr = s.truth(mk('evaluatable', t)), s.truth(mk('ground', t))
                c.ob('required', ev is False or gr is False and s.truth(mk('p', 1, f.params[1]['name'])) is True, f, 'a type has no unevaluated part', st=s)
        c.ob('required', n, f, 'terms are read')
        for ev in r.events:
            if ev.kind == 'call':
                x = ev.args[0]
                c.ob('required', is_call(x, PE) or 'parseExpr' in str(x) or x.op in ('addr',), ev, 'what is checked is what was read', detail=str(x))


def declared(c):
    f = c.prog.fn1('State::mkSymbolInternal')
    r = c.analyze(f, on=lambda e: [('typed', e.objpath[-1], e.args[0])] if e.kind == 'write' and e.objpath is not None and e.objpath[0] == 'I' and q(TC) in str(e.objpath) else ())
    T = mk('p', 2, f.params[2]['name'])
    n = 0
    for t, s in r.exits:
        m = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'typed']
        n += 1
        ok = len(m) == 1 and m[0][1] is t and m[0][2] is T
        c.ob('declared', ok, f, 'a new symbol has the type given', detail=str(m), st=s)
    c.ob('declared', n, f, 'symbols are made')
    f = c.prog.fn1('State::mkSymbol')
    r = c.analyze(f, opaque={q('State::mkSymbolInternal')})
    for t, s in r.exits:
        a = [mk('p', i, x['name']) for i, x in enumerate(f.params)]
        c.ob('declared', is_call(t, 'State::mkSymbolInternal') and list(cargs(t)) == a, f, 'symbols are made as asked for', detail=str(t), st=s)
