"""Names mean what was bound last in the open scopes."""
from common import *
import reading

SYM, DECL, OV, OVD, CTX, RULES = ('State::d_symTable', 'State::d_decls', 'State::d_overloads', 'State::d_overloadedDecls', 'State::d_declsSizeCtx', 'State::d_ruleSymTable')
PUSH, POP = 'State::pushScope', 'State::popScope'


def run(c):
    c.rule('bind', 'binding a name records its term as the current meaning and, in an open scope, the name for being unbound', 12)
    c.rule('lookup', 'a name means the term recorded last, and a name without a term is rejected', 5)
    c.rule('open', 'opening a scope records how many names are bound', 2)
    c.rule('close', 'closing a scope gives every name bound in it its previous meaning, or none', 6)
    c.rule('owner', 'names are bound and unbound only there', 8)
    c.rule('balance', 'a command leaves the scopes as it found them', 12)
    c.rule('kept', 'what a command declares is bound outside the scopes it opens itself', 8)
    c.rule('scope', 'the scopes opened for a term are closed with it', 8)
    c.rule('variables', 'the variables of a list are bound under their names', 6)
    bind(c)
    lookup(c)
    scopes(c)
    commands(c)
    reading.reading(c)
    variables(c)


def bind(c):
    r = c.analyze('State::bind')
    f = r.f
    N, X = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    sym, decl, ov, ovd, ctx, rules = (pre(r, x) for x in (SYM, DECL, OV, OVD, CTX, RULES))
    n = {}
    for t, s in r.exits:
        now = {x: post(r, s, x) for x in (SYM, DECL, OV, OVD, CTX, RULES)}
        sep = [s.truth(h) for h in s.facts if 'd_ruleSymTable' in str(h) and h.op in ('f', 'fld') and field(h, 'd_ruleSymTable')]
        pr = s.truth(eq(mk('kind', X), kind('PROOF_RULE')))
        c.ob('bind', now[CTX] is ctx, f, 'scopes stay as they are', st=s)
        if sep == [True] and pr is True:
            had = s.truth(mk('has', rules, N))
            same = all(now[x] is v for x, v in ((SYM, sym), (DECL, decl), (OV, ov), (OVD, ovd)))
            n['rule', had] = 1
            if had is None and now[RULES] is mk('ins', rules, mkpair(N, X)):
                # put in unless there is one, which is what is answered
                ok = same and t is not_(has(rules, N))
                n['rule', True] = n['rule', False] = 1
                c.ob('bind', ok, f, 'a rule is bound once, apart from the terms', detail=str(t), st=s)
                continue
            c.ob('bind', same and had is not None and t is B(not had) and now[RULES] is (rules if had else mk('set', rules, N, X)), f, 'a rule is bound once, apart from the terms', detail=str(now[RULES]), st=s)
            continue
        c.ob('bind', sep == [False] or pr is False, f, 'only rules are apart', st=s)
        c.ob('bind', t is TRUE and now[RULES] is rules, f, 'terms can be bound', detail=str(t), st=s)
        c.ob('bind', now[SYM] is mk('set', sym, N, X), f, 'the name means the term', detail=str(now[SYM]), st=s)
        had = s.truth(mk('has', sym, N))
        scoped = s.truth(eq(size(ctx), I(0)))
        n[had, scoped] = 1
        c.ob('bind', had is not None and scoped is not None, f, 'is the name bound, is a scope open', st=s)
        if had is None or scoped is None:
            continue
        c.ob('bind', now[DECL] is (push(decl, N) if not scoped else decl), f, 'the name is recorded iff a scope is open', detail=str(now[DECL]), st=s)
        c.ob('bind', now[OVD] is (push(ovd, N) if not scoped and had else ovd), f, 'the name is recorded as overloaded iff it was bound and a scope is open', detail=str(now[OVD]), st=s)
        old = index(ov, N)
        val = now[OV]
        if not had:
            c.ob('bind', val is ov, f, 'a new name has no other meanings', detail=str(val), st=s)
            continue
        while val.op == 'set' and val.a[0].op == 'set' and val.a[0].a[1] is val.a[1]:
            val = mk('set', val.a[0].a[0], val.a[1], val.a[2])
        ok = val.op == 'set' and val.a[0] is ov and val.a[1] is N
        g = segments(val.a[2]) if ok else []
        first = s.truth(eq(size(old), I(0)))
        prev = index(sym, N)
        isprev = lambda y: y is prev or y.op == 'fld' and y.a[0].endswith('second') or 'd_symTable' in str(y)
        if first is True:
            ok = len(g) >= 2 and g[-1] == ('one', X) and g[-2][0] == 'one' and isprev(g[-2][1]) and all(k == 'all' and s.truth(eq(size(y), I(0))) is True for k, y in g[:-2])
        elif first is False:
            ok = g == [('all', old), ('one', X)]
        else:
            ok = False
        c.ob('bind', ok, f, 'the new meaning is added to the earlier ones', detail=str(val), st=s)
        ai = {k[-1].split('::')[-1]: v for k, v in s.env.items() if k[0] == 'S' and k[-1].startswith(q('AppInfo::'))}
        c.ob('bind', ai.get('d_isOverloaded') is TRUE and ai.get('d_overloadName') is N, f, 'the term is overloaded under this name', detail=str(ai), st=s)
    for k in [('rule', True), ('rule', False)] + [(a, b) for a in (True, False) for b in (True, False)]:
        c.ob('bind', k in n, f, 'case %s' % (k,))


def lookup(c):
    r = c.analyze('State::getVar')
    N = mk('p', 0, r.f.params[0]['name'])
    table_lookup(c, r, N, lambda s: pre(r, SYM))
    r2 = c.analyze('State::getProofRule')
    N2 = mk('p', 0, r2.f.params[0]['name'])

    def tab(s):
        v = [s.truth(h) for h in s.facts if h.op in ('f', 'fld') and field(h, 'd_ruleSymTable')]
        return pre(r2, RULES) if v == [True] else pre(r2, SYM) if v == [False] else None
    table_lookup(c, r2, N2, tab)
    for nm, inner in (('ExprParser::getVar', 'State::getVar'), ('ExprParser::getProofRule', 'State::getProofRule')):
        r = c.analyze(nm, opaque={q(inner)})
        for t, s in r.exits:
            ok = is_call(t, inner) and cargs(t) == (mk('p', 0, r.f.params[0]['name']),)
            c.ob('lookup', ok and s.truth(eq(t, NULL)) is False, r.f, 'what the name means, which is something', detail=str(t), st=s)
            if nm.endswith('Rule'):
                c.ob('lookup', s.truth(eq(mk('kind', t), kind('PROOF_RULE'))) is True, r.f, 'a rule is a proof rule', st=s)
    r = c.analyze('ExprParser::bind', opaque={q('State::bind')}, on=lambda e: [('b', tuple(e.args), e.ret)] if e.kind == 'call' and e.name == q('State::bind') else ())
    for t, s in r.exits:
        bs = [x for x in s.ts if isinstance(x, tuple)]
        ok = len(bs) == 1 and bs[0][1] == tuple(mk('p', i, y['name']) for i, y in enumerate(r.f.params)) and s.truth(bs[0][2]) is True
        c.ob('lookup', ok, r.f, 'a name that cannot be bound is rejected', detail=str(bs), st=s)


def table_lookup(c, r, N, tab):
    for t, s in r.exits:
        T = tab(s)
        has = s.truth(mk('has', T, N)) if T is not None else None
        if has is True:
            ok = t is index(T, N) or t.op == 'fld' and t.a[0].endswith('second') and t.a[1] in (mk('entry', T, N), mk('deref', mk('find', T, N)))
        else:
            ok = has is False and (t is NULL or field(t, 'd_null'))
        c.ob('lookup', ok, r.f, 'the term recorded for the name, or none', detail=str((T, t)), st=s)


def scopes(c):
    r = c.analyze(PUSH)
    for t, s in r.exits:
        ok = post(r, s, CTX) is push(pre(r, CTX), size(pre(r, DECL)))
        c.ob('open', ok, r.f, 'the number of names is recorded', detail=str(post(r, s, CTX)), st=s)
        c.ob('open', all(post(r, s, x) is pre(r, x) for x in (SYM, DECL, OV, OVD)), r.f, 'names keep their meaning', st=s)
    closing(c, 'close')
    for x in (SYM, DECL, OV, OVD, RULES):
        only_writers(c, 'owner', x, ['State::bind', 'State::reset'] + ([POP] if x != RULES else []))
    only_writers(c, 'owner', CTX, [PUSH, POP, 'State::reset'])


def closing(c, rule):
    """popScope"""
    r = c.analyze(POP, inv=True, loophead=lambda g, h, s: ())
    f = r.f
    sym, decl, ov, ovd, ctx = (pre(r, x) for x in (SYM, DECL, OV, OVD, CTX))
    last = back(ctx)
    name = None
    n = {True: 0, False: 0}
    for g, h, s, cx in r.backs:
        # the tables as the iteration finds them
        sym, decl, ov, ovd, ctx = (athead(r, s, x, ('loop', cx, g.id, h)) for x in (SYM, DECL, OV, OVD, CTX))
        last = back(pre(r, CTX))
        # the name this iteration unbinds
        D = post(r, s, DECL)
        er = {x for k, v in s.env.items() if isT(v) for x in subterms(v) if (x.op == 'idx' and x.a[0] is decl or x.op == 'back' and x.a[0] is decl)}
        c.ob(rule, len(er) == 1, f, 'one name at a time', detail=str(er), st=s)
        if len(er) != 1:
            continue
        N = next(iter(er))
        if N.op == 'idx':
            lf = linear(N.a[1])
            its = [x for x in lf if x is not None]
            ok = len(its) == 1 and its[0].op == 'it' and lf[its[0]] == 1 and lf.get(None, 0) == -1 and step_of(r, its[0]) == -1 and its[0].a[-1] is size(decl) and D is decl
            ok = ok and s.truth(lt(last, its[0])) is True
        else:
            ok = D is pop(decl) and s.truth(lt(last, size(decl))) is True
        c.ob(rule, ok, f, 'the names bound since, the last of them first', detail=str(N), st=s)
        over = s.truth(eq(back(ovd), N)) if s.truth(eq(size(ovd), I(0))) is False else False if s.truth(eq(size(ovd), I(0))) is True else None
        if over is None:
            over = s.truth(mk('has', ov, N))
        c.ob(rule, over is not None, f, 'was the name bound before', st=s)
        if over is None:
            continue
        n[over] += 1
        now = {x: post(r, s, x) for x in (SYM, OV, OVD, CTX)}
        if not over:
            c.ob(rule, now[SYM] is mk('erase', sym, N) and now[OV] is ov and now[OVD] is ovd, f, 'a name without earlier meaning is unbound', detail=str(now), st=s)
            continue
        c.ob(rule, now[OVD] is pop(ovd), f, 'its record as overloaded is dropped', detail=str(now[OVD]), st=s)
        rest = pop(index(ov, N))
        ok = now[SYM] is mk('set', sym, N, back(rest)) or now[SYM].op == 'set' and now[SYM].a[0] is sym and now[SYM].a[1] is N and now[SYM].a[2] is index(index(ov, N), plus_(size(index(ov, N)), -2)) or \
            now[SYM] is sym and any(k[0] == 'S' and k[-1] == 'std::pair::second' and v is back(rest) and r.interp.load(k[1], s) is mk('entry', sym, N) for k, v in s.env.items() if isT(v))
        c.ob(rule, ok, f, 'it has its previous meaning again', detail=str(now[SYM]), st=s)
        set_ = mk('set', ov, N, rest)
        one = s.truth(eq(size(rest), I(1)))
        if one is None:
            one = s.truth(eq(size(index(ov, N)), I(2)))
        ok = one is True and now[OV] in (mk('erase', set_, N), mk('erase', ov, N)) or one is False and now[OV] is set_
        c.ob(rule, ok, f, 'its last meaning is forgotten', detail=str((one, now[OV])), st=s)
    sym, decl, ov, ovd, ctx = (pre(r, x) for x in (SYM, DECL, OV, OVD, CTX))
    c.ob(rule, n[True] and n[False], f, 'names are unbound')
    for t, s in r.exits:
        D, K = post(r, s, DECL), post(r, s, CTX)
        c.ob(rule, K is pop(ctx), f, 'the scope is closed', detail=str(K), st=s)
        ok = D is mk('resize', decl, last) or D.op == 'resize' and D.a[0] is decl and D.a[1] is last
        ok = ok and any(h.op == 'lt' and h.a[0] is last and h.a[1].op == 'it' and h.a[1].a[-1] is size(decl) and v is False or
                        h.op == 'eq' and last in h.a and v is True and any(y.op == 'it' and y.a[-1] is size(decl) for y in h.a) for h, v in s.facts.items()) or \
            D.op == 'f' and D.a[:2] == decl.a[:2] and s.truth(lt(last, size(D))) is False
        c.ob(rule, ok, f, 'all names bound since are unbound', detail=str(D), st=s)
    for t, s in r.exits:
        c.ob(rule, s.truth(eq(size(ctx), I(0))) is False, f, 'there is a scope to close', st=s)


def athead(r, s, x, site):
    """the value of a table at the head of a loop that may change it"""
    t = mk('f', q(x), THIS, site)
    v = post(r, s, x)
    while v.op in ('set', 'push', 'pop', 'erase', 'resize'):
        v = v.a[0]
    if v is t:
        return t
    for y in list(s.facts) + list(s.dom) + list(s.rng) + [v for v in s.env.values() if isT(v)]:
        if any(z is t for z in subterms(y)):
            return t
    return pre(r, x)


def plus_(t, k):
    return mk('plus', t, I(k)) if k > 0 else mk('minus', t, I(-k))


UP, DOWN = {q(PUSH), q('State::pushAssumptionScope')}, {q(POP), q('State::popAssumptionScope')}
WANT = {'ASSUME_PUSH': 1, 'STEP_POP': -1}
OPQ = ('State::mkExpr', 'ExprParser::parseExpr', 'ExprParser::parseType', 'ExprParser::parseFormula', 'State::mkLiteral', 'ExprParser::typeCheck', 'ExprParser::parseAttributeList',
       'State::mkSymbol', 'ExprParser::parseExprList', 'ExprParser::parseTypeList', 'ExprParser::parseExprPairList', 'State::includeFile', 'State::markConstructorKind',
       'State::getBoundVar', 'State::mkProof', 'ExprParser::getProofRule', 'State::mkFunctionType', 'State::mkProgramType', 'State::bind', 'State::reset', 'State::notifyStep', 'ExprParser::getVar',
       'ExprParser::processAttributeMaps', 'State::addReferenceAssert', 'ExprParser::parseSymbolicExpr', 'State::notifyAssume', 'ExprParser::parseConstructorDefinitionList', 'ExprParser::bind', 'ExprParser::parseAndBindSortedVarList', 'ExprParser::parseAndBindLetList')


def commands(c):
    p = c.prog

    def depth(ts):
        d = [x[1] for x in ts if isinstance(x, tuple) and x[0] == 'd']
        return d[0] if d else 0

    def on(e):
        if e.kind != 'call':
            return ()
        d = depth(e.st.ts)
        if e.name == q('State::notifyAssume'):
            b = e.st.truth(e.args[2])
            return [('-', ('d', d)), ('d', d + b)] if b is not None else [('-', ('d', d)), ('d', 9)]
        if e.name in UP or e.name in DOWN:
            m = d + (1 if e.name in UP else -1)
            # more than a command could leave open: no need to count on
            return [('-', ('d', d)), ('d', m if -1 <= m <= 2 and d != 9 else 9)]
        if e.name in (q('State::bind'), q('ExprParser::bind')) and not (d and temp(e.args[1])):
            return [('bind', d, e.args[0], e.args[1])]
        return ()

    def head(g, h, s):
        bs = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'bind']
        rest = [x for x in bs if x[1] and not any(y[1] == 0 and samename(y[2], x[2]) for y in bs)]
        return [x for x in s.ts if not (isinstance(x, tuple) and x[0] == 'bind')] + sorted(rest, key=str)[:1]

    def kept(f, s, what, base=0):
        bs = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'bind']
        for x in bs:
            if x[1] > base:
                ok = temp(x[3]) or any(y[1] <= base and samename(y[2], x[2]) for y in bs)
                c.ob('kept', ok, f, '%s: %s' % (what, show(x[2])[:40]), detail='bound to %s in a scope of the command only' % str(x[3])[:200], st=s)
            else:
                c.ob('kept', True, f, '%s: %s' % (what, show(x[2])[:40]))
    f = p.fn1('CmdParser::parseNextCommand')
    done = set()
    for tk in p.enum('Token'):
        if tk in ('PUSH', 'POP'):
            continue
        r = command(c, tk, on=on, opaque={q(x) for x in OPQ}, cap=1500)
        acc = accepting(r)
        for s in acc:
            if any(is_call(h, 'Lexer::eatTokenChoice') and s.truth(h) is True for h in ()):
                continue
            c.ob('balance', depth(s.ts) == WANT.get(tk, 0), f, '%s leaves the scopes as it found them' % tk, detail='%+d' % depth(s.ts), st=s)
            kept(f, s, tk, {'ASSUME_PUSH': 1}.get(tk, 0))
        if acc:
            done.add(tk)
    for tk in ('ASSUME', 'ASSUME_PUSH', 'STEP', 'STEP_POP', 'DEFINE', 'PROGRAM', 'DECLARE_RULE', 'DECLARE_CONST', 'DECLARE_DATATYPES', 'DECLARE_DATATYPE', 'DECLARE_PARAMETERIZED_CONST'):
        if tk in p.enum('Token'):
            c.ob('balance', tk in done, f, 'the command %s is analysed' % tk)
    pushpop(c, f)
    # what else opens and closes scopes
    cg = p.callgraph()
    skip = {q(x) for x in ('CmdParser::parseNextCommand', 'ExprParser::parseExpr', 'State::pushAssumptionScope', 'State::popAssumptionScope', 'State::notifyAssume', 'ExprParser::parseConstructorDefinitionList', 'ExprParser::bind', 'ExprParser::parseAndBindSortedVarList', 'ExprParser::parseAndBindLetList')}
    for g in sorted((g for g in p.funcs.values() if g.blocks and any(p.funcs[x].name in UP | DOWN for x in cg.get(g.id, ()) if x in p.funcs)), key=lambda g: g.id):
        if names_of(p, g) & skip or g.cls and g.cls.endswith('StackFrame') or g.cls == q('Plugin'):
            continue
        r = c.analyze(g, on=on, opaque={q(x) for x in OPQ}, cap=1500, inv=True, loophead=head)
        for t, s in r.exits:
            if t is FALSE or s.truth(t) is False and t.op != 'void':
                continue
            c.ob('balance', depth(s.ts) == 0, g, '%s leaves the scopes as it found them' % g.short, detail='%+d' % depth(s.ts), st=s)
            kept(g, s, g.short)


def samename(x, y):
    return x is y



def temp(v):
    """a variable or parameter, or a part of a term that is only named for a while"""
    if v.op == 'o':
        return True
    if is_call(v, 'State::mkSymbol'):
        return cargs(v)[0] in (kind('PARAM'), kind('VARIABLE'))
    if is_call(v, 'State::getBoundVar') or is_call(v, 'ExprParser::parseExpr'):
        return True
    return field(v, 'd_self') or v.op in ('idx', 'deref', 'it', 'fld') or is_call(v, 'State::mkSelf')


def pushpop(c, f):
    for tk, nm in (('PUSH', PUSH), ('POP', POP)):
        r = command(c, tk, inv=True, on=lambda e: [('n', sum(1 for x in e.st.ts if isinstance(x, tuple)), e.name)] if e.kind == 'call' and e.name in UP | DOWN else (),
                    opaque={q(PUSH), q(POP)}, loophead=lambda g, h, s: ())
        n = 0
        its = {}
        for it in r.loopstates:
            if it.op != 'it' or not isT(it.a[-1]):
                continue
            for v, s in r.loopstates[it]:
                ts = [x[2] for x in s.ts if isinstance(x, tuple)]
                if not ts:
                    continue
                its[it] = its.get(it, True) and ts == [q(nm)]
        c.ob('balance', bool(its) and all(its.values()), f, '%s: one scope at a time' % tk.lower(), detail=str(its))
        for s in accepting(r):
            ok = False
            for it in its:
                st = step_of(r, it)
                for h, v in s.facts.items():
                    if st == 1 and it.a[-1] is I(0) and h.op == 'lt' and h.a[0] is it and v is False or st == 1 and it.a[-1] is I(0) and h.op == 'eq' and it in h.a and v is True:
                        b = h.a[1] if h.a[0] is it else h.a[0]
                        given = [s.cval(y) for y in s.dom if is_call(y, 'Lexer::peekToken')]
                        num = tok('INTEGER_LITERAL') in given
                        ok = ok or (is_call(b, 'ExprParser::parseIntegerNumeral') if num else b is I(1))
                if st == 1 and it.a[-1] is I(0):
                    lo, hi = s.interval(it)
                    ok = ok or lo == 1 and not [y for y in s.dom if is_call(y, 'Lexer::peekToken') and s.cval(y) is tok('INTEGER_LITERAL')]
                if st == -1:
                    b = it.a[-1]
                    ok = ok or (is_call(b, 'ExprParser::parseIntegerNumeral') or b is I(1)) and (s.truth(eq(it, I(0))) is True or s.truth(lt(I(0), it)) is False)
            if its:
                c.ob('balance', ok, f, '%s: as many scopes as asked for' % tk.lower(), st=s)
        for it in its:
            for v, s in r.loopstates[it]:
                st = step_of(r, it)
                num = tok('INTEGER_LITERAL') in [s.cval(y) for y in s.dom if is_call(y, 'Lexer::peekToken')]
                bs = {y for h in list(s.facts) + list(s.rng) for y in subterms(h) if is_call(y, 'ExprParser::parseIntegerNumeral')} if num else {I(1)}
                more = [s.truth(lt(x, b)) is True or s.truth(eq(x, b)) is False for b in bs for x in (it, v)] if st == 1 else [s.truth(lt(I(0), x)) is True or s.truth(eq(x, I(0))) is False for x in (it, v)]
                c.ob('balance', any(more), f, '%s: a scope only as long as more are asked for' % tk.lower(), st=s)


def variables(c, varlist='variables', letlist='variables'):
    """the rule names are those of the property that asks"""
    p = c.prog
    EB = q('ExprParser::bind')
    f = [g for g in p.fn('ExprParser::parseAndBindSortedVarList') if len(g.params) == 2][0]
    K = mk('p', 0, f.params[0]['name'])

    def on(e):
        if e.kind == 'call' and e.name == EB:
            return [('bind', sum(1 for x in e.st.ts if isinstance(x, tuple)), tuple(e.args))]
        return ()
    opq = {q(x) for x in ('ExprParser::parseType', 'ExprParser::parseAttributeList', 'State::getBoundVar', 'State::mkSymbol', 'ExprParser::bind', 'ExprParser::parseExpr', 'ExprParser::typeCheck', 'ExprParser::parseSymbol')}
    r = c.analyze(f, inv=True, on=on, opaque=opq, loophead=lambda g, h, s: ())
    n = 0
    for t, s in r.exits:
        ok = t.op == 'it' and t.a[-1] is EMPTY and t in r.loopstates
        c.ob(varlist, ok, f, 'a list of variables', detail=str(t), st=s)
        if not ok:
            continue
        for w, st in r.loopstates[t]:
            n += 1
            bs = [x[2] for x in st.ts if isinstance(x, tuple)]
            ok = len(bs) == 1 and len(bs[0]) == 2 and is_call(bs[0][0], 'ExprParser::parseSymbol')
            v = bs[0][1] if ok else None
            none = st.truth(eq(K, kind('NONE')))
            if none is True:
                ok = ok and is_call(v, 'State::getBoundVar') and cargs(v)[0] is bs[0][0] and is_call(cargs(v)[1], 'ExprParser::parseType')
            else:
                ok = ok and none is False and is_call(v, 'State::mkSymbol') and cargs(v)[0] is kind('PARAM') and cargs(v)[1] is bs[0][0] and is_call(cargs(v)[2], 'ExprParser::parseType')
            c.ob(varlist, ok, f, 'every variable is bound under its name', detail=str(bs), st=st)
            imp = [h for h in st.facts if h.op == 'has' and attr('IMPLICIT') in h.a]
            if w is t:
                c.ob(varlist, none is False and any(st.truth(h) for h in imp), f, 'only implicit parameters are left out', st=st)
            else:
                x = w.a[1] if w.op == 'push' and w.a[0] is t else None
                ok = x is not None and (x is v or is_out(x, 'ExprParser::parseAttributeList', 1))
                c.ob(varlist, ok and not any(st.truth(h) for h in imp), f, 'the variables are listed in order', detail=str(w), st=st)
    c.ob(varlist, n >= 2, f, 'variables are read')
    f = p.fn1('ExprParser::parseAndBindLetList')
    r = c.analyze(f, inv=True, on=on, opaque=opq, loophead=lambda g, h, s: ())
    for t, s in r.exits:
        ok = t.op == 'it' and t.a[-1] is EMPTY and t in r.loopstates
        c.ob(letlist, ok, f, 'a list of bindings', detail=str(t), st=s)
        if not ok:
            continue
        for w, st in r.loopstates[t]:
            ok = w.op == 'push' and w.a[0] is t
            e = w.a[1] if ok else None
            pr = pairof(e) if ok else None
            ok = pr is not None and is_call(pr[0], 'State::getBoundVar') and is_call(cargs(pr[0])[0], 'ExprParser::parseSymbol') and is_call(pr[1], 'ExprParser::parseExpr') and \
                is_call(cargs(pr[0])[1], 'ExprParser::typeCheck') and cargs(cargs(pr[0])[1])[0] is pr[1]
            c.ob(letlist, ok, f, 'a variable of the type of its value', detail=str(w), st=st)
            c.ob(letlist, not [x for x in st.ts if isinstance(x, tuple)], f, 'values are read before variables are bound', st=st)
        # then all are bound
        ok = False
        for b in r.loopstates:
            if b is t or b.op != 'it' or not isT(b.a[-1]):
                continue
            bs = [[x[2] for x in st.ts if isinstance(x, tuple)] for v, st in r.loopstates[b]]
            if bs and all(len(x) == 1 and len(x[0]) == 2 and field(x[0][1], 'first') and is_sym(x[0][0], x[0][1]) for x in bs):
                el = {mk('deref', b) for x in bs if x[0][1].a[1] is b} | {y for x in bs for y in subterms(x[0][1]) if y.op == 'deref' and y.a[0] is b or y.op == 'idx' and b in subterms(y.a[1])}
                ok = ok or len(el) == 1 and sweep(r, s, next(iter(el))) == (t, 1)
        c.ob(letlist, ok, f, 'every variable is bound under its name', st=s)
    # bound variables are the same for the same name and type
    f = p.fn1('State::getBoundVar')
    r = c.analyze(f, opaque={q('State::mkSymbol'), q('State::mkExpr'), q('State::mkLiteral')})
    N, T = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    V = pre(r, 'State::d_boundVars')
    for t, s in r.exits:
        W = post(r, s, 'State::d_boundVars')
        gr = [v for h, v in s.facts.items() if is_call(h, 'Expr::isGround') or h.op == 'ground']
        if gr == [False]:
            ok = is_call(t, 'State::mkExpr') and cargs(t)[0] is kind('EVAL_VAR') and W is V
        else:
            has = [(h, v) for h, v in s.facts.items() if h.op == 'has' and h.a[0] is V]
            ok = len(has) == 1
            if ok:
                k, v = has[0][0].a[1], has[0][1]
                pr = pairof(k)
                ok = pr is not None and pr[0] is N and under(pr[1]) is T
                if v:
                    ok = ok and W is V and (t is index(V, k) or t.op == 'fld' and t.a[0].endswith('second'))
                else:
                    ok = ok and is_call(t, 'State::mkSymbol') and cargs(t) == (kind('VARIABLE'), N, T) and W is mk('set', V, k, t)
        c.ob(varlist, ok, f, 'the variable of a name and a type', detail=str((t, W)), st=s)


def under(t):
    while isT(t) and t.op in ('value',):
        t = t.a[0]
    return t


def is_sym(x, v):
    return x.op == 'symbol' and x.a[0] is v or x.op == 'r' and x.a[0] == q('Expr::getSymbol') and x.a[1] is v


def pairof(e):
    if e.op in ('tuple', 'pair') and len(e.a) == 2:
        return e.a
    if e.op == 'new' and len(e.a[1]) == 2 and 'pair' in e.a[0]:
        return e.a[1]
    if e.op == 'list' and len(e.a) == 2:
        return e.a
    return None
