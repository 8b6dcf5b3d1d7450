"""Agreement of declare-rule (which builds the program of a rule) and notifyStep (which applies it)."""
from common import *


def run(c):
    c.rule('rule-pattern', 'the pattern of the program of a rule is: its arguments, then the conclusion if explicit, then the assumption '
           'if any, then the proof of every premise', 4)
    c.rule('rule-keywords', 'each part of a rule is what was read after its keyword', 7)
    c.rule('rule-result', 'the result of the program of a rule is its conclusion, under all of its requirements', 4)
    c.rule('rule-checked', 'the program of a rule passes the pattern/body check before it is defined; a rule without program has a ground '
           'reduced conclusion', 4)
    c.rule('rule-level', 'rules are declared at assumption level zero only', 1)
    c.rule('rule-tuple', 'the record of a rule is written and read with the same layout', 4)
    c.rule('rule-input', 'a step applies the program to: the arguments of the step, the stated conclusion if explicit, the current '
           'assumption if the rule is an assumption rule, then its premises', 6)
    c.rule('rule-mode', 'step-pop applies exactly the rules with an assumption, and step exactly those without; a rule with explicit '
           'conclusion is applied only with a stated conclusion', 6)
    c.rule('rule-lookup', 'the rule record read is that of the rule that is applied', 1)
    lay = declare(c)
    notify(c, lay)


def proofs_of(r, st, t):
    """[] or the container whose elements' proofs the loop term t appends to its entry value"""
    lp = loop_pushed(r, t)
    if lp is None:
        return None
    entry, xs = lp
    conts = set()
    for x in xs:
        if x is None or not is_call(x, 'State::mkProof'):
            return None
        k = full_iteration(st, cargs(x)[0])
        if k is None:
            return None
        conts.add(k)
    # of which container has the loop run to the end on this path
    done = [k for k in conts if finished(st, k)]
    if len(done) > 1:
        done = [k for k in done if k is not EMPTY]
    return (entry, done[0]) if len(done) == 1 else None


def pattern(c, r, e, ro, x, concrole):
    """checks a progArgs container (without the program); returns nothing"""
    st = e.st
    kws = keywords_known(st)
    segs = whole(x)
    # premises
    prem = None
    entry = x
    if x.op == 'it':
        pr = proofs_of(r, st, x)
        if pr is None:
            return c.ob('rule-pattern', False, e, 'premises are appended as proofs', detail=show(x))
        entry, prem = pr
        segs = whole(entry)
    else:
        # premises appended without a loop at a loop head
        prem = EMPTY
    exp = []
    if 'premises' in kws:
        ok = ro.is_(prem, 'premises', st=st)
    elif 'premise-list' in kws:
        ok = prem.op == 'list' and len(prem.a[0]) == 1 and ro.is_(prem.a[0][0], 'premise-list', 0, st=st)
    else:
        ok = prem is EMPTY
    c.ob('rule-pattern', ok, e, 'proofs of all premises, in order, come last', detail='loop over ' + show(prem) + '; keywords ' + str(kws), st=st)
    n = 0
    good = True

    def nxt():
        return segs[n] if n < len(segs) else (None, None)
    why = []
    if 'args' in kws:
        k, v = nxt()
        if k == 'all' and ro.is_(v, 'args', st=st):
            n += 1
        else:
            good = False
            why.append('arguments first')
    if 'conclusion-explicit' in kws:
        k, v = nxt()
        if k == 'one' and ro.is_(v, 'conclusion-explicit', st=st):
            n += 1
        else:
            good = False
            why.append('then the explicit conclusion')
    if 'assumption' in kws:
        k, v = nxt()
        if k == 'one' and ro.is_(v, 'assumption', st=st):
            n += 1
        elif not any(ro.is_(t, 'assumption', st=st) and (d[0] == 'in' and NULL in d[1]) for t, d in st.dom.items()):
            good = False
            why.append('then the assumption')
    if n != len(segs):
        good = False
        why.append('nothing else')
    c.ob('rule-pattern', good, e, 'arguments, explicit conclusion, assumption', detail='%s: expected %s (keywords %s)' % (show(entry), ', '.join(why), kws))


def conclusion(c, e, ro, ret):
    kws = keywords_known(e.st)
    body, reqs = ret, None
    if is_call(ret, 'State::mkRequires') and len(cargs(ret)) == 2:
        reqs, body = cargs(ret)
    if 'conclusion-explicit' in kws:
        ok = ro.is_(body, 'conclusion-explicit', st=e.st)
    else:
        ok = ro.is_(body, 'conclusion', st=e.st) and 'conclusion' in kws
    c.ob('rule-result', ok, e, 'the body is the conclusion', detail=show(ret), st=e.st)
    if 'requires' in kws:
        if reqs is not None:
            ok = ro.is_(reqs, 'requires', st=e.st)
        else:
            ok = any(ro.is_(t.a[0], 'requires', st=e.st) and e.st.cval(t) is I(0) for t in list(e.st.rng) + list(e.st.dom) if t.op == 'size')
        c.ob('rule-result', ok, e, 'all requirements guard the conclusion', detail=show(ret), st=e.st)
    else:
        c.ob('rule-result', reqs is None, e, 'no requirements without :requires', detail=show(ret))


def declare(c):
    ro = Roles()
    names = ['State::markConstructorKind', 'State::defineProgram', 'ExprParser::typeCheckProgramPair', 'ExprParser::bind',
             'ExprParser::parseAndBindSortedVarList']
    PAIR = q('ExprParser::typeCheckProgramPair')

    def on(ev):
        if ev.name == PAIR:
            return [('pair', ev.args[0], ev.args[1])]
        if ev.name == q('State::defineProgram'):
            return [('def', ev.args[0])]
        if ev.name == q('ExprParser::bind'):
            return [('bound', ev.args[1])]
        if ev.name == q('State::markConstructorKind'):
            return [('mark', ev.args[0])]
        return ro.on(ev)
    r = command(c, 'DECLARE_RULE', names, on=on)
    lay = {}
    # the record
    marks = [e for e in named(r.events, 'State::markConstructorKind') if e.args[1] is attr('PROOF_RULE')]
    c.ob('rule-tuple', bool(marks), r.f, 'declare-rule marks the rule')
    cand = {'assumption': None, 'conclusion-explicit': None, 'cons': None, 'prog': None}
    for e in marks:
        rule, rec = e.args[0], e.args[2]
        ok = is_call(rule, 'State::mkSymbol') and cargs(rule)[0] is kind('PROOF_RULE') and is_call(cargs(rule)[1], 'ExprParser::parseSymbol')
        c.ob('rule-tuple', ok, e, 'the marked symbol is the new rule', detail=show(rule))
        ok = is_call(rec, 'State::mkExpr') and cargs(rec)[0] is kind('TUPLE') and cargs(rec)[1].op == 'list'
        c.ob('rule-tuple', ok, e, 'the record is a tuple', detail=show(rec))
        if not ok:
            continue
        fs = cargs(rec)[1].a[0]
        kws = keywords_known(e.st)

        def keep(slot, idxs):
            idxs = set(idxs)
            cand[slot] = idxs if cand[slot] is None else cand[slot] & idxs
        b = {i: cargs(x)[0] for i, x in enumerate(fs) if is_call(x, 'State::mkBool')}

        def val(t):
            v = e.st.truth(t)
            if v is None and t.op == 'not' and t.a[0].op == 'eq':
                # a parsed expression is never null
                v = not (t.a[0].a[1] is NULL and False)
            return v
        keep('assumption', [i for i, t in b.items() if val(t) is ('assumption' in kws) or
                            (val(t) is False and any(ro.is_(z, 'assumption', st=e.st) and e.st.truth(z) is False for z in list(e.st.dom)))])
        keep('conclusion-explicit', [i for i, t in b.items() if val(t) is ('conclusion-explicit' in kws)])
        nullcons = any(ro.is_(z, 'premise-list', 1, st=e.st) and e.st.truth(z) is False for z in list(e.st.dom))
        if 'premise-list' in kws and not nullcons:
            keep('cons', [i for i, x in enumerate(fs) if ro.is_(x, 'premise-list', 1, st=e.st)])
        else:
            keep('cons', [i for i, x in enumerate(fs) if is_call(x, 'State::mkAny')])
        progs = [i for i, x in enumerate(fs) if is_call(x, 'State::mkSymbol') and cargs(x)[0] is kind('PROGRAM_CONST')]
        if progs:
            keep('prog', progs)
            p = fs[progs[0]]
            c.ob('rule-checked', ('def', p) in e.st.ts, e, 'the program of the rule is defined', st=e.st)
        else:
            rets = [i for i, x in enumerate(fs) if i not in b and (is_call(x, 'State::mkRequires') or ro.is_(x, 'conclusion', st=e.st)
                                                                   or ro.is_(x, 'conclusion-explicit', st=e.st))]
            keep('prog', rets)
            for i in rets[:1]:
                v = fs[i]
                conclusion(c, e, ro, v)
                c.ob('rule-checked', e.st.truth(mk('ground', v)) is True and e.st.truth(mk('evaluatable', v)) is False, e,
                     'conclusion of a rule without program is ground and reduced', detail=show(v), st=e.st)
                empt = [t for t in list(e.st.rng) + list(e.st.dom) if t.op == 'size' and e.st.cval(t) is I(0) and t.a[0].op in ('it', 'cat', 'push', 'pushf')]
                c.ob('rule-checked', bool(empt), e, 'only a rule with nothing to match has no program', st=e.st)
    for k, s in cand.items():
        ok = s is not None and len(s) == 1
        c.ob('rule-tuple', ok, marks[0] if marks else r.f, 'position of %s in the record' % k, detail='candidates %s' % s)
        if ok:
            lay[k] = next(iter(s))
    # the program
    for e in named(r.events, 'State::defineProgram'):
        v, pr = e.args
        ok = is_call(pr, 'State::mkExpr') and cargs(pr)[0] is kind('PROGRAM') and cargs(pr)[1].op == 'list' and len(cargs(pr)[1].a[0]) == 1
        case = cargs(pr)[1].a[0][0] if ok else None
        ok = ok and is_call(case, 'State::mkPair')
        c.ob('rule-result', ok, e, 'the program of a rule has one case', detail=show(pr))
        if not ok:
            continue
        pat, ret = cargs(case)
        c.ob('rule-checked', ('pair', pat, ret) in e.st.ts, e, 'the case is checked before the program is defined', detail=show(case))
        conclusion(c, e, ro, ret)
        ok = is_call(pat, 'State::mkExpr') and cargs(pat)[0] is kind('APPLY')
        segs = whole(cargs(pat)[1]) if ok else []
        lst = cargs(pat)[1] if ok else None
        ok = ok and bool(segs) and segs[0] == ('one', v)
        c.ob('rule-pattern', ok, e, 'the pattern applies the program', detail=show(pat))
        if not ok:
            continue
        inner = lst.a[0] if lst.op == 'pushf' else (segs[1][1] if len(segs) == 2 and segs[1][0] == 'all' else None)
        if lst.op == 'list':
            inner = mk('list', lst.a[0][1:])
        if inner is None:
            c.ob('rule-pattern', False, e, 'the pattern is built from the parts', detail=show(lst))
            continue
        pattern(c, r, e, ro, inner, None)
        # nothing but being a proof or not is asked of the arguments
        pt = cargs(v)[2] if is_call(v, 'State::mkSymbol') and len(cargs(v)) > 2 else None
        l = cargs(pt)[0] if pt is not None and is_call(pt, 'State::mkProgramType') else None
        for w, st in r.loopstates.get(l, ()) if l is not None else ():
            x = w.a[1] if w.op == 'push' and w.a[0] is l else None
            prf = any(st.truth(eq(t, kind('PROOF'))) is True for t in st.dom if t.op == 'kind')
            ok = x is not None and (is_call(x, 'State::mkProofType') if prf else is_call(x, 'State::mkSymbol') and cargs(x)[0] is kind('PARAM'))
            c.ob('rule-pattern', ok, e, 'an argument of a rule may have any type, a premise is a proof', detail=show(w), st=st)
    # keywords
    want = {'assumption', 'premises', 'premise-list', 'args', 'requires', 'conclusion', 'conclusion-explicit'}
    got = {k for s in ro.roles.values() for k, n in s if k}
    for k in sorted(want):
        c.ob('rule-keywords', k in got, r.f, 'keyword ' + k)
    for k in sorted(got - want):
        c.ob('rule-keywords', False, r.f, 'keyword ' + k)
    acc = accepting(r)
    for s in acc:
        rules = {t[1] for t in s.ts if isinstance(t, tuple) and t[0] == 'mark'}
        bound = {t[1] for t in s.ts if isinstance(t, tuple) and t[0] == 'bound'}
        c.ob('rule-tuple', len(rules) == 1 and rules == bound, r.f, 'an accepted declare-rule binds the rule it marked', st=s)
        k = keywords_known(s)
        c.ob('rule-result', 'conclusion' in k or 'conclusion-explicit' in k, r.f, 'an accepted rule has a conclusion', st=s)
        lv = [v for t, v in level_facts(s)]
        c.ob('rule-level', True in lv, r.f, 'assumption level is zero', st=s)
    return lay


def level_facts(s):
    out = []
    for t in list(s.rng) + list(s.dom) + list(s.facts):
        if is_call(t, 'State::getAssumptionLevel') or field(t, 'd_assumptionsSizeCtx'):
            lo, hi = s.interval(t)
            out.append((t, hi == 0))
        if t.op == 'size' and field(t.a[0], 'd_assumptionsSizeCtx'):
            out.append((t, s.cval(t) is I(0)))
    return out


def notify(c, lay):
    r = c.analyze('State::notifyStep', watch=watch('TypeChecker::evaluateProgramApp', 'State::getCurrentAssumptions', 'State::getAppInfo'))
    evs = named(r.events, 'TypeChecker::evaluateProgramApp')
    c.ob('rule-input', bool(evs), r.f, 'rules are applied by evaluateProgramApp')
    P = [mk('p', i, p['name']) for i, p in enumerate(r.f.params)]
    rule, proven, premises, args, ispop = P[1], P[2], P[3], P[4], P[5]

    def rec(t):
        return field(t, 'd_attrConsTerm')
    for e in evs:
        st = e.st
        segs = whole(e.args[0])
        d = show(e.args[0])
        head = segs[0] if segs else (None, None)
        ok = head[0] == 'one' and rec(kid(head[1])[0]) and kid(head[1])[1] is I(lay.get('prog', -1))
        c.ob('rule-tuple', ok, e, 'the program is read from where it was stored', detail=d)
        if not ok:
            continue
        tup = kid(head[1])[0]
        info = tup.a[1]
        ok = is_call(info, 'State::getAppInfo') and cargs(info)[0] in (rule, mk('value', rule))
        c.ob('rule-lookup', ok, e, 'record of the applied rule', detail=show(info))

        def flag(slot):
            x = mkkid(tup, lay.get(slot, -1))
            for t, v in st.facts.items():
                if t.op == 'eq' and x in t.a:
                    y = t.a[0] if t.a[1] is x else t.a[1]
                    if field(y, 'd_true'):
                        return v
                    if field(y, 'd_false'):
                        return not v
                    if field(y, 'd_any'):
                        return v
            return None
        conc, asm, anyc = flag('conclusion-explicit'), flag('assumption'), flag('cons')
        n = 1
        why = None

        def nx():
            return segs[n] if n < len(segs) else (None, None)
        if nx() == ('all', args):
            n += 1
        else:
            why = 'arguments first'
        c.ob('rule-mode', conc is not None, e, 'the explicit-conclusion mode is decided', st=st)
        if conc:
            c.ob('rule-mode', st.truth(proven) is True, e, 'explicit conclusion is stated', st=st)
            if nx() == ('one', proven):
                n += 1
            else:
                why = why or 'then the stated conclusion'
        pop = st.truth(ispop)
        c.ob('rule-mode', pop is not None and asm is pop, e, 'step-pop iff the rule has an assumption', detail='isPop=%s, assumption=%s' % (pop, asm), st=st)
        if pop:
            k, v = nx()
            good = k == 'one' and (v.op == 'idx' and v.a[1] is I(0) and is_call(v.a[0], 'State::getCurrentAssumptions'))
            if good:
                n += 1
            else:
                why = why or 'then the first current assumption'
        k, v = nx()
        if anyc is False and st.truth(mkkid(tup, lay.get('cons', -1))) is False:
            anyc = True    # no constructor
        if anyc is True:
            if (k, v) == ('all', premises):
                n += 1
            else:
                why = why or 'then the premises'
        elif anyc is False:
            if k == 'one' and is_call(v, 'State::mkProof'):
                n += 1
            else:
                why = why or 'then the proof of the collected premises'
        else:
            why = why or 'the premise-list mode is decided'
        if n != len(segs):
            why = why or 'nothing else'
        c.ob('rule-input', why is None, e, 'input of an applied rule: pop=%s conc=%s any=%s' % (pop, conc, anyc), detail='%s: expected %s' % (d, why), st=st)
    # no acceptance beside (plugin apart) without the record of the rule
    for ret, s in r.exits:
        if ret is FALSE or s.truth(ret) is False:
            continue
        if ret is TRUE:
            ok = any(is_call(t, 'State::getAppInfo') and s.truth(t) is True for t in list(s.dom) + list(s.facts))
            c.ob('rule-lookup', ok, r.f, 'only symbols with a rule record are applied', st=s)
