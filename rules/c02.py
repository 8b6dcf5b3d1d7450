"""A step is accepted only with a checked Boolean conclusion that agrees with the stated one."""
from common import *


def run(c):
    c.rule('step-binds-checked-result', 'on every path of step/step-pop that accepts the command exactly one symbol is bound, to '
           'mkProof of the result of a notifyStep call that returned true, under the name given in the command', 2)
    c.rule('step-conclusion-bool', 'every accepted step has found the type of that result to be Bool', 2)
    c.rule('step-conclusion-stated', 'every accepted step states no conclusion or one that is equal to the result', 2)
    c.rule('step-arguments', 'the values checked are the parsed ones: the named rule, the stated conclusion, the premises given by '
           ':premises, the arguments given by :args', 2)
    c.rule('step-pop-flag', 'a rule application is checked as a step-pop exactly for the command step-pop', 2)
    c.rule('step-failure-aborts', 'a step whose check failed does not continue', 2)
    c.rule('notify-result', 'notifyStep returns true only with a non-null result that is fully evaluated', 3)
    for tk in ('STEP', 'STEP_POP'):
        step(c, tk)
    notify(c)


def step(c, tk):
    NS, BIND = q('State::notifyStep'), q('ExprParser::bind')
    sites = {}

    def on(ev):
        if ev.name == q('ExprParser::parseExprList') and ev.ret is not None:
            s = sites.setdefault(ev.ret, [])
            s.append(ev.st.copy())
        if ev.name == BIND:
            return ['bind2' if 'bind' in ev.st.ts else 'bind']
        return ()
    r = command(c, tk, watch=watch('State::notifyStep', 'ExprParser::bind', 'State::bind'), on=on)
    calls = named(r.events, NS)
    byout = {}
    for e in calls:
        site = e.ret.a[3]
        byout.setdefault(site, []).append(e)
    acc = accepting(r)
    if not acc:
        c.ob('step-binds-checked-result', False, r.f, tk + ': no path accepts the command')
    for s in acc:
        c.ob('step-binds-checked-result', 'bind' in s.ts and 'bind2' not in s.ts, r.f, tk + ' binds exactly once on acceptance', st=s)
    binds = named(r.events, BIND)
    for e in named(r.events, 'State::bind'):
        c.ob('step-binds-checked-result', False, e, tk + ' binds in the state directly')
    for e in binds:
        v = e.args[1]
        x = None
        ok = is_call(v, 'State::mkProof')
        if ok:
            x = cargs(v)[0]
            ok = is_out(x, NS, 6)
        ns = [n for n in byout.get(x.a[4], ())] if ok else []
        good = ok and ns and any(e.st.truth(n.ret) is True for n in ns)
        if ok and ns and tk == 'STEP_POP':
            pass
        c.ob('step-binds-checked-result', good, e, tk + ' bound value is mkProof of an accepted result', st=e.st,
             detail='bound value: ' + show(v))
        if not good:
            continue
        name = e.args[0]
        c.ob('step-arguments', all(n.args[0] is name for n in ns), e, tk + ' result is bound to the name of the step')
    for s, e0 in [(s, None) for s in acc]:
        # the accepted results of this path
        good = [n for n in calls if s.truth(n.ret) is True]
        done = False
        for n in good:
            x = mk_out(n)
            if x is None:
                continue
            done = True
            c.ob('step-conclusion-bool', bool_typed(s, x), n, tk + ' type of the conclusion is Bool on acceptance', st=s)
            p = n.args[2]
            ok = s.truth(p) is False or p is NULL or s.truth(eq(x, p)) is True
            c.ob('step-conclusion-stated', ok, n, tk + ' stated conclusion equals the result', st=s, detail='stated: ' + show(p))
        c.ob('step-binds-checked-result', done, r.f, tk + ' accepts only with notifyStep true', st=s)
    for n in calls:
        a = n.args
        rn = cargs(a[1])[0] if is_call(a[1], 'ExprParser::getProofRule') or is_call(a[1], 'State::getProofRule') else None
        c.ob('step-arguments', rn is not None and is_call(rn, 'ExprParser::parseSymbol') and rn is not a[0], n,
             tk + ' rule is the named proof rule', detail=show(a[1]))
        c.ob('step-arguments', is_call(a[0], 'ExprParser::parseSymbol'), n, tk + ' name is the parsed one', detail=show(a[0]))
        p = a[2]
        c.ob('step-arguments', p is NULL or n.st.truth(p) is False or is_call(p, 'ExprParser::parseFormula') or p.op == 'u', n,
             tk + ' stated conclusion is the parsed formula', detail=show(p))
        kws = keywords_known(n.st)
        c.ob('step-arguments', 'rule' in kws, n, tk + ' requires :rule', st=n.st)
        for i, kw in ((3, 'premises'), (4, 'args')):
            v = a[i]
            if is_call(v, 'ExprParser::parseExprList'):
                ok = all(keyword_is(s, kw) for s in sites.get(v, ())) and bool(sites.get(v))
                c.ob('step-arguments', ok, n, '%s %s read after :%s' % (tk, 'args' if i == 4 else 'premises', kw), detail=show(v))
            else:
                c.ob('step-arguments', v is EMPTY and kw not in kws, n, '%s no %s only without :%s' % (tk, kw, kw),
                     detail=show(v), st=n.st)
        c.ob('step-arguments', a[3] is not a[4] or a[3] is EMPTY, n, tk + ' premises and args are distinct')
        c.ob('step-pop-flag', n.st.cval(a[5]) is B(tk == 'STEP_POP') or n.st.truth(a[5]) is (tk == 'STEP_POP'), n, tk + ' isPop', detail=show(a[5]))
    # failure
    for s in acc:
        bad = [n for n in calls if s.truth(n.ret) is False]
        c.ob('step-failure-aborts', not bad, r.f, tk + ' no accepted path has a failed check', st=s)


def mk_out(n):
    """the result term of a notifyStep call event"""
    r = n.ret
    return mk('o', r.a[0], r.a[1], 6, r.a[2], r.a[3]) if True else None


def bool_typed(s, x):
    for t, d in s.dom.items():
        if t.op == 'kind' and d[0] == 'in' and d[1] == frozenset((kind('BOOL_TYPE'),)):
            y = t.a[0]
            if y.op == 'r' and y.a[0] in (q('ExprParser::typeCheck'), q('TypeChecker::getType')) and cargs(y)[:1] == (x,):
                return True
    for t, v in s.facts.items():
        if v and t.op == 'eq':
            for y, z in (t.a, t.a[::-1]):
                if y.op == 'r' and y.a[0] in (q('ExprParser::typeCheck'), q('TypeChecker::getType')) and cargs(y)[:1] == (x,) \
                        and is_call(z, 'State::mkBoolType'):
                    return True
    # typeCheck(term, expected) aborts unless the type is the expected one
    return False


def notify(c):
    r = c.analyze('State::notifyStep')
    n = 0
    for ret, s in r.exits:
        s2 = s.copy()
        if ret is FALSE or not s2.assume(ret, True):
            continue
        n += 1
        v = result_value(r, s2)
        ev = mk('evaluatable', v)
        if kid(v)[1] is I(3) and field(kid(v)[0], 'd_attrConsTerm'):
            # declare-rule has found the conclusion of a rule without program to be ground and reduced (see C03)
            short = [t for t, w in s2.rng.items() if t.op == 'size' and w[1] is not None and w[1] <= 1] + \
                    [t for t, w in s2.facts.items() if w is False and t.op == 'lt' and t.a[0] is I(1)]
            c.ob('notify-result', bool(short), r.f, 'the program itself is the result only without arguments', st=s2)
        else:
            null = s2.truth(v) is not True and not is_call(v, 'TypeChecker::evaluateProgramApp')
            c.ob('notify-result', s2.truth(ev) is False and not null, r.f, 'result is non-null and evaluated: ' + show(v), st=s2)
    c.ob('notify-result', n > 0, r.f, 'some path accepts')


def result_value(r, s):
    p = ('L', (), r.f.params[6]['n'])
    return r.interp.load(p, s)
