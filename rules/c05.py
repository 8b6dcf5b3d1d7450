"""Local assumption scopes."""
from common import *
import c10

AL, SC = 'State::d_assumptions', 'State::d_assumptionsSizeCtx'


def run(c):
    c.rule('assume-opens-scope', 'assume-push opens an assumption scope before the assumption is recorded and bound; assume does not', 4)
    c.rule('assume-records', 'every accepted assume/assume-push records the parsed formula as an assumption and binds its proof once', 4)
    c.rule('pop-requires-scope', 'step-pop is rejected at assumption level zero', 1)
    c.rule('pop-closes-scope', 'step-pop closes exactly one assumption scope, after the rule was applied and before its result is bound; '
           'step closes none', 2)
    c.rule('scope-push', 'opening a scope records the number of assumptions and opens a symbol scope', 2)
    c.rule('scope-pop', 'closing a scope drops exactly the assumptions and symbols introduced since it was opened', 3)
    c.rule('scope-assumptions', 'the current assumptions are those since the innermost scope was opened', 2)
    c.rule('scope-owner', 'assumptions and their scopes are changed only by assume, step-pop and reset', 5)
    c.rule('scope-balanced-file', 'a file that leaves an assumption scope open is rejected', 1)
    c.rule('pop-command-guard', 'pop never closes a symbol scope that belongs to an assumption scope', 2)
    assume(c)
    step(c)
    scopes(c)
    include(c)
    popcmd(c)
    import c20
    c20.closing(c, 'scope-pop')


def assume(c):
    NA, BIND, ADD = 'State::notifyAssume', 'ExprParser::bind', 'State::addAssumption'
    for tk in ('ASSUME', 'ASSUME_PUSH'):
        push = tk == 'ASSUME_PUSH'
        r = command(c, tk, [NA, BIND, ADD, 'State::pushAssumptionScope', 'State::pushScope', 'State::popScope', 'State::bind'],
                    order=[q(NA), q(BIND), q(ADD)])
        for s in accepting(r):
            c.ob('assume-records', once(s, NA) and once(s, BIND) and once(s, ADD), r.f, tk + ' notifies, binds and records exactly once', st=s)
        if not accepting(r):
            c.ob('assume-records', False, r.f, tk + ' can be accepted')
        for e in r.events:
            if e.name == q(NA):
                c.ob('assume-opens-scope', e.st.cval(e.args[2]) is B(push), e, tk + ' scope flag', detail=show(e.args[2]))
                c.ob('assume-opens-scope', not tagged(e.st, BIND) and not tagged(e.st, ADD), e, tk + ' opens the scope first')
                c.ob('assume-records', is_call(e.args[1], 'ExprParser::parseFormula'), e, tk + ' formula', detail=show(e.args[1]))
            elif e.name == q(BIND):
                v = e.args[1]
                ok = is_call(v, 'State::mkProof') and is_call(cargs(v)[0], 'ExprParser::parseFormula') and is_call(e.args[0], 'ExprParser::parseSymbol')
                c.ob('assume-records', ok, e, tk + ' binds the proof of the formula', detail=show(v))
                c.ob('assume-opens-scope', tagged(e.st, NA), e, tk + ' binds inside the scope')
            elif e.name == q(ADD):
                c.ob('assume-records', is_call(e.args[0], 'ExprParser::parseFormula'), e, tk + ' records the formula', detail=show(e.args[0]))
                c.ob('assume-opens-scope', tagged(e.st, NA), e, tk + ' records inside the scope')
            else:
                c.ob('assume-opens-scope', False, e, tk + ' opens or closes no other scope and binds nothing else')
    r = c.analyze('State::notifyAssume', order=[q('State::pushAssumptionScope')], watch=watch('State::pushAssumptionScope'))
    p = mk('p', 2, r.f.params[2]['name'])
    for t, s in r.exits:
        v = s.truth(p)
        n = tagged(s, 'State::pushAssumptionScope')
        c.ob('assume-opens-scope', v is not None and n is v and not q('State::pushAssumptionScope') + '+' in s.ts, r.f, 'scope iff push', st=s)


def level_zero(s):
    """is the assumption level known to be zero (True), known to be positive (False) or neither"""
    for t in list(s.rng) + list(s.dom) + list(s.facts):
        if is_call(t, 'State::getAssumptionLevel') or t.op == 'size' and field(t.a[0], 'd_assumptionsSizeCtx'):
            lo, hi = s.interval(t)
            if hi == 0:
                return True
            if lo is not None and lo > 0 or s.truth(eq(t, I(0))) is False:
                return False
    return None


def step(c):
    NS, POP, BIND = 'State::notifyStep', 'State::popAssumptionScope', 'ExprParser::bind'
    for tk in ('STEP', 'STEP_POP'):
        r = command(c, tk, [NS, POP, BIND, 'State::popScope', 'State::pushScope', 'State::pushAssumptionScope'], order=[q(NS), q(POP), q(BIND)])
        for s in accepting(r):
            if tk == 'STEP':
                c.ob('pop-closes-scope', not tagged(s, POP), r.f, 'step closes no scope', st=s)
            else:
                c.ob('pop-closes-scope', once(s, POP), r.f, 'step-pop closes one scope', st=s)
                c.ob('pop-requires-scope', level_zero(s) is False, r.f, 'step-pop accepted only inside a scope', st=s)
        for e in r.events:
            if e.name == q(POP):
                c.ob('pop-closes-scope', tagged(e.st, NS) and not tagged(e.st, BIND), e, tk + ' closes after checking, before binding')
                c.ob('pop-closes-scope', any(t.op == 'r' and t.a[0] == q(NS) and v for t, v in e.st.facts.items()), e, tk + ' closes after a successful check', st=e.st)
            elif e.name == q(NS) and tk == 'STEP_POP':
                c.ob('pop-requires-scope', level_zero(e.st) is False, e, 'step-pop is checked only inside a scope', st=e.st)
            elif e.name in (q('State::popScope'), q('State::pushScope'), q('State::pushAssumptionScope')):
                c.ob('pop-closes-scope', False, e, tk + ' opens or closes no other scope')


def scopes(c):
    PS, PP = 'State::pushScope', 'State::popScope'
    r = c.analyze('State::pushAssumptionScope', order=[q(PS)], watch=watch(PS))
    for t, s in r.exits:
        want = push(pre(r, SC), size(pre(r, AL)))
        c.ob('scope-push', post(r, s, SC) is want, r.f, 'the number of assumptions is recorded', detail=show(post(r, s, SC)))
        c.ob('scope-push', post(r, s, AL) is pre(r, AL), r.f, 'assumptions are kept', detail=show(post(r, s, AL)))
        c.ob('scope-push', once(s, PS), r.f, 'a symbol scope is opened', st=s)
    r = c.analyze('State::popAssumptionScope', order=[q(PP)], watch=watch(PP), opaque=[q(PP)])
    for t, s in r.exits:
        c.ob('scope-pop', post(r, s, SC) is pop(pre(r, SC)), r.f, 'the innermost record is dropped', detail=show(post(r, s, SC)))
        a = post(r, s, AL)
        ok = a.op in ('resize', 'slice') and a.a[0] is pre(r, AL) and (a.a[1] is back(pre(r, SC)) if a.op == 'resize' else False) or trunc(a, r)
        c.ob('scope-pop', ok, r.f, 'the assumptions since are dropped', detail=show(a))
        # the symbol scopes: closed down to the one opened with the assumption scope
        sc = [t2 for t2, v in s.facts.items() if t2.op == 'lt' and v and field_size(t2.a[0], 'd_declsSizeCtx')]
        ok = tagged(s, PP) and not sc or any(is_scope_mark(t2.a[1]) for t2 in sc)
        c.ob('scope-pop', ok, r.f, 'the symbols since are unbound', st=s)
    if any(e.name == q(PP) for e in r.events) is False:
        c.ob('scope-pop', False, r.f, 'closing an assumption scope closes symbol scopes')
    r = c.analyze('State::getCurrentAssumptions')
    for none in (True, False):
        r = c.analyze('State::getCurrentAssumptions', inv=True, facts=[(eq(size(pre(r, SC)), I(0)), none)])
        c.ob('scope-assumptions', bool(r.exits), r.f, 'answers')
        for t, s in r.exits:
            start = {} if none else c10.lin(back(pre(r, SC)))
            if t.op == 'it':
                # copied one by one
                ok = c10.rest_of(r, s, t, pre(r, AL), start) == {}
            elif none:
                ok = t is pre(r, AL) or t.op == 'slice' and t.a[0] is pre(r, AL) and t.a[1] is I(0)
            else:
                ok = t.op == 'slice' and t.a[0] is pre(r, AL) and t.a[1] is back(pre(r, SC)) and len(t.a) == 2
            c.ob('scope-assumptions', ok, r.f, 'assumptions since the innermost scope' if not none else 'all assumptions outside of scopes', detail=show(t), st=s)
    r = c.analyze('State::getAssumptionLevel')
    for t, s in r.exits:
        c.ob('scope-assumptions', t is size(pre(r, SC)), r.f, 'level is the number of open scopes', detail=show(t))
    r = c.analyze('State::addAssumption')
    for t, s in r.exits:
        c.ob('assume-records', post(r, s, AL) is push(pre(r, AL), mk('p', 0, r.f.params[0]['name'])), r.f, 'the assumption is appended',
             detail=show(post(r, s, AL)))
    only_writers(c, 'scope-owner', AL, ['State::addAssumption', 'State::popAssumptionScope', 'State::reset'])
    only_writers(c, 'scope-owner', SC, ['State::pushAssumptionScope', 'State::popAssumptionScope', 'State::reset'])
    only_callers(c, 'scope-owner', 'State::pushAssumptionScope', ['State::notifyAssume'])
    only_callers(c, 'scope-owner', 'State::popAssumptionScope', ['CmdParser::parseNextCommand'])
    only_callers(c, 'scope-owner', 'State::addAssumption', ['CmdParser::parseNextCommand'])
    only_callers(c, 'scope-owner', 'State::notifyAssume', ['CmdParser::parseNextCommand'])


def field_size(t, f):
    return t.op == 'size' and bool(fields_in(t.a[0], f))


def is_scope_mark(t):
    return t.op == 'back' and bool(fields_in(t, 'd_assumptionsScopeCtx')) or bool(fields_in(t, 'd_assumptionsScopeCtx'))


def trunc(a, r):
    return a.op == 'erase' and back(pre(r, SC)) in subterms(a)


def include(c):
    r = c.analyze([f for f in c.prog.fn('State::includeFile') if len(f.params) == 4][0],
                  watch=watch('CmdParser::parseNextCommand', 'Parser::parseNextCommand'), order=[q('Parser::parseNextCommand')])
    n = 0
    for t, s in r.exits:
        if t is FALSE or not tagged(s, 'Parser::parseNextCommand'):
            continue
        n += 1
        c.ob('scope-balanced-file', level_zero(s) is True, r.f, 'a file ends at assumption level zero', st=s)
    c.ob('scope-balanced-file', n > 0, r.f, 'files are parsed')
    m = c.analyze('main', watch=lambda e: e.kind == 'out' and e.objpath == ('G', 'std::cout') and e.args and e.args[0].op == 's' and
                  e.args[0].a[0].strip() in ('correct', 'incomplete'), order=[q('Parser::parseNextCommand')])
    n = 0
    for e in m.events:
        if tagged(e.st, 'Parser::parseNextCommand'):
            n += 1
            c.ob('scope-balanced-file', level_zero(e.st) is True, e, 'standard input ends at assumption level zero', st=e.st)
    c.ob('scope-balanced-file', n > 0, m.f, 'standard input is parsed')
    for tk in ('INCLUDE', 'REFERENCE', 'DECLARE_RULE'):
        r = command(c, tk, ['State::includeFile', 'State::defineProgram', 'State::markConstructorKind'])
        for s in accepting(r):
            c.ob('scope-balanced-file', level_zero(s) is True, r.f, tk + ' only at assumption level zero', st=s)
        for e in r.events:
            c.ob('scope-balanced-file', level_zero(e.st) is True, e, tk + ' takes effect at assumption level zero only', st=e.st)


def popcmd(c):
    r = command(c, 'POP', ['State::popScope'])
    for e in r.events:
        ok = any(is_call(t, 'State::canPopScope') and v for t, v in e.st.facts.items())
        c.ob('pop-command-guard', ok, e, 'pop asks whether a scope may be closed', st=e.st)
    r = c.analyze('State::canPopScope')
    D, X = pre(r, 'State::d_declsSizeCtx'), pre(r, 'State::d_assumptionsScopeCtx')
    for t, s in r.exits:
        s2 = s.copy()
        if not s2.assume(t, True):
            continue
        ok = s2.truth(lt(back(X), size(D))) is True or (s2.truth(eq(size(X), I(0))) is True and s2.truth(eq(size(D), I(0))) is False)
        c.ob('pop-command-guard', ok, r.f, 'there is a symbol scope above the innermost assumption scope', st=s2)
    only_callers(c, 'pop-command-guard', 'State::canPopScope', ['CmdParser::parseNextCommand'])
