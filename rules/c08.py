"""Requirements."""
from common import *

RQ = 'State::mkRequires'


def run(c):
    c.rule('requires-all', 'the result of a rule is guarded by every requirement', 3)
    c.rule('requires-evaluates', 'a requirement is met only if both sides are ground, fully evaluated and identical, and then gives the guarded term', 2)
    c.rule('requires-parsed', 'the requirements are the pairs that were read', 2)
    c.rule('requires-kept', 'nothing but its evaluation removes a requirement', 2)
    fold(c)
    evaluate(c)
    parse(c)
    keep(c)


def fold(c):
    fs = c.prog.fn(RQ)
    many = [f for f in fs if len(f.params) == 2]
    one = [f for f in fs if len(f.params) == 3]
    for f in many:
        r = c.analyze(f)
        args, ret = [mk('p', i, p['name']) for i, p in enumerate(f.params)]
        for t, s in r.exits:
            ok = t.op == 'it' and t.a[-1] is ret and t in r.loopvals and t not in r.unsure
            c.ob('requires-all', ok or t is ret and s.truth(eq(size(args), I(0))) is True, f, 'starts from the guarded term', detail=show(t), st=s)
            for v in r.loopvals.get(t, ()) if ok else ():
                a = cargs(v) if is_call(v, RQ) and len(cargs(v)) == 3 else None
                if a is None and is_call(v, 'State::mkExpr') and cargs(v)[0] is kind('EVAL_REQUIRES'):
                    a = [x for k, x in segments(cargs(v)[1])]
                good = a is not None and len(a) == 3 and a[2] is t and kid(a[0])[0] is not None and kid(a[0])[0] is kid(a[1])[0] and \
                    kid(a[0])[1] is I(0) and kid(a[1])[1] is I(1)
                c.ob('requires-all', good, f, 'guards by both sides of a requirement', detail=show(v))
                if good:
                    w = sweep(r, s, kid(a[0])[0])
                    c.ob('requires-all', w is not None and w[0] is args, f, 'guards by every requirement', detail=show(a[0]), st=s)
    for f in one:
        r = c.analyze(f)
        P = [mk('p', i, p['name']) for i, p in enumerate(f.params)]
        for t, s in r.exits:
            ok = (is_call(t, 'State::mkExpr') or is_call(t, 'State::mkExprInternal')) and cargs(t)[0] is kind('EVAL_REQUIRES') and \
                [strip(x) for k, x in segments(cargs(t)[1]) if k == 'one'] in (P, [P[1], P[0], P[2]]) and len(segments(cargs(t)[1])) == 3
            c.ob('requires-all', ok, f, 'a requirement guards a term', detail=show(t))


def strip(t):
    return t.a[0] if t.op == 'value' else t


def evaluate(c):
    f = c.prog.fn1('TypeChecker::evaluateLiteralOpInternal')
    r = c.analyze(f, params={0: kind('EVAL_REQUIRES')}, unroll=True)
    a = mk('p', 1, f.params[1]['name'])
    A = [mk('idx', a, I(i)) for i in range(3)]
    n = 0
    for t, s in r.exits:
        if s.truth(eq(A[0], A[1])) and any(s.truth(mk(o, A[0])) is (not s.truth(mk(o, A[1]))) for o in ('ground', 'evaluatable')
                                           if s.truth(mk(o, A[0])) is not None and s.truth(mk(o, A[1])) is not None):
            continue    # no such terms
        if isnull(s, t):
            # not met: must not be the case that it is met
            met = meets(s, A)
            ar = [x for x, v in s.facts.items() if is_call(x, 'TypeChecker::checkArity') and v is False]
            c.ob('requires-evaluates', met is not True or bool(ar), f, 'a requirement that is met evaluates', st=s)
            continue
        n += 1
        c.ob('requires-evaluates', t in (A[2], mk('value', A[2])), f, 'gives the guarded term', detail=show(t))
        c.ob('requires-evaluates', meets(s, A) is True, f, 'only if the requirement is met', st=s)
    c.ob('requires-evaluates', n > 0, f, 'requirements evaluate')


def meets(s, A):
    vs = [s.truth(eq(A[0], A[1]))]
    same = vs[0]
    for x in A[:2]:
        g, e = s.truth(mk('ground', x)), s.truth(mk('evaluatable', x))
        vs += [g, None if e is None else not e]
    if same:
        # one side suffices
        for i in (1, 2):
            vs[i] = vs[i] or vs[i + 2]
            vs[i + 2] = vs[i]
    if all(vs):
        return True
    return False if any(v is False for v in vs) else None


def parse(c):
    r = c.analyze('ExprParser::parseExprPairList', inv=True, inline={'ExprParser::parseExprPair'}, watch=watch('ExprParser::parseExpr'))
    for t, s in r.exits:
        lp = loop_pushed(r, t)
        ok = lp is not None and lp[0] is EMPTY and None not in lp[1] and lp[1]
        c.ob('requires-parsed', ok, r.f, 'every pair that is read is kept, in order', detail=show(t))
        for x in lp[1] if ok else ():
            good = is_call(x, 'State::mkPair') and all(is_call(y, 'ExprParser::parseExpr') for y in cargs(x)) and cargs(x)[0] is not cargs(x)[1]
            c.ob('requires-parsed', good, r.f, 'a pair consists of the two terms read', detail=show(x))
    for f in c.prog.fn('State::mkPair'):
        r = c.analyze(f)
        P = [mk('p', i, p['name']) for i, p in enumerate(f.params)]
        for t, s in r.exits:
            ok = (is_call(t, 'State::mkExprInternal') or is_call(t, 'State::mkExpr')) and cargs(t)[0] is kind('TUPLE') and \
                [strip(x) for k, x in segments(cargs(t)[1])] == P
            c.ob('requires-parsed', ok, f, 'a pair holds both terms in order', detail=show(t))
    ro = Roles()
    r = command(c, 'DECLARE_RULE', [RQ, 'State::defineProgram', 'State::markConstructorKind'], on=ro.on)
    n = 0
    for e in named(r.events, q(RQ)):
        n += 1
        k = cargs(e.ret)[0] if len(e.args) == 2 else None
        c.ob('requires-parsed', k is not None and ro.is_(k, 'requires'), e, 'the conclusion is guarded by what was read after :requires', detail=show(e.args[0]), st=e.st)
    for e in named(r.events, q('State::markConstructorKind')):
        if 'requires' in keywords_known(e.st):
            reqs = [t for t, v in ro.roles.items() if v == {('requires', 0)}]
            used = any(t.op == 'r' and t.a[0] == q(RQ) and any(x in cargs(t) for x in reqs) for p, v in e.st.env.items() if isT(v) for t in subterms(v))
            empty = any(e.st.truth(eq(size(x), I(0))) is True for x in reqs)
            c.ob('requires-all', used or empty, e, 'a rule with :requires is guarded', st=e.st)
    c.ob('requires-parsed', n > 0, r.f, ':requires is recognised')


def keep(c):
    """EVAL_REQUIRES terms are taken apart by nothing but the evaluator"""
    allowed = {q(n) for n in ('TypeChecker::checkArity', 'TypeChecker::evaluateLiteralOpInternal', 'TypeChecker::getLiteralOpType', 'State::mkRequires',
                              'operator<<', 'kindToTerm', 'isLiteralOp', 'isNaryLiteralOp', 'isListLiteralOp', 'State::State', 'Literal::evaluate', 'Expr::getFunctionType')}
    n = 0
    for f in c.prog.funcs.values():
        for node in f.nodes:
            if node['k'] == 'enum' and node['n'].split('::')[-1] == 'EVAL_REQUIRES':
                n += 1
                own = names_of(c.prog, f)
                c.ob('requires-kept', own <= allowed, '%s:%d (%s)' % (f.file, node.get('l', 0), f.name), 'the kind of requirements is handled only by the evaluator',
                     detail=', '.join(sorted(own)))
    c.ob('requires-kept', n >= 4, c.prog.fn1('TypeChecker::checkArity'), 'the kind of requirements is handled')
