"""Program evaluation and matching."""
from common import *
import c34

EPI = 'TypeChecker::evaluateProgramInternal'


def run(c):
    c.rule('match-sound', 'a pattern matches only if every pair of subterms was compared and found to agree', 6)
    c.rule('match-complete', 'a pattern fails to match only because of a pair that disagrees', 4)
    c.rule('match-fresh', 'matching starts with no pairs compared', 1)
    c.rule('eval-ground', 'a program is evaluated only on ground arguments that are fully evaluated', 2)
    c.rule('eval-case', 'the result is the body of a case of the called program whose whole pattern matched', 4)
    c.rule('eval-first', 'the cases are tried in order and one is skipped only if its pattern does not match', 2)
    c.rule('program', 'the cases of a program are those given, in order', 8)
    c.rule('eval-context', 'the body is evaluated in the substitution of its own case', 3)
    match(c)
    evalp(c)
    context(c)
    c34.programs(c)


def pair_of(t):
    return mk2('first', t), mk2('second', t)


def mk2(n, t):
    return fld('std::pair::' + n, t)


def match(c):
    for f in c.prog.fn('TypeChecker::match'):
        if len(f.params) == 3:
            r = c.analyze(f, watch=watch('TypeChecker::match'), opaque=[q('TypeChecker::match')])
            P = [mk('p', i, p['name']) for i, p in enumerate(f.params)]
            for t, s in r.exits:
                ok = is_call(t, 'TypeChecker::match') and list(cargs(t)[:2]) == P[:2] and cargs(t)[3] is EMPTY
                c.ob('match-fresh', ok, f, 'compares both terms with no pair visited', detail=show(t))
            for e in named(r.events, ('TypeChecker::match')):
                c.ob('match-fresh', e.argpaths and isinstance(e.argpaths[2], tuple) and e.args[2] is P[2], e, 'uses the given substitution', detail=show(e.args[2]))
            continue
        worklist(c, f)
    only_callers(c, 'match-fresh', 'TypeChecker::match', ['TypeChecker::match', EPI, 'TypeChecker::getTypeAppInternal'])


def worklist(c, f):
    r = c.analyze(f, opaque=[q('TypeChecker::match')])
    A, B, X, V = [mk('p', i, p['name']) for i, p in enumerate(f.params)]
    start = mk('pair', A, B)
    W = None
    for t in r.loopvals:
        if t.op == 'it' and isT(t.a[-1]) and segments(t.a[-1]) == [('one', start)]:
            W = t
    c.ob('match-sound', W is not None, f, 'starts with the two terms')
    if W is None:
        return
    for t, s in r.exits:
        if t is FALSE:
            cur = current(s, W)
            ok = cur is not None and disagree(s, *pair_of(cur), ctx=X)
            c.ob('match-complete', ok, f, 'a pair disagrees', st=s)
        elif t is TRUE:
            c.ob('match-sound', s.truth(eq(size(W), I(0))) is True, f, 'matches only when no pair is left', st=s)
        else:
            c.ob('match-sound', False, f, 'the outcome is known', detail=show(t))
    c.ob('match-sound', any(t is TRUE for t, s in r.exits), f, 'a match is possible')
    for v, s in r.loopstates.get(W, ()):
        cur, rest = popped(v, W, s)
        c.ob('match-sound', cur is not None, f, 'every iteration takes one pair', detail=show(v))
        if cur is None:
            continue
        a, b = pair_of(cur)
        ok = agree(r, s, a, b, cur, rest, X, V)
        c.ob('match-sound', ok, f, 'a pair is taken off only if it agrees or its children are left to compare', detail=show(v), st=s)
        nv = [x for p, x in s.env.items() if isT(x) and x.op == 'ins' and root(x) is V]
        for x in nv:
            y = x
            while y.op == 'ins':
                c.ob('match-sound', y.a[1] is cur, f, 'only the pair at hand is marked as compared', detail=show(y.a[1]))
                y = y.a[0]
    for t in r.loopvals:
        if t.op == 'it' and root(t) is V:
            for v in r.loopvals[t]:
                y = v
                while y.op == 'ins':
                    y = y.a[0]
                c.ob('match-sound', y is t, f, 'compared pairs are only added to', detail=show(v))
        if t.op == 'it' and root(t) is X:
            for v in r.loopvals[t]:
                y = v
                while y.op in ('set', 'ins'):
                    y = y.a[0]
                c.ob('match-sound', y is t, f, 'the substitution is only added to', detail=show(v))


def root(t):
    while isT(t) and (t.op == 'it' or t.op in ('ins', 'set', 'push', 'pop')):
        t = t.a[-1] if t.op == 'it' else t.a[0]
    return t


def current(s, W):
    """the pair taken off the worklist, by the facts of the path"""
    for x in (mk('back', W), mk('idx', W, I(0)), mk('idx', W, mk('minus', size(W), I(1)))):
        for t in list(s.facts) + list(s.dom):
            if x in subterms(t):
                return x
    return None


def popped(v, W, s):
    """(the element taken off W, what was pushed after that as a list of segments)"""
    segs = segments(v)
    if not segs or segs[0][0] != 'all':
        return None, None
    base, rest = segs[0][1], segs[1:]
    loops = []
    while base.op == 'it' and base is not W:
        loops.append(base)
        b = base.a[-1]
        sg = segments(b)
        if not sg or sg[0][0] != 'all':
            return None, None
        rest = sg[1:] + [('loop', base)] + rest
        base = sg[0][1]
    if base.op == 'pop' and base.a[0] is W:
        return mk('back', W), rest
    if base.op == 'erase' and base.a[0] is W and base.a[1].op == 'begin':
        return mk('idx', W, I(0)), rest
    return None, None


def ctx_of(s, a, X):
    """terms for the substitution"""
    return {t.a[0] for t in list(s.facts) if t.op == 'has' and t.a[1] is a and root(t.a[0]) is X}


def agree(r, s, a, b, cur, rest, X, V):
    if s.truth(mk('ground', a)) is True:
        return s.truth(eq(a, b)) is True
    for t, v in s.facts.items():
        if v and t.op == 'has' and t.a[1] is cur and root(t.a[0]) is V:
            return True
    if s.cval(mk('kind', a)) is kind('PARAM'):
        for m in ctx_of(s, a, X):
            h = s.truth(mk('has', m, a))
            if h is True:
                return s.truth(eq(index(m, a), b)) is True
            if h is False:
                return any(isT(x) and (x.op == 'set' and x.a == (m, a, b) or x.op == 'ins' and x.a[0] is m and x.a[1] is mkpair(a, b)) for x in s.env.values())
        return False
    ca, cb = mk('children', a), mk('children', b)
    if s.truth(eq(size(ca), size(cb))) is not True and s.cval(size(ca)) is not s.cval(size(cb)):
        return False
    if s.cval(size(ca)) is I(0):
        return False
    if s.truth(eq(mk('kind', a), mk('kind', b))) is not True:
        return False
    for k, x in rest:
        if k != 'loop':
            continue
        lp = [v for v in r.loopvals.get(x, ())]
        if not lp or x in r.unsure:
            continue
        good = True
        for v in lp:
            if not (v.op == 'push' and v.a[0] is x and v.a[1].op == 'pair'):
                good = False
                break
            p, z = v.a[1].a
            w = sweep(r, s, p)
            if w is None or w[0] is not ca:
                good = False
                break
            if not (kid(z)[0] is b and kid(z)[1] is kid(p)[1]):
                good = False
        if good:
            return True
    return False


def disagree(s, a, b, ctx):
    if s.truth(mk('ground', a)) is True:
        return s.truth(eq(a, b)) is False
    ca, cb = size(mk('children', a)), size(mk('children', b))
    if s.truth(eq(ca, cb)) is False or s.truth(eq(mk('kind', a), mk('kind', b))) is False and s.cval(mk('kind', a)) is not kind('PARAM'):
        return s.cval(mk('kind', a)) is not kind('PARAM')
    if s.cval(mk('kind', a)) is kind('PARAM'):
        return any(s.truth(eq(index(m, a), b)) is False for m in ctx_of(s, a, ctx))
    return s.cval(ca) is I(0) and s.truth(eq(mk('kind', a), kind('PARAM'))) is False


def evalp(c):
    r = c.analyze(EPI, watch=watch('TypeChecker::match', 'State::getProgram'))
    ch, cx = [mk('p', i, p['name']) for i, p in enumerate(r.f.params)]
    hd = mk('idx', ch, I(0))
    n = 0
    for t, s in r.exits:
        if isnull(s, t):
            # all cases tried, or something is wrong with the call
            continue
        n += 1
        if t.op == 'r' and t.a[0] == q('Plugin::evaluateProgram'):
            c.ob('eval-ground', ground_args(r, s, ch), r.f, 'ground arguments (plugin)', st=s)
            continue
        c.ob('eval-ground', ground_args(r, s, ch), r.f, 'ground arguments', st=s)
        c.ob('eval-ground', evaluated_args(r, s, ch), r.f, 'evaluated arguments', st=s)
        # t = body of a case of the program
        case, one = kid(t)
        prog = kid(case)[0] if one is I(1) else None
        ok = prog is not None and is_call(prog, 'State::getProgram') and cargs(prog)[0] is hd
        c.ob('eval-case', ok, r.f, 'the result is the body of a case of the called program', detail=show(t), st=s)
        if not ok:
            continue
        pat = mk('children', mkkid(case, 0))
        ms = named(r.events, 'TypeChecker::match')
        good = False
        for e in ms:
            p, a = e.args[0], e.args[1]
            w = whole_args(r, s, a, ch)
            same = p.op == 'idx' and a.op == 'idx' and p.a[1] is a.a[1] and p.a[0] is pat
            if w and same:
                good = True
        c.ob('eval-case', good, r.f, 'every argument is matched against its pattern', st=s)
        nn = size(ch)
        ok = s.truth(eq(nn, size(pat))) is True
        c.ob('eval-case', ok, r.f, 'as many arguments as in the pattern', st=s)
        # the flag carried out of the argument loop
        ok = all_matched(r, s)
        c.ob('eval-case', ok, r.f, 'all matches succeeded', st=s)
    c.ob('eval-case', n > 0, r.f, 'programs evaluate')
    first(c, r, ch, cx)
    only_writers(c, 'eval-case', 'AppInfo::d_attrConsTerm', ['State::markConstructorKind', 'State::defineProgram', 'State::bindBuiltin'])


def ground_args(r, s, ch):
    return s.truth(mk('allground', ch)) is True or flagged(r, s, ch, 'ground', True)


def evaluated_args(r, s, ch):
    return flagged(r, s, ch, 'evaluatable', False)


def flagged(r, s, ch, op, val):
    """every element of ch (maybe from index 1) had the property in a loop that ran to its end"""
    for it in r.loopvals:
        el = mk('idx', ch, it)
        if it.op != 'it' or not r.loopstates.get(it):
            continue
        if step_of(r, it) != 1 or not (it.a[-1] in (I(0), I(1))):
            continue
        if not any(v is False and t.op == 'lt' and t.a[0] is it and t.a[1] is size(ch) for t, v in s.facts.items()) and not \
                (s.truth(mk('lt', it, size(ch))) is False):
            continue
        if all(st.truth(mk(op, el)) is val for v, st in refined(r, s, it)):
            return True
    for it in r.loopvals:
        if it.op == 'it' and isT(it.a[-1]) and it.a[-1].op in ('begin', 'plus') and r.loopstates.get(it):
            b = it.a[-1] if it.a[-1].op == 'begin' else it.a[-1].a[0]
            if it.a[-1].op == 'plus' and it.a[-1].a[1] is not I(1):
                continue
            if b.op == 'begin' and b.a[0] is ch and s.truth(eq(it, mk('end', ch))) is True:
                if all(st.truth(mk(op, mk('deref', it))) is val for v, st in refined(r, s, it)):
                    return True
    return False


def whole_args(r, s, a, ch):
    """a ranges over ch from index 1"""
    if a.op != 'idx' or a.a[0] is not ch or a.a[1].op != 'it':
        return False
    it = a.a[1]
    return it.a[-1] is I(1) and step_of(r, it) == 1


def all_matched(r, s):
    """no match failed in the iteration of this case: the argument loop ends by its bound, and continues only after a match"""
    for it in r.loopstates:
        if it.op != 'it' or it.a[-1] is not I(1):
            continue
        if not any(v is False and t.op == 'lt' and t.a[0] is it for t, v in s.facts.items()) and \
                not any(v and t.op == 'eq' and it in t.a for t, v in s.facts.items()):
            continue
        if all(any(is_call(t, 'TypeChecker::match') and st.truth(t) is True and uses(t, it) for t in list(st.dom) + list(st.facts))
               for v0, st in refined(r, s, it)):
            return True
    return False


def uses(t, it):
    return all(x.op == 'idx' and x.a[1] is it for x in cargs(t)[:2])


def first(c, r, ch, cx):
    # case loop: every continuation of the loop over cases has seen a failed match
    heads = {}
    for g, h, s, ctx in r.backs:
        heads.setdefault((g.id, h, ctx), []).append(s)
    n = 0
    for t, sts in r.loopstates.items():
        if t.op != 'it' or t.a[-1] is not I(0) or step_of(r, t) != 1:
            continue
        if not any(t in subterms(x) for e in named(r.events, ('TypeChecker::match')) for x in e.args[:1]):
            continue
        n += 1
        for v, s in sts:
            ok = any(is_call(x, 'TypeChecker::match') and s.truth(x) is False and t in subterms(x)
                     for x in list(s.facts) + list(s.dom))
            c.ob('eval-first', ok or absurd(r, s), r.f, 'a case is skipped only if an argument does not match', st=s)
    if n == 0:
        for t, sts in r.loopstates.items():
            if t.op == 'it' and isT(t.a[-1]) and t.a[-1].op == 'begin' and step_of(r, t) == 1 and \
                    any(t in subterms(x) for e in named(r.events, ('TypeChecker::match')) for x in e.args[:1]):
                n += 1
                for v, s in sts:
                    ok = any(is_call(x, 'TypeChecker::match') and s.truth(x) is False and t in subterms(x) for x in list(s.facts) + list(s.dom))
                    c.ob('eval-first', ok or absurd(r, s), r.f, 'a case is skipped only if an argument does not match', st=s)
    c.ob('eval-first', n > 0, r.f, 'the cases are tried in their order')
    for e in named(r.events, ('TypeChecker::match')):
        x = e.args[2]
        # the substitution is empty at the first argument of a case, and grows over its arguments only
        while x.op == 'o' or x.op == 'it':
            if x.op == 'it':
                x = x.a[-1]
            else:
                x = next((y for y in reversed(x.a[3]) if isT(y) and (y is EMPTY or y.op in ('it', 'o', 'p'))), None)
                if x is None:
                    break
        c.ob('eval-first', x is EMPTY, e, 'every case starts with an empty substitution', detail=show(e.args[2]))


def context(c):
    """evaluate(body, ctx): the context is the one filled for that body"""
    r = c.analyze('TypeChecker::evaluateProgramApp', watch=watch('TypeChecker::evaluate', EPI))
    n = 0
    for e in named(r.events, ('TypeChecker::evaluate')):
        n += 1
        t, x = e.args[:2]
        t = t.a[0] if t.op == 'value' else t
        ok = is_call(t, EPI) and x.op == 'o' and x.a[0] == q(EPI) and x.a[2] == 1
        c.ob('eval-context', ok, e, 'the body is evaluated in its own substitution', detail='%s in %s' % (show(t), show(x)))
    c.ob('eval-context', n > 0, r.f, 'the result is evaluated')
    for e in named(r.events, EPI):
        c.ob('eval-context', e.args[1] is EMPTY, e, 'starts with an empty substitution', detail=show(e.args[1]))
    for t, s in r.exits:
        ok = is_call(t, 'TypeChecker::evaluate')
        if not ok:
            ok = is_call(t, 'State::mkExprInternal') and cargs(t)[0] is kind('APPLY')
            x = [y for y in list(s.dom) + list(s.facts) if is_call(y, EPI)]
            ok = ok and any(isnull(s, y) or s.truth(eq(y, NULL)) is True for y in x)
        c.ob('eval-context', ok, r.f, 'gives the evaluated body, or the call itself if it does not evaluate', detail=show(t), st=s)
