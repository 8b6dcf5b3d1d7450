"""Builtin operators are named, applied and printed as documented."""
from common import *
from c31 import params

LO, NA_, AR = 'isLiteralOp', 'isNaryLiteralOp', 'TypeChecker::checkArity'
# name, kind, number of arguments (the documentation of the operators)
OPS = {}
for n, k in ((1, 'is_ok:IS_OK hash:HASH typeof:TYPE_OF nameof:NAME_OF is_z:IS_Z is_q:IS_Q is_bin:IS_BIN is_str:IS_STR is_bool:IS_BOOL is_var:IS_VAR not:NOT neg:NEG is_neg:IS_NEG '
                 'len:LENGTH to_z:TO_INT to_q:TO_RAT to_str:TO_STRING dt_constructors:DT_CONSTRUCTORS dt_selectors:DT_SELECTORS'),
             (2, 'eq:EQ is_eq:IS_EQ var:VAR cmp:COMPARE and:AND or:OR xor:XOR add:ADD mul:MUL qdiv:RAT_DIV zdiv:INT_DIV zmod:INT_MOD gt:GT concat:CONCAT find:FIND to_bin:TO_BIN '
                 'nil:NIL list_len:LIST_LENGTH list_rev:LIST_REV list_setof:LIST_SETOF list_singleton_elim:LIST_SINGLETON_ELIM'),
             (3, 'ite:IF_THEN_ELSE requires:REQUIRES extract:EXTRACT cons:CONS list_concat:LIST_CONCAT list_nth:LIST_NTH list_find:LIST_FIND list_erase:LIST_ERASE '
                 'list_erase_all:LIST_ERASE_ALL list_minclude:LIST_MINCLUDE list_meq:LIST_MEQ list_diff:LIST_DIFF list_inter:LIST_INTER')):
    for w in k.split():
        OPS['eo::' + w.split(':')[0]] = ('EVAL_' + w.split(':')[1], n)
NARY = {'EVAL_' + x for x in 'AND OR XOR ADD MUL CONCAT'.split()}
LISTS = {k for w, (k, n) in OPS.items() if k.startswith('EVAL_LIST_') or k in ('EVAL_NIL', 'EVAL_CONS')}
OTHER = {'->': 'FUNCTION_TYPE', '_': 'APPLY', 'as': 'AS_RETURN', 'eo::as': 'AS'}
PRINTED = dict({k: w for w, (k, n) in OPS.items()}, TYPE='Type', BOOL_TYPE='Bool', AS='eo::as', AS_RETURN='as', FUNCTION_TYPE='->', APPLY='_', APPLY_OPAQUE='_')


def run(c):
    c.rule('names', 'an operator is what its name stands for', 60)
    c.rule('kinds', 'the operators are recognised, and printed by their name', 60)
    c.rule('arity', 'an operator takes as many arguments as documented', 60)
    c.rule('applied', 'an operator is evaluated for that many arguments only', 6)
    c.rule('chain', 'more than two arguments are combined from the left', 5)
    names(c)
    kinds(c)
    arity(c)
    applied(c)


def names(c):
    f = next(f for f in c.prog.funcs.values() if f.name == q('State::State') and len(f.params) == 2)
    BB = [g for g in c.prog.funcs.values() if g.name in (q('State::bindBuiltin'), q('State::bindBuiltinEval'))]
    # every name, as it is finally bound
    B4 = [g for g in BB if g.name == q('State::bindBuiltin') and len(g.params) == 4]
    c.ob('names', len(B4) == 1, f, 'builtin names are bound in one place')
    inl = {q('State::bindBuiltin'), q('State::bindBuiltinEval')}
    opq = {q('State::mkSymbol'), q('State::bind')}
    r = c.analyze(f, inline=inl, opaque=opq, watch=lambda e: False, cap=4000,
                  on=lambda e: [('bind', e.args[0], e.args[1])] if e.kind == 'call' and e.name == q('State::bind') else
                  [('kind', e.objpath, e.args[0])] if e.kind == 'write' and e.name == q('AppInfo::d_kind') else ())
    want = dict({w: k for w, (k, n) in OPS.items()}, **OTHER)
    for t, s in r.exits:
        if absurd(r, s):
            continue
        got = {}
        for x in s.ts:
            if isinstance(x, tuple) and x[0] == 'bind' and any(is_call(y, 'State::mkSymbol') for y in subterms(x[2])):
                w = text(x[1])
                sy = x[2]
                ok = is_call(sy, 'State::mkSymbol') and cargs(sy)[0] is kind('BUILTIN_CONST') and text(cargs(sy)[1]) == w
                c.ob('names', ok, f, 'a name is bound to a symbol of that name', detail=str(w), st=s)
                ks = [y[2] for y in s.ts if isinstance(y, tuple) and y[0] == 'kind' and entry_of(y[1], sy)]
                got.setdefault(w, []).append(ks[0].a[0].split('::')[-1] if len(ks) == 1 and ks[0].op == 'e' else [show(z) for z in ks])
        for w in sorted(set(got) | set(want), key=str):
            c.ob('names', got.get(w) == [want.get(w)], f, '%s' % w, detail='is %s, documented %s' % (got.get(w), want.get(w)), st=s)
    c.ob('names', bool(r.exits), f, 'names are bound')


def text(t):
    """the characters of a string term"""
    if t.op == 's':
        return t.a[0]
    if t.op == 'cat':
        p = [text(x) for x in t.a[:2]]
        return None if None in p else p[0] + p[1]
    if t.op in ('r', 'plus') and 'operator+' in str(t.a[0]) or t.op in ('plus', 'arith'):
        p = [text(x) for x in (t.a[2] if t.op == 'r' else [y for y in t.a if isT(y)])]
        return None if None in p else ''.join(p)
    return None


def entry_of(p, sy):
    """is the path the entry of d_appData for the symbol"""
    while isinstance(p, tuple) and p and p[0] in ('F', 'I', 'S'):
        if p[0] == 'I':
            return isT(p[2]) and any(x is sy for x in subterms(p[2]))
        p = p[1]
    return False


def kinds(c):
    en = [x['n'].split('::')[-1] for x in c.prog.enums[q('Kind')]['values']]
    for fn, want in ((LO, {k for k, n in OPS.values()}), (NA_, NARY), ('isListLiteralOp', LISTS)):
        f = c.prog.fn1(fn)
        for K in en:
            r = c.analyze(f, params={0: kind(K)}, watch=lambda e: False)
            vs = {s.truth(t) for t, s in r.exits}
            c.ob('kinds', vs == {K in want}, f, 'all operators and no others: %s' % K, detail=str(vs))
    f = c.prog.fn1('kindToTerm')
    for x in sorted(PRINTED):
        r = c.analyze(f, params={0: kind(x)}, watch=lambda e: False, cap=4000,
                      on=lambda e: [('out', len([y for y in e.st.ts if isinstance(y, tuple) and y[0] == 'out']), e.args[0])] if e.kind == 'out' and e.args else ())
        for t, s in r.exits:
            out = ''.join(str(text(y[2])) for y in sorted((y for y in s.ts if isinstance(y, tuple) and y[0] == 'out'), key=lambda y: y[1])) if text(t) is None else text(t)
            c.ob('kinds', out == PRINTED[x], f, 'an operator is printed by its name: %s' % x, detail=out, st=s)


def arity(c):
    f = c.prog.fn1(AR)
    for w, (x, m) in sorted(OPS.items()):
        r = c.analyze(f, params={0: kind(x)}, cap=4000, watch=lambda e: False)
        n = params(f)[1]
        ok = False
        for t, s in r.exits:
            v = s.truth(t)
            lo, hi = s.interval(n)
            is_ = lo == hi == m or s.truth(eq(n, I(m))) is True
            not_ = s.truth(eq(n, I(m))) is False or hi is not None and hi < m or lo is not None and lo > m
            c.ob('arity', v is True and is_ or v is False and not_ or v is None and t is eq(n, I(m)), f, 'the number of arguments of %s' % w, detail=show(t), st=s)
            ok |= v is not False
        c.ob('arity', ok, f, '%s is applied' % w)


def applied(c):
    # no value and no type for another number of arguments
    for fn, what in (('TypeChecker::evaluateLiteralOpInternal', 'value'), ('TypeChecker::getLiteralOpType', 'type')):
        f = c.prog.fn1(fn)
        seen = []

        def result(args, obj, st):
            seen.append(args)
            return FALSE
        r = c.analyze(f, watch=lambda e: False, cap=9000, results={q(AR): result})
        k, args = params(f)[:2]
        for t, s in r.exits:
            c.ob('applied', isnull(s, t), f, 'an operator has a %s only for the documented number of arguments' % what, detail=show(t), st=s)
        c.ob('applied', bool(r.exits) and all(a[0] is k and a[1] in [size(x) for x in params(f)[1:3]] for a in seen), f, 'its arguments are counted', detail=str(seen))
    # an application of an operator
    f = c.prog.fn1('State::mkExpr')
    n = 0
    for K in sorted(k for k, n in OPS.values()):
        k = kind(K)
        r = c.analyze(f, params={0: k}, watch=lambda e: False, cap=2000, opaque={q('TypeChecker::evaluateLiteralOp'), q(AR)})
        C = params(f)[1]
        seen = set()
        for t, s in r.exits:
            if absurd(r, s):
                continue
            lo, hi = s.interval(size(C))
            many = lo is not None and lo > 2 or s.truth(mk('lt', I(2), size(C))) is True
            few = hi is not None and hi <= 2 or s.truth(mk('lt', I(2), size(C))) is False
            ar = [b for h, b in s.facts.items() if is_call(h, AR) and cargs(h)[0] is k and cargs(h)[1] is size(C)]
            if is_call(t, 'TypeChecker::evaluateLiteralOp'):
                ok = ar == [True] and cargs(t)[0] is k and cargs(t)[1] is C
                c.ob('applied', ok, f, 'the operator is evaluated for its arguments', detail=show(t), st=s)
                seen.add('value')
                ok = K not in NARY or not many
            elif is_call(t, 'State::mkExprInternal'):
                ok = ar == [False] and cargs(t)[0] is k and cargs(t)[1] is C
                c.ob('applied', ok, f, 'otherwise it is no application of it', detail=show(t), st=s)
                seen.add('none')
                ok = K not in NARY or few
            else:
                ok = K in NARY and many and fold(r, s, t, k, C)
                seen.add('chain')
            c.ob('chain', bool(ok), f, 'more than two arguments are combined from the left: %s' % K, detail=show(t), st=s)
        c.ob('chain', seen == {'value', 'none'} | ({'chain'} if K in NARY else set()), f, 'all numbers of arguments', detail='%s: %s' % (K, sorted(seen)))


def pair(r, x):
    """the two elements of a vector"""
    if x.op == 'list' and len(x.a[0]) == 2:
        return x.a[0]
    if x.op == 'set':
        p = pair(r, x.a[0])
        if p and x.a[1] in (I(0), I(1)):
            p = list(p)
            p[x.a[1].a[0]] = x.a[2]
            return p
    if x.op == 'it' and x in r.loopstates:
        p = pair(r, x.a[-1])
        for w, s in r.loopstates[x]:
            y = w
            while y.op == 'set' and y.a[1] in (I(0), I(1)):
                y = y.a[0]
            p = p and (y is x or pair(r, y)) and p
        return [index(x, I(0)), index(x, I(1))] if p else None
    return None


def fold(r, s, acc, k, C):
    """is acc the combination of all elements from the left"""
    if acc.op != 'it' or acc not in r.loopstates:
        return False
    ix = [y for y in r.loopstates if y.a[0] == acc.a[0] and y is not acc and isT(y.a[-1]) and y.a[-1].op == 'i' and step_of(r, y) == 1]
    for i in ix:
        first = acc.a[-1]
        p = pair(r, cargs(first)[1]) if is_call(first, 'State::mkExpr') and cargs(first)[0] is k else None
        ok = i.a[-1] is I(2) and p and p[0] is index(C, I(0)) and p[1] is index(C, I(1)) or i.a[-1] is I(1) and first is index(C, I(0))
        for w, st in r.loopstates[acc]:
            p = pair(r, cargs(w)[1]) if is_call(w, 'State::mkExpr') and cargs(w)[0] is k else None
            ok = ok and p and p[0] is acc and p[1] is index(C, i)
        if ok and r.loopstates[acc] and (s.truth(mk('lt', i, size(C))) is False or s.truth(eq(i, size(C))) is True):
            return True
    return False
