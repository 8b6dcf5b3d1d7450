"""Deep terms need no deep recursion: the cycles of the call graph are known, and none of them descends into a term."""
from common import *
import absint

# The calls that lie on cycles of the call graph, with the reason why their depth does not follow the depth of terms.
# Construction, typing and evaluation call each other: every one of them walks the term it is given with a stack of its own,
# and calls another one only for one operator or application whose arguments are already there (constructed, typed, evaluated).
KNOWN = {
    'State::mkExpr': {'TypeChecker::computeConstructorTermInternal', 'TypeChecker::evaluate', 'TypeChecker::evaluateLiteralOp', 'State::getOverloadInternal', 'TypeChecker::getType',
                      'State::mkApplyAttr', 'State::mkExpr', 'State::mkList'},
    'State::mkApplyAttr': {'State::mkExpr', 'TypeChecker::getType', 'TypeChecker::computeConstructorTermInternal'},
    'State::mkList': {'State::mkExpr'},
    'State::getBoundVar': {'State::mkExpr'},
    'State::getOverloadInternal': {'TypeChecker::computeConstructorTermInternal', 'TypeChecker::getType', 'State::mkApplyAttr', 'State::mkExpr'},
    'TypeChecker::computeConstructorTermInternal': {'TypeChecker::evaluate', 'TypeChecker::getType', 'TypeChecker::getTypeAppInternal'},
    'TypeChecker::evaluate': {'TypeChecker::evaluateLiteralOpInternal', 'TypeChecker::evaluateLiteralOp', 'State::mkExpr'},
    'TypeChecker::evaluateLiteralOp': {'TypeChecker::evaluateLiteralOpInternal'},
    'TypeChecker::evaluateLiteralOpInternal': {'TypeChecker::computeConstructorTermInternal', 'State::getBoundVar', 'TypeChecker::getType', 'State::mkExpr', 'State::mkList'},
    'TypeChecker::getLiteralOpType': {'TypeChecker::getOrSetLiteralTypeRule'},
    'TypeChecker::getOrSetLiteralTypeRule': {'TypeChecker::evaluate'},
    'TypeChecker::getType': {'TypeChecker::getTypeInternal'},
    'TypeChecker::getTypeAppInternal': {'TypeChecker::evaluate'},
    'TypeChecker::getTypeInternal': {'TypeChecker::getLiteralOpType', 'TypeChecker::getOrSetLiteralTypeRule', 'TypeChecker::getTypeAppInternal'},
    # the parser calls itself for what is written inside of attributes, lists of variables and lists of let bindings only
    'ExprParser::parseExpr': {'ExprParser::parseAndBindLetList', 'ExprParser::parseAndBindSortedVarList', 'ExprParser::parseAttributeList'},
    'ExprParser::parseAndBindLetList': {'ExprParser::parseExpr'},
    'ExprParser::parseAndBindSortedVarList': {'ExprParser::parseAndBindSortedVarList', 'ExprParser::parseAttributeList', 'ExprParser::parseType'},
    'ExprParser::parseAttributeList': {'ExprParser::parseExpr', 'ExprParser::parseExprPair'},
    'ExprParser::parseExprPair': {'ExprParser::parseExpr'},
    'ExprParser::parseType': {'ExprParser::parseExpr'},
    # files include files
    'Parser::parseNextCommand': {'CmdParser::parseNextCommand'},
    'CmdParser::parseNextCommand': {'State::includeFile'},
    'State::includeFile': {'Parser::parseNextCommand', 'State::includeFile'},
}
# a call to a function of the same name that is another function (an overload) or that is made for a part of an argument list
SELF = {'State::mkExpr', 'ExprParser::parseAndBindSortedVarList', 'State::includeFile'}
WALKERS = ['ExprValue::computeFlags', 'Expr::getVariables', 'Expr::hasVariable', 'Expr::computeLetBinding', 'Expr::printDebugInternal', 'Expr::getFunctionType', 'State::markDeleted',
           'TypeChecker::match', 'TypeChecker::evaluateProgramInternal', 'TypeChecker::getType', 'TypeChecker::evaluate', 'ExprParser::parseExpr', 'ExprParser::typeCheckProgramPair',
           'State::hash', 'getNAryChildren', 'isNAryList', 'getNAryNthTail', 'ExprParser::parseSymbolicExpr']


def run(c):
    c.rule('walks', 'a function that goes through a term is not part of a cycle of calls, except for the known ones', 10)
    c.rule('cycles', 'every call that lies on a cycle is one whose depth does not follow the depth of terms', 25)
    c.rule('frames', 'a program that is called by the evaluation of another one is run in a frame of the same loop', 3)
    prog = c.prog
    g = graph(prog)
    comp = components(g)
    cyc = {}
    for k in comp:
        if len(k) > 1 or k[0] in g.get(k[0], ()):
            for x in k:
                cyc[x] = set(k)
    base = absint.baseline()
    known = {q(a): {q(b) for b in bs} for a, bs in KNOWN.items()}
    for fid, f in prog.funcs.items():
        if fid not in cyc:
            continue
        c.touch(f.name)
        if f.name not in base:
            # a new function: it may lie between two known ones only
            c.ob('cycles', not selfish(g, prog, base, fid), f, 'a new function does not call itself', detail='via ' + ', '.join(sorted({prog.funcs[x].name for x in cyc[fid]}))[:300])
            continue
        for w in beyond(g, prog, base, fid, cyc[fid]):
            h = prog.funcs[w]
            ok = h.name in known.get(f.name, ())
            if w == fid and f.name not in {q(x) for x in SELF}:
                ok = False
            c.ob('cycles', ok, f, '%s is called without descending into a term' % h.name.split('::')[-1], detail='%s calls %s' % (f.name, h.name))
    for n in WALKERS:
        for f in prog.fn(n, optional=True):
            c.touch(f.name)
            ok = f.id not in cyc or f.name in known
            c.ob('walks', ok, f, 'it does not call itself', detail='on a cycle with ' + ', '.join(sorted({prog.funcs[x].name for x in cyc.get(f.id, ())}))[:300])
    frames(c)


def frames(c):
    """the body of a program is evaluated by pushing a frame, not by evaluating it at once"""
    EV, EP = q('TypeChecker::evaluate'), q('TypeChecker::evaluateProgramInternal')
    g = graph(c.prog)
    for f in c.prog.fn('TypeChecker::evaluateProgramInternal'):
        c.ob('frames', EV not in {c.prog.funcs[x].name for x in reach(g, f.id)}, f, 'finding the case of a program evaluates nothing')
    for f in c.prog.fn('TypeChecker::match'):
        names = {c.prog.funcs[x].name for x in reach(g, f.id)}
        c.ob('frames', not names & {EV, EP, q('State::mkExpr')}, f, 'matching evaluates and constructs nothing', detail=', '.join(sorted(names & {EV, EP, q('State::mkExpr')})))
    for s in c.prog.callsites('TypeChecker::evaluate'):
        own = names_of(c.prog, s[0])
        c.ob('frames', EV not in own and EP not in own, '%s:%d (%s)' % (s[0].file, s[3].get('l', 0), s[0].name), 'evaluation does not evaluate its own subterms or bodies by calling itself', detail=', '.join(sorted(own)))


def graph(prog):
    g = {k: {w for w in v if w in prog.funcs} for k, v in prog.callgraph().items()}
    # a lambda that calls a function object may be calling itself
    for f in prog.funcs.values():
        for b, i, n in f.calls():
            if n.get('n', '').startswith('std::function') and n['n'].endswith('operator()'):
                for fid, h in prog.funcs.items():
                    if 'lambda' in h.name or '(anonymous' in h.name or h.name.endswith('operator()'):
                        g.setdefault(f.id, set()).add(fid)
    return g


def reach(g, x):
    seen, w = set(), [x]
    while w:
        y = w.pop()
        for z in g.get(y, ()):
            if z not in seen:
                seen.add(z)
                w.append(z)
    return seen


def beyond(g, prog, base, x, inside):
    """the functions of the pinned code base x calls (on the cycle), directly or by new functions"""
    out, seen, w = set(), set(), [x]
    while w:
        y = w.pop()
        for z in g.get(y, ()):
            if z not in inside or z in seen:
                continue
            seen.add(z)
            if prog.funcs[z].name in base:
                out.add(z)
            else:
                w.append(z)
    return out


def selfish(g, prog, base, x):
    seen, w = set(), [x]
    while w:
        y = w.pop()
        for z in g.get(y, ()):
            if z == x:
                return True
            if z not in seen and prog.funcs[z].name not in base:
                seen.add(z)
                w.append(z)
    return False


def components(g):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]
    for root in list(g):
        if root in idx:
            continue
        work = [(root, iter(g.get(root, ())))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    k = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        k.append(w)
                        if w == v:
                            break
                    out.append(k)
    return out
