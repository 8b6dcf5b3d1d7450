"""reset leaves nothing declared, and forgets nothing that counts."""
from common import *

CLEARED = ['d_ruleSymTable', 'd_overloads', 'd_overloadedDecls', 'd_assumptions', 'd_assumptionsSizeCtx', 'd_assumptionsScopeCtx', 'd_decls', 'd_declsSizeCtx']
KEPT = ['d_builtinSymTable', 'd_pfrSorry', 'd_hasReference', 'd_referenceNf', 'd_referenceAsserts', 'd_referenceAssertList', 'd_inputFile', 'd_includes', 'd_boundVars',
        'd_null', 'd_type', 'd_boolType', 'd_true', 'd_false', 'd_self', 'd_any', 'd_fail', 'd_listType', 'd_listNil', 'd_listCons', 'd_proofType', 'd_plugin', 'd_rulesAndPrograms']
RULES = 'TypeChecker::d_literalTypeRules'
CACHE = 'State::d_typeCache'


def run(c):
    c.rule('names', 'after reset, the builtin names are the only ones', 5)
    c.rule('scopes', 'after reset, no scope and no assumption is open', 5)
    c.rule('initial', 'the builtin names are those that are bound when the checker starts', 3)
    c.rule('literals', 'after reset, no type of literals is declared or remembered', 4)
    c.rule('verdict', 'reset does not change what counts for the verdict', 10)
    c.rule('command', 'the reset command resets, and nothing else does', 3)
    resets(c)
    initial(c)
    rules(c)
    commands(c)


def resets(c):
    f = c.prog.fn1('State::reset')
    RL = q('TypeChecker::resetLiteralTypeRules')
    r = c.analyze(f, inv=True, opaque={RL},
                  on=lambda e: ['rules'] if e.kind == 'call' and e.name == RL else ['plugin'] if e.kind == 'call' and e.name == q('Plugin::reset') else ())
    S0, B0, T0 = pre(r, 'State::d_symTable'), pre(r, 'State::d_builtinSymTable'), pre(r, CACHE)
    n = 0
    for v, s in r.exits:
        if absurd(r, s):
            continue
        n += 1
        g = lambda x: post(r, s, 'State::' + x)
        c.ob('names', g('d_symTable') is B0, f, 'a name means what it meant at the start', detail=str(g('d_symTable')), st=s)
        for x in CLEARED:
            c.ob('names' if x in CLEARED[:3] else 'scopes', empty(g(x)), f, 'nothing remains in ' + x, detail=str(g(x)), st=s)
        for x in KEPT:
            c.ob('verdict', g(x) is pre(r, 'State::' + x), f, x + ' is not changed', detail=str(g(x)), st=s)
        # the symbols stay alive: the statistics refer to them by address
        k = g('d_resetSymTables')
        parts = []
        while k.op == 'push':
            parts.append(k.a[1])
            k = k.a[0]
        ok = k is pre(r, 'State::d_resetSymTables') and S0 in parts and pre(r, 'State::d_ruleSymTable') in parts
        c.ob('verdict', ok, f, 'rules that were used stay alive', detail=str(g('d_resetSymTables')), st=s)
        c.ob('literals', 'rules' in s.ts or empties(r, s), f, 'the types of literals are no longer declared', st=s)
        c.ob('literals', forgets(c, r, s, g('d_typeCache'), T0), f, 'the types that were computed are forgotten', detail=str(g('d_typeCache')), st=s)
        p = s.truth(eq(pre(r, 'State::d_plugin'), NULL))
        c.ob('command', ('plugin' in s.ts) or p is True or isnull(s, pre(r, 'State::d_plugin')), f, 'the plugin is told', st=s)
    c.ob('names', n > 0, f, 'reset ends')


def empty(t):
    if t.op == 'resize' and t.a[1] is I(0) or t.op == 'new' and not t.a[1]:
        return True
    if t.op == 'erase' and len(t.a) == 3 and t.a[1] is mk('begin', t.a[0]) and t.a[2] is mk('end', t.a[0]):
        return True
    return t is EMPTY or t.op == 'list' and not t.a[0]


def empties(r, s):
    return any(k[-1] == q(RULES) and empty(v) for k, v in s.env.items() if isinstance(k, tuple))


def forgets(c, r, s, t, T0):
    """only entries for symbols are in the cache"""
    seen = set()
    w = [t]
    while w:
        x = w.pop()
        if x in seen:
            continue
        seen.add(x)
        if empty(x):
            continue
        if x.op == 'it':
            if x.a[-1] is T0 or x in r.unsure:
                return False
            w.append(x.a[-1])
            for y, st in r.loopstates.get(x, ()):
                if y is x:
                    continue
                ok = y.op in ('set', 'ins') and y.a[0] is x
                if not ok:
                    return False
                if not symbolic(st):
                    return False
                w.append(y.a[0])
            continue
        return False
    return True


def symbolic(st):
    """the element that is looked at is a symbol"""
    SYM = {'PARAM', 'CONST', 'PROGRAM_CONST', 'PROOF_RULE', 'VARIABLE'}
    for t, v in st.facts.items():
        if is_call(t, 'isSymbol') and v is True:
            return True
    for t, d in st.dom.items():
        if t.op == 'kind' and d[0] == 'in' and {str(x).split('::')[-1] for x in d[1]} <= SYM:
            return True
    return False


def initial(c):
    f = c.prog.fn1('State::State')
    r = c.analyze(f, inv=True, opaque={q('State::bind'), q('State::bindBuiltin'), q('State::bindBuiltinEval'), q('State::markConstructorKind')},
                  on=lambda e: [('-', 'saved')] if e.kind == 'call' and e.name in (q('State::bind'), q('State::bindBuiltin'), q('State::bindBuiltinEval')) else
                  ['saved'] if e.kind == 'write' and e.name == q('State::d_builtinSymTable') else ())
    n = 0
    for v, s in r.exits:
        n += 1
        c.ob('initial', 'saved' in s.ts, f, 'they are saved after all of them are bound', st=s)
        c.ob('initial', post(r, s, 'State::d_builtinSymTable') is post(r, s, 'State::d_symTable'), f, 'all of them are saved', detail=str(post(r, s, 'State::d_builtinSymTable'))[:200], st=s)
    c.ob('initial', n > 0, f, 'the checker starts')
    only_writers(c, 'initial', 'State::d_builtinSymTable', {q('State::State')})
    only_writers(c, 'verdict', 'State::d_resetSymTables', {q('State::reset')})
    for x in ('d_pfrSorry',):
        only_writers(c, 'verdict', 'State::' + x, {q('State::markProofRuleSorry')})


def rules(c):
    fs = c.prog.fn('TypeChecker::resetLiteralTypeRules', optional=True)
    if not fs:
        return
    f = fs[0]
    backs = []

    def back_(g, h, s):
        backs.append(('null' in s.ts, s.copy()))
        return ()
    r = c.analyze(f, inv=True, watch=lambda e: e.kind == 'write', on=lambda e: ['null'] if e.kind == 'write' else (), loophead=lambda g, h, s: (), loopback=back_)
    for b, st in backs:
        c.ob('literals', b, f, 'every type is reset', st=st)
    m = pre(r, RULES)
    n = 0
    for v, s in r.exits:
        now = post(r, s, RULES)
        n += 1
        ok = empty(now) or any(t.op == 'eq' and b is True and any(x.op == 'it' for x in t.a) for t, b in s.facts.items())
        c.ob('literals', ok, f, 'the type of every kind of literals is visited', detail=str(now), st=s)
    for e in r.events:
        c.ob('literals', e.args[0] is NULL or field(e.args[0], 'd_null'), f, 'no type is left', detail=str(e.args), st=e.st)
    its = [it for it in r.loopstates if it.op == 'it' and isT(it.a[-1]) and it.a[-1].op == 'begin']
    for it in its:
        c.ob('literals', step_of(r, it) == 1, f, 'the type of every kind of literals is visited', detail=str(it))
    c.ob('literals', n > 0 and bool(r.events), f, 'types are reset')


def commands(c):
    R = q('State::reset')
    r = command(c, 'RESET', on=lambda e: [('reset', e.line)] if e.kind == 'call' and e.name == R else [('other', e.name)] if e.kind == 'call' and e.name in MUT else (), opaque={R}, inv=True)
    for s in accepting(r):
        k = [x for x in s.ts if isinstance(x, tuple)]
        c.ob('command', len(k) == 1 and k[0][0] == 'reset', r.f, 'reset resets, and does nothing else', detail=str(k), st=s)
    c.ob('command', bool(accepting(r)), r.f, 'reset is accepted')
    only_callers(c, 'command', 'State::reset', {q('CmdParser::parseNextCommand')})


MUT = {q(x) for x in ('State::bind', 'State::pushScope', 'State::popScope', 'State::pushAssumptionScope', 'State::popAssumptionScope', 'State::addAssumption', 'State::includeFile', 'State::setLiteralTypeRule')}
