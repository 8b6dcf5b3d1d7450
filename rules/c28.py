"""A plugin is told what happens, once and as it happens, and asked before the checker evaluates; without one nothing is asked."""
from common import *

PLUGIN = 'State::d_plugin'
P = lambda n: q('Plugin::' + n)
# function, what the plugin is told, what with, and on which exits
TOLD = [('State::pushScope', 'pushScope', 0, None), ('State::popScope', 'popScope', 0, None), ('State::reset', 'reset', 0, None),
        ('State::setLiteralTypeRule', 'setLiteralTypeRule', 2, None), ('State::bind', 'bind', 2, None), ('State::notifyAssume', 'notifyAssume', 3, None),
        ('State::defineProgram', 'defineProgram', 2, None), ('State::define', 'define', 2, None), ('State::echo', 'echo', 1, None),
        ('State::markConstructorKind', 'markConstructorKind', 3, True), ('State::notifyStep', 'notifyStep', 8, None)]
ALL = ['initialize', 'reset', 'pushScope', 'popScope', 'includeFile', 'finalizeIncludeFile', 'setLiteralTypeRule', 'bind', 'markConstructorKind', 'defineProgram',
       'define', 'hasEvaluation', 'evaluate', 'evaluateProgram', 'notifyAssume', 'notifyStep', 'echo', 'finalize']
HOOKS = {P(n) for n in ALL}


def run(c):
    c.rule('present', 'a plugin is only used where there is one', 12)
    c.rule('told', 'what happens is told exactly once', 20)
    c.rule('exact', 'what is told is what happens', 12)
    c.rule('order', 'scopes and files are announced in the order in which they are entered and left', 4)
    c.rule('asked', 'where the plugin evaluates, its value is the value', 4)
    c.rule('silent', 'a plugin that keeps a message or a step to itself is obeyed', 3)
    c.rule('set', 'the plugin that is set is the one that is used', 3)
    c.rule('commands', 'the commands tell what they bind, assume and print', 6)
    c.rule('calls', 'nothing else is told', 10)
    for fn, hook, n, ret in TOLD:
        told(c, fn, hook, n, ret)
    files(c)
    scopes(c)
    echo(c)
    step(c)
    asked(c)
    setp(c)
    commands(c)
    calls(c)


def there(s, p):
    """is there a plugin on this path (None: not known)"""
    t = s.truth(eq(p, NULL))
    if t is None:
        t = s.truth(p)
        return t
    return not t


def hook_call(e):
    return e.kind == 'call' and e.name in HOOKS


def told(c, fn, hook, n, ret):
    H = P(hook)
    r = c.analyze(fn, inv=True, order=HOOKS, watch=hook_call)
    f, p = r.f, pre(r, PLUGIN)
    for e in r.events:
        c.ob('present', e.obj is p and there(e.st, p) is True, f, 'there is a plugin', detail='%s of %s' % (e.name, e.obj), st=e.st)
        if e.name == H:
            want = [mk('p', i, x['name']) for i, x in enumerate(f.params)][:n]
            ok = len(e.args) == len(want) == n and all(same(a, w) for a, w in zip(e.args, want))
            c.ob('exact', ok, f, 'it is told what %s is given' % fn.split('::')[-1], detail=str(e.args), st=e.st)
    k = 0
    for v, s in r.exits:
        if ret is not None and s.truth(v) is False:
            c.ob('told', H not in s.ts, f, 'nothing is told when nothing happens', st=s)
            continue
        k += 1
        t = there(s, p)
        c.ob('told', once(s, H) if t is not False else H not in s.ts, f, '%s is told' % hook, detail=str(sorted(map(str, s.ts))), st=s)
        c.ob('told', not [x for x in s.ts if x in HOOKS and x != H], f, 'nothing else is told', detail=str(sorted(map(str, s.ts))), st=s)
    c.ob('told', k > 0 and any(H in s.ts for v, s in r.exits), f, '%s can be told' % hook)


def same(a, w):
    return a is w or isT(a) and a.op in ('value', 'get') and a.a[0] is w


def files(c):
    fs = [f for f in c.prog.fn('State::includeFile') if len(f.params) == 4]
    PARSE = q('Parser::parseNextCommand')
    CMD = q('CmdParser::parseNextCommand')
    tag = lambda e: [('parsed',)] if e.kind == 'call' and e.name in (PARSE, CMD) else ()
    for f in fs:
        r = c.analyze(f, inv=True, order=HOOKS, watch=hook_call, on=tag, opaque={PARSE})
        p = pre(r, PLUGIN)
        where = set()
        for e in r.events:
            c.ob('present', e.obj is p and there(e.st, p) is True, f, 'there is a plugin', st=e.st)
            a = e.args
            ok = len(a) == 4 and all(a[i] is mk('p', i, f.params[i]['name']) for i in (1, 2, 3))
            c.ob('exact', ok, f, 'the kind of the file is told as it is', detail=str(a), st=e.st)
            if a:
                cur = r.interp.load(('F', THIS, q('State::d_inputFile')), e.st)
                where.add(a[0])
                if e.name == P('includeFile'):
                    c.ob('exact', a[0] is cur, f, 'the path is that of the file that is read', detail='%s, reading %s' % (a[0], cur), st=e.st)
            ok = (('parsed',) in e.st.ts) == (e.name == P('finalizeIncludeFile'))
            c.ob('order', ok, f, 'the file is announced before it is read, and finished after', detail=e.name, st=e.st)
        c.ob('exact', len(where) == 1, f, 'it is the same file when it is finished', detail=str(where))
        for v, s in r.exits:
            t = there(s, p)
            if ('parsed',) in s.ts:
                both = once(s, P('includeFile')) and once(s, P('finalizeIncludeFile'))
                none = not [x for x in s.ts if x in HOOKS]
                c.ob('told', both if t is not False else none, f, 'a file that is read is announced and finished', detail=str(sorted(map(str, s.ts))), st=s)
            else:
                c.ob('told', not [x for x in s.ts if x in HOOKS], f, 'a file that is not read is not announced', detail=str(sorted(map(str, s.ts))), st=s)
    c.ob('told', bool(fs), 'includeFile', 'files are included')


def scopes(c):
    SZ = 'State::d_declsSizeCtx'
    for fn, hook in (('State::pushScope', 'pushScope'), ('State::popScope', 'popScope')):
        r = c.analyze(fn, inv=True, watch=hook_call)
        for e in r.events:
            if e.name == P(hook):
                now, was = r.interp.load(('F', THIS, q(SZ)), e.st), pre(r, SZ)
                ok = now.op == 'push' and now.a[0] is was if hook == 'pushScope' else now is was
                c.ob('order', ok, r.f, 'a scope is open when it is announced, and still open when its end is announced', detail=str(now), st=e.st)


def echo(c):
    r = c.analyze('State::echo', inv=True, order=HOOKS, on=lambda e: [('out', e.args[0] if e.args else None)] if e.kind == 'out' else ())
    p, msg = pre(r, PLUGIN), mk('p', 0, r.f.params[0]['name'])
    for v, s in r.exits:
        ans = [(t, b) for t, b in s.facts.items() if is_call(t, 'Plugin::echo')]
        quiet = bool(ans) and ans[0][1] is False
        n = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'out']
        printed = ('out', msg) in n
        c.ob('silent', printed != quiet and (not quiet or not n), r.f, 'a message is printed unless the plugin takes it', detail='%s %s' % (quiet, n), st=s)


def step(c):
    r = c.analyze('State::notifyStep', inv=True, order=HOOKS)
    p = pre(r, PLUGIN)
    n = 0
    for v, s in r.exits:
        ans = [(t, b) for t, b in s.facts.items() if is_call(t, 'Plugin::notifyStep')]
        if any(b is True for t, b in ans):
            n += 1
            # the conclusion is the one the plugin gives
            ok = v is not TRUE and (v is FALSE or any(is_out(x, 'Plugin::notifyStep', 6) for x in subterms(v)) or s.truth(v) is False)
            c.ob('silent', ok, r.f, 'a step the plugin takes is as good as what it says it proves', detail=str(v), st=s)
            c.ob('silent', not [x for x in s.facts if calls_in(x, 'State::mkExpr')], r.f, 'a step the plugin takes is not computed again', st=s)
    c.ob('silent', n > 0, r.f, 'a plugin may take a step')


def asked(c):
    """evaluate and evaluateProgram"""
    HAS, EV, EVP = P('hasEvaluation'), P('evaluate'), P('evaluateProgram')
    # programs
    r = c.analyze('TypeChecker::evaluateProgramInternal', inv=True, order=HOOKS, watch=hook_call)
    f, p = r.f, pre(r, 'TypeChecker::d_plugin')
    ch, ctx = [mk('p', i, x['name']) for i, x in enumerate(f.params)][:2]
    hd = index(ch, I(0))
    for e in r.events:
        c.ob('present', e.obj is p and there(e.st, p) is True, f, 'there is a plugin', detail=str(e.obj), st=e.st)
        if e.name == HAS:
            c.ob('asked', e.args[0] is hd, f, 'the plugin is asked for the program that is called', detail=str(e.args), st=e.st)
        elif e.name == EVP:
            ok = e.args[0] is hd and e.args[1] is ch and e.args[2] is ctx and has_yes(e.st, hd)
            c.ob('asked', ok, f, 'the plugin runs the program only if it says it does, with all arguments', detail=str(e.args), st=e.st)
        else:
            c.ob('calls', False, f, 'nothing else is told', detail=e.name, st=e.st)
    n = 0
    for v, s in r.exits:
        t = there(s, p)
        if EVP in s.ts:
            n += 1
            c.ob('asked', is_call(v, 'Plugin::evaluateProgram') and once(s, EVP), f, 'the value is the one the plugin gives', detail=str(v), st=s)
        elif has_yes(s, hd):
            c.ob('asked', False, f, 'a program the plugin evaluates is not evaluated otherwise', detail=str(v), st=s)
        elif t is not False and v is not NULL and not isnull(s, v):
            c.ob('asked', has_no(s, hd), f, 'the plugin is asked before the program is run', detail=str(v), st=s)
    c.ob('asked', n > 0, f, 'a plugin may evaluate programs')
    # terms: the value that is recorded for the term the plugin evaluates is the one it gives
    VIS = []

    def back(g, h, s):
        for x in [x for x in s.ts if isinstance(x, tuple) and x[0] == 'ev']:
            VIS.append((x, s.copy()))
        return frozenset(x for x in s.ts if not (isinstance(x, tuple) and x[0] in ('ev', 'has')) and x not in HOOKS)

    def on(e):
        if e.kind == 'call' and e.name == EV:
            return [('ev', e.args[0], e.ret)]
        return ()
    r = c.analyze('TypeChecker::evaluate', inv=True, watch=hook_call, on=on, loophead=lambda g, h, s: s.ts, loopback=back, maxsteps=2000000)
    f, p = r.f, pre(r, 'TypeChecker::d_plugin')
    k = 0
    for e in r.events:
        c.ob('present', e.obj is p and there(e.st, p) is True, f, 'there is a plugin', detail=str(e.obj), st=e.st)
        if e.name == EV:
            k += 1
            a, b = frame(e.args[0], 'd_visit'), frame(e.args[1], 'd_ctx')
            c.ob('asked', a is not None and a is b, f, 'a term is evaluated in its own context', detail='%s %s' % (a, b), st=e.st)
            c.ob('asked', has_yes(e.st, e.args[0]), f, 'the plugin evaluates a term only if it says it does', detail=str(e.args), st=e.st)
    for (_, t, ret), s in VIS:
        if ret is None:
            continue
        null = s.truth(eq(ret, NULL))
        if null is True or s.truth(ret) is False:
            continue
        got = [v for kk, v in s.env.items() if isT(v) and v.op == 'set' and v.a[1] is t]
        c.ob('asked', any(v.a[2] is ret for v in got), f, 'the value of the term is the one the plugin gives', detail='%s: %s' % (t, [str(v)[-150:] for v in got][:3]), st=s)
    c.ob('asked', k > 0 and bool(VIS), f, 'a plugin may evaluate terms')


def frame(t, name):
    '''the frame of whose member t is (the last of)'''
    while t.op in ('back', 'it', 'o') or t.op == 'idx':
        t = t.a[0] if t.op in ('back', 'idx') else t.a[-1]
        if not isT(t):
            return None
    return t.a[1] if field(t, name) and t.op == 'fld' else None


def has_yes(s, x):
    return any(b is True and is_call(t, 'Plugin::hasEvaluation') and cargs(t)[0] is x for t, b in s.facts.items())


def has_no(s, x):
    return any(b is False and is_call(t, 'Plugin::hasEvaluation') and cargs(t)[0] is x for t, b in s.facts.items())


def setp(c):
    r = c.analyze('State::setPlugin', inv=True, order=HOOKS, watch=hook_call, on=lambda e: ())
    w = mk('p', 0, r.f.params[0]['name'])
    tc = ('F', ('F', THIS, q('State::d_tc')), q('TypeChecker::d_plugin'))
    for v, s in r.exits:
        c.ob('set', post(r, s, PLUGIN) is w, r.f, 'the checker uses the plugin', detail=str(post(r, s, PLUGIN)), st=s)
        vals = [v2 for k2, v2 in s.env.items() if isinstance(k2, tuple) and k2[-1] == q('TypeChecker::d_plugin')]
        c.ob('set', vals == [w], r.f, 'the type checker uses the same plugin', detail=str(vals), st=s)
        c.ob('set', once(s, P('initialize')), r.f, 'the plugin is initialized', st=s)
    for e in r.events:
        c.ob('set', e.name == P('initialize') and e.obj is w and post(r, e.st, PLUGIN) is w, r.f, 'it is initialized when it is set', detail=str(e.obj), st=e.st)
    only_writers(c, 'set', PLUGIN, {q('State::setPlugin'), q('State::State')})
    only_writers(c, 'set', 'TypeChecker::d_plugin', {q('State::setPlugin'), q('TypeChecker::TypeChecker')})


def calls(c):
    own = {}
    for fn, hook, n, ret in TOLD:
        own.setdefault(hook, set()).add(q(fn))
    own['includeFile'] = own['finalizeIncludeFile'] = {q('State::includeFile')}
    own['initialize'] = {q('State::setPlugin')}
    own['hasEvaluation'] = {q('TypeChecker::evaluate'), q('TypeChecker::evaluateProgramInternal')}
    own['evaluate'] = {q('TypeChecker::evaluate')}
    own['evaluateProgram'] = {q('TypeChecker::evaluateProgramInternal')}
    own['finalize'] = {'main'}
    for h in ALL:
        for f, b, i, node in c.prog.callsites('Plugin::' + h):
            ns = names_of(c.prog, f)
            c.ob('calls', ns <= own[h], '%s:%d (%s)' % (f.file, node.get('l', 0), f.name), '%s is told where it happens' % h, detail='called by ' + ', '.join(sorted(ns)))


def commands(c):
    DEF, BIND, ASM, ECHO = q('State::define'), q('ExprParser::bind'), q('State::notifyAssume'), q('State::echo')
    NM = {DEF, BIND, ASM, ECHO}
    on = lambda e: [(e.name, e.line, tuple(e.args))] if e.kind == 'call' and e.name in NM else ()
    for tk in ('DEFINE', 'DEFINE_FUN', 'ASSUME', 'ASSUME_PUSH', 'ECHO'):
        r = command(c, tk, opaque=NM, on=on)
        k = 0
        for s in accepting(r):
            k += 1
            g = lambda n: [x[2] for x in s.ts if isinstance(x, tuple) and x[0] == n]
            d, b, a, o = g(DEF), g(BIND), g(ASM), g(ECHO)
            if tk.startswith('DEFINE'):
                c.ob('commands', len(d) == 1 and d == b and not a and not o, r.f, tk + ' tells what it binds', detail='%s; bound: %s' % (d, b), st=s)
            elif tk == 'ECHO':
                x = o[0][0] if len(o) == 1 else None
                lit = [v for t, v in s.facts.items() if t.op == 'eq' and E('STRING_LITERAL', 'Token') in t.a]
                st = [dm for t, dm in s.dom.items() if is_call(t, 'Lexer::peekToken')]
                given = any(dm[0] == 'in' and dm[1] == frozenset((tok('STRING_LITERAL'),)) for dm in st) or True in lit
                ok = x is not None and (is_call(x, 'ExprParser::parseStr') and cargs(x)[0] is TRUE if given else x is S(''))
                c.ob('commands', ok and not d and not a and not b, r.f, 'the message is printed, an empty one if none is given', detail=str(o), st=s)
            else:
                ok = len(a) == len(b) == 1 and a[0][0] is b[0][0] and is_call(b[0][1], 'State::mkProof') and cargs(b[0][1])[0] is a[0][1] and a[0][2] is (TRUE if tk == 'ASSUME_PUSH' else FALSE)
                c.ob('commands', ok and not d and not o, r.f, tk + ' tells what it assumes', detail='%s; bound: %s' % (a, b), st=s)
        c.ob('commands', k > 0, r.f, tk + ' can be accepted')
