"""The verdict printed and the exit status."""
from common import *

NS = q('State::notifyStep')


def run(c):
    c.rule('step-accounted', 'every accepted step or step-pop accounts for the rule that was applied', 2)
    c.rule('sorry-marked', 'a rule declared :sorry is remembered as such, in every configuration and for good', 3)
    c.rule('verdict', 'correct is printed only if no rule that was accounted for is :sorry, and incomplete only if one is', 2)
    c.rule('verdict-once', 'the program ends with status zero only after help was asked for or after exactly one verdict', 2)
    c.rule('verdict-after-input', 'the verdict comes after all input was read and accepted', 2)
    c.rule('failure-status', 'a failure never returns to its caller and ends the program with a nonzero status', 4)
    steps(c)
    sorry(c)
    main(c)
    fail(c)


def steps(c):
    CNT = q('RuleStat::d_count')
    for tk in ('STEP', 'STEP_POP'):
        def on(ev):
            if ev.kind == 'write' and ev.name == CNT:
                p = ev.objpath
                if p and p[0] == 'S' and p[1][0] == 'I':
                    v = ev.args[0]
                    if v.op == 'plus' and any(x.op == 'i' and x.a[0] > 0 for x in v.a):
                        return [('acc', p[1][2], path_field(p[1][1]))]
            return ()
        r = command(c, tk, [NS], on=on)
        for s in accepting(r):
            rules = {e.args[1] for e in r.events if s.truth(e.ret) is True}
            acc = {t for t in s.ts if isinstance(t, tuple) and t[0] == 'acc'}
            ok = len(rules) == 1 and any(k in (x, mk('value', x)) and f == 'd_rstats' for x in rules for _, k, f in acc)
            c.ob('step-accounted', ok, r.f, tk + ' accounts for its rule', detail='accounted: %s' % sorted((show(k), f) for _, k, f in acc), st=s)
    only_writers(c, 'step-accounted', 'Stats::d_rstats', ['CmdParser::parseNextCommand'])


def path_field(p):
    while p and p[0] in ('I', 'D'):
        p = p[1]
        if isT(p):
            return p.a[0].split('::')[-1] if p.op in ('f', 'fld') else None
    return p[2].split('::')[-1] if p and p[0] in ('F', 'S') else None


def sorry(c):
    MARK = q('State::markProofRuleSorry')
    f = c.prog.fn1('ExprParser::parseAttributeList')
    k = next(i for i, p in enumerate(f.params) if 'Kind' in p['ty'])
    r = c.analyze(f, params={k: kind('PROOF_RULE')}, watch=watch(MARK), order=[MARK])
    for e in r.events:
        ok = e.args[0] is mk('p', 1, f.params[1]['name'])
        c.ob('sorry-marked', ok, e, 'the declared rule is marked', detail=show(e.args[0]))
    c.ob('sorry-marked', bool(r.events), f, ':sorry marks the rule')
    # an iteration that has found :sorry does not complete without marking
    n = 0
    for fn, h, s, ctx in r.backs:
        for t, d in s.dom.items():
            if d[0] == 'in' and d[1] == frozenset((attr('SORRY'),)):
                n += 1
                c.ob('sorry-marked', tagged(s, MARK), f, ':sorry is not skipped', st=s)
    c.ob('sorry-marked', n > 0, f, ':sorry is recognised')
    m = c.analyze('State::markProofRuleSorry')
    p = mk('p', 0, m.f.params[0]['name'])
    for t, s in m.exits:
        v = post(m, s, 'State::d_pfrSorry')
        c.ob('sorry-marked', v is mk('ins', pre(m, 'State::d_pfrSorry'), p) or v.op in ('ins', 'push') and v.a[1] is p, m.f, 'the mark is stored', detail=show(v))
    m = c.analyze('State::isProofRuleSorry')
    p = mk('p', 0, m.f.params[0]['name'])
    for t, s in m.exits:
        h = mk('has', pre(m, 'State::d_pfrSorry'), p)
        c.ob('sorry-marked', t is h or s.truth(t) is not None and s.truth(t) is s.truth(h), m.f, 'the mark is found', detail=show(t))
    only_writers(c, 'sorry-marked', 'State::d_pfrSorry', ['State::markProofRuleSorry'])
    # the attribute is known under its name
    seen = False
    for n in ('ExprParser::ExprParser',):
        r = c.analyze(c.prog.fn(n)[0], watch=lambda e: False)
        for t, s in r.exits:
            v = r.interp.load(('I', ('F', THIS, q('ExprParser::d_strToAttr')), S(':sorry')), s)
            seen = True
            c.ob('sorry-marked', v is attr('SORRY'), r.f, 'the attribute :sorry is known', detail=show(v))


def main(c):
    PN, INC, SORRY = q('Parser::parseNextCommand'), q('State::includeFile'), q('State::isProofRuleSorry')
    f = c.prog.fn1('main')

    def on(ev):
        if ev.kind == 'out' and ev.objpath == ('G', 'std::cout') and ev.args and ev.args[0].op == 's':
            v = ev.args[0].a[0].strip()
            if v in ('correct', 'incomplete'):
                return [v + '+' if v in ev.st.ts else v]
        if ev.name == PN:
            return [('parsed', ev.ret)]
        return ()
    r = c.analyze(f, on=on, watch=lambda e: e.name == 'exit' or (e.kind == 'out' and e.args and e.args[0].op == 's' and
                                                                 e.args[0].a[0].strip() in ('correct', 'incomplete')))
    nv = 0

    def seen(s):
        return any(x and is_call(t, 'State::isProofRuleSorry') and rstats(cargs(t)[0]) for t, x in s.facts.items())

    def flags(s):
        """boolean values known on this path"""
        return [(t, x) for t, x in s.facts.items() if t.op == 'it'] + [(v, s.truth(v)) for p, v in s.env.items() if p[0] == 'L' and isT(v)
                                                                       and v.op in ('it', 'or', 'and') and s.truth(v) is not None]
    for e in r.events:
        s = e.st
        if e.kind == 'out':
            nv += 1
            v = e.args[0].a[0].strip()
            if v == 'incomplete':
                ok = seen(s) or any(implies_seen(r, s, t, x, seen) for t, x in flags(s))
                c.ob('verdict', ok, e, 'incomplete only with a :sorry rule', st=s)
            else:
                c.ob('verdict', not seen(s), e, 'correct only without a :sorry rule', st=s)
                done = any(x and t.op == 'eq' and any(y.op == 'end' and rstats(y.a[0]) for y in t.a) for t, x in s.facts.items())
                c.ob('verdict', done, e, 'correct only after all rules were looked at', st=s)
            c.ob('verdict-after-input', accepted(s), e, v + ' only after the input was accepted', st=s)
        elif e.kind == 'call':
            if e.args[0] is I(0) or e.st.cval(e.args[0]) is I(0):
                n = len([t for t in s.ts if t in ('correct', 'incomplete', 'correct+', 'incomplete+')])
                help_ = any(d[0] == 'in' and len(d[1]) == 1 and next(iter(d[1])).op == 's' and
                            next(iter(d[1])).a[0] in ('--help', '--show-config') for d in s.dom.values())
                c.ob('verdict-once', n == 1 or n == 0 and help_, e, 'status zero after one verdict or for help', st=s)
    for t, s in r.exits:
        n = len([x for x in s.ts if x in ('correct', 'incomplete', 'correct+', 'incomplete+')])
        c.ob('verdict-once', n == 1 or t.op == 'i' and t.a[0] != 0, f, 'returning from main', st=s)
    c.ob('verdict', nv >= 2, f, 'both verdicts are printed')
    # no iteration over the rules forgets a :sorry rule: either it was found not to be :sorry, or a flag records it
    cand = None
    for fn, h, s, ctx in r.backs:
        its = [v for p, v in s.env.items() if isT(v) and v.op in ('it', 'plus') and any(x.op == 'begin' and rstats(x.a[0]) for x in subterms(v))]
        qs = {t: x for t, x in s.facts.items() if is_call(t, 'State::isProofRuleSorry') and rstats(cargs(t)[0])}
        for p, v in s.env.items():
            if isT(v):
                qs.update({t: s.truth(t) for t in calls_in(v, 'State::isProofRuleSorry') if rstats(cargs(t)[0])})
        if not its and not qs:
            continue
        if qs and all(x is False for x in qs.values()):
            c.ob('verdict', True, fn, 'every :sorry rule that was applied is noticed', st=s)
            continue
        lp = [x for x in s.env.get(('LP', ctx, h), ('LPV',))[1:] if x[1] is not None]
        good = set()
        for p, it in lp:
            v = r.interp.load(p, s)
            if v.op == 'b' and v.a[0] is False or (r.interp.load(p, s).op == 'u'):
                continue
            s1 = s.copy()
            keep = not s1.assume(it, True) or s1.truth(v) is True
            hit = True
            for t in qs:
                s2 = s.copy()
                hit = hit and (not s2.assume(t, True) or s2.truth(v) is True)
            if not qs:
                s2 = s.copy()
                hit = not s2.assume(it, False)
            if keep and hit:
                good.add(it)
        cand = good if cand is None else cand & good
        c.ob('verdict', bool(cand), fn, 'every :sorry rule that was applied is noticed', st=s)
    if cand:
        for e in r.events:
            if e.kind == 'out' and e.args[0].a[0].strip() == 'correct':
                c.ob('verdict', any(e.st.truth(it) is False for it in cand), e, 'correct only if no :sorry rule was noticed', st=e.st)


def rstats(t):
    return bool(fields_in(t, 'd_rstats'))


def rstats_key(t):
    return rstats(t)


def accepted(s):
    """the input has been included successfully or parsed to its end"""
    for t, v in s.facts.items():
        if is_call(t, 'State::includeFile') and v and len(cargs(t)) == 2:
            return True
    parsed = [t for t in s.ts if isinstance(t, tuple) and t[0] == 'parsed']
    return any(s.truth(t[1]) is False for t in parsed)


def fail(c):
    from absint import summaries
    for prog in (c.prog, c.dbg):
        sm = summaries(prog)
        for n in ('Lexer::parseError', 'Lexer::unexpectedTokenError'):
            for f in prog.fn(n):
                c.ob('failure-status', f.id in sm.noret, f, '%s does not return (%s)' % (n.split('::')[-1], prog.config))
        for f in prog.funcs.values():
            if f.short == '~FatalStream':
                r = c.run_analysis(prog, f, watch=lambda e: e.name in ('exit', 'abort', '_exit', 'quick_exit', 'std::exit', 'std::abort'))
                c.ob('failure-status', not r.exits, f, 'the end of an error message ends the program (%s)' % prog.config)
                c.ob('failure-status', bool(r.events), f, 'the program is ended (%s)' % prog.config)
                for e in r.events:
                    ok = e.short == 'abort' or e.args and e.args[0].op == 'i' and e.args[0].a[0] != 0
                    c.ob('failure-status', ok, e, 'with a nonzero status (%s)' % prog.config, detail=str(e))
    allowed = {'main', q('FatalStream::~FatalStream')}
    for n in ('exit', '_exit', 'quick_exit', '_Exit', 'std::exit', 'std::quick_exit', 'std::_Exit', 'atexit', 'std::atexit', 'signal', 'std::set_terminate', 'std::at_quick_exit'):
        for f, b, i, node in c.prog.callsites(n):
            own = names_of(c.prog, f)
            c.ob('failure-status', own <= allowed and not n.endswith('quick_exit') and 'atexit' not in n, '%s:%d (%s)' % (f.file, node.get('l', 0), f.name), 'the program is ended by main only')
