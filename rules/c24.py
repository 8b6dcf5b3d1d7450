"""Options: defaults, names, the command line, set-option, and what they change."""
from common import *
from c21 import prefixes

FIELD = {'parse-let': 'd_parseLet', 'print-dag': 'd_printDag', 'stats': 'd_stats', 'stats-all': 'd_statsAll', 'stats-compact': 'd_statsCompact', 'rule-sym-table': 'd_ruleSymTable',
         'normalize-dec': 'd_normalizeDecimal', 'normalize-num': 'd_normalizeNumeral', 'normalize-hex': 'd_normalizeHexadecimal'}
DEFAULT = {'parse-let': True, 'print-dag': True, 'stats': False, 'stats-all': False, 'stats-compact': False, 'rule-sym-table': True,
           'normalize-dec': True, 'normalize-num': False, 'normalize-hex': True}
IMPLY = {'stats-all', 'stats-compact'}
SET = q('Options::setOption')
OPT = q('Options')


def run(c):
    c.rule('defaults', 'every option has its documented default', 9)
    c.rule('names', 'every documented name sets its option to the given value, and no other one', 9)
    c.rule('unknown', 'any other name is no option and changes nothing', 1)
    c.rule('line', '--X turns the option X on and --no-X turns it off', 6)
    c.rule('command', 'set-option sets the option that is named to the value that is given, except in a reference', 4)
    c.rule('fixed', 'options are set by nothing else', 2)
    c.rule('effect', 'an option has its documented effect', 6)
    defaults(c)
    names(c)
    line(c)
    command_(c)
    effect(c)


def opts_of(s):
    return {k[-1].split('::')[-1]: v for k, v in s.env.items() if isinstance(k, tuple) and k[0] == 'F' and isinstance(k[-1], str) and k[-1].startswith(OPT + '::')}


def defaults(c):
    r = c.analyze('Options::Options')
    for v, s in r.exits:
        for n, fl in FIELD.items():
            x = post(r, s, 'Options::' + fl)
            c.ob('defaults', x is (TRUE if DEFAULT[n] else FALSE), r.f, '%s is %s by default' % (n, 'on' if DEFAULT[n] else 'off'), detail=str(x), st=s)
    c.ob('defaults', bool(r.exits), r.f, 'there are defaults')


def names(c):
    r = c.analyze('Options::setOption', inv=True)
    key, val = [mk('p', i, x['name']) for i, x in enumerate(r.f.params)][:2]
    seen = set()
    for v, s in r.exits:
        d = s.dom.get(key)
        ks = d[1] if d is not None and d[0] == 'in' else None
        now = {fl: post(r, s, 'Options::' + fl) for fl in FIELD.values()}
        was = {fl: pre(r, 'Options::' + fl) for fl in FIELD.values()}
        if s.truth(v) is False:
            known = {k for k in FIELD if ks is not None and S(k) in ks or ks is None and not (d is not None and S(k) in d[1])}
            c.ob('unknown', not known, r.f, 'documented options are known', detail=str(known), st=s)
            c.ob('unknown', now == was, r.f, 'what is no option changes nothing', detail=str(ks), st=s)
            continue
        if ks is None or s.truth(v) is not True:
            c.ob('unknown', False, r.f, 'only documented options are known', detail='%s %s' % (d, v), st=s)
            continue
        for k in ks:
            n = k.a[0]
            seen.add(n)
            if n not in FIELD:
                c.ob('unknown', False, r.f, 'only documented options are known', detail=n, st=s)
                continue
            for fl in FIELD.values():
                if fl == FIELD[n]:
                    ok = same(s, now[fl], val)
                elif fl == 'd_stats' and n in IMPLY:
                    t = s.truth(val)
                    ok = t is True and s.truth(now[fl]) is True or t is False and now[fl] is was[fl] or now[fl] in (mk('or', val, was[fl]), mk('or', was[fl], val)) or t is None and implied(s, now[fl], val, was[fl])
                else:
                    ok = now[fl] is was[fl]
                c.ob('names', ok, r.f, '%s sets %s' % (n, 'what it names' if fl == FIELD[n] else 'no other option'), detail='%s = %s' % (fl, now[fl]), st=s)
    c.ob('names', seen == set(FIELD), r.f, 'every documented option is known', detail=str(sorted(set(FIELD) - seen)))


def same(s, x, val):
    t = s.truth(val)
    return x is val or t is True and x is TRUE or t is False and x is FALSE


def implied(s, x, val, was):
    for b in (True, False):
        y = s.copy()
        if not y.assume(val, b):
            continue
        if b and y.truth(x) is not True:
            return False
        if not b:
            for w in (True, False):
                z = y.copy()
                if z.assume(was, w) and z.truth(x) is not w:
                    return False
    return True


def line(c):
    f = [g for g in c.prog.funcs.values() if g.name == 'main'][0]

    def on(e):
        if e.kind == 'call' and e.name == SET:
            return [('opt', e.obj, tuple(e.args), e.ret)]
        if e.kind == 'call' and e.name == q('Stats::toString'):
            return [('stats', e.obj, tuple(e.args))]
        return ()
    backs = []

    def back(g, h, s):
        own = [t for t, v in s.facts.items() if v is True and t.op == 'lt' and par0(f) in t.a and t.a[0].op == 'it' and t.a[0].a[0][3] == h]
        if own or not any(par0(f) in t.a and t.op == 'lt' for t in s.facts):
            backs.append(s.copy())
        return ()
    r = c.analyze(f, inv=True, opaque={SET, q('State::includeFile'), q('Parser::parseNextCommand'), q('Parser::setFileInput'), q('State::isProofRuleSorry')}, on=on,
                  loophead=lambda g, h, s: s.ts, loopback=back, cap=3000, watch=lambda e: e.kind == 'call' and e.name.split('::')[-1] == 'exit' or e.kind == 'ctor' and e.name == q('State::State'))
    n = set()
    for s in backs:
        A = [x.a[1] for t in s.dom for x in subterms(t) if x.op == 'r' and x.a[0].endswith('::compare') and x.a[1].op == 'idx' and x.a[1].a[0].op == 'p']
        A += [x[2][0].a[1] for x in s.ts if isinstance(x, tuple) and x[0] == 'opt' and x[2][0].op == 'r' and x[2][0].a[1].op == 'idx']
        if not A:
            c.ob('line', not [x for x in s.ts if isinstance(x, tuple) and x[0] == 'opt'], f, 'options are set only for arguments', st=s)
            continue
        A = A[0]
        P = prefixes(s, A)
        for t, v in s.facts.items():
            if t.op == 'eq' and v is True and A in t.a:
                k = [y for y in t.a if y is not A][0]
                if k.op == 's':
                    for pf in ('--no-', '--'):
                        P.setdefault(pf, k.a[0].startswith(pf))
        if P.get('--include=') or P.get('--reference='):
            P.setdefault('--no-', False)
        if P.get('--no-'):
            P['--'] = True
        opt = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'opt']
        args = [(tail(x[2][0], A), {True: TRUE, False: FALSE}.get(s.truth(x[2][1]), x[2][1])) for x in opt]
        if P.get('--no-') is True:
            n.add('no')
            ok = args == [(5, FALSE)]
        elif P.get('--no-') is False and P.get('--') is True:
            n.add('yes')
            ok = args == [(2, TRUE)] or P.get('--include=') or P.get('--reference=') or bool({'--help', '--show-config'} & {y.a[0] for t, v in s.facts.items() if v is True and t.op == 'eq' and A in t.a for y in t.a if y.op == 's'})
            ok = ok and not (args and args != [(2, TRUE)])
        elif P.get('--no-') is False and P.get('--') is False:
            n.add('none')
            ok = not args
        else:
            ok = False
        c.ob('line', ok, f, '--X and --no-X are looked up as options', detail='%s: %s' % (P, args), st=s)
        # an argument that is an option is nothing else; one that is none is not lost
        its = [(it, v) for it, l in r.loopstates.items() for v, st in l if same_state(st, s)]
        other = [(it, v) for it, v in its if v is not it and it.op == 'it' and isT(it.a[-1]) and not (it.a[-1].op == 'i' and isT(v) and v.op != 'it') and not (it.a[-1].op == 'new' and it.a[-1].a[0].endswith('Options'))]
        taken = [x for x in opt if s.truth(x[3]) is True]
        if taken:
            c.ob('line', not other, f, 'an argument that is an option is nothing else', detail=str(other)[:300], st=s)
        elif its and not debugarg(s, A):
            c.ob('line', bool(other), f, 'an argument that is no option is not lost', detail='%s' % P, st=s)
    c.ob('line', n == {'no', 'yes', 'none'}, f, 'arguments are read', detail=str(n))
    # statistics are printed at the end if they are asked for, in the form that is asked for
    k = 0
    for e in r.events:
        if e.kind == 'ctor':
            done = any(v is False and t.op == 'lt' and t.a[1] is par0(f) for t, v in e.st.facts.items()) or any(v is True and t.op == 'eq' and par0(f) in t.a for t, v in e.st.facts.items())
            c.ob('line', done, f, 'the options are read before anything else is done', st=e.st)
            continue
        st = e.st
        if not any('rstats' in str(t) for t in st.facts):
            continue            # --help and --show-config
        k += 1
        on_ = [v for t, v in st.facts.items() if field(t, 'd_stats')]
        got = [x for x in st.ts if isinstance(x, tuple) and x[0] == 'stats']
        c.ob('effect', on_ and on_[0] == bool(got) and len(got) < 2, f, 'statistics are printed if they are asked for', detail='%s %s' % (on_, len(got)), st=st)
        for _, o, a in got:
            c.ob('effect', field(a[1], 'd_statsCompact') and field(a[2], 'd_statsAll'), f, 'statistics are printed in the form that is asked for', detail=str(a[1:]), st=st)
    c.ob('effect', k > 0, f, 'the run ends')
    allowed = {'main', q('CmdParser::parseNextCommand')}
    for g, b, i, node in c.prog.callsites('Options::setOption'):
        own = names_of(c.prog, g)
        c.ob('fixed', own <= allowed, '%s:%d (%s)' % (g.file, node.get('l', 0), g.name), 'options are set only by arguments and set-option', detail=', '.join(sorted(own)))
    for fl in FIELD.values():
        only_writers(c, 'fixed', 'Options::' + fl, {q('Options::setOption'), q('Options::Options')})


def par0(f):
    return mk('p', 0, f.params[0]['name'])


def same_state(a, b):
    return a is b or a.dom == b.dom and a.facts == b.facts


def debugarg(s, A):
    for t, v in s.facts.items():
        if t.op == 'eq' and v is True and A in t.a:
            return True
    return False


def tail(t, A):
    if t.op == 'r' and t.a[0].endswith('::substr') and t.a[1] is A and t.a[2][0].op == 'i':
        return t.a[2][0].a[0]
    return None


def command_(c):
    r = command(c, 'SET_OPTION', opaque={SET}, on=lambda e: [('opt', e.obj, tuple(e.args), e.ret)] if e.kind == 'call' and e.name == SET else ())
    n = 0
    for s in accepting(r):
        opt = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'opt']
        ref = [v for t, v in s.facts.items() if field(t, 'd_isReference')]
        if True in ref:
            c.ob('command', not opt, r.f, 'in a reference, set-option is ignored', st=s)
            continue
        c.ob('command', not opt or False in ref, r.f, 'in a reference, set-option is ignored', detail='not decided', st=s)
        val = value(s)
        sym = [d for t, d in s.dom.items() if is_call(t, 'Lexer::peekToken')]
        sym = any(d[0] == 'in' and d[1] == frozenset((tok('SYMBOL'),)) for d in sym)
        if val is None or not sym:
            c.ob('command', not opt, r.f, 'only true and false are values of options', detail=str(opt), st=s)
            continue
        n += 1
        ok = len(opt) == 1 and is_call(opt[0][2][0], 'ExprParser::parseKeyword') and s.truth(opt[0][2][1]) is val and is_call(opt[0][1], 'State::getOptions')
        c.ob('command', ok, r.f, 'set-option sets the option that is named to the value that is given', detail='%s %s' % (val, opt), st=s)
    c.ob('command', n >= 2, r.f, 'set-option sets options')


def value(s):
    for t, d in s.dom.items():
        if is_call(t, 'Lexer::tokenStr') and d[0] == 'in' and d[1] <= {S('true'), S('false')} and len(d[1]) == 1:
            return S('true') in d[1]
    return None


def effect(c):
    # printing
    f = c.prog.fn1('Expr::printDebug')
    LET = q('Expr::computeLetBinding')
    r = c.analyze(f, inv=True, order=[LET], opaque={LET, q('Expr::printDebugInternal')})
    for v, s in r.exits:
        dag = [b for t, b in s.facts.items() if field(t, 'd_printDag')]
        c.ob('effect', bool(dag) and (LET in s.ts) == dag[0], f, 'terms are printed with shared subterms named unless this is turned off', detail='%s' % dag, st=s)
    # statistics are counted if they are asked for when the checker starts
    for fn, fl in (('CmdParser::CmdParser', 'CmdParser::d_statsEnabled'), ('TypeChecker::TypeChecker', 'TypeChecker::d_statsEnabled')):
        r = c.analyze(fn, inv=True)
        for v, s in r.exits:
            x = post(r, s, fl)
            c.ob('effect', field(x, 'd_stats'), r.f, 'statistics are counted if they are asked for', detail=str(x), st=s)
    # proof rules
    f = c.prog.fn1('State::getProofRule')
    r = c.analyze(f, inv=True)
    n = set()
    for v, s in r.exits:
        sep = [b for t, b in s.facts.items() if field(t, 'd_ruleSymTable') and (t.op == 'fld' or 'Options' in t.a[0])]
        if not sep:
            c.ob('effect', False, f, 'where rules are looked up depends on the option', st=s)
            continue
        T = 'State::d_ruleSymTable' if sep[0] else 'State::d_symTable'
        O = 'State::d_symTable' if sep[0] else 'State::d_ruleSymTable'
        has = str(pre(r, O)) in {str(y) for t in list(s.facts) + ([v] if isT(v) else []) for y in subterms(t)}
        n.add(sep[0])
        c.ob('effect', not has and any(pre(r, T) in list(subterms(t)) for t in s.facts), f, 'rules have a table of their own unless this is turned off', detail=str(v), st=s)
    c.ob('effect', n == {True, False}, f, 'both ways to look up rules are possible', detail=str(n))
