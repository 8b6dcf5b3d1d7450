"""Reference validation: assumptions are checked against the assertions of the reference."""
from common import *

REF, NF, HAS = 'State::d_referenceAsserts', 'State::d_referenceNf', 'State::d_hasReference'


def run(c):
    c.rule('assumption-validated', 'with a reference, an assumption that is not local is accepted only if it, in normal form, is one of the '
           'assertions of the reference', 2)
    c.rule('assumption-tolerated', 'without a reference, and for local assumptions, any formula is accepted', 2)
    c.rule('assertion-recorded', 'an assertion of the reference is recorded in the same normal form, whatever it is', 2)
    c.rule('invalid-aborts', 'an assumption that is not validated ends the program with an error', 2)
    c.rule('assertions-read', 'assert and define-fun record what they state', 2)
    c.rule('reference-enabled', 'including a reference turns validation on, with its normalization, before the reference is read, and '
           'nothing turns it off', 4)
    c.rule('one-reference', 'a second reference is rejected', 2)
    norm(c)
    cmds(c)
    enable(c)


def normal(s, r, a):
    """the normal form of a on this path, or None if the path has not decided whether there is a normalization"""
    nf = pre(r, NF)
    t = s.truth(nf)
    if t is None:
        t = s.truth(eq(nf, NULL))
        t = None if t is None else not t
    if t is None:
        return None
    if not t:
        return a
    return mk('list', (nf, a))


def is_normal(v, want, a):
    if want is None:
        return False
    if want is a:
        return v is a or v is mk('value', a)
    if v.op == 'value':
        v = v.a[0]
    return is_call(v, 'State::mkExpr') and cargs(v)[0] is kind('APPLY') and cargs(v)[1] is want


def norm(c):
    r = c.analyze('State::addAssumption')
    a = mk('p', 0, r.f.params[0]['name'])
    local = mk('p', 1, r.f.params[1]['name']) if len(r.f.params) > 1 else FALSE
    for t, s in r.exits:
        yes, no = s.copy(), s.copy()
        if yes.assume(t, True):
            hr = yes.truth(pre(r, HAS))
            if hr is not False and yes.truth(local) is not True:
                found = [x for x, v in yes.facts.items() if v and x.op == 'has' and x.a[0] is pre(r, REF)]
                ok = any(is_normal(x.a[1], normal(yes, r, a), a) for x in found)
                c.ob('assumption-validated', ok, r.f, 'accepted only if found in the reference', st=yes)
            else:
                c.ob('assumption-tolerated', True, r.f, 'accepted without validation')
        if no.assume(t, False):
            hr, lo = no.truth(pre(r, HAS)), no.truth(local)
            c.ob('assumption-tolerated', hr is True and lo is not True, r.f, 'rejected only with a reference and when not local', st=no)
            found = [x for x, v in no.facts.items() if v is False and x.op == 'has' and x.a[0] is pre(r, REF)]
            c.ob('assumption-tolerated', any(is_normal(x.a[1], normal(no, r, a), a) for x in found), r.f, 'rejected only if not found', st=no)
    r = c.analyze('State::addReferenceAssert')
    a = mk('p', 0, r.f.params[0]['name'])
    for t, s in r.exits:
        v = post(r, s, REF)
        ok = v.op in ('ins', 'push') and v.a[0] is pre(r, REF) and is_normal(v.a[1], normal(s, r, a), a)
        c.ob('assertion-recorded', ok, r.f, 'the normal form of the assertion is recorded', detail=show(v), st=s)
        k = post(r, s, 'State::d_referenceAssertList')
        ok = k.op == 'push' and is_normal(k.a[1], normal(s, r, a), a)
        c.ob('assertion-recorded', ok, r.f, 'the recorded term is kept alive', detail=show(k))
    only_writers(c, 'assertion-recorded', REF, ['State::addReferenceAssert'])


def cmds(c):
    ADD, ARA = q('State::addAssumption'), q('State::addReferenceAssert')
    for tk in ('ASSUME', 'ASSUME_PUSH'):
        r = command(c, tk, [ADD], order=[ADD])
        for s in accepting(r):
            fs = [v for t, v in s.facts.items() if t.op == 'r' and t.a[0] == ADD]
            c.ob('invalid-aborts', fs == [True], r.f, tk + ' is accepted only when validated', st=s)
        for e in r.events:
            c.ob('invalid-aborts', len(e.args) < 2 or e.st.cval(e.args[1]) is B(tk == 'ASSUME_PUSH'), e, tk + ' is local iff pushed', detail=str(e))
    r = command(c, 'ASSERT', [ARA], order=[ARA])
    for s in accepting(r):
        c.ob('assertions-read', once(s, ARA), r.f, 'assert records one assertion', st=s)
    for e in r.events:
        c.ob('assertions-read', is_call(e.args[0], 'ExprParser::parseFormula'), e, 'assert records the parsed formula', detail=show(e.args[0]))
    r = command(c, 'DEFINE_FUN', [ARA], order=[ARA])
    for s in accepting(r):
        c.ob('assertions-read', once(s, ARA), r.f, 'define-fun records one assertion', st=s)
    for e in r.events:
        t = e.args[0]
        ok = is_call(t, 'State::mkExpr') and cargs(t)[0] is kind('APPLY') and cargs(t)[1].op == 'list' and len(cargs(t)[1].a[0]) == 3
        if ok:
            op, sym, rhs = cargs(t)[1].a[0]
            ok = is_call(op, 'State::getVar') and cargs(op)[0] is S('=') and is_call(sym, 'State::mkSymbol') and \
                bool(calls_in(rhs, 'ExprParser::parseExpr'))
        c.ob('assertions-read', ok, e, 'define-fun records the equation of symbol and definition', detail=show(t))
    only_callers(c, 'assertions-read', 'State::addReferenceAssert', ['CmdParser::parseNextCommand'])


def enable(c):
    f = [f for f in c.prog.fn('State::includeFile') if len(f.params) == 4][0]
    PN = q('Parser::parseNextCommand')
    r = c.analyze(f, watch=watch(PN, 'ethos::State::d_hasReference', 'ethos::State::d_referenceNf'))
    isref, nf = mk('p', 2, f.params[2]['name']), mk('p', 3, f.params[3]['name'])
    n = 0
    for e in r.events:
        if e.name == q(HAS):
            c.ob('reference-enabled', e.kind == 'write' and e.st.cval(e.args[0]) is TRUE or
                 e.kind == 'write' and e.args[0] is mk('or', pre(r, HAS), isref) or e.kind == 'write' and e.args[0] is mk('or', isref, pre(r, HAS)), e, 'validation is only ever turned on', detail=show(e.args[0]))
            c.ob('reference-enabled', e.st.truth(isref) is True or e.args[0].op == 'or', e, 'only a reference turns validation on', st=e.st)
        elif e.name == q(NF):
            c.ob('reference-enabled', e.args[0] is nf and e.st.truth(isref) is True, e, 'the normalization is the one given', detail=show(e.args[0]))
        elif e.name == PN:
            hv = r.interp.load(('F', THIS, q(HAS)), e.st)
            nv = r.interp.load(('F', THIS, q(NF)), e.st)
            it = e.st.truth(isref)
            # inside the loop over the commands the fields may have changed through the commands themselves
            if hv.op in ('it', 'f') and hv is not pre(r, HAS) and it is not True:
                continue
            if it is True:
                n += 1
    # on entry of the parsing loop: what the fields hold
    on = c.analyze(f, watch=watch('ethos::Parser::Parser', 'Parser::setFileInput', 'Parser'), order=[])
    seen = 0
    for e in on.events:
        if e.name != q('Parser::setFileInput'):
            continue
        it = e.st.truth(isref)
        hv, nv = (on.interp.load(('F', THIS, q(x)), e.st) for x in (HAS, NF))
        if it is True:
            seen += 1
            c.ob('reference-enabled', e.st.truth(hv) is True, e, 'validation is on when a reference is read', detail=show(hv))
            c.ob('reference-enabled', nv is nf, e, 'its normalization is set when a reference is read', detail=show(nv))
        else:
            ok = hv is pre(on, HAS) or (hv.op == 'or')
            c.ob('reference-enabled', it is False and ok and nv is pre(on, NF), e, 'other files change neither', detail=show(hv), st=e.st)
    c.ob('reference-enabled', seen > 0, f, 'references are read')
    only_writers(c, 'reference-enabled', HAS, ['State::includeFile'])
    only_writers(c, 'reference-enabled', NF, ['State::includeFile'])
    for name, fld_ in (('State::hasReference', HAS),):
        r = c.analyze(name)
        for t, s in r.exits:
            c.ob('one-reference', t is pre(r, fld_) or s.truth(t) is s.truth(pre(r, fld_)) is not None, r.f, 'reports whether there is a reference', detail=show(t))
    INC = q('State::includeFile')
    for tk in ('REFERENCE', 'INCLUDE'):
        r = command(c, tk, [INC], order=[INC])
        for s in accepting(r):
            c.ob('reference-enabled', once(s, INC), r.f, tk + ' includes one file', st=s)
            ok = any(t.op == 'r' and t.a[0] == INC and v for t, v in s.facts.items())
            c.ob('reference-enabled', ok, r.f, tk + ' is accepted only if the file was included', st=s)
        for e in r.events:
            ref = tk == 'REFERENCE'
            if len(e.args) == 4:
                ok = e.st.cval(e.args[1]) is B(not ref) and e.st.cval(e.args[2]) is B(ref)
                c.ob('reference-enabled', ok, e, tk + ' includes with its mode', detail=str(e))
                n4 = e.args[3]
                ok = e.st.truth(n4) is False or n4.op in ('u', 'null') or is_call(n4, 'ExprParser::parseExpr') and ref
                c.ob('reference-enabled', ok, e, tk + ' passes the given normalization', detail=show(n4))
            else:
                c.ob('reference-enabled', not ref, e, tk + ' includes with its mode', detail=str(e))
            if ref:
                ok = any(is_call(t, 'State::hasReference') and v is False for t, v in e.st.facts.items()) or \
                    any(field(t, 'd_hasReference') and v is False for t, v in e.st.facts.items())
                c.ob('one-reference', ok, e, 'reference only when there is none yet', st=e.st)
