"""The loop that reads terms (ExprParser::parseExpr), as a pushdown machine: what every token and every finished subterm does."""
from common import *

NT, TS, SYM = 'Lexer::nextToken', 'Lexer::tokenStr', 'ExprParser::tokenStrToSymbol'
PUSH, POP = 'State::pushScope', 'State::popScope'


class Reader:
    def __init__(self, c):
        self.c = c
        p = c.prog
        f = self.f = p.fn1('ExprParser::parseExpr')
        decl = {}
        for b, i in f.elements():
            if isinstance(i, dict) and i['k'] == 'decl':
                for v in i['vars']:
                    decl.setdefault(v.get('ty', ''), []).append(v['n'])
        st = [n for ty, ns in decl.items() if 'vector<' in ty and 'StackFrame' in ty and not ty.endswith('&') for n in ns]
        lb = [n for ty, ns in decl.items() if ty.startswith('std::vector<std::vector<std::pair<') and not ty.endswith('&') for n in ns]
        if len(st) != 1 or len(lb) != 1:
            raise Broken('parseExpr: the stack of open terms was not found: %s %s' % (st, lb))
        self.P, self.LB = ('L', (), st[0]), ('L', (), lb[0])
        # what closes the scopes of a frame
        self.closers = {g.name for g in p.funcs.values() if g.cls and g.cls.endswith('StackFrame') and g.blocks and
                        any(h.name == q(POP) for h in (p.funcs[x] for x in p.callgraph().get(g.id, ()) if x in p.funcs))}
        opq = {q(x) for x in (PUSH, POP, 'State::mkExpr', 'ExprParser::bind', 'State::mkLiteral', 'ExprParser::getVar', SYM, 'ExprParser::unescapeString',
                              'ExprParser::parseAttributeList', 'State::mkBinderList', 'State::mkLetBinderList', 'ExprParser::parseAndBindSortedVarList',
                              'ExprParser::parseAndBindLetList', 'ExprParser::parseSymbol')} | self.closers
        # the loops over tokens and over finished terms; in a loop inside of them the effects before it are kept
        lo = f.loopinfo()
        top = {h for h in lo if sum(1 for b in lo.values() if h in b) <= 2}
        self.r = c.analyze(f, inv=True, opaque=opq, on=self.on, cap=3000,
                           loophead=lambda g, h, s: () if g is f and h in top else [x if x[0] == 'before' else ('before', x) for x in s.ts if isinstance(x, tuple)],
                           loopback=lambda g, h, s: () if g is f and h in top else [x for x in s.ts if isinstance(x, tuple) and x[0] == 'before'])
        r = self.r
        its = [t for t, s in r.exits if t.op == 'it']
        if not its or len({(t.a[0], t.a[1]) for t in its}) != 1:
            raise Broken('parseExpr: the loop over finished terms was not found')
        self.site, self.ret = its[0].a[0], its[0].a[1]
        self.retp = ('L', (), self.ret)
        self.rets = [it for it in r.loopentries if it.op == 'it' and it.a[0] == self.site and it.a[1] == self.ret]
        heads = {h for g, h, s, ctx in r.backs if g is f and ctx == ()}
        self.outer = [h for h in heads if h != self.site[3] and any(it.op == 'it' and it.a[0][3] == h and it.a[1] == self.ret for it in r.loopentries)]
        if len(self.outer) != 1:
            raise Broken('parseExpr: the loop over tokens was not found')
        self.outer = self.outer[0]

    def on(self, e):
        ts = e.st.ts
        out = []
        n = sum(1 for x in ts if isinstance(x, tuple))
        if e.kind == 'cont':
            if e.objpath == self.P:
                out = [('frame', e.args) if e.short in ('push_back', 'emplace_back') else ('unframe', e.short)]
            elif e.objpath == self.LB:
                out = [('lets', e.short)]
            elif e.name.endswith('StackFrame::d_args::' + e.short):
                out = [('arg', e.short, e.obj, tuple(e.args))]
            elif e.obj is not None and e.obj.op == 'back' and e.short in ('push_back', 'emplace_back', 'pop_back', 'clear', 'erase', 'insert'):
                out = [('binding', e.short, e.obj, tuple(e.args))]
        elif e.kind == 'call':
            if e.name in self.closers:
                out = [('close', e.obj)]
            elif e.name == q(POP):
                out = [('closeone',)]
            elif e.name == q(PUSH):
                out = [('open',)]
            elif e.name == q('State::mkExpr'):
                out = [('app', tuple(e.args))]
            elif e.name == q('ExprParser::bind'):
                out = [('bind', tuple(e.args))]
            elif e.name in (q('Lexer::eatToken'), q('Lexer::eatTokenChoice')):
                out = [('eat', tuple(e.args), e.ret)]
            elif e.name == q('Lexer::reinsertToken'):
                out = [('back', e.args[0])]
        elif e.kind == 'write' and e.name.endswith(('StackFrame::d_ctx', 'StackFrame::d_nscopes', 'StackFrame::d_args')):
            out = [('set', e.name.split('::')[-1], e.args[0])]
        elif e.kind == 'write' and e.name == 'std::pair::second':
            out = [('second', e.args[0], e.objpath)]
        return [(x[0], n) + tuple(tuple(y) if isinstance(y, list) else y for y in x[1:]) for x in out]


def seq(s):
    """the effects of this step, in order"""
    return [(x[0],) + x[2:] for x in sorted((x[1] if x[0] == 'before' else x for x in s.ts if isinstance(x, tuple)), key=lambda x: x[1])]


def now(s):
    """the effects of this iteration of an inner loop"""
    return [(x[0],) + x[2:] for x in sorted((x for x in s.ts if isinstance(x, tuple) and x[0] != 'before'), key=lambda x: x[1])]


def only(ts, k):
    return [x for x in ts if x[0] == k]


def frame(args):
    """(context, scopes, arguments) of a new frame"""
    a = list(args)
    if len(a) == 1 and a[0].op == 'new' and a[0].a[0].endswith('StackFrame'):
        a = list(a[0].a[1])
    if len(a) == 1 and a[0].op == 'tuple':
        a = list(a[0].a)
    return a[0], a[1] if len(a) > 1 else I(0), a[2] if len(a) > 2 else EMPTY


def tokens(s):
    return [t for t in s.dom if is_call(t, NT)]


def possible(c, s, t, names):
    out = []
    for n in names:
        if s.copy().assume(eq(t, tok(n)), True):
            out.append(n)
    return out


def isnull(s, t):
    return t is NULL or field(t, 'd_null') or s.truth(eq(t, NULL)) is True


def reading(c):
    rd = Reader(c)
    r, f = rd.r, rd.f

    def ob(rule, *a, **k):
        if rule in c.rules:
            c.ob(rule, *a, **k)

    names = c.prog.enum('Token')
    seen = set()
    # what a token does
    entries = [(it.a[-1], s) for it in rd.rets for s in r.loopentries[it]]
    entries += [(t, s) for t, s in r.exits if t.op != 'it']
    for v, s in entries:
        ts = seq(s)
        W0 = r.interp.load(rd.P, s)
        fr = only(ts, 'frame')
        if v.op == 'it' or isnull(s, v):
            opening(c, ob, rd, s, ts, seen)
        elif is_call(v, 'State::mkExpr'):
            closing(c, ob, rd, v, s, ts, W0)
            seen.add('RPAREN')
        else:
            T = tokens(s)
            ob('token', len(T) == 1, f, 'one token is read', detail=str(T), st=s)
            ob('token', not [x for x in ts if x[0] not in ('app',)], f, 'a token that is a term changes nothing else', detail=str(ts), st=s)
            if len(T) == 1:
                ks = possible(c, s, T[0], names)
                for K in ks:
                    seen.add(K)
                    base(c, ob, rd, K, T[0], v, s)
    want = ['LPAREN', 'RPAREN', 'SYMBOL', 'QUOTED_SYMBOL', 'INTEGER_LITERAL', 'DECIMAL_LITERAL', 'RATIONAL_LITERAL', 'HEX_LITERAL', 'BINARY_LITERAL',
            'STRING_LITERAL', 'TYPE', 'BOOL_TYPE']
    for K in want:
        ob('token', K in seen, f, '%s begins or ends a term' % K)
    # what a finished subterm does
    ctxs = {}
    for it in rd.rets:
        for v, s in r.loopstates.get(it, ()):
            reduce(c, ob, rd, it, v, s, ctxs)
    for n in ('NEXT_ARG', 'LET_NEXT_BIND', 'LET_BODY', 'TERM_ANNOTATE_BODY'):
        ob('application' if n == 'NEXT_ARG' else 'let' if n.startswith('LET') else 'annotation', ctxs.get(n), f, 'a subterm in context %s' % n)
    # nothing is dropped
    for g, h, s, ctx in r.backs:
        if g is f and ctx == () and h == rd.outer:
            t = r.interp.load(rd.retp, s)
            ob('application', isnull(s, t), f, 'a subterm is used before the next token is read', detail=str(t), st=s)
    for t, s in r.exits:
        P = r.interp.load(rd.P, s)
        ob('application', s.truth(eq(size(P), I(0))) is True, f, 'a term ends when everything opened in it is closed', detail=str(P), st=s)
    frames(c, ob, rd)


def opening(c, ob, rd, s, ts, seen):
    f, r = rd.f, rd.r
    T = tokens(s)
    fr = [frame(x[1]) for x in only(ts, 'frame')]
    ok = bool(fr) and any(possible(c, s, t, ['LPAREN', 'RPAREN', 'SYMBOL', 'INTEGER_LITERAL']) == ['LPAREN'] for t in T)
    ob('application', ok, f, 'only a parenthesis opens a term', detail=str(ts), st=s)
    if not ok:
        return
    seen.add('LPAREN')
    opens = len(only(ts, 'open'))
    last = fr[-1]
    n = s.cval(last[0])
    ob('scope', sum(s.cval(x[1]).a[0] if s.cval(x[1]).op == 'i' else 99 for x in fr) == opens and not only(ts, 'close') and not only(ts, 'closeone'),
       f, 'a frame closes the scopes opened for it', detail=str((opens, fr)), st=s)
    if n is E('NEXT_ARG', 'ParseCtx'):
        a = segments(last[2])
        hd = a[0][1] if a and a[0][0] == 'one' else None
        ok = hd is not None and is_call(hd, 'ExprParser::getVar') and is_call(cargs(hd)[0], SYM)
        ob('application', ok, f, 'the head of an application', detail=str(last), st=s)
        if not ok:
            return
        sy = cargs(hd)[0]
        t2 = cargs(sy)[0]
        ob('application', is_call(t2, NT) and len({t for t in T if t is not t2}) >= 1, f, 'the head follows the parenthesis', detail=str(t2), st=s)
        qual = s.cval(sy).op == 's' and s.cval(sy).a[0] in ('_', 'as')
        if len(fr) == 2:
            ob('application', qual and frame(only(ts, 'frame')[0][1])[0] is E('NEXT_ARG', 'ParseCtx') and frame(only(ts, 'frame')[0][1])[2] is EMPTY, f,
               'a head that is a qualified or indexed symbol', detail=str(fr), st=s)
        else:
            ok = len(fr) == 1 and not [x for x in possible(c, s, t2, c.prog.enum('Token')) if x not in ('SYMBOL', 'QUOTED_SYMBOL')]
            ob('application', ok, f, 'one term is opened', detail=str((fr, qual)), st=s)
        # binders
        ck = mk('r', q('State::getConstructorKind'), None, ())
        cks = [h for h in list(s.dom) if is_call(h, 'State::getConstructorKind') and under(cargs(h)[0]) is hd]
        isb = any(s.cval(h) is attr('BINDER') for h in cks)
        isl = any(s.cval(h) is attr('LET_BINDER') for h in cks)
        later = [t for t in T if t is not t2 and t.a[3:] > t2.a[3:]] if len(t2.a) > 3 else []
        third = [h for h in T if h is not t2]
        listed = any(is_call(h, 'Lexer::peekToken') and s.cval(h) is tok('LPAREN') for h in s.dom)
        extra = a[1:]
        if extra:
            x = extra[0][1]
            vs = cargs(x)[1] if x.op == 'r' and len(cargs(x)) == 2 else None
            ok = len(extra) == 1 and under(cargs(x)[0]) is hd and (
                isb and is_call(x, 'State::mkBinderList') and is_call(vs, 'ExprParser::parseAndBindSortedVarList') and cargs(vs)[0] is kind('NONE') or
                isl and is_call(x, 'State::mkLetBinderList') and is_call(vs, 'ExprParser::parseAndBindLetList'))
            ob('binder', ok and listed, f, 'the variables of a binder are its first argument', detail=str(extra), st=s)
            ob('scope', opens == 1, f, 'the variables of a binder have a scope', detail=str(ts), st=s)
            ob('binder', vs is not None and s.truth(eq(size(vs), I(0))) is False, f, 'a binder has variables', st=s)
        else:
            ob('binder', not (listed and (isb or isl)) and bool(cks), f, 'a list of variables is not an argument', detail=str(cks), st=s)
            ob('scope', opens == 0, f, 'without variables there is no scope', detail=str(ts), st=s)
        # a token that was read ahead is put back
        ahead = [t for t in T if t is not t2 and t not in (first(T, s),) and t is not second(T, s, t2, len(fr))]
        bk = only(ts, 'back')
        ok = len(bk) == len(ahead) and all(s.cval(x[1]) is s.cval(t) for x, t in zip(bk, ahead))
        ob('token', ok, f, 'a token that was read ahead is put back', detail=str((T, bk)), st=s)
    elif n is E('LET_NEXT_BIND', 'ParseCtx'):
        ok = len(fr) == 1 and [x[1] for x in only(ts, 'lets')] == ['emplace_back'] or [x[1] for x in only(ts, 'lets')] == ['push_back']
        ob('let', ok and not opens, f, 'a let starts without bindings', detail=str(ts), st=s)
        ob('let', any(s.cval(t) in (tok('LET'), tok('EVAL_DEFINE')) for t in T), f, 'a let starts with let or define', st=s)
    elif n is E('TERM_ANNOTATE_BODY', 'ParseCtx'):
        ob('annotation', len(fr) == 1 and any(s.cval(t) is tok('ATTRIBUTE') for t in T) and not opens, f, 'an annotated term', detail=str(ts), st=s)
    else:
        ob('application', False, f, 'what is opened', detail=str(fr), st=s)


def first(T, s):
    return T[0] if T else None


def second(T, s, t2, n):
    """the second parenthesis of a qualified head"""
    return T[1] if n == 2 and len(T) > 1 and T[1] is not t2 else None


def closing(c, ob, rd, v, s, ts, W):
    f, r = rd.f, rd.r
    T = tokens(s)
    a = cargs(v)
    ok = s.cval(a[0]) is kind('APPLY') and field(a[1], 'd_args') and a[1].a[1].op == 'back' and a[1].a[1].a[0].op == 'it'
    ob('application', ok, f, 'applies the head to its arguments', detail=str(v), st=s)
    if not ok:
        return
    W0 = a[1].a[1].a[0]
    ob('application', len(T) == 1 and s.cval(T[0]) is tok('RPAREN'), f, 'at its closing parenthesis', detail=str(T), st=s)
    ob('application', any(field(h, 'd_ctx') and h.a[1] is back(W0) and s.cval(h) is E('NEXT_ARG', 'ParseCtx') for h in s.dom), f, 'only an application is closed by it', st=s)
    un = only(ts, 'unframe')
    ob('application', len(un) == 1 and un[0][1] == 'pop_back' and W.op == 'pop' and W.a[0] is W0, f, 'the innermost term is closed', detail=str(W), st=s)
    cl = only(ts, 'close')
    ok = len(cl) == 1 and cl[0][1] is back(W0) and not only(ts, 'open') and ts.index(cl[0]) < ts.index(un[0]) if un else False
    ob('scope', ok, f, 'the scopes of a closed application are closed', detail=str(ts), st=s)


def reduce(c, ob, rd, it, v, s, ctxs):
    f, r = rd.f, rd.r
    ts = seq(s)
    fs = [h for h in s.dom if field(h, 'd_ctx') and h.a[1].op == 'back' and h.a[1].a[0].op == 'it' and h.a[1].a[0].a[0] == rd.site]
    known_ = [(h, s.cval(h)) for h in fs if s.cval(h) is not h]
    if not known_:
        # no context
        ob('application', not ts and v is it, f, 'without a context nothing happens', detail=str(ts), st=s)
        return
    h, n = known_[0]
    X = h.a[1].a[0]
    n = n.a[0]
    nul = s.truth(eq(it, NULL))
    un, cl, op = only(ts, 'unframe'), only(ts, 'close'), only(ts, 'open')
    eats = [tuple(x.a[0] if x.op == 'e' else str(x) for x in y[1]) for y in only(ts, 'eat')]
    ch = [b for hh, b in s.facts.items() if is_call(hh, 'Lexer::eatTokenChoice')]
    P = r.interp.load(rd.P, s)
    if n == 'NEXT_ARG':
        if nul is True:
            return
        ctxs[n] = True
        ar = only(ts, 'arg')
        ok = len(ar) == 1 and len(ts) == 1 and ar[0][1] in ('push_back', 'emplace_back') and field(ar[0][2], 'd_args') and ar[0][2].a[1] is back(X) and ar[0][3] == (it,)
        ob('application', ok and isnull(s, v), f, 'a subterm becomes the next argument', detail=str(ts), st=s)
        return
    ar = only(ts, 'arg')
    if n == 'LET_NEXT_BIND':
        ob('let', not ar and not cl and not un, f, 'a let goes on', detail=str(ts), st=s)
        sec = only(ts, 'second')
        if nul is False:
            ok = len(sec) == 1 and sec[0][1] is it and lastbinding(rd, sec[0][2]) and eats[:1] == [('RPAREN',)] and isnull(s, v)
        elif nul is True:
            ok = not sec and eats[:1] == [('LPAREN',)] and (v is it or isnull(s, v))
        else:
            ok = False
        ob('let', ok, f, 'the value of a binding', detail=str((nul, ts)), st=s)
        nb = only(ts, 'binding')
        if ch == [True]:
            ctxs[n] = True
            ok = len(nb) == 1 and is_call(nb[0][3][0], 'ExprParser::parseSymbol') and isnull(s, nb[0][3][1]) if len(nb) == 1 and len(nb[0][3]) == 2 else False
            ob('let', ok and not op and not only(ts, 'set') and not only(ts, 'lets'), f, 'the next binding', detail=str(ts), st=s)
        elif ch == [False]:
            ctxs[n + '!'] = True
            st_ = {x[1]: x[2] for x in only(ts, 'set')}
            ok = st_.get('d_ctx') is E('LET_BODY', 'ParseCtx') and not nb and [x[1] for x in only(ts, 'lets')] == ['pop_back']
            ob('let', ok, f, 'the body follows the bindings', detail=str(ts), st=s)
            ns = st_.get('d_nscopes')
            ok = len(op) == 1 and ns is not None and (ns.op == 'plus' and ns.a[1] is I(1) and field(ns.a[0], 'd_nscopes') or ns is I(1))
            ob('scope', ok, f, 'the bindings of a let have a scope', detail=str(ts), st=s)
            # all bindings are made: a loop over them whose body binds
            ok = False
            for b in r.loopstates:
                if b.op != 'it' or not isT(b.a[-1]):
                    continue
                bs = [[x[1] for x in only(now(st), 'bind')] for vv, st in r.loopstates[b]]
                if not all(len(x) == 1 and len(x[0]) == 2 and field(x[0][0], 'first') and field(x[0][1], 'second') and mentions(x[0][0], b) and mentions(x[0][1], b) for x in bs) or not bs:
                    continue
                els = {mk('deref', b)} if b.a[-1].op == 'begin' else {x for y in bs for z in y[0] for x in subterms(z) if x.op == 'idx' and mentions(x.a[1], b)}
                ws = [sweep(r, s, x) for x in els]
                ok = ok or any(w is not None and w[0].op == 'back' and w[1] == 1 for w in ws)
            ob('let', ok, f, 'all bindings are made before the body is read', detail=str(ts), st=s)
        else:
            ob('let', False, f, 'another binding or the body', detail=str(ts), st=s)
        return
    ctxs[n] = True
    rule = 'let' if n == 'LET_BODY' else 'annotation'
    ob(rule, eats == [('RPAREN',)] and not ar and not only(ts, 'frame') and not only(ts, 'set') and not only(ts, 'second'), f, 'a parenthesis ends it', detail=str(ts), st=s)
    ob(rule, v is it or n == 'TERM_ANNOTATE_BODY' and is_out(v, 'ExprParser::parseAttributeList', 1), f, 'it stands for its body', detail=str(v), st=s)
    ob(rule, len(un) == 1 and un[0][1] == 'pop_back' and P.op == 'pop' and P.a[0] is X, f, 'the innermost term is closed', detail=str(P), st=s)
    ok = len(cl) == 1 and cl[0][1] is back(X) and not op and bool(un) and ts.index(cl[0]) < ts.index(un[0])
    ob('scope', ok, f, 'the scopes of a closed let or annotation are closed', detail=str(ts), st=s)


def lastbinding(rd, p):
    """the last binding of the innermost let"""
    p = p[1]
    if p[0] != 'I' or p[1][0] != 'I' or p[1][1] != rd.LB:
        return False
    end = lambda x: x.a[0].a[0] if x.op == 'minus' and x.a[1] is I(1) and x.a[0].op == 'size' else x.a[0].a[0] if x.op == 'plus' and x.a[1] is I(-1) and x.a[0].op == 'size' else None
    L, B = end(p[1][2]), end(p[2])
    return L is not None and B is not None and B is back(L)


def mentions(t, x):
    return any(y is x for y in subterms(t))


def under(t):
    while isT(t) and t.op == 'value':
        t = t.a[0]
    return t


def tstr(x):
    return is_call(x, TS)


def made(x, cls, s, *more):
    """a number built from the text of the token"""
    return x.op == 'new' and x.a[0] == q(cls) and len(x.a[1]) >= 1 and s(x.a[1][0]) and tuple(x.a[1][1:]) == more


def cut(x):
    """the text of the token without its prefix"""
    return is_call(x, 'std::string::substr') and False or x.op == 'r' and x.a[0].endswith('substr') and tstr(x.a[1]) and x.a[2][0] is I(2) and (len(x.a[2]) == 1 or x.a[2][1].op == 'i' and x.a[2][1].a[0] > 1 << 60)


def printed(x, obj):
    return x.op == 'r' and x.a[0].endswith('::toString') and obj(x.a[1])


def base(c, ob, rd, K, T, v, s):
    f = rd.f
    if K in ('SYMBOL', 'QUOTED_SYMBOL'):
        ok = is_call(v, 'ExprParser::getVar') and is_call(cargs(v)[0], SYM) and cargs(cargs(v)[0])[0] is T
        ob('token', ok, f, 'a symbol is what its name is bound to', detail=str(v), st=s)
        ob('token', s.truth(eq(mk('kind', v), kind('BUILTIN_CONST'))) is False, f, 'a builtin operator is no term', st=s)
        return
    if K in ('TYPE', 'BOOL_TYPE'):
        ob('token', is_call(v, 'State::mkType' if K == 'TYPE' else 'State::mkBoolType') or field(v, 'd_type' if K == 'TYPE' else 'd_boolType'), f, 'the type %s' % K, detail=str(v), st=s)
        return
    lit = {'INTEGER_LITERAL': 'NUMERAL', 'DECIMAL_LITERAL': 'DECIMAL', 'RATIONAL_LITERAL': 'RATIONAL', 'HEX_LITERAL': 'HEXADECIMAL', 'BINARY_LITERAL': 'BINARY', 'STRING_LITERAL': 'STRING'}
    if K not in lit or not is_call(v, 'State::mkLiteral'):
        ob('token', False, f, 'token %s is no term' % K, detail=str(v), st=s)
        return
    k, x = cargs(v)
    k = s.cval(k)
    sig = [s.truth(h) for h in s.facts if field(h, 'd_isSignature')]
    opt = {h.a[0].split('::')[-1]: s.truth(h) for h in s.facts if h.op in ('f', 'fld') and 'd_normalize' in h.a[0]}
    own = {'INTEGER_LITERAL': 'd_normalizeNumeral', 'DECIMAL_LITERAL': 'd_normalizeDecimal', 'HEX_LITERAL': 'd_normalizeHexadecimal'}.get(K)
    norm = own is not None and sig == [False] and opt.get(own) is True
    if own is not None and not norm:
        ob('token', sig == [True] or opt.get(own) is False, f, '%s: as the options say' % K, detail=str((sig, opt)), st=s)
    if K == 'INTEGER_LITERAL':
        ok = norm and k is kind('RATIONAL') and (printed(x, lambda y: made(y, 'Rational', tstr, I(10)) or made(y, 'Rational', tstr)) or tstr(x)) or not norm and k is kind('NUMERAL') and tstr(x)
    elif K == 'DECIMAL_LITERAL':
        ok = norm and k is kind('RATIONAL') and printed(x, lambda y: is_call(y, 'Rational::fromDecimal') and tstr(cargs(y)[0])) or not norm and k is kind('DECIMAL') and tstr(x)
    elif K == 'RATIONAL_LITERAL':
        ok = k is kind('RATIONAL') and tstr(x)
        slash = [h for h in list(s.dom) + list(s.facts) for y in subterms(h) if y.op == 'r' and y.a[0].split('::')[-1] == 'find']
        nz = [y for h in list(s.dom) + list(s.facts) for y in subterms(h) if y.op == 'r' and y.a[0].split('::')[-1] == 'find_first_not_of' and y.a[2][0].op in ('i', 's') and y.a[2][0].a[0] in (48, '0')]
        ob('token', bool(slash) and (bool(nz) or any(s.truth(h) is True or s.cval(h) is not h for h in slash)), f, 'the denominator is not zero', detail=str(nz), st=s)
    elif K == 'HEX_LITERAL':
        ok = norm and k is kind('BINARY') and printed(x, lambda y: made(y, 'BitVector', cut, I(16))) or not norm and k is kind('HEXADECIMAL') and cut(x)
    elif K == 'BINARY_LITERAL':
        ok = k is kind('BINARY') and cut(x)
    else:
        un = lambda y: is_out(y, 'ExprParser::unescapeString', 0)
        ok = k is kind('STRING') and (un(x) or printed(x, lambda y: made(y, 'String', un, TRUE)) and (not x.a[2] or s.cval(x.a[2][0]) is FALSE))
    ob('token', ok, f, 'the literal a token %s stands for' % K, detail=str((norm, v)), st=s)


def frames(c, ob, rd):
    """what a frame keeps, and what closing it does"""
    p = c.prog
    ct = [g for g in p.funcs.values() if g.cls and g.cls.endswith('StackFrame') and g.short == 'StackFrame' and g.blocks and g.params and 'StackFrame' not in g.params[0]['ty']]
    ob('scope', bool(ct), rd.f, 'frames are built')
    for g in ct:
        r = c.analyze(g)
        for t, s in r.exits:
            for i, x in enumerate(g.params):
                fld = ['d_ctx', 'd_nscopes', 'd_args'][i] if i < 3 else None
                w = [v for k, v in s.env.items() if k[0] == 'F' and k[-1].endswith('::' + fld)]
                ob('scope' if i == 1 else 'application', w == [mk('p', i, x['name'])], g, 'a frame keeps its %s' % fld, detail=str(w))
        d = [x.get('def') for x in g.params]
    ob('scope', bool(rd.closers), rd.f, 'frames are closed')
    for nm in rd.closers:
        g = p.fn1(nm)
        r = c.analyze(g, inv=True, opaque={q(POP)}, on=lambda e: [('closeone',)] if e.kind == 'call' and e.name == q(POP) else (), loophead=lambda g, h, s: ())
        n = 0
        for it in r.loopstates:
            if it.op != 'it' or step_of(r, it) is None:
                continue
            for v, s in r.loopstates[it]:
                n += 1
                ns = [x for h in list(s.facts) for x in subterms(h) if field(x, 'd_nscopes')]
                up = step_of(r, it) == 1 and it.a[-1] is I(0)
                down = step_of(r, it) == -1 and field(it.a[-1], 'd_nscopes')
                ob('scope', ('closeone',) in s.ts and (up or down), g, 'one scope is closed at a time', detail=str(v), st=s)
        for t, s in r.exits:
            ok = False
            for it in r.loopstates:
                if it.op == 'it':
                    for x in [x for h in list(s.facts) + list(s.rng) + list(s.dom) for x in subterms(h) if field(x, 'd_nscopes')]:
                        ok = ok or s.truth(lt(it, x)) is False or s.truth(eq(it, I(0))) is True
                    ok = ok or step_of(r, it) == -1 and s.truth(lt(I(0), it)) is False
            ob('scope', ok and n > 0, g, 'until all scopes of the frame are closed', st=s)
