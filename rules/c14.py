"""Terms are read as they are written."""
from common import *
import reading
import values
import c20


def run(c):
    c.rule('token', 'every token that is a term is read as the term it stands for, in the given notation', 12)
    c.rule('application', 'a parenthesised list is the application of its head to all its arguments, in order', 8)
    c.rule('let', 'the bindings of a let are made, together, for its body', 6)
    c.rule('annotation', 'an annotated term is the annotated term', 3)
    c.rule('binder', 'the variables of a binder are its first argument', 3)
    c.rule('literal', 'a literal is built from its text in the notation of its kind', 7)
    c.rule('symbol', 'a symbol is the text of its token, without quotes', 3)
    c.rule('string', 'a string literal is the text of its token without quotes, two quotes standing for one', 3)
    c.rule('list', 'a list of terms is read in order', 4)
    reading.reading(c)


    literal(c)
    symbol(c)
    string(c)
    lists(c)
    c20.variables(c, 'binder', 'let')
    values.reading(c)


def lit_on(e):
    if e.kind == 'ctor' and e.name == q('Literal::Literal') and e.args and not (len(e.args) == 1 and e.args[0].op == 'new' and e.args[0].a[0] == q('Literal')):
        return [('lit', tuple(e.args))]
    if e.kind == 'call' and e.name == q('State::mkLiteralInternal'):
        return [('made', e.ret)]
    return ()


def literal(c):
    p = c.prog
    f = p.fn1('State::mkLiteral')
    k, x = (mk('p', i, y['name']) for i, y in enumerate(f.params))
    r = c.analyze(f, on=lit_on, opaque={q('State::mkLiteralInternal')})
    seen = set()
    news = lambda y, cls, *more: y.op == 'new' and y.a[0] == q(cls) and y.a[1] == (x,) + more
    dec = lambda y: is_call(y, 'Rational::fromDecimal') and cargs(y) == (x,)
    want = {'NUMERAL': lambda y: news(y, 'Integer', I(10)) or news(y, 'Integer'), 'DECIMAL': dec, 'RATIONAL': lambda y: news(y, 'Rational', I(10)) or news(y, 'Rational'),
            'HEXADECIMAL': lambda y: news(y, 'BitVector', I(16)), 'BINARY': lambda y: news(y, 'BitVector', I(2)), 'STRING': lambda y: news(y, 'String', TRUE)}
    for t, s in r.exits:
        ks = [n for n in p.enum('Kind') if s.copy().assume(eq(k, kind(n)), True)]
        for n in ks:
            seen.add(n)
            if n == 'BOOLEAN':
                b = s.truth(eq(x, S('true')))
                ok = b is not None and field(under(t), 'd_true' if b else 'd_false')
                c.ob('literal', ok, f, 'a Boolean', detail=str(t), st=s)
                continue
            ls = [y[1] for y in s.ts if isinstance(y, tuple) and y[0] == 'lit']
            ok = len(ls) == 1 and n in want and want[n](ls[0][-1]) and (len(ls[0]) == 1 or s.cval(ls[0][0]) is kind(n) or ls[0][0] is k)
            c.ob('literal', ok, f, 'a literal of kind %s' % n, detail=str(ls), st=s)
            c.ob('literal', len([y for y in s.ts if isinstance(y, tuple) and y[0] == 'made']) == 1 and is_call(under(t), 'State::mkLiteralInternal'), f, 'the literal is the result', detail=str(t), st=s)
    for n in list(want) + ['BOOLEAN']:
        c.ob('literal', n in seen, f, 'there are literals of kind %s' % n)
    # the constructors without a kind
    for g in p.fn('Literal::Literal'):
        if len(g.params) == 1:
            ty = g.params[0]['ty']
            n = 'NUMERAL' if 'Integer' in ty else 'STRING' if 'String' in ty else 'BOOLEAN' if ty == 'bool' else None
            if n and g.blocks:
                rr = c.analyze(g, on=lambda e: [('base', e.args[0])] if e.kind == 'ctor' and e.name == q('ExprValue::ExprValue') and e.args else
                               [('base', e.args[0])] if e.kind == 'ctor' and e.name == q('Literal::Literal') and len(e.args) > 1 else ())
                for t, s in rr.exits:
                    v = [x[1] for x in s.ts if isinstance(x, tuple) and x[0] == 'base']
                    v += [w for kk, w in s.env.items() if kk[0] == 'F' and kk[-1].endswith('d_kind')]
                    c.ob('literal', v == [kind(n)], g, 'the kind of a %s' % n, detail=str(v), st=s)


def under(t):
    while isT(t) and (t.op == 'value' or t.op == 'new' and t.a[0] == q('Expr') and len(t.a[1]) == 1):
        t = t.a[0] if t.op == 'value' else t.a[1][0]
    return t


def trim(t):
    """(text, characters dropped at its begin, at its end)"""
    a = b = 0
    while True:
        if t.op == 'erase' and len(t.a) >= 2 and t.a[1] is I(0) and len(t.a) == 3 and t.a[2].op == 'i':
            a += t.a[2].a[0]
            t = t.a[0]
        elif t.op == 'erase' and t.a[1].op == 'minus' and t.a[1].a[0] is size(t.a[0]) and t.a[1].a[1].op == 'i' and (len(t.a) < 3 or t.a[2].op == 'i' and t.a[2].a[0] >= t.a[1].a[1].a[0]):
            b += t.a[1].a[1].a[0]
            t = t.a[0]
        elif t.op == 'pop':
            b += 1
            t = t.a[0]
        elif t.op == 'r' and t.a[0].endswith('::substr') and t.a[2] and t.a[2][0].op == 'i':
            n = t.a[2][0].a[0]
            m = t.a[2][1] if len(t.a[2]) > 1 else None
            if m is None or m.op == 'i' and m.a[0] > 1 << 60:
                e = 0
            else:
                lf = linear(m)
                if lf.get(size(t.a[1])) != 1 or len(lf) > 2 or set(lf) - {size(t.a[1]), None}:
                    return t, a, b
                e = -lf.get(None, 0) - n
            a += n
            b += e
            t = t.a[1]
        else:
            return t, a, b


def symbol(c):
    f = c.prog.fn1('ExprParser::tokenStrToSymbol')
    tk = mk('p', 0, f.params[0]['name'])
    r = c.analyze(f)
    seen = set()
    for t, s in r.exits:
        ks = [n for n in c.prog.enum('Token') if s.copy().assume(eq(tk, tok(n)), True)]
        seen |= set(ks)
        x, a, b = trim(t)
        for n in ks:
            c.ob('symbol', n in ('SYMBOL', 'QUOTED_SYMBOL') and is_call(x, 'Lexer::tokenStr') and (a, b) == ((0, 0) if n == 'SYMBOL' else (1, 1)), f, 'the symbol of a token %s' % n, detail=str(t), st=s)
    c.ob('symbol', seen == {'SYMBOL', 'QUOTED_SYMBOL'}, f, 'symbols', detail=str(seen))
    f = c.prog.fn1('ExprParser::parseSymbol')
    r = c.analyze(f)
    for t, s in r.exits:
        c.ob('symbol', is_call(t, 'ExprParser::tokenStrToSymbol') and is_call(cargs(t)[0], 'Lexer::nextToken'), f, 'the next token', detail=str(t))


def string(c):
    f = c.prog.fn1('ExprParser::unescapeString')
    P = ('L', (), None)
    s0 = mk('p', 0, f.params[0]['name'])
    r = c.analyze(f, inv=True)
    Q = ord('"')
    n = 0
    for t, s in r.exits:
        # the text left in the argument
        out = [v for k, v in s.env.items() if k[0] == 'L' and len(k) == 3 and k[2].startswith(f.params[0]['name'] + '@')]
        out += [v for k, v in s.env.items() if k[0] == 'P']
        v = out[0] if len(out) == 1 else None
        c.ob('string', v is not None, f, 'the text of the string', detail=str(out))
        if v is None:
            continue
        cutat = None
        if v.op == 'erase' and v.a[1].op == 'it' or v.op == 'resize' and v.a[1].op == 'it':
            v, cutat = v.a[0], v.a[1]
        ok = v.op == 'it' and v in r.loopstates
        c.ob('string', ok, f, 'copied character by character', detail=str(v))
        if not ok:
            continue
        base = v.a[-1]
        srcs = set()
        for w, st in r.loopstates[v]:
            n += 1
            if w.op == 'set' and w.a[0] is v and cutat is not None:
                ok = w.a[1] is cutat and w.a[2].op == 'idx' and w.a[2].a[0] is v and w.a[2].a[1].op == 'it'
                x = w.a[2]
            elif w.op == 'push' and w.a[0] is v and cutat is None and base is S(''):
                ok = w.a[1].op == 'idx' and w.a[1].a[1].op == 'it'
                x = w.a[1]
            else:
                ok, x = False, None
            c.ob('string', ok, f, 'every character is copied', detail=str(w), st=st)
            if not ok:
                continue
            src = x.a[1]
            srcs.add((src, x.a[0]))
            ends = [y for y, st2 in r.loopstates[src] if st2 is st]
            quote = {b for h, b in st.facts.items() if h.op == 'eq' and I(Q) in h.a and any(y.op == 'idx' and (y.a[1] is src) for y in h.a)} | \
                    {d[0] == 'in' for h, d in st.dom.items() if h.op == 'idx' and h.a[1] is src and d[1] in (frozenset((I(Q),)), frozenset((Q,)))}
            step = 2 if quote == {True} else 1 if quote == {False} else None
            c.ob('string', ends == [mk('plus', src, I(step))] if step else False, f, 'two quotes stand for one', detail=str((ends, quote)), st=st)
            if cutat is not None:
                d = [y for y, st2 in r.loopstates.get(cutat, ()) if st2 is st]
                c.ob('string', d == [mk('plus', cutat, I(1))], f, 'characters are written one after the other', detail=str(d), st=st)
        ok = len(srcs) == 1 and next(iter(srcs))[0].a[-1] is I(0) and (cutat is None or cutat.a[-1] is I(0))
        c.ob('string', ok, f, 'from the first character', detail=str(srcs))
        if ok:
            src, txt = next(iter(srcs))
            b = base if cutat is not None else txt
            x, i, j = trim(b.a[-1] if b.op == 'it' else b)
            c.ob('string', x is s0 and (i, j) == (1, 1), f, 'the quotes around it are dropped', detail=str(b))
            c.ob('string', s.truth(lt(src, size(v if cutat is not None else b))) is False, f, 'up to the last character', st=s)
    c.ob('string', n >= 1, f, 'strings are copied')


def lists(c):
    p = c.prog
    f = p.fn1('ExprParser::parseExprList')
    NT = 'Lexer::nextToken'
    r = c.analyze(f, inv=True, opaque={q('ExprParser::parseExpr')}, on=lambda e: [('eat', tuple(e.args))] if e.kind == 'call' and e.name == q('Lexer::eatToken') else
                  [('back', e.args[0])] if e.kind == 'call' and e.name == q('Lexer::reinsertToken') else [('next', e.ret)] if e.kind == 'call' and e.name == q(NT) else (),
                  loophead=lambda g, h, s: ())
    for t, s in r.exits:
        ok = t.op == 'it' and t.a[-1] is EMPTY and bool(r.loopstates.get(t)) and all(w.op == 'push' and w.a[0] is t and is_call(w.a[1], 'ExprParser::parseExpr') for w, st in r.loopstates[t])
        c.ob('list', ok, f, 'the terms of a list, in order', detail=str(t), st=s)
        if ok:
            for w, st in r.loopstates[t]:
                # the token that was read to see whether the list ends belongs to the term
                bk = [x[1] for x in st.ts if isinstance(x, tuple) and x[0] == 'back']
                pk = any(is_call(h, 'Lexer::peekToken') for h in list(st.dom) + list(st.facts))
                c.ob('list', len(bk) == 1 and bk[0].op in ('it', 'r') or not bk and pk, f, 'no token is lost', detail=str(bk), st=st)
    # the other lists
    one = {q('ExprParser::parseExpr'), q('ExprParser::parseType')}

    def on(e):
        if e.kind == 'call' and e.name in one:
            return [('read', len(e.st.ts), e.ret)]
        return ()

    def pair(w, st):
        """a pair of the two terms read, the first of them first"""
        rd = [x[2] for x in sorted(x for x in st.ts if isinstance(x, tuple) and x[0] == 'read')]
        return is_call(w, 'ExprParser::parseExprPair') and not rd or is_call(w, 'State::mkPair') and len(rd) == 2 and list(cargs(w)) == rd

    def single(w, st):
        return [w] == [x[2] for x in st.ts if isinstance(x, tuple) and x[0] == 'read']
    for nm, good in (('ExprParser::parseTypeList', single), ('ExprParser::parseExprPairList', pair)):
        for f in p.fn(nm):
            r = c.analyze(f, inv=True, opaque=one, on=on, loophead=lambda g, h, s: ())
            for t, s in r.exits:
                ok = t.op == 'it' and t.a[-1] is EMPTY and bool(r.loopstates.get(t)) and all(w.op == 'push' and w.a[0] is t and good(w.a[1], st) for w, st in r.loopstates[t])
                c.ob('list', ok, f, 'the elements of a list, in order', detail=str([str(w) for w, st in r.loopstates.get(t, ())])[:200], st=s)
    f = p.fn1('ExprParser::parseExprPair')
    r = c.analyze(f, opaque=one, on=on)
    for t, s in r.exits:
        c.ob('list', pair(t, s), f, 'a pair, in order', detail=str(t), st=s)
