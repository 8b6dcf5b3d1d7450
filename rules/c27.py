"""The input is split into the documented tokens."""
import re

from common import *
from c31 import params

CH, SV, PU, CL, CC, NE, PC, TK = ('Lexer::nextChar', 'Lexer::saveChar', 'Lexer::pushToToken', 'Lexer::isCharacterClass', 'Lexer::parseCharList', 'Lexer::parseNonEmptyCharList',
                                  'Lexer::parseChar', 'Lexer::tokenizeCurrentSymbol')
EOF = -1
LET = set(range(97, 123)) | set(range(65, 91))
DIG = set(range(48, 58))
CLASS = {'NONE': set(), 'WHITESPACE': {32, 9, 13, 10}, 'DECIMAL_DIGIT': DIG, 'HEXADECIMAL_DIGIT': DIG | set(range(97, 103)) | set(range(65, 71)), 'BIT': {48, 49},
         'SYMBOL_START': LET | {ord(x) for x in '+-/*=%?!.$_~&^<>@'}}
CLASS['SYMBOL'] = CLASS['SYMBOL_START'] | DIG | {ord(':')}
LOOP = {'NUM': 'DECIMAL_DIGIT', 'FRd': 'DECIMAL_DIGIT', 'FRr': 'DECIMAL_DIGIT', 'B': 'BIT', 'X': 'HEXADECIMAL_DIGIT', 'KW': 'SYMBOL', 'SYM': 'SYMBOL'}
FIRST = {'B0': 'B', 'X0': 'X', 'FR0d': 'FRd', 'FR0r': 'FRr', 'KW0': 'KW'}
FINAL = {'FRd': 'DECIMAL_LITERAL', 'FRr': 'RATIONAL_LITERAL', 'B': 'BINARY_LITERAL', 'X': 'HEX_LITERAL', 'KW': 'KEYWORD', 'SYM': 'symbol', 'NUM': 'INTEGER_LITERAL'}
FIRSTCLASS = dict({k: LOOP[v] for k, v in FIRST.items()}, KW0='SYMBOL_START')


def delta(q_, v):
    """the lexical grammar: (what is done with a character, the next state)"""
    q_ = q_.rstrip('~')
    if q_.startswith('R:') or q_ in ('bad', 'ERR'):
        return None, 'bad'
    c = chr(v) if v >= 0 else None
    if q_ == 'S0':
        if v == EOF:
            return None, 'R:EOF_TOK'
        if v in CLASS['WHITESPACE']:
            return None, 'S0'
        s = {';': (None, 'COM'), '(': ('push', 'R:LPAREN'), ')': ('push', 'R:RPAREN'), '|': ('push', 'Q'), '#': ('push', 'H'), '"': ('push', 'STR'), ':': ('push', 'KW0')}.get(c)
        if s:
            return s
        if v in DIG:
            return 'push', 'NUM'
        return ('push', 'SYM') if v in CLASS['SYMBOL_START'] else (None, 'ERR')
    if q_ == 'COM':
        return None, 'R:EOF_TOK' if v == EOF else 'S0' if c == '\n' else 'COM'
    if q_ == 'Q':
        return (None, 'R:UNTERMINATED_QUOTED_SYMBOL') if v == EOF else ('push', 'R:QUOTED_SYMBOL' if c == '|' else 'Q')
    if q_ == 'STR':
        return (None, 'R:UNTERMINATED_STRING_LITERAL') if v == EOF else ('push', 'STRQ' if c == '"' else 'STR')
    if q_ == 'STRQ':
        return ('push', 'STR') if c == '"' else ('save', 'R:STRING_LITERAL')
    if q_ == 'H':
        return ('push', 'B0') if c == 'b' else ('push', 'X0') if c == 'x' else (None, 'ERR')
    if q_ in FIRST:
        return ('push', FIRST[q_]) if v in CLASS[FIRSTCLASS[q_]] else (None, 'ERR')
    if v in CLASS[LOOP[q_]]:
        return 'push', q_
    if q_ == 'NUM' and c in ('.', '/'):
        return 'push', 'FR0d' if c == '.' else 'FR0r'
    return 'save', 'R:' + FINAL[q_]


def candidates(st, t, not_in=None):
    """the characters a term may stand for"""
    k = st.cval(t)
    if k.op == 'i':
        vs = {k.a[0]}
    else:
        lo, hi = st.interval(t)
        vs = {v for v in range(-1, 256) if (lo is None or v >= lo) and (hi is None or v <= hi)}
        d = st.dom.get(t)
        if d:
            vs = {v for v in vs if (num(v, d[1])) == (d[0] == 'in')}
        for h, b in st.facts.items():
            if is_call(h, CL) and cargs(h)[0] is t and cargs(h)[1].op == 'e':
                K = cargs(h)[1].a[0].split('::')[-1]
                vs = {v for v in vs if (v in CLASS.get(K, ())) == b}
    if not_in:
        vs -= CLASS[not_in]
    return vs


def num(v, s):
    return any((x.a[0] if isT(x) else x) == v for x in s)


class Grammar:
    """the product of the paths of a function with the lexical grammar; the tag ('lex', state, character read and not yet
    judged, what was done with it)"""

    def __init__(self, start, trans=delta, cands=candidates, loop=None, first=None):
        self.start, self.trans, self.cands = start, trans, cands
        self.loop = loop or (lambda s, K: K.op == 'e' and LOOP.get(s.rstrip('~')) == K.a[0].split('::')[-1])
        self.first = first or (lambda s, K: FIRST.get(s) if K.op == 'e' and FIRSTCLASS.get(s) == K.a[0].split('::')[-1] else None)

    def tag(self, st):
        t = [x for x in st.ts if isinstance(x, tuple) and x[0] == 'lex']
        return t[0] if t else ('lex', self.start, None, None)

    def resolve(self, st, tag=None, open_=False):
        """the states of the grammar after what was read"""
        _, s, p, acted = tag or self.tag(st)
        if p is None:
            return {s}
        if isinstance(acted, tuple):
            b = st.truth(p)
            n = self.first(s, acted[1])
            if b is False:
                return {'ERR'} if n else {'bad'}
            if n and acted[0] == NE:
                n = n + '~' if self.loop(n, acted[1]) else 'bad'
            return {n or 'bad'} if b is True else {n or 'bad', 'ERR'}
        out = set()
        for v in self.cands(st, p, s):
            a, n = self.trans(s, v)
            out.add(n if n in ('ERR', 'bad') or a == acted else 'bad')
        return out or {'dead'}

    def step(self, st):
        r = self.resolve(st)
        return r.pop() if len(r) == 1 else 'bad'

    def on(self, e):
        if e.kind != 'call':
            return ()
        n = e.name.replace('ethos::', '', 1)
        if n not in (CH, SV, PU, CC, NE, PC):
            return ()
        old = self.tag(e.st)
        if n == CH:
            new = ('lex', self.step(e.st), e.ret, None)
        elif n in (SV, PU):
            ok = old[2] is not None and old[3] is None and e.args[0] is old[2]
            new = old[:3] + ('save' if n == SV else 'push',) if ok else ('lex', 'bad', None, None)
        else:
            s = self.step(e.st)
            if n == CC:
                new = ('lex', s if s.endswith('~') and self.loop(s, e.args[0]) else s + '~' if self.loop(s, e.args[0]) else 'bad', None, None)
            else:
                new = ('lex', s, e.ret, (n, e.args[0]))
        return [('-', x) for x in e.st.ts if x == old] + [new]

    def head(self, g, h, st):
        tag = self.tag(st)
        if tag[2] is None:
            return [tag]
        r = self.resolve(st)
        if len(r) == 1 and not r & {'bad', 'dead'}:
            return [('lex', r.pop(), None, None)]
        # the character lives on in a variable of the loop
        for p, v in st.env.items():
            if isT(v) and v.op == 'it' and v.a[0][-1] == h and v.a[-1] is tag[2] and not isinstance(tag[3], tuple):
                return [('lex', tag[1], v, tag[3])]
        for k, lp in st.env.items():
            if k[0] == 'LP' and k[2] == h:
                for p, it in lp[1:]:
                    if isT(it) and st.env.get(p) is tag[2] and not isinstance(tag[3], tuple):
                        return [('lex', tag[1], it, tag[3])]
        return [('lex', 'bad', None, None)]

    def final(self, st):
        """the token that was read"""
        r = self.resolve(st)
        out = set()
        for s in r:
            out.add(s[2:] if s.startswith('R:') else FINAL.get(s[:-1], 'bad') if s.endswith('~') and s != 'NUM~' else s)
        return out


def run(c):
    c.rule('classes', 'the classes of characters', 7)
    c.rule('token', 'the characters of a token, and its kind, are those of the grammar', 14)
    c.rule('lists', 'all characters of a class, and no other, are taken', 4)
    c.rule('characters', 'every byte of the input is read once, in order, until its end', 6)
    c.rule('symbol', 'a simple symbol is a keyword or a number only if it is written as one', 8)
    c.rule('command', 'the commands are those of the kind of input', 10)
    c.rule('lookahead', 'a token that is put back is read again, an expected token is required', 6)
    c.rule('start', 'an input is read from its start', 4)
    classes(c)
    tokens(c)
    helpers(c)
    characters(c)
    symbols(c)
    command_names(c)
    lookahead(c)


# ------------------------------------------------------------------ classes
def classes(c):
    f = next((f for f in c.prog.funcs.values() if f.name == q('Lexer::Lexer') and len(f.params) == 2), None)
    en = {x['n']: x['v'] for x in c.prog.enums[q('Lexer::CharacterClass')]['values']}
    r = c.analyze(f, inv=True, watch=lambda e: e.kind in ('write', 'cont') and 'd_charClass' in str(e.objpath))
    got = {v: 0 for v in range(256)}
    for e in r.events:
        p = e.objpath
        ok = e.kind == 'write' and p[0] == 'I' and p[1][0] == 'F' and len(e.args) == 1
        bits, ok2 = bits_of(e.args[0], p[2]) if ok else (0, False)
        c.ob('classes', ok and ok2, f, 'classes are only added', detail=show(e.args[0]) if e.args else '', st=e.st)
        if not (ok and ok2):
            continue
        vs = chars_of(c, r, e.st, p[2])
        c.ob('classes', vs is not None, f, 'a class is given to all of its characters', detail=show(p[2]), st=e.st)
        for v in vs or ():
            got[v] |= bits
    c.ob('classes', len(set(en.values())) == len(en) and all(v == 0 or v & (v - 1) == 0 and v < 256 for v in en.values()), f, 'classes are apart', detail=str(en))
    for K, cs in CLASS.items():
        if K == 'NONE':
            continue
        has = {v for v in got if K in en and got[v] & en[K]}
        c.ob('classes', has == cs, f, K, detail='wrong: %s' % sorted(map(chr, has ^ cs)))
    only_writers(c, 'classes', 'Lexer::d_charClass', {'Lexer::Lexer'})
    r = c.analyze(CL)
    x, K = params(r.f)
    for t, s in r.exits:
        ok = t.op == 'arith' and t.a[0] == '&' and {t.a[1], t.a[2]} >= {K} and any(y.op == 'idx' and field(y.a[0], 'd_charClass') and y.a[1] is x for y in t.a[1:])
        c.ob('classes', ok, r.f, 'a character is in a class iff its entry says so', detail=show(t), st=s)


def bits_of(t, ix):
    """the constants added to the entry ix"""
    b = 0
    while t.op == 'arith' and t.a[0] == '|':
        k = t.a[2] if t.a[2].op in ('i', 'e') else t.a[1]
        k = k.a[0] if k.op == 'i' else None
        if k is None:
            return 0, False
        b |= k
        t = t.a[1] if t.a[2].op in ('i', 'e') else t.a[2]
    return b, t.op == 'idx' and t.a[1] is ix and b > 0 or t is I(0)


def chars_of(c, r, st, ix):
    if ix.op == 'i':
        return {ix.a[0]}
    done = lambda f: all(f(s) for t, s in r.exits)
    if ix.op == 'it' and isT(ix.a[-1]) and ix.a[-1].op == 'i' and step_of(r, ix) == 1:
        lo, hi = ix.a[-1].a[0], st.interval(ix)[1]
        if hi is not None and done(lambda s: s.interval(ix)[0] == hi + 1):
            return set(range(lo, hi + 1))
    b = ix.a[0] if ix.op == 'deref' and ix.a[0].op == 'it' else ix.a[1] if ix.op == 'idx' else None
    C = None
    if b is not None and ix.op == 'deref' and isT(b.a[-1]) and b.a[-1].op == 'begin':
        C = b.a[-1].a[0] if step_of(r, b) == 1 and done(lambda s: s.truth(eq(b, mk('end', b.a[-1].a[0]))) is True) else None
    elif b is not None and b.op == 'it':
        C = ix.a[0] if done(lambda s: (sweep(r, s, ix) or (0, 0))[0] is ix.a[0]) else None
    if C is None:
        return None
    if C.op == 's':
        return {ord(x) for x in C.a[0]}
    for k, g in c.prog.globals.items():
        if C.op == 'g' and k in (C.a[0], str(C.a[0])) and g.get('const'):
            ss = [n['v'] for n in g['nodes'] if n['k'] == 'str']
            if len(ss) == 1:
                return {ord(x) for x in ss[0]}
    return None


# ------------------------------------------------------------------ tokens
OPQ = {q(x) for x in (CH, SV, PU, CL, CC, NE, PC, TK, 'Lexer::bumpSpan', 'Lexer::parseError')}


def tokens(c):
    g = Grammar('S0', cands=lambda st, t, s: candidates(st, t, LOOP[s[:-1]] if s.endswith('~') else None))
    r = c.analyze('Lexer::computeNextToken', opaque=OPQ, on=g.on, loophead=g.head, loopback=g.head, cap=2000)
    f = r.f
    seen = set()
    for t, s in r.exits:
        want = g.final(s)
        if want == {'dead'}:
            continue
        got = 'symbol' if is_call(t, TK) else t.a[0].split('::')[-1] if t.op == 'e' else show(t)
        c.ob('token', want == {got}, f, 'a token is read as the grammar says', detail='%s, where the grammar has %s' % (got, '/'.join(sorted(want))), st=s)
        seen.add(got)
    want = {'EOF_TOK', 'LPAREN', 'RPAREN', 'QUOTED_SYMBOL', 'UNTERMINATED_QUOTED_SYMBOL', 'STRING_LITERAL', 'UNTERMINATED_STRING_LITERAL'} | set(FINAL.values())
    c.ob('token', seen >= want, f, 'all kinds of tokens are read', detail=str(want - seen))
    for g_, l, s, stack in r.aborts:
        w = g.resolve(s)
        c.ob('token', w <= {'ERR', 'dead'}, f, 'only what is no token is rejected', detail='/'.join(sorted(w)), st=s)
    for it, l in r.loopstates.items():
        for w, s in l:
            t = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'lex']
            c.ob('token', not any(x[1] == 'bad' for x in t), f, 'characters are kept, dropped or put back as the grammar says', st=s)
    # its characters
    r = c.analyze('Lexer::nextTokenInternal', opaque={q('Lexer::computeNextToken')}, watch=lambda e: e.kind == 'cont' and 'd_token' in e.name or e.name == q('Lexer::computeNextToken'),
                  on=lambda e: [('at', len([x for x in e.st.ts if isinstance(x, tuple) and x[0] == 'at']), e.name.split('::')[-1], tuple(e.args))] if e.kind == 'cont' or e.name == q('Lexer::computeNextToken') else ())
    for t, s in r.exits:
        l = [x[2:] for x in sorted((x for x in s.ts if isinstance(x, tuple) and x[0] == 'at'), key=lambda x: x[1])]
        ok = [x[0] for x in l] == ['clear', 'computeNextToken', 'push_back'] and l[2][1] == (I(0),) and is_call(t, 'Lexer::computeNextToken')
        c.ob('token', ok, r.f, 'the text of a token is its characters, terminated', detail=str(l), st=s)
    r = c.analyze(PU)
    x = params(r.f)[0]
    for t, s in r.exits:
        v = post(r, s, 'Lexer::d_token')
        c.ob('token', v is not None and v.op == 'push' and v.a[1] is x and field(v.a[0], 'd_token'), r.f, 'a character is added to the text', detail=str(v), st=s)
    only_writers(c, 'token', 'Lexer::d_token', {'Lexer::nextTokenInternal', 'Lexer::pushToToken', 'Lexer::Lexer'})
    r = c.analyze('Lexer::tokenStr')
    for t, s in r.exits:
        c.ob('token', field(t, 'd_token') is not None and bool(field(t, 'd_token')), r.f, 'the text that is given', detail=str(t), st=s)


def helpers(c):
    def trans(s, v):
        s = s.rstrip('~')
        if s == 'L':
            return ('push', 'L') if v else ('save', 'R:')
        if s == 'E':
            return ('push', 'L') if v else (None, 'ERR')
        if s == 'P':
            return ('push', 'R:') if v else (None, 'ERR')
        return None, 'bad'
    for fn, start in ((CC, 'L'), (NE, 'E'), (PC, 'P')):
        K = []

        def cands(st, t, s):
            vs = {True, False} if not s.endswith('~') else {False}
            if st.cval(t).op == 'i':
                return set()
            for h, b in st.facts.items():
                if is_call(h, CL) and cargs(h)[0] is t and cargs(h)[1] is K[0]:
                    vs &= {b}
            return vs
        g = Grammar(start, trans=trans, cands=cands, loop=lambda s, k: s.rstrip('~') == 'L' and k is K[0], first=lambda s, k: {'E': 'L', 'P': 'R:'}.get(s) if k is K[0] else None)
        f = c.prog.fn1(fn)
        K.append(params(f)[0])
        r = c.analyze(f, opaque=OPQ - {q(fn)}, on=g.on, loophead=g.head, loopback=g.head)
        seen = set()
        for t, s in r.exits:
            w = g.resolve(s)
            if w == {'dead'}:
                continue
            fin = {x if x == 'ERR' else 'ok' if x.startswith('R:') or x == 'L~' else 'bad' for x in w}
            b = s.truth(t) if start != 'L' else None
            if start == 'L':
                ok = fin == {'ok'}
            else:
                ok = fin == {'ok'} and b is True or fin == {'ERR'} and b is False
            seen |= fin
            c.ob('lists', ok, f, 'characters of the class are taken', detail='%s: %s' % (show(t), '/'.join(sorted(w))), st=s)
        c.ob('lists', 'ok' in seen, f, 'characters can be taken')
        for it, l in r.loopstates.items():
            for w, s in l:
                c.ob('lists', not any(isinstance(x, tuple) and x[0] == 'lex' and x[1] == 'bad' for x in s.ts), f, 'characters are kept or put back', st=s)


# ------------------------------------------------------------------ characters
def characters(c):
    r = c.analyze(CH, opaque={q('Lexer::readNextChar')}, on=lambda e: ['read'] if e.kind == 'call' and e.name == q('Lexer::readNextChar') else ())
    n = set()
    for t, s in r.exits:
        pk = s.truth(pre(r, 'Lexer::d_peekedChar'))
        now = post(r, s, 'Lexer::d_peekedChar')
        if pk is True:
            ok = field(t, 'd_chPeeked') and now is FALSE and 'read' not in s.ts
        else:
            ok = pk is False and is_call(t, 'Lexer::readNextChar') and (now is None or now is FALSE or field(now, 'd_peekedChar'))
        n.add(pk)
        c.ob('characters', bool(ok), r.f, 'a character put back is read again, once, otherwise the next one', detail=show(t), st=s)
    c.ob('characters', n == {True, False}, r.f, 'characters can be put back')
    r = c.analyze(SV)
    for t, s in r.exits:
        ok = post(r, s, 'Lexer::d_peekedChar') is TRUE and post(r, s, 'Lexer::d_chPeeked') is params(r.f)[0]
        c.ob('characters', ok, r.f, 'a character is put back', st=s)
    r = c.analyze('Lexer::readNextChar', inv=True, on=lambda e: [('io', e.name.split('::')[-1], tuple(e.args))] if e.kind == 'call' and e.name.startswith('std::basic_istream::') else ())
    f = r.f
    pos, end, inter, ist, buf = (pre(r, 'Lexer::' + x) for x in ('d_bufferPos', 'd_bufferEnd', 'd_isInteractive', 'd_istream', 'd_buffer'))
    n = set()
    for t, s in r.exits:
        if absurd(r, s):
            continue
        io = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'io']
        p1, e1 = post(r, s, 'Lexer::d_bufferPos'), post(r, s, 'Lexer::d_bufferEnd')
        more = s.truth(mk('lt', pos, end))
        if more is None and s.truth(eq(pos, end)) is False:
            more = True
        if more is True:
            ok = t is index(buf, pos) and p1 is mk('plus', pos, I(1)) and e1 in (None, end) and not io
            n.add('next')
        elif s.truth(inter) is True:
            ok = (t is ist or t.op == 'r' and t.a[0].endswith('istream::get')) and p1 in (None, pos) and e1 in (None, end)
            n.add('stream')
        else:
            rd = [x for x in io if x[1] == 'read']
            gc = next((x for x in list(s.dom) + list(s.rng) + [e1] if isT(x) and x.op == 'r' and x.a[0].endswith('::gcount')), None)
            zero = gc is not None and s.cval(gc) is I(0)
            ok = more is False and s.truth(inter) is False and len(rd) == 1 and rd[0][2][0] is buf and e1 is not None and (e1 is gc or s.cval(e1) is s.cval(gc)) and gc is not None
            if zero:
                ok = ok and t is I(EOF) and (p1 is I(0) or s.cval(p1 or pos) is I(0))
                n.add('end')
            else:
                nz = gc is not None and (s.truth(eq(gc, I(0))) is False or (s.interval(gc)[0] or 0) > 0)
                ok = ok and nz and t.op == 'idx' and t.a[0].op == 'o' and t.a[0].a[0] == 'std::basic_istream::read' and t.a[1] is I(0) and p1 is I(1)
                n.add('refill')
        c.ob('characters', bool(ok), f, 'the next byte of the input', detail=show(t), st=s)
    c.ob('characters', n == {'next', 'stream', 'end', 'refill'}, f, 'all ways of reading', detail=str(n))
    # at most as many bytes as the buffer has
    size_ = 0
    for i, x in enumerate(f.nodes):
        if x['k'] == 'call' and x.get('n', '').endswith('istream::read'):
            b = f.nodes[x['a'][0]]
            k = f.nodes[x['a'][1]]
            m = re.match(r'char\[(\d+)\]', b.get('ty', ''))
            kv = k.get('v', k.get('cv'))
            size_ += 1
            c.ob('characters', bool(m) and isinstance(kv, int) and 0 < kv <= int(m.group(1)), f, 'at most as many bytes as the buffer holds are read', detail=str(kv))
    c.ob('characters', size_ >= 1, f, 'the input is read in blocks')
    # no byte is taken for the end of the input
    for g in c.prog.funcs.values():
        if not g.name.startswith('ethos::Lexer::'):
            continue
        up = None
        for i, x in enumerate(g.nodes):
            if x['k'] == 'idx' and x.get('ty') in ('char', 'signed char') and g.nodes[x['b']].get('n') == q('Lexer::d_buffer'):
                up = up or parents(g)
                ps = [g.nodes[up[i]]] if i in up else []
                ok = bool(ps) and all(p['k'] == 'cast' and p.get('ty') in ('unsigned char', 'uint8_t') for p in ps)
                c.ob('characters', ok, g, 'bytes are not negative', detail='line %s' % x.get('l'))
    only_writers(c, 'characters', 'Lexer::d_bufferPos', {'Lexer::readNextChar', 'Lexer::initialize', 'Lexer::Lexer'})
    only_writers(c, 'characters', 'Lexer::d_peekedChar', {'Lexer::nextChar', 'Lexer::saveChar', 'Lexer::initialize', 'Lexer::Lexer'})
    # the start
    r = c.analyze('Lexer::initialize', opaque={q('Lexer::initSpan')})
    I_ = params(r.f)[0]
    for t, s in r.exits:
        for fl, v in (('d_bufferPos', I(0)), ('d_bufferEnd', I(0)), ('d_peekedChar', FALSE)):
            c.ob('start', post(r, s, 'Lexer::' + fl) is v, r.f, 'nothing of another input is left', detail=fl, st=s)
        v = post(r, s, 'Lexer::d_peeked')
        c.ob('start', v in (EMPTY, mk('list', ())), r.f, 'no token of another input is left', detail=str(v), st=s)
        v = post(r, s, 'Lexer::d_istream')
        c.ob('start', v is not None and v.op == 'r' and v.a[0].endswith('Input::getStream') and v.a[1] is I_, r.f, 'the stream of the input', detail=str(v), st=s)
        v = post(r, s, 'Lexer::d_isInteractive')
        c.ob('start', v is not None and v.op == 'r' and v.a[0].endswith('Input::isInteractive'), r.f, 'and the way it is read', detail=str(v), st=s)


# ------------------------------------------------------------------ symbols
WORDS = {'!': 'ATTRIBUTE', 'eo::define': 'EVAL_DEFINE', 'par': 'PAR', 'let': 'LET', 'Bool': 'BOOL_TYPE', 'Type': 'TYPE'}


def symbols(c):
    r = c.analyze(TK, inv=True, opaque={q(CL)}, cap=4000)
    f = r.f
    T_ = pre(r, 'Lexer::d_token')
    n = size(T_)
    flag = {'LET': pre(r, 'Lexer::d_lexLet'), 'TYPE': pre(r, 'Lexer::d_lexType')}

    def at(s, i):
        """the characters at a position"""
        return candidates(s, index(T_, I(i)))

    def length(s):
        lo, hi = s.interval(n)
        return (lo or 1), hi

    def possible(s, w):
        """may the symbol be that word in the state"""
        lo, hi = length(s)
        if not (lo <= len(w) and (hi is None or len(w) <= hi)) or s.truth(eq(n, I(len(w)))) is False:
            return False
        k = WORDS[w]
        if k in flag and s.truth(flag[k]) is False:
            return False
        return all(ord(x) in at(s, i) for i, x in enumerate(w))

    def is_word(s, w):
        return length(s) == (len(w), len(w)) and all(at(s, i) == {ord(x)} for i, x in enumerate(w)) and (WORDS[w] not in flag or s.truth(flag[WORDS[w]]) is True)

    kinds = {'INTEGER_LITERAL', 'DECIMAL_LITERAL', 'RATIONAL_LITERAL'}
    rets = {it for it in r.loopstates if isT(it.a[-1]) and it.a[-1].op == 'e' and it.a[-1].a[0].split('::')[-1] == 'INTEGER_LITERAL'}
    seen = set()
    for t, s in r.exits:
        t = s.cval(t)
        k = t.a[0].split('::')[-1] if t.op == 'e' else None
        if t in rets or k in kinds:
            # the number loop has ended
            ix = [h.a[0] for h, b in s.facts.items() if h.op == 'lt' and b is False and h.a[1] is n and h.a[0].op == 'it'] + [y for h, b in s.facts.items() if h.op == 'eq' and b is True and n in h.a for y in h.a if y.op == 'it']
            ok = len(ix) == 1 and ix[0].a[-1] is I(1) and step_of(r, ix[0]) == 1 and (t in rets or t.op == 'e' and any(s.cval(y) is t for y in rets))
            c.ob('symbol', ok, f, 'a number has digits to its end', detail=show(t), st=s)
            c.ob('symbol', at(s, 0) == {ord('-')} and length(s)[0] >= 2, f, 'a number starts with a minus sign', detail=str(length(s)), st=s)
            seen.add('number')
            continue
        if k == 'SYMBOL':
            for w in WORDS:
                c.ob('symbol', not possible(s, w), f, 'what is a symbol is not %s' % w, st=s)
            if ord('-') in at(s, 0) and not (length(s)[1] == 1):
                # refuted by a character that does not fit
                ok = at(s, 0) == {ord('-')} and refuted(r, s, T_, n)
                c.ob('symbol', ok, f, 'what is a symbol is not a number', st=s)
            seen.add('SYMBOL')
            continue
        ws = [w for w, x in WORDS.items() if x == k]
        c.ob('symbol', len(ws) == 1 and is_word(s, ws[0]), f, 'a keyword is written as it is', detail='%s' % k, st=s)
        seen.add(k)
    c.ob('symbol', seen >= set(WORDS.values()) | {'SYMBOL', 'number'}, f, 'all keywords', detail=str(seen))
    k = 0
    for it in rets:
        for w, s in r.loopstates[it]:
            k += 1
            ix = [y for y in s_index(s, T_)]
            ok = len(ix) == 1
            if ok:
                cs = candidates(s, index(T_, ix[0]))
                w_ = s.cval(w)
                name = w_.a[0].split('::')[-1] if w_.op == 'e' else None
                was = s.cval(it)
                if w is it:
                    ok = cs <= DIG
                else:
                    ok = cs == {ord('.')} and name == 'DECIMAL_LITERAL' or cs == {ord('/')} and name == 'RATIONAL_LITERAL'
                    ok = ok and was.op == 'e' and was.a[0].split('::')[-1] == 'INTEGER_LITERAL'
                    ok = ok and inner(r, s, ix[0]) and before_end(s, ix[0], n)
            c.ob('symbol', ok, f, 'a number consists of digits, with a point or slash between them at most once', detail=show(w), st=s)
    c.ob('symbol', k > 0, f, 'numbers are analysed')
    # which keywords there are in which input
    r = c.analyze('Parser::Parser')
    sig = params(r.f)[1]
    for t, s in r.exits:
        v = post(r, s, 'Parser::d_lex')
        ok = v is not None and v.op == 'new' and v.a[0] == q('Lexer') and len(v.a[1]) == 2
        if ok:
            let, ty = v.a[1]
            ok = (ty is sig or s.truth(sig) is s.truth(ty) is not None) and \
                (s.truth(sig) is True and s.truth(let) is False or s.truth(sig) is False and field(let, 'd_parseLet') or any(field(x, 'd_parseLet') and b is s.truth(let) for x, b in s.facts.items()))
        c.ob('symbol', bool(ok), r.f, 'let and Type are keywords in one kind of input only', detail=str(v), st=s)
    g = next(f for f in c.prog.funcs.values() if f.name == q('Lexer::Lexer') and len(f.params) == 2)
    r = c.analyze(g, inv=True)
    for t, s in r.exits:
        for fl, x in zip(('d_lexLet', 'd_lexType'), params(g)):
            c.ob('symbol', post(r, s, 'Lexer::' + fl) is x, g, 'and remain so', detail=fl, st=s)


def s_index(s, T_):
    return {h.a[1] for h in list(s.dom) + [cargs(x)[0] for x in s.facts if is_call(x, CL)] + list(s.rng) if h.op == 'idx' and h.a[0] is T_ and h.a[1].op == 'it'}


def inner(r, s, i):
    lo = s.interval(i)[0] or 0
    return lo >= 2 or (lo == 1 or i.a[-1] is I(1) and step_of(r, i) == 1) and s.truth(eq(i, I(1))) is False


def before_end(s, i, n):
    return s.truth(mk('lt', mk('plus', i, I(1)), n)) is True or s.truth(eq(mk('plus', i, I(1)), n)) is False or s.truth(eq(i, mk('minus', n, I(1)))) is False


def refuted(r, s, T_, n):
    for i in s_index(s, T_):
        cs = candidates(s, index(T_, i))
        if cs & DIG:
            continue
        num = [s.cval(y) for y in r.loopstates if y.a[0] == i.a[0] and y is not i and isT(y.a[-1]) and y.a[-1].op == 'e']
        first = s.interval(i) == (1, 1) or s.truth(mk('lt', I(1), i)) is False or s.truth(eq(i, I(1))) is True
        last = s.truth(mk('lt', mk('plus', i, I(1)), n)) is False or s.truth(eq(mk('plus', i, I(1)), n)) is True or s.truth(eq(i, mk('minus', n, I(1)))) is True
        if not cs & {ord('.'), ord('/')} or first or last or any((x.op == 'e' and not x.a[0].endswith('INTEGER_LITERAL')) or
                                                            s.dom.get(y) and s.dom[y][0] == 'ni' and any((z.a[0] if isT(z) else z).endswith('INTEGER_LITERAL') for z in s.dom[y][1])
                                                            for y in r.loopstates if y.a[0] == i.a[0] and isT(y.a[-1]) and y.a[-1].op == 'e' for x in [s.cval(y)]):
            return True
    return False


# ------------------------------------------------------------------ commands
BOTH = 'declare-const declare-datatype declare-datatypes declare-sort echo exit set-option pop push reset'
REF = 'assert declare-fun define-const define-fun define-sort check-sat check-sat-assuming set-logic set-info'
PROOF = 'assume assume-push declare-consts declare-parameterized-const declare-rule define include program reference step step-pop'


def command_names(c):
    f = next(f for f in c.prog.funcs.values() if f.name == q('CmdParser::CmdParser') and len(f.params) == 4)
    r = c.analyze(f, inv=True, on=lambda e: [('cmd', e.objpath[2], e.args[0])] if e.kind == 'write' and e.objpath and e.objpath[0] == 'I' and 'd_table' in str(e.objpath[1]) else
                  [('cmd',) + tuple(e.args)] if e.kind == 'cont' and 'd_table' in e.name and e.name.split('::')[-1] in ('emplace', 'try_emplace', 'insert_or_assign') and len(e.args) == 2 else
                  ['other'] if e.kind == 'cont' and 'd_table' in e.name else ())
    ref = params(f)[3]
    seen = set()
    for t, s in r.exits:
        b = s.truth(ref)
        got = [(x[1].a[0] if x[1].op == 's' else show(x[1]), x[2].a[0].split('::')[-1] if x[2].op == 'e' else show(x[2])) for x in s.ts if isinstance(x, tuple) and x[0] == 'cmd']
        want = {(w, w.upper().replace('-', '_')) for w in (BOTH + ' ' + (REF if b else PROOF)).split()}
        c.ob('command', b is not None and set(got) == want and len(got) == len(want) and 'other' not in s.ts, f, 'the commands of %s' % ('references' if b else 'proofs'), detail=str(set(got) ^ want), st=s)
        seen.add(b)
    c.ob('command', seen == {True, False}, f, 'commands of references and of proofs')
    only_writers(c, 'command', 'CmdParser::d_table', {'CmdParser::CmdParser'})
    r = c.analyze('CmdParser::nextCommandToken', opaque={q('Lexer::nextToken'), q('Lexer::tokenStr')})
    for t, s in r.exits:
        tk = [h for h in list(s.dom) + list(s.facts) for h in subterms(h) if is_call(h, 'Lexer::nextToken')] + [h for h in subterms(t) if is_call(h, 'Lexer::nextToken')]
        sym = tk and s.cval(tk[0]) is tok('SYMBOL')
        if tk and (t is tk[0] or t is s.cval(tk[0])):
            miss = [h for h, b in s.facts.items() if h.op == 'has' and field(h.a[0], 'd_table') and b is False and any(is_call(y, 'Lexer::tokenStr') for y in subterms(h))]
            ok = s.truth(eq(tk[0], tok('SYMBOL'))) is False or bool(miss)
        else:
            x = [y for y in subterms(t) if y.op == 'idx' and field(y.a[0], 'd_table')]
            ok = sym and len(x) == 1 and any(is_call(y, 'Lexer::tokenStr') for y in subterms(x[0].a[1]))
        c.ob('command', bool(ok), r.f, 'a command is the symbol that names it', detail=show(t), st=s)
    for w in ('SYMBOL', 'LPAREN', 'KEYWORD', 'STRING_LITERAL', 'QUOTED_SYMBOL'):
        r = command(c, w, opaque=())
        c.ob('command', not [s for s in accepting(r) if not absurd(r, s)], r.f, 'what is no command is rejected: %s' % w)


# ------------------------------------------------------------------ tokens put back
def lookahead(c):
    PK = 'Lexer::d_peeked'
    r = c.analyze('Lexer::nextToken', opaque={q('Lexer::nextTokenInternal')}, on=lambda e: ['new'] if e.kind == 'call' and e.name == q('Lexer::nextTokenInternal') else ())
    P = pre(r, PK)
    for t, s in r.exits:
        e = s.truth(eq(size(P), I(0)))
        v = post(r, s, PK)
        if e is True:
            ok = is_call(t, 'Lexer::nextTokenInternal') and v in (None, P)
        else:
            ok = e is False and t in (mk('back', P), index(P, mk('minus', size(P), I(1)))) and v is mk('pop', P) and 'new' not in s.ts
        c.ob('lookahead', bool(ok), r.f, 'a token put back is the next one', detail=show(t), st=s)
    r = c.analyze('Lexer::reinsertToken')
    for t, s in r.exits:
        c.ob('lookahead', post(r, s, PK) is push(pre(r, PK), params(r.f)[0]), r.f, 'a token is put back', detail=str(post(r, s, PK)), st=s)
    r = c.analyze('Lexer::peekToken', inline={q('Lexer::reinsertToken')}, opaque={q('Lexer::nextTokenInternal'), q('Lexer::nextToken')})
    for t, s in r.exits:
        ok = t.op == 'r' and t.a[0] in (q('Lexer::nextTokenInternal'), q('Lexer::nextToken')) and post(r, s, PK) is not None and post(r, s, PK).op == 'push' and post(r, s, PK).a[1] is t
        c.ob('lookahead', ok, r.f, 'a token that is only looked at is put back', detail=str(post(r, s, PK)), st=s)
    NT = 'Lexer::nextToken'
    r = c.analyze('Lexer::eatToken', opaque={q(NT)})
    x = params(r.f)[0]
    for t, s in r.exits:
        tk = one_token(s)
        c.ob('lookahead', tk is not None and s.truth(eq(tk, x)) is True, r.f, 'another token than the expected one is rejected', st=s)
    c.ob('lookahead', bool(r.exits), r.f, 'an expected token is accepted')
    r = c.analyze('Lexer::eatTokenChoice', opaque={q(NT)})
    a, b = params(r.f)
    seen = set()
    for t, s in r.exits:
        tk = one_token(s)
        v = s.truth(t)
        ok = tk is not None and (v is True and s.truth(eq(tk, a)) is True or v is False and s.truth(eq(tk, b)) is True and s.truth(eq(tk, a)) is False)
        seen.add(v)
        c.ob('lookahead', bool(ok), r.f, 'one of two tokens is required, and told', detail=show(t), st=s)
    c.ob('lookahead', seen == {True, False}, r.f, 'both are accepted')
    only_writers(c, 'lookahead', PK, {'Lexer::nextToken', 'Lexer::reinsertToken', 'Lexer::peekToken', 'Lexer::initialize', 'Lexer::Lexer'})


def one_token(s):
    tk = {y for h in list(s.facts) + list(s.dom) for y in subterms(h) if is_call(y, 'Lexer::nextToken')}
    return tk.pop() if len(tk) == 1 else None
