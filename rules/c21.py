"""A file is read once, from where the file that includes it says."""
from common import *

FP = {x: q('Filepath::' + x) for x in ('isAbsolute', 'exists', 'append', 'makeCanonical', 'parentPath', 'getRawPath')}
MI, PN, SI, INC = q('State::markIncluded'), q('Parser::parseNextCommand'), q('Parser::setFileInput'), q('State::includeFile')


def run(c):
    c.rule('place', 'a relative path is taken from the folder of the including file, an absolute one as it is', 6)
    c.rule('once', 'a file that was included is not read again, any other one is', 8)
    c.rule('whole', 'an included file is read until its end', 4)
    c.rule('restore', 'after an included file, paths are again relative to the file that included it', 4)
    c.rule('asked', 'the file that is included is the one named, as what it was named for', 8)
    c.rule('path', 'the path computations do what their interface states', 20)
    include(c)
    marks(c)
    asked(c)
    cmdline(c)
    paths(c)


def newpath(t, arg):
    return t.op == 'new' and t.a[0].endswith('Filepath') and len(t.a[1]) == 1 and t.a[1][0] is arg


def out0(t, name):
    return isT(t) and t.op == 'o' and is_out(t, name, -1)


def include(c):
    f = [f for f in c.prog.fn('State::includeFile') if len(f.params) == 4][0]
    PARENT = ('F', THIS, q('State::d_inputFile'))

    def on(e):
        if e.kind == 'call' and e.name in (MI, PN, SI) or e.kind == 'call' and e.name in FP.values():
            n = e.name.split('::')[-1]
            if n == 'parseNextCommand':
                return [('-', t) for t in e.st.ts if isinstance(t, tuple) and t[0] == 'read'] + [('read', e.ret)]
            return [('ev', n, e.obj, tuple(e.args), e.ret)]
        return ()
    r = c.analyze(f, inv=True, on=on, watch=lambda e: e.kind == 'call' and e.name in (MI, PN, SI) or e.kind == 'ctor' and e.name == q('Parser::Parser') or e.kind == 'write' and e.name == q('State::d_inputFile'),
                  opaque=set(FP.values()) | {MI, PN, SI}, cap=3000)
    CUR = pre(r, 'State::d_inputFile')
    S, ISS, ISR = [par(f, i) for i in range(3)]

    def resolved(st, P):
        """P is the canonical path the name stands for"""
        if not out0(P, 'Filepath::makeCanonical'):
            return False
        X = [x for x in st.ts if isinstance(x, tuple) and x[0] == 'ev' and x[1] == 'makeCanonical' and outof(x, P)]
        if len(X) != 1:
            return False
        x = X[0][2]
        absl = [t for t, v in st.facts.items() if is_call(t, 'Filepath::isAbsolute') and newpath(t.a[1], S)]
        if len(absl) != 1:
            return False
        if st.truth(absl[0]) is True:
            return newpath(x, S)
        A = [y for y in st.ts if isinstance(y, tuple) and y[0] == 'ev' and y[1] == 'append' and outof(y, x)]
        return (len(A) == 1 and is_call(A[0][2], 'Filepath::parentPath') and A[0][2].a[1] is CUR and newpath(A[0][3][0], S))

    def marked(st):
        m = [x for x in st.ts if isinstance(x, tuple) and x[0] == 'ev' and x[1] == 'markIncluded']
        return m[0] if len(m) == 1 else None

    for e in r.events:
        if e.kind == 'call' and e.name == MI:
            c.ob('place', resolved(e.st, e.args[0]), f, 'the file that is marked as included is the one the name stands for', detail=str(e.args), st=e.st)
            c.ob('once', marked(e.st) is None, f, 'a file is marked as included once', st=e.st)
        elif e.kind == 'call' and e.name == SI:
            m = marked(e.st)
            ok = m is not None and is_call(e.args[0], 'Filepath::getRawPath') and e.args[0].a[1] is m[3][0]
            c.ob('place', ok, f, 'the file that is read is the one that was marked as included', detail=str(e.args), st=e.st)
            c.ob('once', m is not None and e.st.truth(m[4]) is True, f, 'a file is read only if it was not included before', st=e.st)
            now = cur(r, e.st)
            c.ob('place', m is not None and now is m[3][0], f, 'paths in the file are relative to it', detail=str(now), st=e.st)
            ok = e.obj.op == 'new' and e.obj.a[0].endswith('Parser') and tuple(e.obj.a[1][1:]) == (ISS, ISR) and e.obj.a[1][0] is deref(THIS)
            c.ob('asked', ok, f, 'the file is read as what it is included for', detail=str(e.obj), st=e.st)
        elif e.kind == 'call':
            m = marked(e.st)
            ok = m is not None and cur(r, e.st) is m[3][0]
            c.ob('place', ok, f, 'while the file is read, paths are relative to it', st=e.st)
            ok = any(isinstance(x, tuple) and x[0] == 'ev' and x[1] == 'setFileInput' and reader(x, e.obj) for x in e.st.ts)
            c.ob('whole', ok, f, 'commands are read from the included file', detail=str(e.obj), st=e.st)
    n = {True: 0, False: 0}
    for v, s in r.exits:
        if absurd(r, s):
            continue
        m = marked(s)
        rd = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'read']
        res = None if v is None else s.truth(v)
        now = cur(r, s)
        c.ob('restore', now is CUR, f, 'the including file is again the current one', detail=str(now), st=s)
        if res is False:
            ex = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'ev' and x[1] == 'exists' and s.truth(x[4]) is False]
            c.ob('whole', len(ex) == 1 and not rd and m is None and resolved(s, ex[0][2]), f, 'including fails only for a file that does not exist', st=s)
        elif res is True and m is not None and s.truth(m[4]) is False:
            c.ob('once', not rd, f, 'nothing is read for a file that was included before', st=s)
            n[False] += 1
        else:
            ok = res is True and m is not None and s.truth(m[4]) is True and len(rd) == 1 and s.truth(rd[0][1]) is False
            c.ob('whole', ok, f, 'including ends at the end of the file', detail=str(rd), st=s)
            n[True] += 1
    c.ob('whole', all(n.values()), f, 'both a new and an old file can be included', detail=str(n))
    only_writers(c, 'restore', 'State::d_inputFile', {q('State::includeFile')})


def par(f, i):
    return mk('p', i, f.params[i]['name'])


def cur(r, st):
    v = st.env.get(('F', THIS, q('State::d_inputFile')))
    return v if v is not None else pre(r, 'State::d_inputFile')


def outof(ev, t):
    """t is the object of the call ev after it"""
    return t.op == 'o' and t.a[2] == -1 and t.a[0] == ev[4].a[0] and t.a[-1] == ev[4].a[3]


def reader(ev, t):
    seen = set()
    while isT(t) and t.op == 'it':
        t = t.a[-1]
    return isT(t) and (outof(ev, t) or t is ev[2])


def marks(c):
    f = c.prog.fn1('State::markIncluded')
    r = c.analyze(f, inv=True)
    S, D = par(f, 0), pre(r, 'State::d_includes')
    seen = set()
    for v, s0, want in [(v, s, w) for v, s in r.exits for w in (True, False)]:
        s = s0.copy()
        if not s.assume(v, want):
            continue
        res = s.truth(v)
        old = s.truth(has(D, S))
        now = post(r, s, 'State::d_includes')
        seen.add(res)
        if res is True:
            c.ob('once', old is False and now.op == 'ins' and now.a[0] is D and now.a[1] is S, f, 'a file that was not included before is remembered', detail=str(now), st=s)
        else:
            c.ob('once', res is False and old is True and (now is D or now.op == 'ins' and now.a[0] is D and now.a[1] is S), f, 'only a file that was included before is skipped', detail=str(now), st=s)
    c.ob('once', seen == {True, False}, f, 'files are told apart', detail=str(seen))
    only_writers(c, 'once', 'State::d_includes', {q('State::markIncluded')})
    only_callers(c, 'once', 'State::markIncluded', {q('State::includeFile')})
    g = c.prog.fn1('operator<')
    r = c.analyze(g, inv=True, inline={FP['getRawPath']})
    for v, s in r.exits:
        ok = v.op == 'lt' and all(raw(x) is par(g, i) for i, x in enumerate(v.a))
        c.ob('once', ok, g, 'files are compared by their whole path', detail=str(v), st=s)


def raw(t):
    """x if t is the text of the path x"""
    if field(t, 'rawPath'):
        return t.a[1]
    if is_call(t, 'Filepath::getRawPath'):
        return t.a[1]
    return None


def asked(c):
    for tk in ('INCLUDE', 'REFERENCE'):
        r = command(c, tk, watch=lambda e: e.kind == 'call' and e.name == INC, opaque={INC, q('ExprParser::parseStr'), q('ExprParser::parseExpr')},
                    on=lambda e: [('inc', e.ret)] if e.kind == 'call' and e.name == INC else (), inv=True)
        n = 0
        for e in r.events:
            a = e.args
            n += 1
            c.ob('asked', is_call(a[0], 'ExprParser::parseStr') and (not cargs(a[0]) or cargs(a[0])[-1] is B(True)), r.f, '%s: the file named is included' % tk, detail=str(a), st=e.st)
            ref = tk == 'REFERENCE'
            if len(a) == 4:
                ok = e.st.truth(a[1]) is (not ref) and e.st.truth(a[2]) is ref
                c.ob('asked', ok, r.f, '%s: it is read as a %s' % (tk, 'reference' if ref else 'signature'), detail=str(a), st=e.st)
                ok = is_call(a[3], 'ExprParser::parseExpr') if ref and a[3] is not NULL else isnull(e.st, a[3])
                c.ob('asked', ok, r.f, '%s: with the normalization given' % tk, detail=str(a[3]), st=e.st)
            else:
                c.ob('asked', not ref and e.st.truth(a[1]) is True, r.f, '%s: it is read as a signature' % tk, detail=str(a), st=e.st)
        for s in accepting(r):
            t = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'inc']
            c.ob('asked', len(t) == 1 and s.truth(t[0][1]) is True, r.f, '%s: is rejected if the file cannot be included' % tk, detail=str(t), st=s)
        c.ob('asked', n > 0, r.f, '%s includes a file' % tk)


def cmdline(c):
    f = [g for g in c.prog.funcs.values() if g.name == 'main'][0]

    def on(e):
        if e.kind == 'call' and e.name == INC:
            return [('inc', tuple(e.args), e.ret)]
        if e.kind == 'call' and e.name == PN:
            return [('-', t) for t in e.st.ts if isinstance(t, tuple) and t[0] == 'read'] + [('read', e.ret)]
        return ()
    r = c.analyze(f, inv=True, on=on, watch=lambda e: e.kind == 'call' and (e.name in (INC, SI) or e.name.split('::')[-1] in ('exit', 'setStreamInput')) or e.kind == 'ctor' and e.name == q('Parser::Parser'),
                  opaque={INC, PN, SI, q('State::isProofRuleSorry')}, cap=3000, loophead=lambda g, h, s: s.ts,
                  loopback=lambda g, h, s: [x for x in s.ts if not (isinstance(x, tuple) and x[0] == 'inc' and s.truth(x[2]) is True)])
    seen = set()
    for e in r.events:
        st = e.st
        if e.name == INC:
            a = e.args
            p = elem(a[0])
            if p is not None:
                seen.add('option')
                C = p.a[0] if p.op == 'idx' else p.a[0].a[-1].a[0]
                ok = len(a) == 4 and pairpart(a[1], p) is True and pairpart(a[2], p) is False and isnull(st, a[3])
                c.ob('asked', ok, f, 'a file given by an option is included as what the option says', detail=str(a), st=st)
                option(c, r, f, C)
            else:
                seen.add('file')
                ok = a[0].op == 'it' and all(w is a[0] or argument(w) for w, _ in r.loopstates.get(a[0], [(None, None)]))
                c.ob('asked', ok, f, 'the file given as argument is included', detail=str(a), st=st)
                ok = eoext(st, a[0], a[1]) and (len(a) == 2 or st.truth(a[2]) is False)
                c.ob('asked', ok, f, 'it is read as a signature if its name ends in .eo, and otherwise as a proof', detail=str(a[1]), st=st)
                opts = [x for x in st.ts if isinstance(x, tuple) and x[0] == 'inc']
                c.ob('asked', ended(r, st), f, 'the files given by options are included first', st=st)
        elif e.name.endswith('setStreamInput'):
            seen.add('stdin')
            c.ob('asked', e.obj.op == 'new' and all(st.truth(x) is False for x in e.obj.a[1][1:]) and ended(r, st), f, 'the standard input is read as a proof, after the files given by options', detail=str(e.obj), st=st)
        elif e.name.endswith('exit'):
            for x in st.ts:
                if isinstance(x, tuple) and x[0] == 'inc':
                    c.ob('asked', st.truth(x[2]) is True, f, 'the run does not end well when a file could not be included', detail=str(x), st=st)
                elif isinstance(x, tuple) and x[0] == 'read':
                    c.ob('whole', st.truth(x[1]) is False, f, 'the standard input is read until its end', detail=str(x), st=st)
    c.ob('asked', seen == {'option', 'file', 'stdin'}, f, 'files given by options, a file and the standard input can be read', detail=str(seen))


def elem(t):
    """the element of a container t is the name of"""
    x = fpart(t)
    if x is None or x[0] != 'first':
        return None
    x = x[1]
    return x if x.op == 'idx' or x.op == 'deref' and x.a[0].op == 'it' and isT(x.a[0].a[-1]) and x.a[0].a[-1].op == 'begin' else None


def pairpart(t, p):
    """True if t is the second of the pair p, False if its negation"""
    if t.op == 'not':
        x = pairpart(t.a[0], p)
        return None if x is None else not x
    return True if fpart(t) == ('second', p) else None


OPTIONS = {'--include=': True, '--reference=': False}


def prefixes(st, A):
    """{prefix: whether the argument A has it}"""
    d = {}
    for t in set(st.facts) | set(st.dom) | set(st.rng):
        for x in subterms(t):
            if x.op == 'r' and x.a[0].endswith('::compare') and x.a[1] is A and len(x.a[2]) == 3 and x.a[2][0] is I(0) and x.a[2][2].op == 's' and x.a[2][1] is I(len(x.a[2][2].a[0])):
                v = st.truth(eq(x, I(0)))
                if v is not None:
                    d[x.a[2][2].a[0]] = v
    return d


def argument(t):
    return t.op == 'idx' and t.a[0].op == 'p' and t.a[1].op == 'it'


def option(c, r, f, C):
    """what is pushed to the container C: (name, whether to include it) for the options"""
    if C.op != 'it' or not segs0(C.a[-1]):
        c.ob('asked', False, f, 'the files given by options are collected', detail=str(C))
        return
    n = set()
    for v, st in r.loopstates.get(C, ()):
        if v is C:
            pf = prefixes(st, next((x for t in st.facts for x in subterms(t) if argument(x)), None))
            c.ob('asked', not any(pf.get(o) for o in OPTIONS), f, 'no file given by an option is forgotten', detail=str(pf), st=st)
            continue
        ok = v.op == 'push' and v.a[0] is C and v.a[1].op == 'pair'
        c.ob('asked', ok, f, 'the files given by options are collected in order', detail=str(v), st=st)
        if not ok:
            continue
        N, W = v.a[1].a
        ok = N.op == 'r' and N.a[0].endswith('::substr') and argument(N.a[1])
        c.ob('asked', ok, f, 'the name is the rest of the option', detail=str(N), st=st)
        if not ok:
            continue
        A = N.a[1]
        pf = prefixes(st, A)
        on = [o for o in OPTIONS if pf.get(o)]
        w = st.truth(W)
        if w is None and W.op == 'eq':
            w = None
        ok = len(on) == 1 and (w is OPTIONS[on[0]])
        c.ob('asked', ok, f, 'the option says what the file is read as', detail=str((on, str(W))), st=st)
        if not ok:
            continue
        n.add(on[0])
        a = N.a[2]
        ok = rest(a[0], A, len(on[0])) and (len(a) == 1 or a[1].op == 'i' and a[1].a[0] >= 2 ** 62)
        c.ob('asked', ok, f, 'the name is what follows the = of the option', detail=str(N), st=st)
    c.ob('asked', n == set(OPTIONS), f, 'files can be included and used as reference by options', detail=str(n))


def segs0(t):
    return t is EMPTY or t.op == 'list' and not t.a[0]


def rest(t, A, n):
    if t is I(n):
        return True
    l = linear(t)
    k = [x for x in l if x is not None]
    return (l.get(None, 0) == 1 and len(k) == 1 and l[k[0]] == 1 and k[0].op == 'r' and k[0].a[0].split('::')[-1] in ('find', 'find_first_of') and k[0].a[1] is A
            and k[0].a[2][0] in (S('='), I(61)) and all(x is I(0) for x in k[0].a[2][1:]))


def ended(r, st):
    """the loop over the files given by options has run to its end"""
    for t, v in list(st.facts.items()):
        if t.op == 'lt' and v is False and t.a[0].op == 'it' and t.a[1].op == 'size' and t.a[0].a[-1] is I(0) and step_of(r, t.a[0]) == 1 and t.a[1].a[0].op == 'it':
            return True
        if t.op == 'eq' and v is True:
            for a, b in (t.a, t.a[::-1]):
                if a.op == 'it' and isT(a.a[-1]) and a.a[-1].op == 'begin' and b.op == 'end' and b.a[0] is a.a[-1].a[0] and step_of(r, a) == 1:
                    return True
    return False


def eoext(st, N, t):
    short = st.truth(lt(size(N), I(3)))
    if t.op == 'and':
        return all(eoext(st, N, x) or x is not_(lt(size(N), I(3))) for x in t.a) and any(x.op == 'eq' for x in t.a)
    if short is True:
        return st.truth(t) is False
    if t.op == 'eq' and S('.eo') in t.a:
        x = t.a[0] if t.a[1] is S('.eo') else t.a[1]
        return x.op == 'r' and x.a[0].endswith('::substr') and x.a[1] is N and linear(x.a[2][0]) == {size(N): 1, None: -3}
    if t.op == 'eq' and I(0) in t.a:
        x = t.a[0] if t.a[1] is I(0) else t.a[1]
        return x.op == 'r' and x.a[0].endswith('::compare') and x.a[1] is N and linear(x.a[2][0]) == {size(N): 1, None: -3} and x.a[2][1] is I(3) and x.a[2][2] is S('.eo')
    return False


def npos(t):
    return isT(t) and t.op == 'i' and t.a[0] >= 2 ** 62 or isT(t) and t.op == 'i' and t.a[0] == -1


def paths(c):
    # what makes a path
    for f in c.prog.fn('Filepath::Filepath'):
        if len(f.params) != 1 or f.params[0]['ty'].count('Filepath'):
            continue
        r = c.analyze(f, inv=True)
        P = par(f, 0)
        for v, s in r.exits:
            t = post(r, s, 'Filepath::rawPath')
            while t.op == 'new' and len(t.a[1]) == 1:
                t = t.a[1][0]
            ok = t is P
            if t.op == 'r' and t.a[0].endswith('::substr') and len(t.a[2]) == 2:
                x = [y for y in subterms(t.a[2][1]) if y.op == 'r' and y.a[0].endswith('find_last_not_of')]
                y = t.a[2][0]
                base = t.a[1]
                while base.op == 'new' and len(base.a[1]) == 1:
                    base = base.a[1][0]
                ok = base is P and len(x) == 1 and y.op == 'r' and y.a[0].endswith('find_first_not_of') and all(z.a[2][0] in (I(32), S(' ')) for z in (x[0], y)) and linear(t.a[2][1]) == {x[0]: 1, y: -1, None: 1}
            c.ob('path', ok, f, 'a path is its text, without spaces around it', detail=str(t), st=s)
    f = c.prog.fn1('Filepath::isAbsolute')
    r = c.analyze(f, inv=True)
    for v, s in r.exits:
        ok = v is eq(index(RAW0(r), I(0)), I(47)) or s.truth(eq(size(RAW0(r)), I(0))) is True and s.truth(v) is False
        c.ob('path', ok, f, 'a path that starts with / is absolute', detail=str(v), st=s)
    f = c.prog.fn1('Filepath::getRawPath')
    r = c.analyze(f, inv=True)
    for v, s in r.exits:
        c.ob('path', v is RAW0(r), f, 'the text of a path', detail=str(v), st=s)
    f = c.prog.fn1('Filepath::parentPath')
    r = c.analyze(f, inv=True)
    n = set()
    for v, s in r.exits:
        x = v.a[1][0] if v.op == 'new' and len(v.a[1]) <= 1 and v.a[0].endswith('Filepath') and v.a[1] else v
        fl = [y for t in list(s.facts) + list(s.dom) + list(s.rng) + [x] for y in subterms(t) if lastslash(y, RAW0(r))]
        if not fl:
            c.ob('path', False, f, 'the folder of a file is looked for', detail=str(v), st=s)
            continue
        L = fl[0]
        none = s.cval(L).op == 'i' or s.truth(eq(L, I(-1))) is True
        if x is S('') or v.op == 'new' and not v.a[1]:
            n.add('none')
            c.ob('path', none, f, 'a path without / has no folder', detail=str(v), st=s)
        else:
            n.add('some')
            ok = x.op == 'r' and x.a[0].endswith('::substr') and x.a[1] is RAW0(r) and x.a[2][0] is I(0) and linear(x.a[2][1]) == {L: 1, None: 1} and not none
            c.ob('path', ok, f, 'the folder of a file is its path up to the last /', detail=str(v), st=s)
    c.ob('path', n == {'none', 'some'}, f, 'paths with and without folder', detail=str(n))
    f = c.prog.fn1('Filepath::append')
    r = c.analyze(f, inv=True)
    A = mk('f', par(f, 0), 'x')
    for v, s in r.exits:
        t = post(r, s, 'Filepath::rawPath')
        if t.op == 'o' and t.a[0].split('::')[-1] in ('append', 'operator+='):
            x, y = RAW0(r), t.a[3][-1] if len(t.a[3]) == 1 else None
            o = t.a[1]
            ok = (o is None or o is RAW0(r)) and y is not None and raw(y) is par(f, 0)
        else:
            parts = list(t.a) if t.op in ('cat', 'plus') else list(t.a[2]) if t.op == 'r' and t.a[0].split('::')[-1] == 'operator+' else []
            ok = len(parts) == 2 and parts[0] is RAW0(r) and raw(parts[1]) is par(f, 0)
        c.ob('path', ok, f, 'appending puts the other path behind this one', detail=str(t), st=s)
    canonical(c)


def RAW0(r):
    return pre(r, 'Filepath::rawPath')


def lastslash(y, R):
    return y.op == 'r' and y.a[0].split('::')[-1] in ('find_last_of', 'rfind') and y.a[1] is R and y.a[2][0] in (S('/'), I(47)) and all(npos(z) for z in y.a[2][1:])


def canonical(c):
    f = c.prog.fn1('Filepath::makeCanonical')

    def kindof(e):
        a = e.args[0] if e.args else None
        return None if a is None else 'slash' if a in (S('/'), I(47)) else 'up' if a is S('../') else 'seg'

    def on(e):
        if e.kind != 'out':
            return ()
        k = kindof(e)
        if k == 'slash':
            return ['sep' if any(step(t) for t in e.st.facts) else 'root']
        if k == 'up':
            return ['ups']
        return ['segs', ('-', 'sep')]

    def step(t):
        return t.op == 'eq' and any(x.op == 'end' for x in t.a) or t.op == 'lt' and t.a[0].op == 'it' and t.a[1].op == 'size' and not R0() is t.a[1].a[0]
    box = {}

    def R0():
        return box.get('R')
    box['R'] = mk('f', q('Filepath::rawPath'), THIS, 0)
    r = c.analyze(f, inv=True, on=on, watch=lambda e: e.kind == 'out', cap=3000)
    R = RAW0(r)
    box['R'] = R
    n = size(R)

    def finds(st):
        return {x for t in list(st.facts) + list(st.dom) + list(st.rng) for x in subterms(t)
                if x.op == 'r' and x.a[0].split('::')[-1] in ('find', 'find_first_of') and x.a[1] is R and x.a[2][0] in (I(47), S('/')) and len(x.a[2]) == 2}
    starts = {x.a[2][1] for e in r.events for x in finds(e.st)}
    c.ob('path', len(starts) == 1 and next(iter(starts)).op == 'it' and next(iter(starts)).a[-1] is I(0), f, 'a path is taken apart from its start', detail=str(starts))
    if len(starts) != 1:
        return
    ST = starts.pop()
    by = {}
    for it, l in r.loopstates.items():
        if it.op == 'it' and it.a[0] == ST.a[0]:
            for w, st in l:
                by.setdefault(id(st), (st, {}))[1][it] = w
    vs = {it for _, d in by.values() for it in d}
    SG = [v for v in vs if segs0(v.a[-1])]
    PX = [v for v in vs if v is not ST and v.a[-1] is I(0)]
    AB = [v for v in vs if v.a[-1] is B(False)]
    if not (len(SG) == len(PX) == len(AB) == 1):
        c.ob('path', False, f, 'the parts of a path are kept', detail=str(vs))
        return
    SG, PX, AB = SG[0], PX[0], AB[0]
    seen = set()
    for st, d in by.values():
        F = [x for x in finds(st) if x.a[2][1] is ST]
        if len(F) != 1 or ST not in d:
            c.ob('path', False, f, 'a path is taken apart at its /', st=st)
            continue
        N = F[0]
        g = lambda v: d.get(v, v)

        def cmp(s):
            for t in list(st.facts) + list(st.dom) + list(st.rng):
                for x in subterms(t):
                    if x.op == 'r' and x.a[0].endswith('::compare') and x.a[1] is R and x.a[2][0] is ST and linear(x.a[2][1]) == {N: 1, ST: -1} and x.a[2][2] is S(s):
                        return st.truth(eq(x, I(0)))
            return None
        same = [g(v) is v for v in (SG, PX, AB)]
        inside = st.truth(lt(N, n)) is True
        empty = st.truth(eq(mk('minus', N, ST), I(0))) is True or st.truth(eq(N, ST)) is True
        if st.truth(eq(N, I(0))) is True:
            what = 'root'
            ok = g(ST) is I(1) and g(AB) is B(True) and same[:2] == [True, True]
        else:
            ok = linear(g(ST)) == {N: 1, None: 1} and same[2]
            if empty or cmp('.') is True:
                what = 'empty' if empty else '.'
                ok = ok and all(same)
            elif cmp('..') is True:
                e = st.truth(eq(size(SG), I(0)))
                what = '..' if e is False else '../'
                ok = ok and (same[1] and g(SG).op == 'pop' and g(SG).a[0] is SG if e is False else e is True and same[0] and linear(g(PX)) == {PX: 1, None: 1})
            else:
                what = 'name'
                x = g(SG)
                ok = ok and same[1] and x.op == 'push' and x.a[0] is SG and piece(x.a[1], ST, {N: 1, ST: -1}) and cmp('.') is False and cmp('..') is False and (
                    st.truth(eq(mk('minus', N, ST), I(0))) is False or st.truth(eq(N, ST)) is False)
        seen.add(what)
        c.ob('path', ok and inside, f, 'taking a path apart: %s' % what, detail=str({str(k): str(v) for k, v in d.items()}), st=st)
    c.ob('path', seen == {'root', 'empty', '.', '..', '../', 'name'}, f, 'taking a path apart', detail=str(sorted(seen)))
    done = lambda st: any(st.truth(lt(x, n)) is False for x in finds(st) if x.a[2][1] is ST)

    def first(st, it):
        """is it the first segment that is written"""
        v = st.truth(eq(it, it.a[-1]))
        if v is not None:
            return v
        for t in r.loopstates:
            if t.op == 'it' and t.a[0] == it.a[0] and t.a[-1] in (B(True), B(False)):
                if r.loopstates[t] and all(w is not_(t.a[-1]) for w, _ in r.loopstates[t]):
                    v = st.truth(t)
                    if v is not None:
                        return v is (t.a[-1] is B(True))
        return None
    SEGS = None
    for e in r.events:
        st, k = e.st, kindof(e)
        c.ob('path', done(st), f, 'a path is put together after it was taken apart', st=st)
        if k == 'slash' and any(step(t) for t in st.facts):
            its = curit(st)
            c.ob('path', its is not None and first(st, its) is False and 'sep' not in st.ts, f, 'segments are separated by /', st=st)
        elif k == 'slash':
            c.ob('path', st.truth(AB) is True and not {'root', 'ups', 'segs'} & st.ts, f, 'only an absolute path starts with /', st=st)
        elif k == 'up':
            ok = any(t.op == 'lt' and v and t.a[0].op == 'it' and t.a[0].a[-1] is I(0) and step_of(r, t.a[0]) == 1 and t.a[1] is PX for t, v in st.facts.items()) and 'segs' not in st.ts
            c.ob('path', ok, f, 'the leading .. of a path are kept', st=st)
        else:
            its = curit(st)
            a = e.args[0]
            ok = its is not None and a.op == 'r' and a.a[0].endswith('::substr') and a.a[1] is R and len(a.a[2]) == 2
            if ok:
                el = at(its, st)
                x, y = (fpart(z) for z in a.a[2])
                ok = x == ('first', el) and y == ('second', el)
                C = el.a[0] if el.op == 'idx' else its.a[-1].a[0]
                ok = ok and C.op == 'push' and C.a[0] is SG and piece(C.a[1], ST, {n: 1, ST: -1})
                SEGS = C
            c.ob('path', ok, f, 'the segments of the path are written, the last one being what follows the last /', detail=str(a), st=st)
            if its is not None:
                c.ob('path', first(st, its) is ('sep' not in st.ts), f, 'segments are separated by /', st=st)
    for v, s in r.exits:
        if absurd(r, s):
            continue
        t = post(r, s, 'Filepath::rawPath')
        if t is R:
            c.ob('path', s.truth(eq(n, I(0))) is True, f, 'only an empty path is left as it is', detail=str(t), st=s)
            continue
        ok = t.op == 'r' and t.a[0].split('::')[-1] == 'str' and 'stringstream' in str(t.a[1])
        c.ob('path', ok, f, 'the path becomes what was put together', detail=str(t), st=s)
        c.ob('path', ('root' in s.ts) is s.truth(AB) if s.truth(AB) is not None else False, f, 'an absolute path stays absolute', st=s)
        ok = any(x.op == 'lt' and v2 is False and x.a[0].op == 'it' and x.a[0].a[-1] is I(0) and step_of(r, x.a[0]) == 1 and x.a[1] is PX for x, v2 in s.facts.items())
        c.ob('path', ok, f, 'all leading .. are written', st=s)
        its = curit(s)
        ok = its is not None and sweep(r, s, at(its, s)) == (SEGS, 1)
        c.ob('path', ok, f, 'all segments are written', detail=str(its), st=s)


def fpart(t):
    if t.op in ('fld', 'f') and t.a[0].split('::')[-1] in ('first', 'second'):
        x = t.a[1]
        return t.a[0].split('::')[-1], deref(x) if x.op == 'it' else x
    if t.op in ('first', 'second'):
        return t.op, t.a[0]
    return None


def piece(p, ST, ln):
    return p.op == 'pair' and p.a[0] is ST and linear(p.a[1]) == ln


def curit(st):
    """the iterator (or counter) of the loop over the segments"""
    for t in st.facts:
        if t.op == 'eq':
            for x in t.a:
                if x.op == 'it' and isT(x.a[-1]) and x.a[-1].op == 'begin':
                    return x
        if t.op == 'lt' and t.a[0].op == 'it' and t.a[1].op == 'size' and t.a[1].a[0].op == 'push':
            return t.a[0]
    return None


def at(it, st):
    if isT(it.a[-1]) and it.a[-1].op == 'begin':
        return deref(it)
    for t in st.facts:
        if t.op == 'lt' and t.a[0] is it and t.a[1].op == 'size':
            return index(t.a[1].a[0], it)
    return it
