"""Vocabulary shared by the rules."""
from terms import *
import terms as T
from facts import Broken


def q(n):
    return n if n.startswith('ethos::') else 'ethos::' + n


def is_call(t, name):
    return isT(t) and t.op == 'r' and t.a[0] == q(name)


def cargs(t):
    return t.a[2]


def is_out(t, name, idx):
    return isT(t) and t.op == 'o' and t.a[0] == q(name) and t.a[2] == idx


def calls_in(t, name):
    return [x for x in subterms(t) if is_call(x, name)]


def outs_in(t, name, idx=None):
    return [x for x in subterms(t) if x.op == 'o' and x.a[0] == q(name) and (idx is None or x.a[2] == idx)]


def field(t, name):
    """is t the value of a field called name (unqualified), of whatever object"""
    return isT(t) and (t.op == 'f' and t.a[0].split('::')[-1] == name or t.op == 'fld' and t.a[0].split('::')[-1] == name)


def fields_in(t, name):
    return [x for x in subterms(t) if field(x, name)]


def tok(n):
    return E(n, 'Token')


def kind(n):
    return E(n, 'Kind')


def attr(n):
    return E(n, 'Attr')


def kterm(t):
    return mk('kind', t)


def known(st, t):
    """constant value of t in st, or t"""
    return st.cval(t)


def istrue(st, t):
    return st.truth(t) is True


def isfalse(st, t):
    return st.truth(t) is False


def named(evs, name):
    return [e for e in evs if e.name == q(name) and e.kind not in ('enter', 'return')]


def watch(*names):
    ns = {q(n) if '::' in n and not n.startswith('std::') else n for n in names}

    def w(ev):
        return ev.name in ns or ev.short in ns
    return w


def keyword_is(st, text, callee='ExprParser::parseKeyword'):
    """is some keyword read on this path known to be text"""
    for t, d in st.dom.items():
        if is_call(t, callee) and d[0] == 'in' and d[1] == frozenset((S(text),)):
            return True
    return False


def keywords_known(st, callee='ExprParser::parseKeyword'):
    r = set()
    for t, d in st.dom.items():
        if is_call(t, callee) and d[0] == 'in' and len(d[1]) == 1:
            r.add(next(iter(d[1])).a[0])
    return r


# ------------------------------------------------------------------ containers
def segments(t, r=None, st=None):
    """a container term as a list of ('one', x) and ('all', container) segments; a loop that has copied all of a container is
    such a segment"""
    if r is not None:
        out = []
        for k, x in segments(t):
            lp = loop_pushed(r, x) if k == 'all' and x.op == 'it' and x not in r.unsure else None
            v = next(iter(lp[1])) if lp and len(lp[1]) == 1 else None
            sw = sweep(r, st, v) if isT(v) else None
            if sw is not None and sw[1] == 1:
                out += segments(lp[0], r, st) + segments(sw[0], r, st)
            else:
                out.append((k, x))
        return [y for y in out if y != ('all', EMPTY)]
    o = t.op
    if o == 'list':
        return [('one', x) for x in t.a[0]]
    if o == 'push':
        return segments(t.a[0]) + [('one', t.a[1])]
    if o == 'cat':
        return segments(t.a[0]) + segments(t.a[1])
    if o == 'pushf':
        return [('one', t.a[1])] + segments(t.a[0])
    return [('all', t)]


def elem_of(t):
    """the container t is an element of a loop over, or None"""
    if t.op == 'deref' and t.a[0].op == 'it':
        b = t.a[0].a[-1]
        if isT(b) and b.op == 'plus' and b.a[1].op == 'i':
            b = b.a[0]
        if isT(b) and b.op == 'begin':
            return b.a[0]
    if t.op == 'idx':
        return t.a[0]
    return None


def loop_pushed(res, t):
    """t is a container at a loop head: (entry value, set of pushed element terms) if every iteration pushes one element"""
    if t.op != 'it' or t not in res.loopvals:
        return None
    entry = t.a[-1]
    xs = set()
    for v in res.loopvals[t]:
        if v is t:
            xs.add(None)
        elif v.op == 'push' and v.a[0] is t:
            xs.add(v.a[1])
        else:
            return None
    return entry, xs


# ------------------------------------------------------------------ commands
def command(c, token, names=(), prog=None, **kw):
    """CmdParser::parseNextCommand on the command of the given token"""
    prog = prog or c.prog
    kw.setdefault('watch', watch(*names))
    res = dict(kw.pop('results', {}))
    res[q('CmdParser::nextCommandToken')] = lambda a, o, s: tok(token)
    return c.run_analysis(prog, 'CmdParser::parseNextCommand', results=res, **kw)


def accepting(r):
    return [s for t, s in r.exits if t is TRUE or s.truth(t) is not False]


# ------------------------------------------------------------------ what was parsed under which keyword
PARSERS = ('ExprParser::parseExpr', 'ExprParser::parseExprList', 'ExprParser::parseExprPairList', 'ExprParser::parseTypeList',
           'ExprParser::parseType', 'ExprParser::parseFormula', 'ExprParser::parseSymbol', 'ExprParser::parseStr')


class Roles:
    """tracks, along a path, the last keyword read and what was parsed since"""

    def __init__(self, parsers=PARSERS):
        self.names = {q(p) for p in parsers}
        self.roles = {}     # parsed term -> set of (keyword or None, ordinal)
        self.known = {}

    def on(self, ev):
        ts = ev.st.ts
        if ev.kind != 'call':
            return ()
        if ev.name == q('ExprParser::parseKeyword'):
            return [('-', t) for t in ts if isinstance(t, tuple) and t[0] in ('kw', 'px')] + [('kw', ev.ret)]
        if ev.name in self.names:
            kw = None
            for t in ts:
                if isinstance(t, tuple) and t[0] == 'kw':
                    v = ev.st.cval(t[1])
                    kw = v.a[0] if v.op == 's' else '?'
            n = len([t for t in ts if isinstance(t, tuple) and t[0] == 'px'])
            self.roles.setdefault(ev.ret, set()).add((kw, n))
            return [('px', ev.ret)]
        return ()

    def is_(self, t, kw, n=0, st=None):
        """does t stand, on this path, for the n-th thing read after that keyword"""
        rs = self.roles.get(t)
        if rs is not None and st is not None and len(rs) > 1:
            kws = keywords_known(st)
            rs = {x for x in rs if x[0] in kws}
        return rs == {(kw, n)}


def full_iteration(st, el):
    """the container all of whose elements el ranges over at the exit of its loop (or None)"""
    if el.op == 'deref' and el.a[0].op == 'it':
        b = el.a[0].a[-1]
        if isT(b) and b.op == 'begin':
            return b.a[0]
    if el.op == 'idx' and el.a[1].op == 'it' and el.a[1].a[-1] is I(0):
        return el.a[0]
    return None


def finished(st, k):
    """has a loop over the container k run to its end on this path"""
    for t, v in st.facts.items():
        if v and t.op == 'eq':
            for x, y in (t.a, t.a[::-1]):
                if x.op == 'it' and isT(x.a[-1]) and x.a[-1].op == 'begin' and x.a[-1].a[0] is k and y.op == 'end' and y.a[0] is k:
                    return True
        if not v and t.op == 'lt' and isT(t.a[0]) and t.a[0].op == 'it' and t.a[0].a[-1] is I(0) and t.a[1] is size(k):
            return True
    if size(k).op == 'i':
        # known length: the loop counter has reached it
        n = size(k).a[0]
        if n == 0 and not any(t.op == 'it' and isT(t.a[-1]) and t.a[-1].op == 'begin' and t.a[-1].a[0] is k
                              for u, v in st.facts.items() if u.op == 'eq' for t in u.a):
            n = None
        for t, (lo, hi) in st.rng.items():
            if t.op == 'it' and t.a[-1] is I(0) and lo is not None and n and lo >= n:
                return True
    return False


def whole(t):
    """segments without empty containers"""
    return [s for s in segments(t) if not (s[0] == 'all' and s[1] is EMPTY)]


# ------------------------------------------------------------------ fields, ownership
def post(r, s, field, base=THIS):
    """value of a field of the analysed object at an exit"""
    return r.interp.load(('F', base, q(field)), s)


def pre(r, field, base=THIS):
    from absint import St
    return r.interp.load(('F', base, q(field)), St())


def names_of(prog, f, seen=None):
    """the functions of the pinned code base on whose behalf f runs (f itself, or the callers of an extracted helper)"""
    import absint
    base = absint.baseline()
    if f.name in base:
        return {f.name}
    seen = seen or set()
    if f.id in seen:
        return set()
    seen.add(f.id)
    out = set()
    for g in prog.funcs.values():
        if f.id in prog.callgraph().get(g.id, ()):
            out |= names_of(prog, g, seen)
    return out or {f.name}


def only_callers(c, rule, callee, allowed, inst=None, prog=None):
    prog = prog or c.prog
    allowed = {q(a) for a in allowed}
    n = 0
    for f, b, i, node in prog.callsites(callee):
        n += 1
        own = names_of(prog, f)
        c.touch(f.name)
        c.ob(rule, own <= allowed, '%s:%d (%s)' % (f.file, node.get('l', 0), f.name),
             '%s is called only by %s' % (callee, '/'.join(sorted(a.split('::')[-1] for a in allowed))),
             detail='called by ' + ', '.join(sorted(own)))
    return n


def writers(prog, field):
    """functions that directly modify a field (assignment, mutating member call, non-const reference)"""
    from absint import summaries
    sm = summaries(prog)
    return [prog.funcs[fid] for fid, fs in sm.dmods.items() if fid in prog.funcs if q(field) in fs]


def only_writers(c, rule, field, allowed, prog=None):
    prog = prog or c.prog
    allowed = {q(a) for a in allowed}
    n = 0
    for f in writers(prog, field):
        own = names_of(prog, f)
        if f.cls and f.short == f.cls.split('::')[-1] and q(field).startswith(f.cls + '::'):
            continue   # constructor
        n += 1
        c.touch(f.name)
        c.ob(rule, own <= allowed, f, '%s is modified only by %s' % (field.split('::')[-1], '/'.join(sorted(a.split('::')[-1] for a in allowed))),
             detail='modified by ' + ', '.join(sorted(own)))
    return n


def tagged(s, t):
    return q(t) in s.ts


def once(s, t):
    return q(t) in s.ts and q(t) + '+' not in s.ts


def table(t):
    """a map built by assignments of constants, as a dict (or None)"""
    d = {}
    while t.op == 'set':
        d.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return d if t is EMPTY or t.op in ('list', 'u', 'f') else None


def implies_seen(r, s, t, val, pred, depth=0, hyp=frozenset()):
    """does t having the value val (in state s) imply that pred held in the state where it got it (flags carried through loops)"""
    if pred(s):
        return True
    if depth > 4:
        return False
    if t in hyp:
        return True
    if t.op == 'b':
        return t.a[0] is not val
    if t.op == 'not':
        return implies_seen(r, s, t.a[0], not val, pred, depth, hyp)
    if t.op == 'it' and t in r.loopstates:
        entry = t.a[-1]
        if not (entry.op == 'b' and entry.a[0] is not val) and not implies_seen(r, s, entry, val, pred, depth + 1, hyp):
            return False
        for w, st in r.loopstates[t]:
            if w is t or st.truth(t) is val:
                continue
            if not implies_seen(r, st, w, val, pred, depth + 1, hyp | {t}):
                return False
        return True
    if t.op == ('or' if val else 'and'):
        return all(implies_seen(r, s, x, val, pred, depth + 1, hyp) for x in t.a)
    if t.op == ('and' if val else 'or'):
        return any(implies_seen(r, s, x, val, pred, depth + 1, hyp) for x in t.a)
    if t.op == 'ite':
        return all(implies_seen(r, s, x, val, pred, depth + 1, hyp) for x in t.a[1:])
    s2 = s.copy()
    if not s2.assume(t, val):
        return True
    return pred(s2)


# ------------------------------------------------------------------ uses of an enumerator
def parents(f):
    from facts import children
    pm = {}
    for i, n in enumerate(f.nodes):
        for ch in children(n):
            if isinstance(ch, int) and ch >= 0:
                pm.setdefault(ch, i)
    return pm


def enum_uses(prog, enum, name):
    """(func, node, user) for every use of an enumerator as a value: user is the enclosing node that is not a cast, or None; case labels are no uses"""
    for f in prog.funcs.values():
        pm = None
        labs = {b['lab'][x] for b in f.blocks.values() if 'lab' in b for x in ('v', 'hi') if x in b['lab']}
        labs = {x for l in labs for x in f.subnodes(l)}
        for i, n in enumerate(f.nodes):
            if i not in labs and n['k'] == 'enum' and n.get('n', '').split('::')[-1] == name and n.get('ty', '').split('::')[-1] == enum:
                pm = pm or parents(f)
                u = pm.get(i)
                while u is not None and f.nodes[u]['k'] == 'cast':
                    u = pm.get(u)
                yield f, n, (f.nodes[u] if u is not None else None)


# ------------------------------------------------------------------ loops over all elements
def linear(t):
    """a linear form {atom: coefficient, None: constant}"""
    o = t.op
    if o == 'i':
        return {None: t.a[0]} if t.a[0] else {}
    if o in ('plus', 'minus') and len(t.a) == 2:
        a, b = linear(t.a[0]), linear(t.a[1])
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if o == 'plus' else -v)
        return {k: v for k, v in r.items() if v}
    return {t: 1}


def ladd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def sweep(r, st, el, start=0):
    """(container, +1/-1) if el ranges over every element of the container exactly once, in that direction, in a loop that
    has run to its end in the state st; None otherwise"""
    if el.op == 'deref' and el.a[0].op == 'it':
        it = el.a[0]
        b = it.a[-1]
        if start and isT(b) and b.op == 'plus' and b.a[1] is I(start) and b.a[0].op == 'begin':
            b = b.a[0]
        elif start:
            return None
        if isT(b) and b.op in ('begin', 'rbegin') and step_of(r, it) == 1:
            e = mk('end' if b.op == 'begin' else 'rend', b.a[0])
            if st is None or st.truth(eq(it, e)) is True:
                return b.a[0], 1 if b.op == 'begin' else -1
        return None
    if el.op != 'idx':
        return None
    C, ix = el.a
    lf = linear(ix)
    its = [k for k in lf if k is not None and k.op == 'it']
    if len(its) != 1 or abs(lf[its[0]]) != 1:
        return None
    it = its[0]
    s = step_of(r, it)
    if s not in (1, -1) or not isT(it.a[-1]):
        return None
    n = size(C)
    nl = linear(n)
    e = linear(it.a[-1])
    rest = {k: v for k, v in lf.items() if k is not it}
    ends = []
    if st is None:
        return None
    for t, v in st.facts.items():
        if t.op == 'lt' and v is False and t.a[0] is it and s == 1:
            ends.append(linear(t.a[1]))
        elif t.op == 'lt' and v is False and t.a[1] is it and s == -1:
            ends.append(linear(t.a[0]))
        elif t.op == 'eq' and v is True and it in t.a:
            ends.append(linear(t.a[0] if t.a[1] is it else t.a[1]))
    lo, hi = st.interval(it)
    if s == -1 and hi == 0:
        ends.append({})
    for x in ends:
        # body values of it: e, e+s, ..., x-s
        first, last = ladd(rest, e, lf[it]), ladd(rest, ladd(x, {None: s}, -1), lf[it])
        d = s * lf[it]
        if d == 1 and not ladd(first, {None: start} if start else {}, -1) and not ladd(ladd(last, {None: 1}), nl, -1):
            return C, 1
        if d == -1 and not ladd(last, {None: start} if start else {}, -1) and not ladd(ladd(first, {None: 1}), nl, -1):
            return C, -1
    return None


def step_of(r, it):
    """the constant added to a loop variable by every iteration"""
    vs = r.loopvals.get(it)
    if not vs or it in r.unsure:
        return None
    ds = set()
    for v in vs:
        d = ladd(linear(v), {it: 1}, -1)
        if set(d) - {None}:
            return None
        ds.add(d.get(None, 0))
    return ds.pop() if len(ds) == 1 else None


def isnull(st, t):
    """the null expression (the constant, or one of the members that hold it)"""
    return t is NULL or field(t, 'd_null') or st.truth(t) is False


def kid(t):
    """(x, i) if t is child i of the expression x, else (None, None)"""
    if isT(t) and t.op == 'idx' and t.a[0].op == 'children':
        return t.a[0].a[0], t.a[1]
    return None, None


def mkkid(x, i):
    return index(mk('children', x), I(i) if isinstance(i, int) else i)


def absurd(r, s):
    """the path counts past its bound: a counter stepping by one from 0 (or 1) neither below nor equal to a size"""
    for t, v in s.facts.items():
        if t.op == 'lt' and v is False and t.a[0].op == 'it' and isT(t.a[0].a[-1]) and t.a[0].a[-1] in (I(0), I(1)):
            it, n = t.a
            if step_of(r, it) == 1 and s.truth(eq(it, n)) is False and (n.op == 'size'):
                return True
    for t, (lo, hi) in s.rng.items():
        lf = linear(t)
        its = [k for k in lf if k is not None]
        if hi is not None and len(its) == 1 and lf[its[0]] == 1 and its[0].op == 'it' and isT(its[0].a[-1]) and its[0].a[-1].op == 'i':
            st = step_of(r, its[0])
            if st is not None and st >= 0 and hi < its[0].a[-1].a[0] + lf.get(None, 0):
                return True
    return False


def refined(r, s, it):
    """the states at the end of an iteration of the loop of it, as far as they lead to s: flags that are set for good must be as in s.
    [(value of it, state)]"""
    site = it.a[0]
    out = [(v, st) for v, st in r.loopstates.get(it, ())]
    for F in list(r.loopstates):
        if F.op != 'it' or F.a[0] != site or F is it:
            continue
        b = s.truth(F)
        if b is None or F in r.unsure or F.a[-1].op not in ('b', 'it', 'not', 'u'):
            continue
        # once it is not b, it stays so
        if not all(w is F or st.truth(F) is b or st.truth(w) is (not b) or (w.op == ('or' if b is False else 'and') and F in w.a) for w, st in r.loopstates[F]):
            continue
        val = {id(st): w for w, st in r.loopstates[F]}
        keep = []
        for v, st in out:
            w = val.get(id(st))
            if w is None:
                keep.append((v, st))
                continue
            s2 = st.copy()
            if s2.assume(F, b) and s2.assume(w, b):
                keep.append((v, s2))
        out = keep
    return out
