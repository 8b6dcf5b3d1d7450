"""Evaluation of terms under a substitution."""
from common import *

EPI = 'TypeChecker::evaluateProgramInternal'
ELO = 'TypeChecker::evaluateLiteralOpInternal'


def run(c):
    c.rule('value-of', 'the value of a subterm is what its kind and the values of its children determine', 8)
    c.rule('value-children', 'the value of a subterm is computed from the values of all its children, in order', 4)
    c.rule('value-visit', 'the children of a subterm are evaluated before it, the branches of a conditional only if needed', 2)
    c.rule('value-cache', 'a cached result is that of the same call', 2)
    c.rule('value-frame', 'the body of a program is evaluated in its own substitution and gives the value of the call', 2)
    c.rule('value-result', 'the result is the value of the given term', 1)
    f = c.prog.fn1('TypeChecker::evaluate')
    head = worklist(c, f)
    only_writers(c, 'value-of', 'TypeChecker::d_null', ())
    null = pre_null()
    r = c.analyze(f, facts=[(eq(null, NULL), True)], inv=True, unroll=True, cap=5000, watch=lambda e: e.kind in ('write', 'cont'), on=tags,
                  loophead=lambda g, h, s: () if g is f and h == head else s.ts)
    V = Eval(c, r, head)
    V.run()
    frames(c)


def pre_null():
    return mk('f', q('TypeChecker::d_null'), THIS, 0)


def worklist(c, f):
    """the head of the innermost loop that takes subterms from the worklist"""
    r = c.analyze(f, watch=lambda e: e.kind == 'cont' and e.name.endswith('::d_visit::pop_back'))
    loops = f.loopinfo()
    best = None
    for e in r.events:
        if e.func is f:
            i = next((i for i, n in enumerate(f.nodes) if n is e.node), None)
            b = next((b for b, bl in f.blocks.items() if i in bl['el']), None)
            for h, body in loops.items():
                if b in body and (best is None or len(body) < len(loops[best])):
                    best = h
    return best


def tags(e):
    """what an iteration over the worklist has done"""
    if e.kind == 'cont' and '::d_visit::' in e.name:
        sh = e.name.split('::')[-1]
        if sh == 'pop_back':
            return ['popped']
        if sh == 'insert' and len(e.args) == 3:
            return ['children']
        if sh in ('push_back', 'emplace_back') and len(e.args) == 1:
            x, i = kid(e.args[0])
            return [('child', i)] if x is not None and i is not None else ['children']
    if e.kind == 'write' and e.name.endswith('EvFrame::d_visited') and e.objpath[0] == 'I':
        v = e.args[0].a[0] if e.args[0].op == 'value' else e.args[0]
        return ['later' if v is NULL or field(v, 'd_null') else 'stored']
    if e.kind == 'cont' and '::d_visited::' in e.name and e.args:
        v = e.args[-1].a[1] if e.args[-1].op == 'pair' else e.args[-1]
        return ['later' if v is NULL or field(v, 'd_null') else 'stored']
    return ()


def frames(c):
    """a frame starts with its initial term, its substitution and no values"""
    f = [g for g in c.prog.fn('EvFrame::EvFrame') if len(g.params) > 1][0]
    r = c.analyze(f)
    for t, s in r.exits:
        P = [mk('p', i, p['name']) for i, p in enumerate(f.params)]
        for n, w in (('d_init', P[0]), ('d_ctx', P[1]), ('d_result', P[2])):
            v = post(r, s, 'EvFrame::' + n)
            c.ob('value-frame', v is w, f, '%s is set' % n, detail=show(v))
        v = post(r, s, 'EvFrame::d_visit')
        ok = v.op == 'push' and v.a[1] is P[0] or isnull(s, P[0]) or v.op == 'list' and tuple(v.a[0]) == (P[0],)
        c.ob('value-frame', ok, f, 'starts with its initial term', detail=show(v), st=s)


def fieldof(t, n):
    """x if t is field n of x"""
    return t.a[1] if isT(t) and t.op in ('fld', 'f') and t.a[0] == q('EvFrame::' + n) and isT(t.a[1]) else None


def unloop(t):
    while isT(t) and t.op == 'it' and isT(t.a[-1]):
        t = t.a[-1]
    return t


class Eval:
    def __init__(self, c, r, head):
        self.c, self.r, self.head = c, r, head
        self.LITERAL_NAMES = {n for n in (v['n'].split('::')[-1] for v in c.prog.enums['ethos::Kind']['values']) if n.startswith('EVAL_')}
        self.LITERAL_OPS = frozenset(kind(n) for n in self.LITERAL_NAMES)

    def run(self):
        c, r = self.c, self.r
        f = r.f
        self.E0, self.X0 = [mk('p', i, p['name']) for i, p in enumerate(f.params)]
        n = 0
        for e in r.events:
            if e.name.endswith('EvFrame::d_visited') and e.kind == 'write':
                p = e.objpath
                if p[0] == 'I':
                    self.store(e, p[2], e.args[0])
                    n += 1
                else:
                    c.ob('value-of', False, e, 'the table of values is filled one by one')
            elif e.kind == 'cont' and '::d_visited::' in e.name:
                sh = e.name.split('::')[-1]
                if sh in ('emplace', 'insert_or_assign', 'try_emplace') and len(e.args) == 2:
                    self.store(e, *e.args)
                elif sh == 'insert' and len(e.args) == 1 and e.args[0].op == 'pair':
                    self.store(e, *e.args[0].a)
                else:
                    c.ob('value-of', False, e, 'the table of values is filled one by one', detail=sh)
                n += 1
            elif e.kind == 'cont' and '::d_visit::' in e.name:
                self.visit(e)
            elif e.kind == 'cont' and 'emplace_back' in e.name and len(e.args) == 3:
                self.push(e)
            elif e.kind == 'write' and e.name.endswith('ExprTrie::d_data'):
                self.cache(e)
        self.iterations()
        for t, s in r.exits:
            ok = self.final(t, s)
            c.ob('value-result', ok, f, 'returns the value of the bottom of the stack', detail=show(t), st=s)

    def iterations(self):
        """each iteration over the worklist: a subterm leaves it with its value, or its children are put on it"""
        c, r, f, best = self.c, self.r, self.r.f, self.head
        c.ob('value-visit', best is not None, f, 'there is a worklist')
        for g, h, s, ctx in r.backs:
            if g is not f or h != best:
                continue
            ts = s.ts
            ks = {t[1] for t in ts if isinstance(t, tuple) and t[0] == 'child'}
            if any(self.allpushed(v, s) for p, v in s.env.items() if isT(v) and v.op in ('it', 'cat')):
                ts = ts | {'children'}
            if 'popped' in ts:
                found = any(v is False and t.op == 'eq' and NULL in t.a and self.tabled(t.a[0] if t.a[1] is NULL else t.a[1]) for t, v in s.facts.items())
                c.ob('value-visit', 'stored' in ts or found, f, 'a subterm leaves the worklist with its value', st=s)
            else:
                c.ob('value-visit', 'children' in ts or ks, f, 'a subterm without a value has to wait for some child', st=s)
            if 'later' in ts and 'stored' not in ts:
                c.ob('value-visit', 'children' in ts or I(0) in ks, f, 'all children, or the condition, are evaluated first', st=s)

    def allpushed(self, t, s):
        """t is the worklist after all children of the subterm at hand were put on it one by one"""
        r = self.r
        if t.op == 'cat' and fieldof(unloop(t.a[0]), 'd_visit') is not None:
            return t.a[1].op == 'children' and self.frame(t.a[1].a[0]) is not None
        if t not in r.loopvals or fieldof(unloop(t), 'd_visit') is None:
            return False
        w = loop_pushed(r, t)
        if w is None or len(w[1]) != 1 or None in w[1]:
            return False
        k = sweep(r, s, next(iter(w[1])))
        return k is not None and k[0].op == 'children' and self.frame(k[0].a[0]) is not None

    def tabled(self, t):
        return t.op == 'idx' and fieldof(unloop(t.a[0]), 'd_visited') is not None and self.frame(t.a[1]) is not None

    # a subterm at hand: (frame, is it the top of its worklist)
    def frame(self, cur):
        if cur.op == 'back' and fieldof(unloop(cur.a[0]), 'd_visit') is not None:
            return fieldof(unloop(cur.a[0]), 'd_visit')
        return None

    def ctx(self, fr):
        return fld(q('EvFrame::d_ctx'), fr)

    def store(self, e, cur, v):
        c, s = self.c, e.st
        fr = self.frame(cur)
        v = v.a[0] if v.op == 'value' else v
        if fr is not None and fieldof(self.lookup_key(v, s)[0] or VOID, 'd_visited') is not None or self.inner(v, s):
            # the result of the inner evaluation
            ok = self.inner(v, s) and fr is not None
            c.ob('value-frame', ok, e, 'the value of a call is the result of its own evaluation', detail='%s := %s' % (show(cur), show(v)), st=s)
            return
        c.ob('value-of', fr is not None, e, 'values are stored for the subterm at hand', detail=show(cur))
        if fr is None:
            return
        why = self.classify(cur, fr, v, s)
        c.ob('value-of', why is not None, e, 'the value is determined by the kind of the subterm' + (': ' + why if why else ''),
             detail='%s := %s' % (show(cur), show(v)), st=s)

    def lookup_key(self, v, s):
        if v.op == 'idx':
            return unloop(v.a[0]), v.a[1]
        return None, None

    def inner(self, v, s):
        """v is the value recorded for the initial term of a frame"""
        t, k = self.lookup_key(v, s)
        if t is None:
            return False
        fr = fieldof(t, 'd_visited')
        return fr is not None and fieldof(k, 'd_init') is not None and same(fieldof(k, 'd_init'), fr)

    def classify(self, cur, fr, v, s):
        X = self.ctx(fr)
        K = mk('kind', cur)
        kk = s.cval(K)
        if isnull(s, v) and (v is NULL or field(v, 'd_null')):
            return 'not yet known'
        if v is cur:
            if s.truth(mk('evaluatable', cur)) is False and (s.truth(mk('ground', cur)) is True or s.truth(eq(size(X), I(0))) is True):
                return 'nothing to evaluate'
            if kk is kind('PARAM') and s.truth(mk('has', X, cur)) is False:
                return 'parameter without a value'
            if kk is kind('EVAL_IF_THEN_ELSE') and (s.truth(eq(size(mk('children', cur)), I(3))) is False):
                return 'malformed conditional'
            if self.unchanged(cur, fr, s) and self.undetermined(cur, s) and self.branches(cur, fr, s):
                return 'its children are unchanged'
            return None
        if kk is kind('PARAM'):
            return 'value of the parameter' if v is index(X, cur) and s.truth(mk('has', X, cur)) is True else None
        if v.op == 'r' and v.a[0] == q('Plugin::evaluate'):
            return 'plugin' if list(cargs(v)[:2]) == [cur, X] else None
        if is_call(v, ELO):
            a = cargs(v)
            return 'builtin operator' if a[0] in (K, kk) and self.kids(a[1], cur, fr, s) and not_null(s, v) else None
        if is_call(v, EPI):
            a = cargs(v)
            ok = self.kids(a[0], cur, fr, s) and not_null(s, v) and s.truth(mk('evaluatable', v)) is False and \
                (s.truth(mk('ground', v)) is True or any(s.truth(eq(size(x), I(0))) is True for x in outs(s, v)))
            return 'result of a program' if ok and self.isprog(a[0], s) and self.apply(kk) else None
        if field(v, 'd_data'):
            x = v.a[1]
            return 'cached result' if is_call(x, 'ExprTrie::get') and self.kids(cargs(x)[0], cur, fr, s) and not_null(s, v) and \
                self.isprog(cargs(x)[0], s) and self.apply(kk) else None
        if v.op == 'idx' and v.a[1] in (I(1), I(2)) and self.kids(v.a[0], cur, fr, s):
            w = self.branch(v.a[0], s)
            return 'branch of a conditional' if kk is kind('EVAL_IF_THEN_ELSE') and w == v.a[1].a[0] and not_null(s, v) else None
        if is_call(v, 'State::mkExprInternal'):
            a = cargs(v)
            return 'rebuilt from the values of its children' if a[0] in (K, kk) and self.kids(a[1], cur, fr, s) and self.undetermined(cur, s) and self.branches(cur, fr, s) else None
        return None

    def branches(self, cur, fr, s):
        """both branches of a conditional have values"""
        if s.cval(mk('kind', cur)) is not kind('EVAL_IF_THEN_ELSE'):
            return True
        return all(any(t.op == 'eq' and v is False and NULL in t.a and any(x.op == 'idx' and x.a[1] is I(i) and self.kids(x.a[0], cur, fr, s) for x in t.a)
                       for t, v in s.facts.items()) for i in (1, 2))

    def apply(self, k):
        return k in (kind('APPLY'), kind('APPLY_OPAQUE'))

    def isprog(self, cc, s):
        return s.cval(mk('kind', index(cc, I(0)))) is kind('PROGRAM_CONST')

    def undetermined(self, cur, s):
        """nothing else determines its value: a program or operator did not evaluate, ..."""
        kk = s.cval(mk('kind', cur))
        seen = [t for t in list(s.dom) + list(s.facts) if is_call(t, EPI) or is_call(t, ELO)]
        seen += [y for t in list(s.facts) for y in (t.a if t.op == 'eq' else ()) if is_call(y, EPI) or is_call(y, ELO)]
        if any(isnull(s, t) or s.truth(eq(t, NULL)) is True for t in seen):
            return True
        if kk is kind('EVAL_IF_THEN_ELSE'):
            return any(t.op == 'kind' and t.a[0].op == 'idx' and t.a[0].a[1] is I(0) and s.truth(eq(t, kind('BOOLEAN'))) is False for t in list(s.dom))
        if self.apply(kk):
            return any(t.op == 'kind' and t.a[0].op == 'idx' and t.a[0].a[1] is I(0) and s.truth(eq(t, kind('PROGRAM_CONST'))) is False for t in list(s.dom))
        if kk is not mk('kind', cur):
            return kk.a[0] not in self.LITERAL_NAMES
        return any(is_call(t, 'isLiteralOp') and cargs(t)[0] is kk and s.truth(t) is False or
                   t.op == 'kp' and t.a[1] is kk and t.a[0] >= self.LITERAL_OPS and s.truth(t) is False for t in list(s.dom) + list(s.facts))

    def branch(self, cc, s):
        k0 = index(cc, I(0))
        if s.cval(mk('kind', k0)) is not kind('BOOLEAN'):
            return None
        for t in list(s.facts) + list(s.dom):
            if field(t, 'd_bool') and k0 in subterms(t):
                b = s.truth(t)
                return None if b is None else (1 if b else 2)
        return None

    def unchanged(self, cur, fr, s):
        """every child has itself as its value: a flag that starts false and is set by every child with another value"""
        r = self.r
        for F in r.loopvals:
            if F.op != 'it' or s.truth(F) is not False or F.a[-1] is not FALSE:
                continue
            ok = bool(r.loopstates.get(F))
            for w, st in r.loopstates.get(F, ()):
                if w is TRUE or st.truth(w) is True or st.truth(F) is True and (w is F):
                    continue
                s2 = st.copy()
                if not s2.assume(w, False):
                    continue
                if s2.truth(F) is not False:
                    ok = False      # it may be reset
                    continue
                good = False
                for t, v in s2.facts.items():
                    if t.op == 'eq' and v is True:
                        for x, y in (t.a, t.a[::-1]):
                            if y.op == 'idx' and y.a[1] is x and fieldof(unloop(y.a[0]), 'd_visited') is not None:
                                good = True
                    if t.op == 'has' and v is False and fieldof(unloop(t.a[0]), 'd_visited') is not None:
                        good = True
                ok = ok and good
            if ok:
                return True
        return False

    def kids(self, cc, cur, fr, s):
        """cc holds the values of all children of cur, in order"""
        r, c = self.r, self.c
        T = cc
        while T.op == 'it' and T not in r.loopvals:
            T = T.a[-1]
        if T.op != 'it' or T in r.unsure or T.a[-1] is not EMPTY and size(T.a[-1]) is not I(0):
            return False
        ok = bool(r.loopstates.get(T))
        for v, st in r.loopstates.get(T, ()):
            if v.op != 'push' or v.a[0] is not T:
                ok = False
                continue
            x = v.a[1]
            x = x.a[0] if x.op == 'value' else x
            t, k = self.lookup_key(x, st)
            if x is NULL or x.op == 'i':
                good = any(y.op == 'has' and w is False and fieldof(unloop(y.a[0]), 'd_visited') is not None and self.swept(y.a[1], cur, s) for y, w in st.facts.items())
                c.ob('value-children', good, r.f, 'only a child without a value is left out', detail=show(v), st=st)
                ok = ok and good
                continue
            good = t is not None and fieldof(t, 'd_visited') is not None and same(fieldof(t, 'd_visited'), fr) and self.swept(k, cur, s)
            c.ob('value-children', good, r.f, 'values of the children', detail=show(v), st=st)
            ok = ok and good
        return ok

    def swept(self, el, cur, s):
        w = sweep(self.r, s, el)
        return w is not None and w == (mk('children', cur), 1)

    def visit(self, e):
        c, s = self.c, e.st
        sh = e.name.split('::')[-1]
        fr = fieldof(unloop(e.obj), 'd_visit')
        cur = None
        if sh in ('pop_back',):
            # popped only with a known value: either stored on this path, or found
            return
        if sh == 'insert' and len(e.args) == 3:
            x = e.args[1].a[0] if e.args[1].op == 'begin' else None
            ok = x is not None and x.op == 'children' and e.args[2].op == 'end' and e.args[2].a[0] is x and self.frame(x.a[0]) is not None and same(self.frame(x.a[0]), fr)
            c.ob('value-visit', ok, e, 'all children are evaluated', detail=show(e.args[1]))
            return
        if sh in ('push_back', 'emplace_back') and len(e.args) == 1:
            x = e.args[0]
            cur, i = kid(x)
            if cur is None and container(x) is not None and container(x).op == 'children':
                cur, i = container(x).a[0], None
            ok = cur is not None and self.frame(cur) is not None
            c.ob('value-visit', ok, e, 'only children of the subterm are evaluated', detail=show(x))
            if ok and i is I(0):
                k = s.cval(mk('kind', cur))
                c.ob('value-visit', k is kind('EVAL_IF_THEN_ELSE') and s.truth(eq(size(mk('children', cur)), I(3))) is True, e,
                     'only the condition is evaluated first for conditionals', st=s)
            elif ok and i is not None:
                good = any(t.op == 'eq' and v is True and NULL in t.a and any(x.op == 'idx' and x.a[1] is i and self.kids(x.a[0], cur, self.frame(cur), s) for x in t.a)
                           for t, v in s.facts.items())
                c.ob('value-visit', good, e, 'a branch is evaluated if it has no value yet', detail=show(x), st=s)
            return
        c.ob('value-visit', False, e, 'known modification of the worklist', detail=sh)

    def push(self, e):
        c, s = self.c, e.st
        v, x, et = e.args
        v = v.a[0] if v.op == 'value' else v
        if v is self.E0:
            c.ob('value-frame', x is self.X0, e, 'starts with the given term and substitution', detail=show(x))
            return
        ok = is_call(v, EPI) and x.op == 'o' and x.a[0] == q(EPI) and x.a[2] == 1 and cargs(v)[0] in x.a[3]
        c.ob('value-frame', ok, e, 'the body of a program with its own substitution', detail='%s in %s' % (show(v), show(x)))
        if ok:
            c.ob('value-frame', cargs(v)[1] is EMPTY, e, 'the substitution of a call starts empty', detail=show(cargs(v)[1]))
            good = is_call(et, 'ExprTrie::get') and same(cargs(et)[0], cargs(v)[0])
            c.ob('value-cache', good, e, 'the result is cached for the same call', detail=show(et))
            cur = [t.a[0] for t in list(s.dom) if t.op == 'kind' and self.frame(t.a[0]) is not None]
            c.ob('value-frame', any(self.kids(cargs(v)[0], k, self.frame(k), s) for k in cur), e, 'the call has the values of the children', st=s)

    def cache(self, e):
        c, s = self.c, e.st
        p, v = e.objpath, e.args[0]
        v = v.a[0] if v.op == 'value' else v
        et = p[1]
        if not isT(et):
            c.ob('value-cache', False, e, 'a known cache entry', detail=str(p)[:200])
            return
        fr = fieldof(et, 'd_result')
        if fr is not None:
            t, k = self.lookup_key(v, s)
            ok = self.inner(v, s) and same(fieldof(k, 'd_init'), fr) and s.truth(eq(et, NULL)) is False
            c.ob('value-cache', ok, e, 'the entry of a frame gets its result', detail=show(v))
            return
        ok = is_call(et, 'ExprTrie::get') and is_call(v, EPI) and same(cargs(et)[0], cargs(v)[0])
        if v is NULL or isnull(s, v):
            return
        c.ob('value-cache', ok, e, 'the entry of a call gets its result', detail='%s := %s' % (show(et), show(v)))
        if ok:
            good = s.truth(eq(v, NULL)) is True or isnull(s, v) or s.truth(mk('evaluatable', v)) is False and \
                (s.truth(mk('ground', v)) is True or any(s.truth(eq(size(x), I(0))) is True for x in outs(s, v)))
            c.ob('value-cache', good, e, 'only final results are cached', st=s)

    def final(self, t, s):
        r = self.r
        # the variable returned is set from the frame that is popped last
        if t.op == 'it' and t in r.loopvals and t not in r.unsure:
            for v, st in r.loopstates.get(t, ()):
                v = v.a[0] if v.op == 'value' else v
                if self.inner(v, st) or v is t:
                    continue
                # an iteration that leaves something else must leave the stack non-empty: it pushed a frame
                stack = [x for p, x in st.env.items() if p[0] == 'L' and isT(x) and 'estack' in str(p[2])]
                if not any(x.op == 'o' or x.op == 'push' for x in stack):
                    return False
            return True
        return self.inner(t, s)


def same(a, b):
    return a is b or unloop(a) is unloop(b) or norm(a) is norm(b)


_n = {}


def norm(t):
    """t with loop versions of the stack identified"""
    if not isT(t):
        return t
    if t in _n:
        return _n[t]
    if t.op == 'it' and isT(t.a[-1]):
        r = norm(t.a[-1])
    elif t.op == 'set':
        r = norm(t.a[0])
    else:
        r = mk(t.op, *[norm(x) if isT(x) else x for x in t.a]) if any(isT(x) for x in t.a) else t
    _n[t] = r
    return r


def container(el):
    if el.op == 'idx':
        return el.a[0]
    if el.op == 'deref' and el.a[0].op == 'it':
        b = el.a[0].a[-1]
        return b.a[0] if isT(b) and b.op == 'begin' else None
    return None


def not_null(s, v):
    return s.truth(eq(v, NULL)) is False or s.truth(v) is True


def outs(s, v):
    """the substitution filled by the call v"""
    o = []
    for t in list(s.dom) + list(s.facts) + list(s.rng):
        for x in subterms(t):
            if x.op == 'o' and x.a[0] == q(EPI) and x.a[2] == 1:
                o.append(x)
    return o
