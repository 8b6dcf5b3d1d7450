"""Equal terms are one object, and terms never change."""
from common import *
from absint import summaries

TRIE = 'State::d_trie'
# where literals of a kind are found, and the member that holds their value
TABLE = {'NUMERAL': ('d_litIntMap', None, 'd_int'), 'RATIONAL': ('d_litRatMap', 1, 'd_rat'), 'DECIMAL': ('d_litRatMap', 0, 'd_rat'),
         'BINARY': ('d_litBvMap', 1, 'd_bv'), 'HEXADECIMAL': ('d_litBvMap', 0, 'd_bv'), 'STRING': ('d_litStrMap', None, 'd_str')}


def run(c):
    c.rule('term-shared', 'a term is looked up by its kind and all its children, and built, with these, only if there is none', 4)
    c.rule('term-path', 'the place of a term is reached by all its children in order', 2)
    c.rule('literal-shared', 'a literal is looked up in the table of its kind by its value, and built, with these, only if there is none', 14)
    c.rule('built-here', 'terms, literals and symbols are built only by these operations', 8)
    c.rule('tables-owned', 'only these operations change the tables of terms and literals', 10)
    c.rule('immutable', 'the kind, the children and the value of a term never change', 3)
    c.rule('identity', 'terms are equal if and only if they are the same object', 4)
    terms(c)
    path(c)
    literals(c)
    owners(c)
    identity(c)


def isnew(t, cls):
    return isT(t) and t.op == 'new' and t.a[0] == q(cls)


def datapath(t):
    """(kind, children) if t is the content of the place of (kind, children) in the table of terms"""
    if not field(t, 'd_data'):
        return None
    return place(t.a[1])


def place(x):
    if is_call(x, 'ExprTrie::get'):
        o = x.a[1]
        if o.op == 'addr' and o.a[0][0] == 'I' and o.a[0][1] == ('F', THIS, q(TRIE)):
            return o.a[0][2], x.a[2][0]
        if o.op == 'idx' and field(o.a[0], 'd_trie'):
            return o.a[1], x.a[2][0]
    return None


def terms(c):
    def on(ev):
        # the place where a term is stored
        if ev.kind == 'write' and ev.name == q('ExprTrie::d_data') and ev.args and ev.objpath is not None:
            return [('data', wplace(ev.objpath), ev.args[0])]
        return ()
    r = c.analyze('State::mkExprInternal', on=on)
    k, ch = (mk('p', i, r.f.params[i]['name']) for i in (0, 1))
    for t, s in r.exits:
        if isnew(t, 'ExprValue'):
            ok = tuple(t.a[1]) == (k, ch)
            ws = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'data']
            ok2 = any(x == ('data', (k, ch), t) for x in ws)
            old = [x for x, v in s.facts.items() if v and x.op == 'eq' and any(datapath(y) == (k, ch) for y in x.a) and NULL in x.a]
            c.ob('term-shared', ok and bool(old), r.f, 'built from its kind and children if there is none', detail=str(t), st=s)
            c.ob('term-shared', ok2, r.f, 'stored at its place', detail=str(ws), st=s)
        else:
            c.ob('term-shared', datapath(t) == (k, ch) and s.truth(eq(t, NULL)) is False, r.f, 'an existing term is returned', detail=str(t), st=s)
    c.ob('term-shared', any(isnew(t, 'ExprValue') for t, s in r.exits) and len(r.exits) > 1, r.f, 'found or built')


def wplace(p):
    if p[0] == 'F' and p[2] == q('ExprTrie::d_data'):
        return place(p[1])
    return None


def path(c):
    r = c.analyze('ExprTrie::get', inv=True)
    ch = mk('p', 0, r.f.params[0]['name'])
    for t, s in r.exits:
        ok = t.op == 'it' and t.a[-1] is THIS and t not in r.unsure and bool(r.loopstates.get(t))
        c.ob('term-path', ok and finished(s, ch), r.f, 'starts at the root and takes every child', detail=str(t), st=s)
        for v, st in r.loopstates.get(t, ()) if t.op == 'it' else ():
            good = False
            if v.op == 'addr' and v.a[0][0] == 'I' and v.a[0][1] == ('F', t, q('ExprTrie::d_children')):
                el = v.a[0][2]
                sw = sweep(r, s, el)
                good = sw is not None and sw[0] is ch and sw[1] == 1
            c.ob('term-path', good, r.f, 'a step goes to the place of the next child', detail=str(v), st=st)


def litval(t, m):
    return field(t, m)


def tables(t, tab, i):
    """is t the table of literals called tab (the i-th)"""
    if i is None:
        return field(t, tab)
    return isT(t) and t.op == 'idx' and field(t.a[0], tab) and t.a[1] is I(i)


def tpath(p, tab, i):
    """is the assigned path an entry of the table"""
    if p[0] != 'I':
        return None
    b = p[1]
    if i is not None:
        if b[0] != 'I' or b[2] is not I(i):
            return None
        b = b[1]
    if b[0] in ('F', 'S') and b[2] == q('State::' + tab):
        return p[2]
    return None


def literals(c):
    f = c.prog.fn1('State::mkLiteralInternal')
    l = mk('p', 0, f.params[0]['name'])
    for K, (tab, i, m) in TABLE.items():
        def on(ev):
            if ev.kind == 'write' and ev.name == q('State::' + tab) and ev.args and ev.objpath is not None:
                return [('tab', tpath(ev.objpath, tab, i), ev.args[0])]
            if ev.kind == 'cont' and ev.name.startswith(q('State::' + tab) + '::') and ev.short in ('emplace', 'insert', 'try_emplace', 'insert_or_assign') and ev.objpath is not None:
                k = tpath(('I', ev.objpath, VOID), tab, i)
                a = ev.args if len(ev.args) == 2 else ev.args[0].a if len(ev.args) == 1 and ev.args[0].op == 'pair' else None
                if k is VOID and a:
                    return [('tab', a[0], a[1])]
            return ()
        r = c.analyze(f, facts=[(eq(mk('kind', l), kind(K)), True)], on=on)
        found = built = 0
        for t, s in r.exits:
            hs = [(x, v) for x, v in s.facts.items() if x.op == 'has' and tables(x.a[0], tab, i) and litval(x.a[1], m)]
            if isnew(t, 'Literal'):
                built += 1
                av = [x for x in t.a[1] if litval(x, m)]
                ks = [x for x in t.a[1] if x not in av]
                ok = len(av) == 1 and all(s.cval(x) is kind(K) for x in ks) and any(v is False for x, v in hs)
                if not ks:
                    ok = ok and K in ('NUMERAL', 'STRING')
                c.ob('literal-shared', ok, f, '%s built from its value if there is none' % K, detail=str(t), st=s)
                ws = [x[1] for x in s.ts if isinstance(x, tuple) and x[0] == 'tab' and stored(x[2], t)]
                c.ob('literal-shared', any(w is not None and litval(w, m) for w in ws), f, '%s stored under its value' % K, detail=str(ws), st=s)
            else:
                found += 1
                ok = t.op == 'idx' and tables(t.a[0], tab, i) and litval(t.a[1], m) and any(v is True for x, v in hs)
                c.ob('literal-shared', ok, f, 'an existing %s is returned' % K, detail=str(t), st=s)
        c.ob('literal-shared', bool(found and built), f, '%s found or built' % K)
    r = c.analyze(f, facts=[(eq(mk('kind', l), kind('BOOLEAN')), True)])
    for t, s in r.exits:
        bs = [(x, b) for x, b in s.facts.items() if field(x, 'd_bool')]
        ok = field(t, 'd_true') and any(b for x, b in bs) or field(t, 'd_false') and any(b is False for x, b in bs)
        c.ob('literal-shared', ok, f, 'a Boolean is one of the two constants', detail=str(t), st=s)
    # the two constants
    p = c.prog
    for g in p.fn('State::State'):
        if not g.blocks:
            continue
        r = c.analyze(g, maxsteps=400000)
        for m, v in (('d_true', TRUE), ('d_false', FALSE)):
            for t, s in r.exits[:3]:
                x = post(r, s, 'State::' + m)
                c.ob('literal-shared', isnew(x, 'Literal') and tuple(x.a[1]) == (v,), g, 'the constant ' + m, detail=str(x))
            only_writers(c, 'tables-owned', 'State::' + m, [])


def stored(x, t):
    if isT(x) and x.op in ('entry',):
        return False
    return x is t or isT(x) and x.op in ('expr', 'value', 'pair', 'tuple') and any(y is t for y in subterms(x))


def owners(c):
    p = c.prog
    sm = summaries(p)
    for cls, where in (('ExprValue', ('State::mkExprInternal',)), ('Literal', ('State::mkLiteralInternal', 'State::mkSymbolInternal', 'State::State'))):
        for f in p.funcs.values():
            for i, n in enumerate(f.nodes):
                if n['k'] == 'new' and n['ty'].replace('const ', '') == q(cls):
                    own = names_of(p, f)
                    c.touch(f.name)
                    c.ob('built-here', own <= {q(w) for w in where}, '%s:%s (%s)' % (f.file, n.get('l'), f.name), 'a %s is built' % cls, detail='by ' + ', '.join(sorted(own)))
    for fld_, who in ((TRIE, ('State::mkExprInternal', 'State::markDeleted')), ('ExprTrie::d_data', ('State::mkExprInternal', 'ExprTrie::remove', 'TypeChecker::evaluate')),
                      ('ExprTrie::d_children', ('ExprTrie::get', 'ExprTrie::remove')),
                      ('State::d_litIntMap', ('State::mkLiteralInternal', 'State::markDeleted')), ('State::d_litRatMap', ('State::mkLiteralInternal', 'State::markDeleted')),
                      ('State::d_litBvMap', ('State::mkLiteralInternal', 'State::markDeleted')), ('State::d_litStrMap', ('State::mkLiteralInternal', 'State::markDeleted'))):
        only_writers(c, 'tables-owned', fld_, who)
    only_callers(c, 'tables-owned', 'ExprTrie::remove', ['State::markDeleted'])
    only_callers(c, 'tables-owned', 'ExprTrie::get', ['State::mkExprInternal', 'TypeChecker::evaluate'])
    # terms never change
    for m in ('ExprValue::d_kind', 'ExprValue::d_children', 'Literal::d_sym'):
        n = only_writers(c, 'immutable', m, ['Literal::operator=', 'Literal::Literal'] if m != 'ExprValue::d_children' else [])
        c.ob('immutable', True, 'src/expr.h', m + ' has no other writers')
    ci = 0
    for f in p.funcs.values():
        if not f.blocks:
            continue
        for i, n in enumerate(f.nodes):
            if n['k'] == 'cast' and 'ExprValue' in n.get('ty', '') and 'const' in f.nodes[n['a']].get('ty', '') and 'vector' in n.get('ty', ''):
                c.ob('immutable', False, '%s:%s (%s)' % (f.file, n.get('l'), f.name), 'constness of children cast away')


def identity(c):
    for op, pos in (('Expr::operator==', True), ('Expr::operator!=', False)):
        for f in c.prog.fn(op):
            if not f.blocks:
                continue
            r = c.analyze(f)
            for t, s in r.exits:
                e = t.a[0] if t.op == 'not' else t
                sgn = t.op != 'not'
                if t.op == 'b':
                    want = [v for x, v in s.facts.items() if same(x)]
                    c.ob('identity', bool(want) and want[0] is (t.a[0] if pos else not t.a[0]), f, op, detail=str(t), st=s)
                else:
                    c.ob('identity', same(e) and sgn is pos, f, op, detail=str(t), st=s)
    # there are no other notions of equality of terms
    p = c.prog
    n = 0
    for f in p.funcs.values():
        for i, x in enumerate(f.nodes):
            if x['k'] == 'call' and x.get('n') in (q('Expr::operator=='), q('Expr::operator!=')):
                n += 1
    c.ob('identity', n > 10, 'src/expr.cpp', 'comparisons of terms', detail='%d found' % n)
    others = [f.name for f in p.funcs.values() if f.short in ('operator==', 'operator!=') and any('ExprValue' in x.get('ty', '') or x.get('ty', '').endswith('ethos::Expr &') for x in f.params) and f.cls != q('Expr')]
    c.ob('identity', not others, 'src/expr.h', 'no other equality of terms', detail=str(others))


def same(t):
    if not (isT(t) and t.op == 'eq'):
        return False
    a, b = t.a
    return all(field(x, 'd_value') or isT(x) and x.op == 'value' or x.op == 'p' or x.op == 'deref' and x.a[0] is THIS or x is THIS for x in (a, b)) and a is not b
