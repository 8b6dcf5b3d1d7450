"""Literals: kinds and representations."""
from common import *
import c12

REP = {'d_bool': ('BOOLEAN',), 'd_int': ('NUMERAL',), 'd_rat': ('RATIONAL', 'DECIMAL'), 'd_bv': ('BINARY', 'HEXADECIMAL'), 'd_str': ('STRING',)}
TYPE = {'bool': 'd_bool', 'Integer': 'd_int', 'Rational': 'd_rat', 'BitVector': 'd_bv', 'String': 'd_str', 'basic_string': 'd_sym', 'string': 'd_sym'}
SYMS = ('PARAM', 'CONST', 'PROGRAM_CONST', 'PROOF_RULE', 'VARIABLE', 'ORACLE', 'BUILTIN_CONST')
LIT = tuple(c12.KINDS)
KF = q('ExprValue::d_kind')
# functions that get literals of a kind known to their callers: followed from there
INNER = ('allSameBitWidth',)


def is_member(n):
    return n.startswith(q('Literal') + '::') and n.split('::')[-1] in set(REP) | {'d_sym'}


def run(c):
    c.rule('repr-build', 'a literal is built from a value of the representation of its kind', 14)
    c.rule('repr-access', 'the value of a literal is accessed only in the representation of its known kind', 60)
    c.rule('repr-copy', 'copies of literals and of their values are complete', 8)
    c.rule('repr-symbol', 'symbols are built with the kind of a symbol', 8)
    mem = {n['n'] for f in c.prog.funcs.values() for n in f.nodes if n['k'] == 'mem' and is_member(n['n'])}
    c.ob('repr-access', len(mem) == 6, 'src/literal.h', 'six representations', detail=str(mem))
    roots = {}
    for f in c.prog.funcs.values():
        if f.blocks and any(n['k'] == 'mem' and n['n'] in mem for n in f.nodes):
            for n in names_of(c.prog, f):
                for g in c.prog.fn(n):
                    roots[g.id] = g
    for g in list(roots.values()):
        if g.name.split('::')[-1] in INNER:
            del roots[g.id]
    for g in sorted(roots.values(), key=lambda g: g.id):
        contexts(c, g, mem)
    builds(c)
    copies(c)
    symbols(c)


def contexts(c, g, mem):
    kw = dict(watch=lambda e: e.kind == 'read' and e.name in mem, reads=mem)
    ops = [v['n'].split('::')[-1] for v in c.prog.enums['ethos::Kind']['values'] if v['n'].split('::')[-1].startswith('EVAL_')]
    if g.name == q('Literal::evaluate'):
        for op in ops:
            for ka in LIT + ('NONE',):
                r = c.analyze(g, params={0: kind(op)}, inv=True, inline=INNER, order={q('allSameKind')}, results={q('allSameKind'): lambda a, o, s: kind(ka)}, **kw)
                for e in r.events:
                    access(c, r, e, '%s on %s' % (op, ka), ka)
        return
    if g.params and g.params[0]['ty'].replace('ethos::', '').replace('const ', '') == 'Kind' and g.short.startswith('evaluate'):
        for op in ops:
            r = c.analyze(g, params={0: kind(op)}, inv=True, **kw)
            for e in r.events:
                access(c, r, e, op)
        return
    opt = dict(cap=2000, maxsteps=900000)
    r = c.analyze(g, inv=True, **kw, **opt)
    for e in r.events:
        access(c, r, e, g.name.replace('ethos::', ''))


def owner(e, r):
    """(term of the literal a member of which is accessed, its kind terms)"""
    p = e.objpath
    ks = []
    if p is None:
        x = e.obj
        while isT(x) and x.op in ('fld', 'f') and x.a[0].startswith(q('Literal')) and isT(x.a[1]):
            x = x.a[1]
        return x, [mk('kind', x), fld(KF, x), mk('f', KF, x, 0)]
    b = p
    while b[0] in ('S', 'F') and b[2].startswith(q('Literal')):
        if b[0] == 'F':
            x = b[1]
            return x, [mk('kind', x), r.interp.load(('F', x, KF), e.st)]
        b = b[1]
    x = r.interp.load(b, e.st)
    return x, [mk('kind', x), r.interp.load(('S', b, KF), e.st)]


def dom(s, t):
    if t.op == 'e':
        return {t.a[0]}, set()
    d = s.dom.get(t)
    if d is None:
        return None, set()
    ns = {x.a[0] for x in d[1] if x.op == 'e'}
    return (ns, set()) if d[0] == 'in' else (None, ns)


def access(c, r, e, at, ka=None):
    m = e.name.split('::')[-1]
    x, ks = owner(e, r)
    while x.op == 'lit':
        x = x.a[0]
        ks += [mk('kind', x), r.interp.load(('F', x, KF), e.st)]
    ok = False
    for k in ks:
        yes, no = dom(e.st, k)
        if m == 'd_sym':
            ok = ok or (yes is not None and not yes & set(LIT + ('NONE',))) or set(LIT + ('NONE',)) <= no
        else:
            ok = ok or yes is not None and yes <= set(REP[m])
    if not ok and ka is not None and q('allSameKind') in e.st.ts and m != 'd_sym':
        # all arguments have this kind
        a = elem_of(x)
        ok = a is not None and a.op == 'p' and ka in REP[m]
    if not ok and m == 'd_int' and field(x, 'd_attrConsTerm'):
        # the number of opaque arguments (rule repr-build)
        b = x.a[1]
        ok = any(t.op == 'eq' and v is True and attr('OPAQUE') in t.a and any(field(y, 'd_attrCons') and y.a[1] is b for y in t.a) for t, v in e.st.facts.items()) or \
            any(field(t, 'd_attrCons') and t.a[1] is b and d == ('in', frozenset((attr('OPAQUE'),))) for t, d in e.st.dom.items())
    c.ob('repr-access', ok, e, '%s in %s' % (m, at), detail='kind of %s' % show(x), st=e.st)


def built(t, s):
    """(kind, value) of a literal term, by its constructor"""
    if t.op == 'new' and t.a[0] == q('Literal'):
        return t.a[1]
    return None


def builds(c):
    """every constructor call"""
    p = c.prog
    want = {1: None}
    for f in p.fn('Literal::Literal'):
        if len(f.params) == 1 and 'Literal' in f.params[0]['ty'] or not f.params:
            continue
        ty = f.params[-1]['ty'].replace('const ', '').replace('ethos::', '').replace('&', '').replace('std::', '').replace('__cxx11::', '').split('<')[0].strip()
        m = TYPE.get(ty)
        ini = [(e['n'].split('::')[-1], e) for b, e in f.elements() if isinstance(e, dict) and e['k'] == 'initm' and 'n' in e]
        c.ob('repr-build', m is not None and m in [n for n, e in ini], f, 'a literal built from a %s stores it as %s' % (ty, m), detail=str([n for n, e in ini]))
        if len(f.params) == 1 and m in REP:
            ks = set()
            for n in f.nodes:
                if n['k'] == 'enum' and n.get('ty', '').endswith('Kind'):
                    ks.add(n['n'].split('::')[-1])
            c.ob('repr-build', ks == {REP[m][0]}, f, 'the kind of a literal built from a %s' % ty, detail=str(ks))
    two = {}
    for f in p.fn('Literal::Literal'):
        if len(f.params) == 2:
            ty = f.params[1]['ty'].replace('const ', '').replace('ethos::', '').replace('&', '').replace('std::', '').replace('__cxx11::', '').split('<')[0].strip()
            two[f.id] = TYPE.get(ty)
    # the sites
    sites = {}
    for f in p.funcs.values():
        for i, n in enumerate(f.nodes):
            if n['k'] == 'ctor' and n.get('f') in two and f.blocks:
                for nm in names_of(p, f):
                    for g in p.fn(nm):
                        sites[g.id] = g
    w = lambda e: e.kind == 'ctor' and e.fid in two
    ops = [v['n'].split('::')[-1] for v in p.enums['ethos::Kind']['values'] if v['n'].split('::')[-1].startswith('EVAL_')]
    for g in sorted(sites.values(), key=lambda g: g.id):
        runs = []
        if g.name == q('Literal::evaluate'):
            for op in ops:
                for ka in LIT:
                    runs.append((c.analyze(g, params={0: kind(op)}, inv=True, watch=w, results={q('allSameKind'): lambda a, o, s: kind(ka)}), '%s on %s' % (op, ka)))
        else:
            runs.append((c.analyze(g, watch=w, inv=True, cap=2000, maxsteps=900000), ''))
        for r, at in runs:
            for e in r.events:
                m = two[e.fid]
                yes, no = dom(e.st, e.args[0])
                if m == 'd_sym':
                    ok = e.args[0].op == 'p' and g.name == q('State::mkSymbolInternal') or yes is not None and not yes & set(LIT + ('NONE',))
                else:
                    ok = yes is not None and yes <= set(REP[m])
                c.ob('repr-build', ok, e, 'a literal of type %s gets one of its kinds %s' % (m, at), detail=show(e.args[0]), st=e.st)
    # the number of opaque arguments
    ev = []
    for tk in ('DECLARE_CONST', 'DECLARE_PARAMETERIZED_CONST'):
        r = command(c, tk, ('State::markConstructorKind',))
        ev += r.events
    n = 0
    for e in ev:
        a = e.args
        k = e.st.cval(a[1])
        if k is attr('OPAQUE'):
            n += 1
            c.ob('repr-build', is_call(a[2], 'State::mkLiteral') and e.st.cval(cargs(a[2])[0]) is kind('NUMERAL'), e, 'the number of opaque arguments is a numeral', detail=show(a[2]), st=e.st)
    c.ob('repr-build', n >= 1, 'src/cmd_parser.cpp', 'opaque symbols are declared')
    kp = c.run_analysis(p, 'ExprParser::processAttributeMap')
    from absint import kind_predicates
    preds = kind_predicates(p).get(q('isConstructorKindAttr'))
    c.ob('repr-build', preds is not None and attr('OPAQUE') not in preds, 'src/attr.cpp', 'opaque is not given as an attribute of a symbol')


def copies(c):
    """copies of literals, and assignments of the values they hold"""
    p = c.prog
    fs = [f for f in p.fn('Literal::Literal') if len(f.params) == 1 and 'Literal' in f.params[0]['ty']] + list(p.fn('Literal::operator='))
    for f in fs:
        if not f.blocks:
            continue
        O = mk('p', 0, f.params[0]['name'])
        names = {n['n'].split('::')[-1]: n['n'] for n in f.nodes if n['k'] == 'mem' and is_member(n['n'])}
        for k in LIT + SYMS[:2] + ('NONE',):
            facts = [(eq(mk('kind', O), kind(k)), True), (eq(mk('fld', KF, O), kind(k)), True)]
            if f.short == 'operator=':
                facts.append((eq(THIS, mk('addr', ('L', (), f.params[0]['n']))), False))
            r = c.analyze(f, facts=facts, watch=lambda e: e.kind == 'write' and is_member(e.name or '') or e.kind == 'write' and e.name == KF, reads=set(names.values()),
                          on=lambda e: ['w:' + e.name.split('::')[-1]] if e.kind == 'write' and (is_member(e.name) or e.name == KF) and fromother(e, O) else
                          ['x:' + e.name.split('::')[-1]] if e.kind == 'write' and (is_member(e.name) or e.name == KF) else ())
            m = next((m for m, ks in REP.items() if k in ks), 'd_sym' if k != 'NONE' else None)
            for t, s in r.exits:
                if f.short == 'operator=' and s.truth(eq(THIS, mk('addr', ('L', (), f.params[0]['n'])))) is True:
                    continue
                got = {x for x in s.ts if isinstance(x, str) and x[:2] in ('w:', 'x:')}
                same = any(isT(u) and u.op == 'eq' and THIS in u.a and v is True for u, v in s.facts.items())
                ok = got == {'w:d_kind'} | ({'w:' + m} if m else set()) or same and not got
                c.ob('repr-copy', ok, f, 'a %s is copied with its kind and value' % k, detail=str(got), st=s)
    for cls in ('Integer', 'Rational', 'BitVector', 'String'):
        f = c.prog.fn1(cls + '::operator=')
        O = mk('p', 0, f.params[0]['name'])
        flds = sorted({n['n'] for g in p.funcs.values() if g.cls == q(cls) for n in g.nodes if n['k'] == 'mem' and n['n'].startswith(q(cls) + '::d_')})
        r = c.analyze(f)
        for t, s in r.exits:
            if any(u.op == 'eq' and THIS in u.a and v is True for u, v in s.facts.items()):
                continue
            bad = []
            for fl in flds:
                v = r.interp.load(('F', THIS, fl), s)
                if not (v.op in ('fld', 'f') and v.a[0] == fl and v.a[1] is not THIS):
                    bad.append('%s: %s' % (fl, show(v)))
            c.ob('repr-copy', not bad and flds, f, 'the assignment of a %s copies all of it' % cls, detail='; '.join(bad), st=s)


def fromother(e, O):
    """the value written is the same member of the other literal"""
    v = e.args[0]
    return isT(v) and v.op in ('fld', 'f', 'e') and (v.op == 'e' or v.a[0] == e.name and O in subterms(v) or v.a[0] == e.name and THIS not in subterms(v))


def symbols(c):
    """kinds of symbols"""
    p = c.prog
    n = 0
    work, seen = [('State::mkSymbolInternal', 0)], set()
    while work:
        fn, ix = work.pop()
        if (fn, ix) in seen:
            continue
        seen.add((fn, ix))
        callers = {}
        for f, b, i, node in p.callsites(fn):
            for nm in names_of(p, f):
                for g in p.fn(nm):
                    callers[g.id] = g
        for g in sorted(callers.values(), key=lambda g: g.id):
            for f, b, i, node in p.callsites(fn):
                if f is not g:
                    continue
                a = node['a'][ix]
                ks = const_of(f, a)
                if ks == ('param',):
                    pi = param_index(f, a)
                    if pi is not None:
                        work.append((f.name.replace('ethos::', '', 1), pi))
                        continue
                n += 1
                c.ob('repr-symbol', bool(ks) and set(ks) <= set(SYMS), '%s:%d (%s)' % (f.file, node.get('l', 0), f.name), 'symbols have the kind of a symbol', detail=str(ks))
    return n


def const_of(f, i, depth=0):
    """the enumerators an expression can be: follows casts, conditionals and local variables"""
    n = f.nodes[i]
    if n['k'] == 'cast' or n['k'] == 'ctor' and len(n.get('a', ())) == 1:
        return const_of(f, n['a'] if n['k'] == 'cast' else n['a'][0], depth)
    if n['k'] == 'enum':
        return (n['n'].split('::')[-1],)
    if n['k'] == 'cond':
        a, b = const_of(f, n['a'], depth), const_of(f, n['b'], depth)
        return a + b if a and b and 'param' not in a + b else ()
    if n['k'] == 'var' and depth < 4:
        if any(p['n'] == n['n'] for p in f.params):
            return ('param',)
        out = ()
        for b, e in f.elements():
            if isinstance(e, dict) and e['k'] == 'decl':
                for v in e['vars']:
                    if v['n'] == n['n'] and v.get('init') is not None:
                        r = const_of(f, v['init'], depth + 1)
                        if not r:
                            return ()
                        out += r
            elif isinstance(e, int) and f.nodes[e]['k'] == 'assign' and f.nodes[f.nodes[e]['a']]['k'] == 'var' and f.nodes[f.nodes[e]['a']]['n'] == n['n']:
                r = const_of(f, f.nodes[e]['b'], depth + 1)
                if not r:
                    return ()
                out += r
        return out
    return ()


def param_index(f, i):
    n = f.nodes[i]
    while n['k'] == 'cast':
        n = f.nodes[n['a']]
    return next((j for j, p in enumerate(f.params) if p['n'] == n.get('n')), None)
