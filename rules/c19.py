"""Terms stay alive exactly as long as they are used."""
from common import *
from absint import summaries
from c18 import TABLE, tables, litval, place

LITK = {'NUMERAL', 'RATIONAL', 'DECIMAL', 'BINARY', 'HEXADECIMAL', 'STRING', 'BOOLEAN'}
SYMK = {'PARAM', 'CONST', 'PROGRAM_CONST', 'PROOF_RULE', 'VARIABLE', 'ORACLE'}
RC = 'ExprValue::d_rc'
DV = 'Expr::d_value'


def run(c):
    c.rule('counted', 'every handle of a term counts it once for as long as it refers to it', 12)
    c.rule('children-counted', 'a term counts each of its children', 1)
    c.rule('deleted-at-zero', 'a term is deleted when, and only when, nothing counts it any more', 4)
    c.rule('forgotten', 'a deleted term is removed from everything that is looked up by its address or value, before it is freed', 30)
    c.rule('drained', 'terms whose deletion is deferred are deleted later, before the deletion of terms ends', 4)
    c.rule('unshared-place', 'deleting the place of a term leaves the places of all other terms', 8)
    c.rule('kept', 'what is stored by address during an evaluation is kept alive', 5)
    c.rule('keyed-alive', 'sets and maps keyed by address hold terms that are kept alive or forgotten in time', 10)
    c.rule('no-dangling', 'the address of a temporary term is used only if something else keeps the term', 3)
    handles(c)
    counting(c)
    deletion(c)
    trie(c)
    evaluation(c)
    keyed(c)
    temporaries(c)


def pm(ev):
    if ev.kind == 'call' and ev.name in (q('ExprValue::inc'), q('ExprValue::dec')):
        return [('rc', ev.short, ev.obj, sum(1 for x in ev.st.ts if isinstance(x, tuple) and x[0] == 'rc'))]
    return ()


def rcs(s):
    return sorted(((x[1], x[2]) for x in s.ts if isinstance(x, tuple) and x[0] == 'rc'), key=str)


def real(t, s):
    """a term that is counted (not the null expression)"""
    if t is NULL or t.op == 'addr':
        return False
    return s.truth(eq(t, NULL)) is not True


def handles(c):
    p = c.prog
    done = 0
    for f in p.funcs.values():
        if f.cls != q('Expr') or not f.blocks:
            continue
        if f.id not in writers_ids(p, DV) and f.short not in ('~Expr', 'Expr'):
            continue
        done += 1
        ctor, dtor = f.short == 'Expr', f.short == '~Expr'
        r = c.analyze(f, on=pm)
        old = mk('f', q(DV), THIS, 0)
        old = pre(r, DV)
        for t, s in r.exits:
            new = NULL if dtor else post(r, s, DV)
            want = []
            same = s.truth(eq(old, new)) is True or new is old
            if not ctor and not same and real(old, s):
                want.append(('dec', old))
            if not dtor and not (same and not ctor) and real(new, s):
                want.append(('inc', new))
            got = rcs(s)
            if same and not ctor and not dtor and len(got) == 2 and {x for x, y in got} == {'inc', 'dec'} and got[0][1] is got[1][1]:
                got = []
            c.ob('counted', got == sorted(want, key=str), f, f.name, detail='from %s to %s: %s' % (old, new, got), st=s)
            if not dtor:
                c.ob('counted', new is not NULL, f, 'refers to a term or the null expression', detail=str(new), st=s)
    c.ob('counted', done >= 5, 'src/expr.cpp', 'operations of handles', detail=str(done))
    for f in writers(p, DV):
        own = names_of(p, f)
        c.ob('counted', own <= {q('Expr::Expr'), q('Expr::~Expr'), q('Expr::operator=')}, f, 'handles are changed by their own operations', detail=f.name)
    # no handles made by copying memory
    for f in p.funcs.values():
        for n in f.nodes:
            if n['k'] == 'call' and n.get('n', '').split('::')[-1] in ('memcpy', 'memmove', 'bit_cast', 'start_lifetime_as') and not f.file.startswith('base/'):
                c.ob('counted', False, '%s:%s (%s)' % (f.file, n.get('l'), f.name), 'memory is copied')


def writers_ids(p, fld_):
    return {f.id for f in writers(p, fld_)}


def counting(c):
    p = c.prog
    for nm, d in (('inc', 'plus'), ('dec', 'minus')):
        f = p.fn1('ExprValue::' + nm)
        r = c.analyze(f, on=lambda e: [('md', e.args[0])] if e.kind == 'call' and e.name == q('State::markDeleted') else ())
        old = pre(r, RC)
        for t, s in r.exits:
            v = post(r, s, RC)
            c.ob('deleted-at-zero', v is mk(d, old, I(1)), f, nm, detail=str(v), st=s)
            md = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'md']
            if nm == 'inc':
                c.ob('deleted-at-zero', not md, f, 'inc does not delete')
            else:
                z = s.truth(eq(v, I(0)))
                if z is None:
                    lo, hi = s.interval(v)
                    z = False if lo is not None and lo > 0 else None
                c.ob('deleted-at-zero', z is True and md == [('md', THIS)] or z is False and not md, f, 'deleted iff the count is zero', detail=str((z, md)), st=s)
    only_writers(c, 'deleted-at-zero', RC, ['ExprValue::inc', 'ExprValue::dec'])
    only_callers(c, 'deleted-at-zero', 'State::markDeleted', ['ExprValue::dec'])
    only_callers(c, 'counted', 'ExprValue::dec', ['Expr::~Expr', 'Expr::operator=', 'ExprValue::~ExprValue'])
    only_callers(c, 'counted', 'ExprValue::inc', ['Expr::Expr', 'Expr::operator=', 'ExprValue::ExprValue'])
    for f in p.fn('ExprValue::ExprValue'):
        if not f.blocks or not f.params or 'vector' not in f.params[-1].get('ty', ''):
            continue
        r = c.analyze(f, inv=True, watch=watch('ExprValue::inc'), on=lambda e: [('inc', e.obj)] if e.kind == 'call' and e.name == q('ExprValue::inc') else (), loophead=lambda g, h, s: ())
        ch = mk('p', len(f.params) - 1, f.params[-1]['name'])
        ev = [e for e in r.events if e.kind == 'call']
        for t, s in r.exits:
            ok = bool(ev) and all(any(sweep(r, s, x) == (y, 1) for y in (ch, post(r, s, 'ExprValue::d_children'))) for x in {e.obj for e in ev})
            c.ob('children-counted', ok and len({e.node['l'] for e in ev}) == 1, f, 'each child is counted', detail=str([str(e.obj) for e in ev]), st=s)
        for g, h, st, ctx in r.backs:
            c.ob('children-counted', any(isinstance(x, tuple) and x[0] == 'inc' for x in st.ts), f, 'in every iteration', st=st)


def forgets(e):
    if e.kind == 'cont' and e.name.startswith(q('State::')) and e.short == 'erase' and len(e.args) == 1:
        a = e.args[0]
        return [('erased', e.name.split('::')[-2], e.obj, a.a[1] if a.op == 'find' and a.a[0] is e.obj else a)]
    if e.kind == 'call' and e.name == q('ExprTrie::remove'):
        pl = place(mk('r', q('ExprTrie::get'), e.obj, tuple(e.args), ()))
        return [('removed', pl)]
    if e.kind == 'call' and e.name == 'free' or e.kind == 'delete':
        return [('freed', e.args[0])]
    if e.kind == 'cont' and e.name == q('State::d_toDelete::push_back'):
        return [('deferred', e.args[0])]
    return ()


def deletion(c):
    p = c.prog
    f = p.fn1('State::markDeleted')
    e0 = mk('p', 0, f.params[0]['name'])
    gc = 'State::d_inGarbageCollection'
    td = 'State::d_toDelete'
    kinds = [kind(k) for k in sorted(LITK | {'CONST', 'PARAM', 'PROGRAM_CONST', 'PROOF_RULE', 'VARIABLE', 'APPLY'})]
    r = c.analyze(f, inv=True, on=forgets, watch=lambda e: e.kind == 'call' and e.name == 'free' or used_freed(e), cap=4000, loophead=lambda g, h, s: ())
    frees = [e for e in r.events if e.kind == 'call' and e.name == 'free']
    for e in r.events:
        if used_freed(e):
            c.ob('forgotten', False, f, 'a freed term is not used', detail='%s %s' % (e.name, e.args), st=e.st)
    issym = r.interp.kp.get(q('isSymbol'))
    c.ob('forgotten', bool(frees) and issym is not None, f, 'terms are freed')
    for e in frees:
        x, s = e.args[0], e.st
        ts = [t for t in s.ts if isinstance(t, tuple)]
        k = s.cval(mk('kind', x))
        where = 'kind %s' % k

        def gone(tab, key=x):
            return any(t[0] == 'erased' and t[1] == tab and t[3] is key for t in ts) or any(v is False and h.op == 'has' and field(h.a[0], tab) and h.a[1] is key for h, v in s.facts.items())
        for tab in ('d_hashMap', 'd_typeCache'):
            c.ob('forgotten', gone(tab), f, '%s of a term of %s' % (tab, where), detail=str(ts)[:300], st=s)
        ks = possible(s, mk('kind', x))
        sym = [y for y in issym if ks is None or y in ks] if s.truth(mk('kp', issym, mk('kind', x))) is not False else []
        if sym:
            c.ob('forgotten', gone('d_appData'), f, 'd_appData of a symbol', detail=str(ts)[:300], st=s)
        c.ob('forgotten', any(t[0] == 'removed' and t[1] is not None and s.cval(t[1][0]) is k and t[1][1] is mk('children', x) for t in ts), f, 'place of a term of ' + where, detail=str(ts)[:300], st=s)
        lits = [K for K in TABLE if (k is kind(K) or ks is not None and kind(K) in ks or ks is None and k.op != 'e' and s.truth(eq(mk('kind', x), kind(K))) is not False)]
        for K in lits:
            tab, i, m = TABLE[K]
            ok = len(lits) == 1 and any(t[0] == 'erased' and t[1] == tab and tables(t[2], tab, i) and litval(t[3], m) and any(y is mk('lit', x) for y in subterms(t[3])) or
                                        t[0] == 'erased' and t[1] == tab and tables(t[2], tab, i) and litval(t[3], m) and any(y is x for y in subterms(t[3])) for t in ts)
            c.ob('forgotten', ok, f, 'literal table of ' + K, detail=str(ts)[:300], st=s)
        c.ob('forgotten', not any(t[0] == 'freed' for t in ts), f, 'freed once', st=s)
    # deferred deletions
    d0 = pre(r, gc)
    for t, s in r.exits:
        ts = [t for t in s.ts if isinstance(t, tuple)]
        if s.truth(d0) is True:
            c.ob('drained', ('deferred', e0) in ts and not any(x[0] == 'freed' for x in ts), f, 'a nested deletion is deferred', detail=str(ts), st=s)
            c.ob('drained', r.interp.load(('F', THIS, q(gc)), s) is d0 or s.truth(r.interp.load(('F', THIS, q(gc)), s)) is True, f, 'the outer deletion goes on', st=s)
        elif s.truth(d0) is False:
            v = post(r, s, td)
            z = s.truth(eq(size(v), I(0)))
            lst = back_null(s, td)
            c.ob('drained', z is True or v is EMPTY or lst, f, 'no deferred deletion is left', detail=str(v), st=s)
            c.ob('drained', post(r, s, gc) is FALSE, f, 'the deletion has ended', st=s)
        else:
            c.ob('drained', False, f, 'nested or not', st=s)
    for e in frees:
        c.ob('drained', e.st.truth(r.interp.load(('F', THIS, q(gc)), e.st)) is True, f, 'deletions by a deletion are nested', st=e.st)
    its = {e.args[0] for e in frees}
    for x in its:
        if x.op == 'it':
            for v, s in r.loopstates.get(x, ()):
                v2 = v.a[0] if v.op == 'back' else None
                ok = v.op == 'back' and field(v.a[0], 'd_toDelete') or v.op == 'idx' and v.a[1] is mk('minus', size(v.a[0]), I(1)) and field(v.a[0], 'd_toDelete')
                after = r.interp.load(('F', THIS, q(td)), s)
                c.ob('drained', ok and after.op == 'pop' and after.a[0] is v.a[0], f, 'the next deferred one is taken', detail='%s %s' % (v, after), st=s)
            c.ob('drained', x.a[-1] is e0, f, 'starting with the given one', detail=str(x))
    # nothing else frees terms
    for g in p.funcs.values():
        for n in g.nodes:
            if n['k'] == 'call' and n.get('n') in ('free', 'std::free') and 'ExprValue' in arg_ty(g, n) or n['k'] == 'delete' and ('ExprValue' in n.get('ty', '') or 'Literal' in n.get('ty', '')):
                c.ob('deleted-at-zero', names_of(p, g) == {q('State::markDeleted')}, '%s:%s (%s)' % (g.file, n.get('l'), g.name), 'terms are freed only when deleted')
    only_writers(c, 'drained', gc, ['State::markDeleted'])
    only_writers(c, 'drained', td, ['State::markDeleted'])


def arg_ty(g, n):
    i = n['a'][0]
    while g.nodes[i]['k'] == 'cast':
        i = g.nodes[i]['a']
    return g.nodes[i].get('ty', '')


def back_null(s, td):
    return any(v and h.op == 'eq' and NULL in h.a and any(y.op in ('back', 'idx') and field(y.a[0], td.split('::')[-1]) for y in h.a) for h, v in s.facts.items())


def used_freed(e):
    fr = {t[1] for t in e.st.ts if isinstance(t, tuple) and t[0] == 'freed'}
    if not fr or e.kind in ('enter', 'return'):
        return False
    ts = list(e.args) + ([e.obj] if isT(e.obj) else []) + ([e.objpath[2]] if e.objpath is not None and e.objpath[0] == 'I' and isT(e.objpath[2]) else [])
    return any(x in fr for x in ts if isT(x)) or e.kind == 'deref' and isT(e.obj) and e.obj in fr


def possible(s, t):
    d = s.dom.get(t)
    if d is not None and d[0] == 'in':
        return set(d[1])
    return None


def trie(c):
    """ExprTrie::remove: what is erased leads to nothing but the place that is removed"""
    p = c.prog
    f = p.fn1('ExprTrie::remove')
    ch = mk('p', 0, f.params[0]['name'])
    D, C = 'ExprTrie::d_data', 'ExprTrie::d_children'

    def on(e):
        if e.kind == 'write' and e.name == q(D):
            return [('data', e.objpath, e.args[0])]
        if e.kind == 'cont' and e.name == q(C + '::erase'):
            return [('erase', e.objpath, e.args[0])]
        return ()
    r = c.analyze(f, inv=True, on=on, watch=lambda e: e.kind == 'cont' and e.name == q(C + '::erase'))
    # the variable that walks down the path
    ends = set()
    for t, s in r.exits:
        ws = [x for x in s.ts if isinstance(x, tuple) and x[0] == 'data']
        ok = len(ws) == 1 and ws[0][2] is NULL and ws[0][1][0] == 'F'
        et = ws[0][1][1] if ok else None
        if ok:
            ok = et.op == 'it' and et.a[-1] is THIS and finished(s, ch) and bool(r.loopstates.get(et)) and et not in r.unsure
            ends.add(et)
        c.ob('unshared-place', ok, f, 'the place at the end of the path is emptied', detail=str(ws), st=s)
    c.ob('unshared-place', len(ends) == 1, f, 'one path', detail=str(ends))
    if len(ends) != 1:
        return
    et = ends.pop()
    for v, s in r.loopstates[et]:
        ok = walk(r, s, v, et, ch)
        c.ob('unshared-place', ok, f, 'a step goes to the place of the next child', detail=str(v), st=s)
    for e in r.events:
        s = e.st
        if e.objpath is None or e.objpath[0] != 'F':
            c.ob('unshared-place', False, f, 'what is erased', detail=str(e.objpath), st=s)
            continue
        x = e.objpath[1]      # the place below which we erase
        leaf = s.truth(eq(size(r.interp.load(('F', et, q(C)), s)), I(0))) is True
        c.ob('unshared-place', leaf, f, 'erased only if the place leads to no other', st=s)
        c.ob('unshared-place', x.op == 'it' and x.a[-1] is NULL and s.truth(eq(x, NULL)) is False, f, 'erased below a place on the path', detail=str(x), st=s)
        if x.op != 'it':
            continue
        for v, st in r.loopstates.get(x, ()):
            if v is x:
                # kept: then the place we pass leads only further down, and holds nothing
                a = isT(x) and st.truth(eq(x, NULL)) is False
                b = st.interval(size(mk('fld', q(C), et)))
                szt = [y for y in st.rng if y.op == 'size' and field(y.a[0], 'd_children') and any(z is et for z in subterms(y))]
                b = any((st.interval(y)[1] or 99) <= 1 for y in szt)
                d = any(v2 is True and h.op == 'eq' and NULL in h.a and any(field(y, 'd_data') and any(z is et for z in subterms(y)) for y in h.a) for h, v2 in st.facts.items())
                c.ob('unshared-place', a and b and d, f, 'passed places hold nothing else', detail=str((a, b, d)), st=st)
            else:
                c.ob('unshared-place', v is et, f, 'the lowest place that leads elsewhere', detail=str(v), st=st)
        # the entry that is erased is the one taken from there
        its = [y for y in r.loopstates if y.op == 'it' and y.a[0] == x.a[0] and y is e.args[0]]
        if its:
            for v, st in r.loopstates[its[0]]:
                vx = [w for w, s2 in r.loopstates[x] if s2 is st]
                took = v.op == 'find' and field(v.a[0], 'd_children') and any(z is et for z in subterms(v.a[0])) and walk_key(r, st, v.a[1], ch)
                kept_ = v is its[0]
                c.ob('unshared-place', bool(vx) and (kept_ and vx[0] is x or took and vx[0] is et), f, 'the entry belongs to it', detail='%s %s' % (v, vx), st=st)
        else:
            c.ob('unshared-place', False, f, 'which entry is erased', detail=str(e.args[0]), st=s)


def walk_key(r, s, k, ch):
    return sweep(r, None, k) == (ch, 1) or k.op == 'deref' and k.a[0].op == 'it' and k.a[0].a[-1].op == 'begin' and k.a[0].a[-1].a[0] is ch or k.op == 'idx' and k.a[0] is ch


def walk(r, s, v, et, ch):
    """v: the address of the entry of et for the next child"""
    if v.op != 'addr':
        return False
    p = v.a[0]
    if p[0] == 'S' and p[2] == 'std::pair::second':
        return True if not s else walk_entry(r, s, p[1], et, ch)
    if p[0] == 'I' and p[1] == ('F', et, q('ExprTrie::d_children')):
        return walk_key(r, s, p[2], ch)
    return False


def walk_entry(r, s, p, et, ch):
    v = r.interp.load(p, s)
    if v.op in ('deref', 'entry'):
        w = v.a[0] if v.op == 'deref' else v
        if w.op in ('find', 'entry'):
            return field(w.a[0], 'd_children') and any(z is et for z in subterms(w.a[0])) and walk_key(r, s, w.a[1], ch)
    return False


def localset(t):
    while t.op == 'it' or t.op in ('ins', 'push'):
        t = t.a[-1] if t.op == 'it' else t.a[0]
    return t is EMPTY


def keptin(s, v):
    """is v kept alive on this path: pushed to a list of handles, or found in a set all of whose elements are"""
    if ('kept', v) in s.ts:
        return True
    yes = no = False
    for h, b in s.facts.items():
        if h.op == 'has' and h.a[1] is v and localset(h.a[0]):
            if b:
                yes = True
            else:
                no = True
    return yes and not no


def evaluation(c):
    """results and calls stored by address in the table of calls of an evaluation"""
    p = c.prog
    f = p.fn1('TypeChecker::evaluate')
    locs = {}
    for b, e in f.elements():
        if isinstance(e, dict) and e['k'] == 'decl':
            for v in e['vars']:
                locs[v['n']] = v.get('ty', '')

    def lty(ev):
        return locs.get(ev.objpath[2], '') if ev.objpath is not None and ev.objpath[0] == 'L' else ''

    def on(ev):
        if ev.kind == 'cont' and ev.short in ('push_back', 'emplace_back') and lty(ev).startswith('std::vector<ethos::Expr,') and len(ev.args) == 1:
            return [('kept', ev.args[0])]
        if ev.kind == 'cont' and ev.short in ('insert', 'emplace') and 'set<' in lty(ev) and 'ExprValue' in lty(ev):
            return [('ins', ev.args[0])]
        return ()

    def w(e):
        return e.kind == 'write' and e.name == q('ExprTrie::d_data') or e.kind == 'call' and e.name == q('ExprTrie::get') or \
            e.kind == 'cont' and e.short in ('emplace_back', 'push_back') and len(e.args) == 3
    r = c.analyze(f, inv=True, on=on, watch=w, cap=4000)
    n = 0
    for e in r.events:
        s = e.st
        if e.kind == 'call':
            C = e.args[0]
            ok = False
            for it in r.loopstates:
                if it.op != 'it':
                    continue
                for el in (mk('deref', it), index(C, it)):
                    sw = sweep(r, s, el)
                    if sw is not None and sw[0] is C:
                        ok = ok or all(keptin(st, el) for v, st in r.loopstates[it]) and bool(r.loopstates[it])
            c.ob('kept', ok, f, 'the arguments of stored calls are kept', detail=str(C)[:200], st=s)
            n += 1
        elif e.kind == 'write':
            v = e.args[0]
            v = v.a[0] if v.op == 'value' else v
            c.ob('kept', v is NULL or s.truth(eq(v, NULL)) is True or keptin(s, v) or keptin(s, e.args[0]), f, 'a stored result is kept', detail=str(v)[:200], st=s)
            n += 1
        else:
            v = e.args[0]
            if e.args[2] is NULL:
                c.ob('kept', v.op == 'p', f, 'the evaluated term is held by the caller', detail=str(v)[:200], st=s)
                continue
            c.ob('kept', keptin(s, v), f, 'a body that is evaluated is kept', detail=str(v)[:200], st=s)
            n += 1
    c.ob('kept', n >= 4, f, 'stores of an evaluation', detail=str(n))
    # whatever is put in the set is put in the list
    for (g, h, s, ctx) in [b for b in r.backs] + [(f, None, s, None) for t, s in r.exits]:
        for t in s.ts:
            if isinstance(t, tuple) and t[0] == 'ins':
                v = t[1]
                new = any(hh.op == 'has' and hh.a[1] is v and localset(hh.a[0]) and b is False for hh, b in s.facts.items())
                if new:
                    c.ob('kept', ('kept', v) in s.ts, f, 'what is noted as kept is kept', detail=str(v)[:200], st=s)


def keyed(c):
    p = c.prog
    # rules and programs live forever
    def on(e):
        if e.kind == 'cont' and e.short in ('push_back', 'emplace_back') and e.name.startswith(q('State::')):
            return [('held', e.name.split('::')[-2], e.args[0])]
        return ()
    f = p.fn1('State::mkSymbolInternal')
    k = mk('p', 0, f.params[0]['name'])
    held = {}
    for K in ('PROOF_RULE', 'PROGRAM_CONST'):
        r = c.analyze(f, facts=[(eq(k, kind(K)), True)], on=on)
        for t, s in r.exits:
            hs = {x[1] for x in s.ts if isinstance(x, tuple) and x[0] == 'held' and x[2] is t}
            held.setdefault(K, set()).update(hs)
            c.ob('keyed-alive', bool(hs), f, 'a %s is held' % K, detail=str(s.ts), st=s)
    for m in set().union(*held.values()):
        only_writers(c, 'keyed-alive', 'State::' + m, ['State::mkSymbolInternal'])
    # assertions of the reference file are held
    for g in writers(p, 'State::d_referenceAsserts'):
        r = c.analyze(g, watch=lambda e: e.kind == 'cont' and e.name in (q('State::d_referenceAsserts::insert'), q('State::d_referenceAssertList::push_back'), q('State::d_referenceAssertList::emplace_back'),
                                                                          q('State::d_referenceAsserts::emplace')))
        for e in r.events:
            if 'd_referenceAsserts::' in e.name:
                v = e.args[0]
                ok = any('List' in x.name and x.args[0] is v for x in r.events)
                c.ob('keyed-alive', ok, g, 'an assertion is held', detail=str(v), st=e.st)
    for m in ('State::d_referenceAssertList',):
        only_writers(c, 'keyed-alive', m, ['State::addReferenceAssert'])
    # the types of named variables are held by the variables
    for g in writers(p, 'State::d_boundVars'):
        r = c.analyze(g, watch=lambda e: e.kind == 'write' and e.name == q('State::d_boundVars') or e.kind == 'cont' and 'd_boundVars::' in e.name)
        for e in r.events:
            if e.kind == 'write':
                key, v = e.objpath[2], e.args[0]
            elif e.short in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
                key, v = e.args if len(e.args) == 2 else e.args[0].a
            else:
                c.ob('keyed-alive', False, g, 'variables are only added', detail=e.name)
                continue
            ty = key.a[1] if key.op in ('pair', 'tuple') else None
            ok = is_call(v, 'State::mkSymbol') and ty is not None and (cargs(v)[2] is ty or ty.op == 'value' and cargs(v)[2] is ty.a[0])
            c.ob('keyed-alive', ok, g, 'a variable holds its type', detail='%s %s' % (key, v), st=e.st)
    f = p.fn1('State::mkSymbolInternal')
    def typed(e):
        if e.kind == 'write' and e.name == q('State::d_typeCache') and e.objpath[0] == 'I':
            return [('typed', e.objpath[2], e.args[0])]
        if e.kind == 'cont' and e.name in (q('State::d_typeCache::emplace'), q('State::d_typeCache::insert_or_assign'), q('State::d_typeCache::try_emplace')) and len(e.args) == 2:
            return [('typed', e.args[0], e.args[1])]
        return ()
    r = c.analyze(f, on=typed)
    ty = mk('p', 2, f.params[2]['name'])
    for t, s in r.exits:
        c.ob('keyed-alive', ('typed', t, ty) in s.ts, f, 'a symbol holds its type', detail=str(s.ts), st=s)
    # the rule of a step is a rule
    f = p.fn1('ExprParser::getProofRule')
    r = c.analyze(f)
    for t, s in r.exits:
        c.ob('keyed-alive', s.cval(mk('kind', t)) is kind('PROOF_RULE'), f, 'the rule of a step is a rule', detail=str(t), st=s)
    # statistics and sorry marks: rules and programs only
    for g in p.funcs.values():
        if not g.blocks:
            continue
        for n in g.nodes:
            if n['k'] == 'call' and n.get('n') == 'std::map::operator[]' and 'obj' in n and g.nodes[n['obj']]['k'] == 'mem' and g.nodes[n['obj']]['n'] in (q('Stats::d_rstats'), q('Stats::d_pstats')):
                M = g.nodes[n['obj']]['n']
                line = n.get('l')
                r = c.analyze(g, watch=lambda e: e.kind in ('index', 'cont') and e.node is n) if g.name != q('CmdParser::parseNextCommand') else None
                if r is None:
                    # only the command that applies a rule does so
                    r = command(c, 'STEP', watch=lambda e: e.kind == 'index' and e.node is n)
                    r2 = command(c, 'STEP_POP', watch=lambda e: e.kind == 'index' and e.node is n)
                    evs = r.events + r2.events
                else:
                    evs = r.events
                c.ob('keyed-alive', bool(evs), g, 'statistics of ' + M.split('::')[-1])
                for e in evs:
                    x = e.args[0]
                    x = x.a[0] if x.op == 'value' else x
                    k = e.st.cval(mk('kind', x))
                    ok = k in (kind('PROOF_RULE'), kind('PROGRAM_CONST')) or is_call(x, 'ExprParser::getProofRule') or x.op == 'idx' and M.endswith('d_pstats') and q('TypeChecker::evaluateProgramInternal') in names_of(p, g)
                    c.ob('keyed-alive', ok, g, 'statistics are kept for rules and programs', detail=str(x), st=e.st)
    # every other member keyed by address is known
    known = {'State::d_boundVars', 'State::d_appData', 'State::d_hashMap', 'State::d_typeCache', 'State::d_pfrSorry', 'State::d_referenceAsserts', 'State::d_toDelete', 'Stats::d_rstats', 'Stats::d_pstats',
             'ExprTrie::d_children', 'ExprTrie::d_data', 'ExprValue::d_children', 'Expr::d_value', 'State::d_trie', 'EvFrame::d_init', 'EvFrame::d_ctx', 'EvFrame::d_visited', 'EvFrame::d_visit', 'EvFrame::d_result', 'SortRuleTime::d_rstats'}
    seen = {}
    for g in p.funcs.values():
        for n in g.nodes:
            if n['k'] == 'mem' and 'ExprValue *' in n.get('ty', '') and '(' not in n.get('ty', ''):
                seen.setdefault(n['n'], (g, n))
    for m, (g, n) in sorted(seen.items()):
        c.ob('keyed-alive', m.replace('ethos::', '', 1) in known or not m.startswith('ethos::'), '%s:%s' % (g.file, n.get('l')), 'member %s holds addresses of terms' % m)


HOLDERS = ('back', 'front', 'operator[]', 'at', 'operator*', 'operator->', 'top')


def temporaries(c):
    """the address of a temporary term outlives the temporary only if the term is held elsewhere"""
    p = c.prog
    n_ = 0
    for f in p.funcs.values():
        if not f.blocks:
            continue
        pm_ = None
        for i, n in enumerate(f.nodes):
            if not (n['k'] == 'call' and n.get('n') == q('Expr::getValue') and 'obj' in n):
                continue
            o = f.nodes[n['obj']]
            while o['k'] == 'cast':
                o = f.nodes[o['a']]
            if o['k'] not in ('call', 'ctor') or o.get('ty', '').endswith('&') or o['k'] == 'call' and (o.get('n', '').startswith('std::') or o.get('op') == '*'):
                continue
            n_ += 1
            pm_ = pm_ or parents(f)
            ok = used_at_once(f, pm_, i) or o['k'] == 'call' and (o['n'] == q('Expr::operator[]') or getter(c, p, o.get('f')))
            c.ob('no-dangling', ok, '%s:%s (%s)' % (f.file, n.get('l'), f.name), 'address of the temporary %s' % o.get('n', ''), detail='nothing keeps the term')
            c.touch(f.name)


def used_at_once(f, pm_, i):
    """is the address only compared, printed or turned into a handle or a new term within the same expression"""
    while True:
        u = pm_.get(i)
        if u is None:
            return False
        n = f.nodes[u]
        if n['k'] == 'ctor' and n.get('cls') == q('Expr'):
            return True
        if n['k'] == 'bin' and n['op'] in ('==', '!='):
            return True
        if n['k'] == 'call':
            if n.get('n', '') in (q('State::mkExprInternal'), q('State::mkApplyInternal'), q('State::markProofRuleSorry'), q('State::isProofRuleSorry')) or n.get('obj') == i or n.get('n', '').split('::')[-1] in ('find', 'count', 'contains', 'operator<<'):
                return True
            g = n.get('n', '')
            if g.startswith('ethos::'):
                return not n.get('ty', '').endswith('*') and 'iterator' not in n.get('ty', '')
            return False
        if n['k'] in ('cast', 'ctor', 'initlist', 'cond'):
            i = u
            continue
        if n['k'] == 'mem':
            return True
        return False


def getter(c, p, fid):
    """does the function return a handle that a member holds"""
    f = p.funcs.get(fid)
    if f is None or not f.blocks:
        return False
    r = c.analyze(f)
    return all(t.op in ('f', 'fld') or t.op == 'g' for t, s in r.exits)
