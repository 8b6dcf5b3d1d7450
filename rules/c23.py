"""The verdict is a function of the input alone."""
import re
from common import *
from absint import summaries
from c22 import ipdom

SCALAR = re.compile(r'^(const )?(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|ethos::(Kind|Attr|Token))$')
SOURCES = {'time', 'clock', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'rand_r', 'getenv', 'secure_getenv', 'getpid', 'gettimeofday', 'clock_gettime', 'getrandom',
           'localtime', 'gmtime', 'gethostname', 'getrusage', 'sysconf', 'mrand48', 'arc4random', 'times', 'getcwd', 'setlocale', 'nanosleep', 'pthread_create', 'fork'}
SOURCE_CLASSES = ('std::random_device', 'std::chrono::', 'std::thread', 'std::async', 'std::mersenne_twister', 'std::linear_congruential', 'std::this_thread', 'std::shuffle', 'std::random_shuffle',
                  'std::filesystem::directory', 'std::filesystem::last_write_time')
HMAP, HCNT = 'State::d_hashMap', 'State::d_hashCounter'
# functions that visit containers in an order that depends on addresses, where the order cannot matter
PRINTS = {q('operator<<'), q('Stats::toString')}
PERKEY = {q('State::markConstructorKind'), q('ExprParser::processAttributeMap'), q('State::mkList'), q('State::mkExpr')}


def run(c):
    c.rule('no-other-input', 'nothing but the input and the options is consulted: no time, randomness, environment or threads', 150)
    c.rule('no-address-order', 'addresses of objects are not compared, printed or turned into numbers', 250)
    c.rule('order-insensitive', 'where a container ordered by address is visited, the order cannot affect the outcome', 5)
    c.rule('assigned-fields', 'objects start with all their plain members assigned', 40)
    c.rule('assigned-locals', 'plain local variables are assigned before they are read', 8)
    c.rule('hash-stable', 'a term gets a number when it is first asked for, a new one, and keeps it for good', 6)
    sources(c)
    addresses(c)
    orders(c)
    fields(c)
    local(c)
    hashes(c)


def sources(c):
    p = c.prog
    for f in p.funcs.values():
        if not f.blocks:
            continue
        bad = []
        for b, i, n in f.calls():
            nm = n.get('n', '')
            base = nm[5:] if nm.startswith('std::') else nm
            if base in SOURCES or nm.startswith(SOURCE_CLASSES) or n.get('cls', '').startswith(SOURCE_CLASSES):
                bad.append('%s at line %s' % (nm, n.get('l')))
        if bad and all(o.startswith((q('Stats::'), q('RuleStat::'))) for o in names_of(p, f)):
            bad = []     # statistics, whose values C22 shows to be only printed
        c.ob('no-other-input', not bad, f, 'inputs of ' + f.name, detail='; '.join(bad))
        c.touch(f.name)


def isptr(t):
    return (t or '').replace('const', '').strip().endswith('*')


def nty(f, i):
    n = f.nodes[i]
    return n.get('ty', '')


def addresses(c):
    p = c.prog
    for f in p.funcs.values():
        if not f.blocks:
            continue
        if f.file.startswith('base/'):
            continue
        bad = []
        for i, n in enumerate(f.nodes):
            k = n['k']
            if k == 'bin' and n['op'] in ('<', '>', '<=', '>=', '<=>') and any(isptr(nty(f, x)) and 'char' not in nty(f, x) for x in (n['a'], n['b'])):
                if f.name != q('Expr::operator<'):
                    bad.append('addresses compared at line %s' % n.get('l'))
            elif k == 'bin' and n['op'] in ('-', '%', '&', '|', '^', '>>') and any(isptr(nty(f, x)) and 'ethos' in nty(f, x) for x in (n['a'], n['b'])):
                bad.append('arithmetic on addresses at line %s' % n.get('l'))
            elif k == 'cast' and SCALAR.match(n.get('ty', '')) and n['ty'].replace('const ', '') != 'bool' and isptr(nty(f, n['a'])):
                bad.append('address as a number at line %s' % n.get('l'))
            elif k == 'call':
                nm = n.get('n', '')
                if nm == q('Expr::operator<') or (nm.startswith('std::less') or nm.startswith('std::hash')) and any(isptr(nty(f, x)) for x in n['a']):
                    bad.append('%s at line %s' % (nm, n.get('l')))
                if nm.endswith('operator<<') and 'basic_ostream' in nm and any(isptr(nty(f, x)) and 'char' not in nty(f, x) and '(' not in nty(f, x) for x in n['a']):
                    bad.append('address printed at line %s' % n.get('l'))
                if nm in ('std::sort', 'std::stable_sort', 'std::min', 'std::max', 'std::min_element', 'std::max_element', 'std::lexicographical_compare', 'std::partial_sort', 'std::nth_element') \
                        and len(n['a']) == 2 and any('ExprValue *' in nty(f, x) or 'ethos::Expr' in nty(f, x) for x in n['a']):
                    bad.append('%s by address at line %s' % (nm, n.get('l')))
        own = names_of(p, f)
        if bad and all(o.startswith((q('Stats::'), q('RuleStat::'))) for o in own):
            bad = []
        c.ob('no-address-order', not bad, f, 'addresses in ' + f.name, detail='; '.join(bad))


ADDR = re.compile(r'^(const )?std::(unordered_|)(multi|)(set|map)<(const )?(ethos::ExprValue|ethos::Expr|ethos::\w+ \*|std::pair<(const )?ethos::ExprValue|std::pair<[^,]*, (const )?ethos::ExprValue|\w+ \*)')


def orders(c):
    p = c.prog
    sm = summaries(p)
    for f in p.funcs.values():
        if not f.blocks:
            continue
        sites = []
        for i, n in enumerate(f.nodes):
            if n['k'] == 'call' and 'obj' in n and n.get('n', '').split('::')[-1] in ('begin', 'cbegin', 'rbegin', 'crbegin', 'end', 'lower_bound', 'upper_bound', 'cend'):
                t = nty(f, n['obj'])
                if ADDR.match(t) or t.startswith(('std::unordered', 'const std::unordered')):
                    if n['n'].split('::')[-1] in ('end', 'cend'):
                        continue    # compared with the result of find
                    sites.append((i, n))
        for i, n in sites:
            own = names_of(p, f)
            if own <= PRINTS or all(o.startswith((q('Stats::'), q('RuleStat::'))) for o in own):
                c.ob('order-insensitive', True, f, 'printed in ' + f.name)
                continue
            if any(m['k'] == 'call' and m.get('n') in ('std::all_of', 'std::any_of', 'std::none_of', 'std::count_if', 'std::count') and i in f.subnodes(j) for j, m in enumerate(f.nodes)):
                c.ob('order-insensitive', True, f, 'order in ' + f.name)
                continue
            heads = [(h, body) for h, body in f.loopinfo().items() if loop_over(f, h, body, n)]
            if len(heads) != 1:
                c.ob('order-insensitive', False, '%s:%s (%s)' % (f.file, n.get('l'), f.name), 'order in ' + f.name, detail='visits a container ordered by address outside of a loop over it')
                continue
            bad = body_order(c, f, heads[0][0], heads[0][1], sm)
            c.ob('order-insensitive', not bad, '%s:%s (%s)' % (f.file, n.get('l'), f.name), 'order in ' + f.name, detail='; '.join(bad[:4]))


def vty(f, v):
    for b, e in f.elements():
        if isinstance(e, dict) and e['k'] == 'decl':
            for x in e['vars']:
                if x['n'] == v:
                    return x.get('ty', '')
    return ''


def loop_over(f, h, body, n):
    """does the loop with head h advance the iterator that n starts"""
    t = f.blocks[h].get('t') or {}
    for v in ('__begin', ''):
        for b, e in f.elements():
            if isinstance(e, dict) and e['k'] == 'decl':
                for x in e['vars']:
                    if x.get('init') is not None and any(f.nodes[j] is n for j in f.subnodes(x['init'])):
                        # is this variable advanced in the body and not outside of it
                        inc = [bb for bb, ee in f.elements() if isinstance(ee, int) and f.nodes[ee]['k'] in ('call', 'un') and f.nodes[ee].get('op') == '++' and
                               any(f.nodes[j]['k'] == 'var' and f.nodes[j]['n'] == x['n'] for j in f.subnodes(ee))]
                        inner = [hh for hh, bd in f.loopinfo().items() if inc and all(bb in bd for bb in inc)]
                        if h in inner and all(len(f.loopinfo()[hh]) >= len(body) for hh in inner):
                            return True
    return False


def body_order(c, f, head, body, sm):
    bad, loc = [], set()
    for b in body:
        for e in f.blocks[b]['el']:
            if isinstance(e, dict) and e['k'] == 'decl':
                loc |= {v['n'] for v in e['vars']}
    its = {v for v in loc if v.startswith('__')}
    elems = {v['n'] for b in body for e in f.blocks[b]['el'] if isinstance(e, dict) and e['k'] == 'decl' for v in e['vars']
             if v.get('init') is not None and any(f.nodes[j]['k'] == 'var' and f.nodes[j]['n'].startswith('__begin') for j in f.subnodes(v['init']))}
    def named(j):
        return {f.nodes[x].get('n') for x in f.subnodes(j) if f.nodes[x]['k'] == 'var'}
    more = True
    while more:
        # copies of an element or of its key
        new = {v['n'] for b in body for e in f.blocks[b]['el'] if isinstance(e, dict) and e['k'] == 'decl' for v in e['vars']
               if v.get('init') is not None and named(v['init']) and named(v['init']) <= elems
               and not any(f.nodes[x]['k'] == 'call' and not f.nodes[x].get('n', '').startswith(q('Expr::getValue')) for x in f.subnodes(v['init']))}
        more = not new <= elems
        elems |= new

    def own(j):
        """the entry of a map that has the key of the element"""
        n = f.nodes[j]
        while n['k'] == 'cast' and isinstance(n.get('a'), int):
            n = f.nodes[n['a']]
        return n['k'] == 'call' and re.match(r'std::(unordered_)?map::(operator\[\]|at)$', n.get('n', '')) and n.get('a') and named(n['a'][-1]) and named(n['a'][-1]) <= elems
    # blocks entered only from the body (the code before a break or return)
    tail, w = set(), [s for b in body for s in f.succs(b) if s not in body]
    rpo = f.rpo()
    preds = f.preds()
    region = set(body)
    pd = ipdom(f)[head]
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b not in region and b != f.exit and b not in pd and preds[b] and all(x in region for x in preds[b] if x in rpo) and not any(x in f.loopinfo() and b not in body and x in body and f.blocks[x].get('t', {}).get('k') in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt') for x in preds[b]):
                region.add(b)
                changed = True
    for b in region:
        for e in f.blocks[b]['el']:
            if isinstance(e, dict):
                if e['k'] == 'ret':
                    v = e.get('v', e.get('e'))
                    if isinstance(v, int) and not any(f.nodes[j]['k'] in ('bool', 'int', 'null') for j in f.subnodes(v)) and not any(f.nodes[j]['k'] == 'mem' for j in f.subnodes(v)):
                        bad.append('result depends on the element')
                continue
            n = f.nodes[e]
            if n.get('m'):
                continue
            vs, fs = sm.effects(f, [e])
            vs -= loc
            if n['k'] in ('call', 'ctor') and n.get('n') in PERKEY:
                continue
            if n['k'] in ('call', 'ctor') and 'f' in n and n['f'] in c.prog.funcs:
                fs |= sm.mods.get(n['f'], set())
            if n['k'] == 'call' and (n.get('nr') or n.get('f') in sm.noret):
                continue
            if n['k'] == 'call' and re.match(r'std::(unordered_)?(map|set)::(insert|emplace)$', n.get('n', '')) and len(n.get('a', ())) == 1:
                el = {f.nodes[j].get('n') for j in f.subnodes(n['a'][0]) if f.nodes[j]['k'] == 'var'}
                if 'set::' in n['n'] or el and el <= elems:
                    continue    # a set, or entries with the keys of the container that is visited
            if n['k'] == 'call' and own(e) or (n['k'] == 'call' and n.get('op') == '=' and n.get('n') == q('Expr::operator=') and own(n['obj'] if 'obj' in n else n['a'][0])) or n['k'] == 'assign' and own(n['a']):
                continue    # the entry with the key of the element
            if n['k'] == 'assign' and f.nodes[n['b']]['k'] in ('bool', 'int', 'enum') and n['op'] == '=':
                continue        # a flag
            if n['k'] == 'assign' and n['op'] in ('+=', '|=', '&=') or n['k'] == 'un' and n['op'] in ('++', '--'):
                if not (n['k'] == 'assign' and 'string' in nty(f, n['a'])):
                    continue    # commutative
            vs = {v for v in vs if not v.startswith('__') and 'terator' not in vty(f, v)}
            if n['k'] == 'assign' and f.nodes[n['a']]['k'] == 'var' and n['op'] == '=':
                # the loop ends when the flag is set
                vs -= {f.nodes[j].get('n') for b2 in body for j in f.subnodes((f.blocks[b2].get('t') or {}).get('c', -1))}
            fs = {x for x in fs if x not in ORDER_NEUTRAL and not x.startswith('std::')}
            if vs or fs:
                bad.append('line %s: %s modifies %s' % (n.get('l'), n.get('n', n['k']), ', '.join(sorted(vs | fs)[:4])))
    return bad


ORDER_NEUTRAL = {q('Expr::d_value'), q('ExprValue::d_rc'), q('ExprValue::d_flags')}


def fields(c):
    p = c.prog
    for rn, r in p.records.items():
        if 'union' in rn or rn.startswith('std::') or not r.get('fields'):
            continue
        fl = [x['n'] for x in r['fields'] if (SCALAR.match(x['ty']) or isptr(x['ty'])) and not x.get('static') and 'init' not in x]
        if not fl:
            continue
        for f in p.funcs.values():
            if f.cls != rn or f.short != rn.split('::')[-1] or not f.blocks or f.name.startswith('std'):
                continue
            if len(f.params) == 1 and rn in f.params[0].get('ty', ''):
                continue        # copies
            done = assigned(p, f, fl)
            deleg = any(isinstance(e, dict) and e['k'] == 'initm' and e.get('n') in (None, '', rn) for b, e in f.elements())
            for x in fl:
                if x in SET_LATER and x not in done:
                    g = p.fn1(SET_LATER[x])
                    c.ob('assigned-fields', x in assigned(p, g, fl), g, '%s in %s' % (x.split('::')[-1], g.name), detail='not assigned on every path')
                    continue
                c.ob('assigned-fields', x in done or deleg, f, '%s in %s' % (x.split('::')[-1], f.name), detail='not assigned on every path')
            c.touch(f.name)


# members written by the operation that makes them readable
SET_LATER = {q('Lexer::d_istream'): 'Lexer::initialize', q('Lexer::d_ch'): 'Lexer::readNextChar'}


def assigned(p, f, names, depth=0):
    """members assigned on every path through f"""
    if depth > 3:
        return set()
    rpo = f.rpo()
    full = set(names)
    gen = {}
    for b in rpo:
        g = set()
        for e in f.blocks[b]['el']:
            if isinstance(e, dict):
                if e['k'] == 'initm' and e.get('n') in full:
                    g.add(e['n'])
                continue
            n = f.nodes[e]
            if n['k'] == 'assign':
                x = f.nodes[n['a']]
                if x['k'] == 'mem' and x['n'] in full and f.nodes[x['b']]['k'] == 'this':
                    g.add(x['n'])
            elif n['k'] == 'call' and 'f' in n and n['f'] in p.funcs and 'obj' in n and f.nodes[n['obj']]['k'] == 'this' and p.funcs[n['f']].blocks:
                g |= assigned(p, p.funcs[n['f']], names, depth + 1)
        gen[b] = g
    out = {b: None for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in sorted(rpo, key=lambda x: rpo[x]):
            ins = [out[x] for x in f.preds()[b] if x in rpo and out[x] is not None]
            i = set.intersection(*ins) if ins else set()
            if b == f.entry:
                i = set()
            n = i | gen[b]
            if out[b] is None or n != out[b]:
                out[b] = n
                ch = True
    return out.get(f.exit) or set()


def local(c):
    p = c.prog
    for f in p.funcs.values():
        if not f.blocks:
            continue
        vs = {}
        for b, e in f.elements():
            if isinstance(e, dict) and e['k'] == 'decl':
                for v in e['vars']:
                    if v.get('init') is None and (SCALAR.match(v['ty']) or isptr(v['ty'])) and not v.get('static'):
                        vs[v['n']] = v
        for v in vs:
            w = unassigned(p, f, v)
            c.ob('assigned-locals', not w, '%s:%s (%s)' % (f.file, w[0] if w else f.line, f.name), '%s in %s' % (v.split('@')[0], f.name), detail='read at line %s where it may not have been assigned' % (w[0] if w else ''))


def unassigned(p, f, v):
    """lines where v may be read unassigned"""
    rpo = f.rpo()
    pm = parents(f)
    uses = {}
    for b in rpo:
        seq = []
        done = set()
        t = f.blocks[b].get('t') or {}
        for e in list(f.blocks[b]['el']) + ([t['c']] if isinstance(t.get('c'), int) else []):
            if isinstance(e, dict):
                if e['k'] == 'decl' and any(x['n'] == v for x in e['vars']):
                    seq.append(('kill', 0))
                    continue
                roots = [x for x in (e.get('v'), e.get('e')) if isinstance(x, int)]
            else:
                roots = [e]
            for r in roots:
                for j in sorted(f.subnodes(r), reverse=False):
                    if j in done:
                        continue
                    n = f.nodes[j]
                    if n['k'] != 'var' or n['n'] != v:
                        continue
                    done.add(j)
                    u = f.nodes[pm[j]] if j in pm else None
                    ui = pm.get(j)
                    if u is None:
                        seq.append(('use', n.get('l')))
                    elif u['k'] == 'assign' and u['a'] == j and u['op'] == '=':
                        seq.append(('def', ui))
                    elif u['k'] == 'un' and u['op'] == '&':
                        seq.append(('def', ui))
                    elif u['k'] in ('call', 'ctor') and j in u.get('a', []) and u['a'].index(j) in mutable(p, u):
                        seq.append(('def', ui))
                    else:
                        seq.append(('use', n.get('l')))
        uses[b] = seq
    out = {b: None for b in rpo}
    bad = []
    for final in (False, True):
        ch = True
        while ch:
            ch = False
            for b in sorted(rpo, key=lambda x: rpo[x]):
                ins = [out[x] for x in f.preds()[b] if x in rpo and out[x] is not None]
                st = all(ins) if ins else True
                if b == f.entry:
                    st = True
                for k, x in uses[b]:
                    if k == 'kill':
                        st = False
                    elif k == 'def':
                        st = True
                    elif final and not st:
                        bad.append(x)
                if any(isinstance(e, int) and f.nodes[e]['k'] in ('call', 'ctor') and summaries(p)._node_noret(f.nodes[e]) for e in f.blocks[b]['el']):
                    st = True       # never continues
                if out[b] is None or st != out[b]:
                    out[b] = st
                    ch = True
            if final:
                break
    return bad


def mutable(p, n):
    return summaries(p).mutrefs(n)


def hashes(c):
    r = c.analyze('State::getHash', keep=lambda e: True)
    m0, n0 = pre(r, HMAP), pre(r, HCNT)
    e = mk('p', 0, r.f.params[0]['name'])
    keep = None
    for t, s in r.exits:
        known_ = [x for x, v in s.facts.items() if x.op == 'has' and x.a[0] is m0 and x.a[1] is e]
        n1 = post(r, s, HCNT)
        m1 = post(r, s, HMAP)
        if n1 is n0:
            c.ob('hash-stable', m1 is m0 and any(s.truth(x) is True for x in known_) and lookup(t, m0, e), r.f, 'a numbered term keeps its number', detail=str(t), st=s)
        else:
            ok = ladd(linear(n1), linear(n0), -1) == {None: 1} and t is n1 and m1.op == 'set' and m1.a[0] is m0 and m1.a[1] is e and m1.a[2] is n1
            c.ob('hash-stable', ok and any(s.truth(x) is False for x in known_), r.f, 'a new term gets the next number', detail=str((t, n1, m1)), st=s)
            kept = [x for x in r.events if x.st is s]
    only_writers(c, 'hash-stable', HMAP, ['State::getHash', 'State::markDeleted'])
    only_writers(c, 'hash-stable', HCNT, ['State::getHash'])
    # the term is stored in a container of expressions that is never shrunk
    p = c.prog
    sm = summaries(p)
    g = p.fn1('State::getHash')
    holders = []
    for x in p.record('State')['fields']:
        if 'ethos::Expr' in x['ty'] and 'ExprValue' not in x['ty'] and x['n'] in sm.mods.get(g.id, ()):
            if x['n'] not in (q(HMAP),):
                holders.append(x['n'])
    good = []
    for h in holders:
        own = set()
        for w in writers(p, h):
            if not (w.cls and w.short == w.cls.split('::')[-1]):
                own |= names_of(p, w)
        grows = all(post(r, s, h).op == 'push' for t, s in r.exits if post(r, s, HCNT) is not n0)
        if own <= {q('State::getHash')} and grows:
            good.append(h)
    c.ob('hash-stable', bool(good), g, 'a numbered term is kept alive', detail='no container of expressions written only here gets the term; candidates %s' % holders)


def lookup(t, m, e):
    return any(x is e for x in subterms(t)) or t.op in ('f', 'idx', 'get', 'fld')
