"""Diagnostics observe only: tracing, assertions, statistics, explanations."""
import collections
from common import *
from absint import summaries, ACCESS

# evaluated for diagnostics only
DIAG = {'Trace', 'Assert', 'AlwaysAssert', 'TraceIsOn', 'Unreachable', 'Warning', 'EO_FATAL', 'Unimplemented'}
# what differs between the builds
GONE = {'Trace', 'Assert', 'AlwaysAssert', 'TraceIsOn', 'Unreachable', 'EO_FATAL_IF'}
# reference counts and collection have no observable effect (C19); cached flags and types are functions of the term (C07)
CUT = ('ExprValue::dec', 'ExprValue::inc', 'TypeChecker::getType')
NEUTRAL = {q('TraceC::d_tags'), q('Expr::d_value'), q('ExprValue::d_flags'), 'std::pair::second', q('Ethosostream::d_firstColumn'), q('Ethosostream::d_os')}
COUNTERS = {q('RuleStat::' + x) for x in ('d_count', 'd_mkExprCount', 'd_time', 'd_startTime', 'd_startMkExprCount')} | \
           {q('Stats::' + x) for x in ('d_mkExprCount', 'd_exprCount', 'd_deleteExprCount', 'd_symCount', 'd_litCount', 'd_startTime', 'd_pstats')} | \
           {q('CmdParser::d_sts'), q('TypeChecker::d_sts'), q('State::d_stats')}
SOPTS = {q('Options::d_stats'), q('Options::d_statsAll'), q('Options::d_statsCompact'), q('CmdParser::d_statsEnabled'), q('TypeChecker::d_statsEnabled')}


class Eff:
    def __init__(self, prog):
        self.p, self.sm = prog, summaries(prog)
        self.cut = {f.id for n in CUT for f in prog.fn(n)}
        self.memo = {}

    def trans(self, fid):
        if fid not in self.memo:
            out, seen, w = set(), set(), [fid]
            while w:
                x = w.pop()
                if x in seen or x in self.cut:
                    continue
                seen.add(x)
                out |= self.sm.dmods.get(x, set())
                w += list(self.p.callgraph().get(x, ()))
            self.memo[fid] = out
        return self.memo[fid]

    def of(self, f, i):
        """(locals, members) modified by evaluating node i (not its operands)"""
        vs, fs = self.sm.effects(f, [i])
        n = f.nodes[i]
        fs = set(fs)
        if n['k'] in ('call', 'ctor') and 'f' in n:
            for t in [n['f']] + (self.p.overriders.get(n['f'], []) if n.get('virt') else []):
                if t in self.p.funcs:
                    fs |= self.trans(t)
        return vs, fs


def run(c):
    c.rule('diagnostic-pure', 'what is evaluated for a trace message, an assertion, a warning or an error message changes nothing else', 50)
    c.rule('same-code', 'apart from traces and assertions, the builds with and without them have the same code', 300)
    c.rule('guard-pure', 'code that runs only if statistics, traces or an explanation are wanted changes nothing but these', 20)
    c.rule('stats-unread', 'the values of statistics are used only to print statistics', 8)
    c.rule('explanation-optional', 'an explanation is written only where one is wanted', 15)
    pure(c)
    same(c)
    optional(c)
    guarded(c, c.prog)
    guarded(c, c.dbg)
    unread(c)


def ty(f, v):
    for p in f.params:
        if p['n'] == v:
            return p.get('ty', '')
    for b, e in f.elements():
        if isinstance(e, dict) and e['k'] == 'decl':
            for x in e['vars']:
                if x['n'] == v:
                    return x.get('ty', '')
    return ''


def diag_nodes(f, macros):
    s = set()
    for i, n in enumerate(f.nodes):
        if n.get('m') in macros:
            s |= set(f.subnodes(i))
        if n['k'] == 'cond' and any(f.nodes[j].get('m') in macros for j in f.subnodes(n['c'])):
            s |= set(f.subnodes(i)) | {i}
    return s


def pure(c):
    p = c.dbg
    eff = Eff(p)
    for f in p.funcs.values():
        if not f.blocks or f.file.startswith('base/'):
            continue
        ns = diag_nodes(f, DIAG)
        if not ns:
            continue
        bad = []
        for i in ns:
            vs, fs = eff.of(f, i)
            vs = {v for v in vs if 'stream' not in ty(f, v)}
            if vs or fs - NEUTRAL:
                bad.append('line %s: %s modifies %s' % (f.nodes[i].get('l'), f.nodes[i].get('n', f.nodes[i]['k']), ', '.join(sorted(vs | (fs - NEUTRAL))[:6])))
        c.touch(f.name)
        c.ob('diagnostic-pure', not bad, f, 'diagnostics of ' + f.name, detail='; '.join(bad[:4]))


def sig(f):
    skip = diag_nodes(f, GONE)
    cnt = collections.Counter()
    for i, n in enumerate(f.nodes):
        if i not in skip and not n.get('n', '').startswith(('std::allocator', 'std::__new_allocator')):
            v = n.get('v') if n['k'] in ('int', 'bool', 'str', 'char') else None
            cnt[(n['k'], n.get('n'), n.get('op'), str(v))] += 1
    for b in f.blocks.values():
        for e in b['el']:
            if isinstance(e, dict) and e['k'] not in ('decl', 'dtor', 'life', 'scope'):
                if not any(isinstance(x, int) and x in skip for x in (e.get('e'), e.get('v'), e.get('a'))):
                    cnt[('stmt', e['k'], None, None)] += 1
        t = b.get('t')
        if t and t.get('m') not in GONE and t.get('c') not in skip:
            cnt[('branch', t['k'], t.get('op'), None)] += 1
    return cnt, skip


def same(c):
    d, r = c.dbg, c.prog
    eff = Eff(d)
    for fid in sorted(set(d.funcs) | set(r.funcs)):
        f, g = d.funcs.get(fid), r.funcs.get(fid)
        if f is None or g is None:
            h = f or g
            if h.file.startswith('base/') or not h.blocks:
                continue
            # declared for one build only: nobody else may rely on it having an effect
            pe = Eff(d if f else r)
            fs = pe.trans(h.id) - NEUTRAL
            c.ob('same-code', not fs, h, 'only in one build: ' + h.name, detail=str(sorted(fs)[:6]))
            continue
        if f.file.startswith('base/'):
            continue
        (a, skip), (b, _) = sig(f), sig(g)
        x, y = a - b, b - a
        if f.name == 'main':
            # the options for traces exist only where there are traces
            for cc in (x, y):
                for k in list(cc):
                    n = k[1] or ''
                    if 'TraceClass' in n or 'TraceChannel' in n or 'Fatal' in n or n.startswith(('std::operator<<', 'std::basic_ostream', 'std::endl')) or \
                            k[0] in ('str', 'int', 'cast', 'gvar', 'fref', 'ctor'):
                        del cc[k]
        ok, why = True, ''
        if y:
            ok, why = False, 'only without diagnostics: %s' % list(y.items())[:4]
        elif x:
            # additional code for assertions must be free of effects
            loc = set()
            for bl, e in f.elements():
                if isinstance(e, dict) and e['k'] == 'decl':
                    loc |= {v['n'] for v in e['vars']}
            for k in x:
                if k[0] == 'stmt' or k[0] == 'branch' and k[1] not in ('ForStmt', 'CXXForRangeStmt', 'WhileStmt'):
                    ok, why = False, 'statement only with diagnostics: %s' % (k,)
                for i, n in enumerate(f.nodes):
                    if i not in skip and (n['k'], n.get('n'), n.get('op')) == k[:3]:
                        vs, fs = eff.of(f, i)
                        if fs - NEUTRAL or vs - loc or (n['k'] == 'assign' and vs):
                            ok, why = False, 'effect only with diagnostics at line %s: %s' % (n.get('l'), sorted(vs | fs)[:5])
        c.touch(f.name)
        c.ob('same-code', ok, f, 'builds agree on ' + f.name, detail=why)


# ------------------------------------------------------------------ guarded regions
def ipdom(f):
    """post-dominators of every reachable block (ends of the program count as exits)"""
    rpo = f.rpo()
    blocks = list(rpo)
    full = set(blocks)
    pd = {b: (full if f.succs(b) else {b}) for b in blocks}
    ch = True
    while ch:
        ch = False
        for b in sorted(blocks, key=lambda x: -rpo[x]):
            ss = f.succs(b)
            if not ss:
                continue
            n = set.intersection(*(pd[s] for s in ss)) | {b}
            if n != pd[b]:
                pd[b] = n
                ch = True
    return pd


def guard_kind(f, nodes, alias):
    for j in nodes:
        n = f.nodes[j]
        if n['k'] == 'mem' and n['n'] in SOPTS:
            return 'statistics'
        if n.get('m') == 'TraceIsOn' or n['k'] == 'call' and n.get('n', '').endswith('TraceClass::isOn'):
            return 'trace'
        if n['k'] == 'var' and n['n'] in alias:
            return alias[n['n']]
        if n['k'] == 'un' and n['op'] == '*':
            return None
    return None


def guarded(c, p):
    eff = Eff(p)
    for f in p.funcs.values():
        if not f.blocks or f.file.startswith('base/') or f.cls in (q('Stats'), q('RuleStat'), q('Options')):
            continue
        alias = {}
        for q_ in f.params:
            t = q_.get('ty', '')
            if 'ostream' in t and t.rstrip().endswith('*'):
                alias[q_['n']] = 'explanation'
        for b, e in f.elements():
            if isinstance(e, dict) and e['k'] == 'decl':
                for v in e['vars']:
                    if v.get('init') is not None:
                        sub = f.subnodes(v['init'])
                        k = guard_kind(f, sub, alias)
                        if k == 'explanation' and any(f.nodes[j]['k'] == 'call' for j in sub):
                            # handed to a callee: the result is not the wish for an explanation
                            k = None
                        if k and v.get('ty', '').replace('const ', '') == 'bool':
                            alias[v['n']] = k
                        elif k == 'explanation' and 'ostream' in v.get('ty', '') and v['ty'].rstrip().endswith('*'):
                            alias[v['n']] = k
        pd = None
        for b in f.rpo():
            t = f.blocks[b].get('t')
            if not t or 'c' not in t or len(set(f.succs(b))) < 2 or t.get('m') in DIAG:
                continue
            sub = f.subnodes(t['c'])
            # the test itself, not one of its operands evaluated by another block
            k = guard_kind(f, sub, alias)
            if k is None or any(f.nodes[j]['k'] in ('call',) and not f.nodes[j].get('n', '').endswith('isOn') for j in sub) and k == 'explanation':
                continue
            pd = pd or ipdom(f)
            join = pd[b] - {b}
            region, w = set(), list(f.succs(b))
            while w:
                x = w.pop()
                if x in region or x in join:
                    continue
                region.add(x)
                w += f.succs(x)
            bad = region_effects(f, region, eff, k)
            c.touch(f.name)
            c.ob('guard-pure', not bad, '%s:%s (%s)' % (f.file, t.get('l'), f.name), '%s code in %s' % (k, f.name), detail='; '.join(bad[:4]))


def region_effects(f, region, eff, k):
    loc, bad, rets = set(), [], set()
    for x in region:
        for e in f.blocks[x]['el']:
            if isinstance(e, dict) and e['k'] == 'decl':
                loc |= {v['n'] for v in e['vars']}
    if f.exit in region:
        region = region - {f.exit}
    for x in region:
        for e in f.blocks[x]['el']:
            if isinstance(e, dict):
                if e['k'] == 'ret':
                    v = e.get('v', e.get('e'))
                    n = f.nodes[v] if isinstance(v, int) else None
                    while n and n['k'] == 'cast':
                        n = f.nodes[n['a']]
                    rets.add((n['k'], n.get('v'), n.get('n')) if n else None)
                continue
            n = f.nodes[e]
            vs, fs = eff.of(f, e)
            if n.get('m') in DIAG:
                continue
            vs = {v for v in vs - loc if 'stream' not in ty(f, v)}
            fs = fs - NEUTRAL - (COUNTERS if k == 'statistics' else set())
            if f.name == 'main':
                fs = {x for x in fs if not x.startswith('std::')}
            if vs or fs:
                bad.append('line %s: %s modifies %s' % (n.get('l'), n.get('n', n['k']), ', '.join(sorted(vs | fs)[:5])))
            if n.get('nr') and not n.get('n', '').endswith('exit') or n.get('f') in eff.sm.noret:
                bad.append('line %s: the program ends' % n.get('l'))
    if len(rets) > 1 or rets and None not in rets:
        bad.append('a result is returned')
    return bad


def unread(c):
    p = c.prog
    fields = {x for x in COUNTERS if x.split('::')[1] in ('Stats', 'RuleStat')} - {q('Stats::d_pstats')}
    n = 0
    for f in p.funcs.values():
        if f.cls in (q('Stats'), q('RuleStat')) or f.name.split('::')[-1] == 'operator()' and f.file == 'stats.cpp':
            continue
        own = names_of(p, f)
        if own and all(o.startswith((q('Stats::'), q('RuleStat::'))) for o in own):
            continue
        pm = None
        live = set()
        for b, e in f.elements():
            if isinstance(e, int):
                live |= set(f.subnodes(e))
        for i, x in enumerate(f.nodes):
            if x['k'] == 'mem' and x['n'] in fields:
                pm = pm or parents(f)
                u = pm.get(i)
                user = f.nodes[u] if u is not None else None
                ok = user is not None and (user['k'] == 'un' and user['op'] in ('++', '--') or user['k'] == 'assign' and user['a'] == i)
                if ok:
                    # ... as a statement of its own
                    w = pm.get(u)
                    ok = w is None or f.nodes[w]['k'] == 'assign' and f.nodes[w]['a'] == u
                n += 1
                c.ob('stats-unread', ok, '%s:%s (%s)' % (f.file, x.get('l'), f.name), '%s in %s' % (x['n'].split('::')[-1], f.name),
                     detail='its value is used')


def polarity(f, i, v):
    """True/False if node i being true says that pointer v is non-null/null, None if it says nothing"""
    n = f.nodes[i]
    if n['k'] == 'cast':
        return polarity(f, n['a'], v)
    if n['k'] == 'var':
        return True if n['n'] == v else None
    if n['k'] == 'un' and n['op'] == '!':
        x = polarity(f, n['a'], v)
        return None if x is None else not x
    if n['k'] == 'bin' and n['op'] in ('==', '!='):
        for a, b in ((n['a'], n['b']), (n['b'], n['a'])):
            while f.nodes[b]['k'] == 'cast':
                b = f.nodes[b]['a']
            if polarity(f, a, v) is True and f.nodes[b]['k'] in ('null', 'int', 'zero'):
                return n['op'] == '!='
    return None


def optional(c):
    p = c.prog
    for f in p.funcs.values():
        if not f.blocks:
            continue
        for a in f.params:
            t = a.get('ty', '')
            if 'ostream' not in t or not t.rstrip().endswith('*'):
                continue
            v = a['n']
            reach, w = set(), [f.entry]
            while w:
                b = w.pop()
                if b in reach:
                    continue
                reach.add(b)
                bl = f.blocks[b]
                pol = None
                if bl.get('t') and 'c' in bl['t'] and len(bl['s']) == 2:
                    pol = polarity(f, bl['t']['c'], v)
                for k, s in enumerate(bl['s']):
                    if s is None or pol is not None and pol is (k == 0):
                        continue
                    w.append(s)
            uses = bad = 0
            for b in f.rpo():
                for e in f.blocks[b]['el']:
                    if isinstance(e, int) and f.nodes[e]['k'] == 'un' and f.nodes[e]['op'] == '*' and polarity(f, f.nodes[e]['a'], v):
                        c.ob('explanation-optional', b not in reach, '%s:%s (%s)' % (f.file, f.nodes[e].get('l'), f.name), 'explanation in ' + f.name,
                             detail='written without a test that it is wanted')
