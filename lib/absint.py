"""Path-sensitive abstract interpretation over the extracted control flow graphs.

A forward dataflow analysis (property simulation): the abstract state is a value
numbering of the locals and fields, the set of branch facts that hold, and a set
of rule defined typestate tags.  States that agree on facts and tags are merged
at joins; loops are analysed with everything they modify forgotten at the head.
Nothing is executed and no solver is involved."""
import json, os, re
from facts import Broken, children, VERIF
from terms import *

BASELINE = None


def baseline():
    global BASELINE
    if BASELINE is None:
        with open(os.path.join(VERIF, 'baseline_functions.json')) as fh:
            BASELINE = set(json.load(fh))
    return BASELINE


PURE_MACROS = {'Trace', 'Warning', 'WarningOnce'}
ACCESS = {'operator[]', 'at', 'back', 'front', 'begin', 'end', 'find', 'rbegin', 'rend', 'data', 'operator->', 'operator*',
          'lower_bound', 'upper_bound', 'cbegin', 'cend', 'get', 'c_str', 'size', 'empty', 'count', 'contains', 'str'}


# library functions that do not change what their iterators point to
READALGO = {'find', 'find_if', 'find_if_not', 'count', 'count_if', 'all_of', 'any_of', 'none_of', 'equal', 'distance', 'next', 'prev', 'advance', 'search', 'mismatch', 'accumulate', 'lower_bound',
            'upper_bound', 'equal_range', 'binary_search', 'min_element', 'max_element', 'adjacent_find', 'lexicographical_compare', 'is_sorted', 'includes', 'make_pair', 'make_tuple', 'begin', 'end',
            'find_first_of', 'find_end', 'is_permutation', 'swap', 'move', 'forward', 'ref', 'cref', 'make_reverse_iterator', 'make_move_iterator', 'tie', 'get'}
CONSTITER = re.compile(r'const_iterator|__normal_iterator<const (ethos::\w+|std::[^*]*|unsigned \w+|\w+) \*, std|__normal_iterator<(\w|:)+ \*const \*')


def fid_mut(f, n):
    """does a call take a pointer through which it may write"""
    sig = n.get('f') or ''
    ps = sig[sig.find('(') + 1:sig.rfind(')')]
    return any('*' in x and not x.strip().startswith('const ') for x in ps.split(','))


def written_iters(f, n):
    """the arguments of a library algorithm that point into containers it may change"""
    name = n.get('n', '')
    if not name.startswith('std::') or 'obj' in n or n.get('op') or name.split('::')[-1] in READALGO:
        return []
    out = [j for j, a in enumerate(n.get('a', [])) if 'terator' in f.nodes[a].get('ty', '') and not (CONSTITER.search(f.nodes[a]['ty']) and 'reverse_iterator' not in f.nodes[a]['ty'])]
    if name.split('::')[-1] in ('copy', 'copy_if', 'copy_n', 'transform', 'set_difference', 'set_union', 'set_intersection', 'partial_sum', 'move', 'reverse_copy', 'remove_copy', 'unique_copy', 'merge'):
        # only the destination
        out = out[-1:]
    return out


class Opt:
    """tuning of an analysis"""

    def __init__(self, inline=(), opaque=(), watch=None, on=None, cap=600, keep=None, loophead=None, loopback=None, observe=(),
                 depth=8, stop=None, maxsteps=400000, keepopaque=None, pure=(), results=None, order=(), unroll=False, reads=(), wrap=False):
        self.wrap = wrap               # an object with a changed number is that number
        self.inline = set(inline)      # qualified names to inline
        self.opaque = set(opaque)      # never inline these
        self.watch = watch             # fn(Event) -> bool : record it
        self.on = on                   # fn(Event) -> iterable of tags to add ('-tag' tuples remove)
        self.cap = cap
        self.keep = keep               # fn(term) -> bool: facts to keep apart beyond the cap
        self.loopback = loopback       # fn(func, head, state) -> new ts at a back edge (loophead if none)
        self.loophead = loophead       # fn(func, head, state) -> new ts
        self.depth = depth
        self.maxsteps = maxsteps
        self.pure = set(pure)
        self.results = results or {}   # qualified name -> fn(args, obj, state) -> result term or None
        self.order = set(order)        # calls to these leave a tag with the name
        self.reads = set(reads)        # accesses to these members are events
        self.unroll = unroll           # follow loops with a constant condition instead of summarising them


class Event:
    __slots__ = ('kind', 'name', 'fid', 'obj', 'args', 'st', 'func', 'line', 'stack', 'ret', 'node', 'objpath', 'argpaths', 'cls')

    def __repr__(self):
        return '%s:%d %s(%s)' % (os.path.basename(self.func.file), self.line, self.name,
                                 ', '.join(map(show, self.args)))

    @property
    def short(self):
        return self.name.split('::')[-1]

    def where(self):
        return '%s:%d (%s)' % (self.func.file, self.line, self.func.name)

BOOLOPS = {'eq', 'lt', 'not', 'and', 'or', 'kp', 'has', 'ground', 'evaluatable'}


def clash(a, b):
    """no state can satisfy what a and what b say"""
    for h, v in a.facts.items():
        if b.facts.get(h, v) != v:
            return True
    for h, d in a.dom.items():
        e = b.dom.get(h)
        if e is not None:
            if d[0] == 'in' and not (d[1] & e[1] if e[0] == 'in' else d[1] - e[1]) or d[0] == 'ni' and e[0] == 'in' and not e[1] - d[1]:
                return True
    return False


class St:
    __slots__ = ('env', 'tmp', 'facts', 'dom', 'rng', 'ts', 'ep')

    def __init__(self):
        self.env, self.tmp, self.facts, self.dom, self.rng, self.ts, self.ep = {}, {}, {}, {}, {}, frozenset(), {}

    def copy(self):
        s = St.__new__(St)
        s.env, s.tmp, s.facts, s.dom, s.rng, s.ts, s.ep = (dict(self.env), dict(self.tmp), dict(self.facts), dict(self.dom),
                                                          dict(self.rng), self.ts, dict(self.ep))
        return s

    # -- knowledge
    def cval(self, t):
        """the constant t is known to be, or t"""
        d = self.dom.get(t)
        if d is not None and d[0] == 'in' and len(d[1]) == 1:
            return next(iter(d[1]))
        r = self.rng.get(t)
        if r is not None and r[0] == r[1] and r[0] is not None:
            return I(r[0])
        return t

    def interval(self, t):
        if t.op == 'i':
            return t.a[0], t.a[0]
        r = self.rng.get(t)
        lo, hi = r if r else (None, None)
        if lo is None and t.op in ('size', 'count', 'idxv'):
            lo = 0
        if t.op in ('plus', 'minus') and t.a[1].op == 'i':
            k = t.a[1].a[0] * (1 if t.op == 'plus' else -1)
            l2, h2 = self.interval(t.a[0])
            l2 = None if l2 is None else l2 + k
            h2 = None if h2 is None else h2 + k
            lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
            hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        if t.op == 'ite':
            a, b = self.interval(t.a[1]), self.interval(t.a[2])
            if None not in (a[0], b[0]) and lo is None:
                lo = min(a[0], b[0])
            if None not in (a[1], b[1]) and hi is None:
                hi = max(a[1], b[1])
        return lo, hi

    def truth(self, t):
        o = t.op
        if o == 'b':
            return t.a[0]
        if o == 'not':
            v = self.truth(t.a[0])
            return None if v is None else not v
        if o == 'and':
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if o == 'or':
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if o == 'ite':
            c = self.truth(t.a[0])
            if c is not None:
                return self.truth(t.a[1] if c else t.a[2])
            x, y = self.truth(t.a[1]), self.truth(t.a[2])
            return x if x is not None and x is y else None
        v = self.facts.get(t)
        if v is not None:
            return v
        if o == 'i':
            return t.a[0] != 0
        if o == 'null':
            return False
        if o in NONNULL:
            return True
        if o == 'eq':
            a, b = self.cval(t.a[0]), self.cval(t.a[1])
            if a is not t.a[0] or b is not t.a[1]:
                r = eq(a, b)
                if r.op == 'b':
                    return r.a[0]
                if r is not t:
                    v = self.facts.get(r)
                    if v is not None:
                        return v
            a, b = t.a
            if a.op == 'ite':
                x, y = self.truth(eq(a.a[1], b)), self.truth(eq(a.a[2], b))
                if x is not None and x is y:
                    return x
                c = self.truth(a.a[0])
                if c is not None:
                    return x if c else y
            if isconst(b):
                d = self.dom.get(a)
                if d is not None:
                    if d[0] == 'in' and b not in d[1]:
                        return False
                    if d[0] == 'ni' and b in d[1]:
                        return False
                if b.op == 'i':
                    lo, hi = self.interval(a)
                    if lo is not None and b.a[0] < lo or hi is not None and b.a[0] > hi:
                        return False
                    if lo is not None and lo == hi:
                        return lo == b.a[0]
            if not isconst(b) and (self.facts.get(mk('lt', a, b)) or self.facts.get(mk('lt', b, a))):
                return False
            return None
        if o == 'lt':
            if not isT(t.a[0]):
                return None
            l1, h1 = self.interval(t.a[0])
            l2, h2 = self.interval(t.a[1])
            if h1 is not None and l2 is not None and h1 < l2:
                return True
            if l1 is not None and h2 is not None and l1 >= h2:
                return False
            if not isconst(t.a[1]) and not isconst(t.a[0]) and self.facts.get(eq(*t.a)):
                return False
            return None
        if o == 'kp':
            d = self.dom.get(t.a[1])
            if t.a[1].op == 'e':
                return t.a[1] in t.a[0]
            if d is not None:
                if d[0] == 'in':
                    if d[1] <= t.a[0]:
                        return True
                    if not (d[1] & t.a[0]):
                        return False
                elif t.a[0] <= d[1]:
                    return False
            return None
        d = self.dom.get(t)
        if d is not None:
            if d[0] == 'ni' and NULL in d[1]:
                return True
            if d[0] == 'in' and d[1] == frozenset((NULL,)):
                return False
        return None

    def _dom(self, t, cs, val):
        d = self.dom.get(t)
        if val:
            if d is None:
                n = cs
            elif d[0] == 'in':
                n = d[1] & cs
            else:
                n = cs - d[1]
            if not n:
                return False
            self.dom[t] = ('in', n)
        else:
            if d is None:
                self.dom[t] = ('ni', cs)
            elif d[0] == 'in':
                n = d[1] - cs
                if not n:
                    return False
                self.dom[t] = ('in', n)
            else:
                self.dom[t] = ('ni', d[1] | cs)
        return True

    def _rng(self, t, lo, hi):
        l, h = self.rng.get(t, (None, None))
        if lo is not None:
            l = lo if l is None else max(l, lo)
        if hi is not None:
            h = hi if h is None else min(h, hi)
        if l is not None and h is not None and l > h:
            return False
        if t.op in ('size', 'count') and h is not None and h < 0:
            return False
        d = self.dom.get(t)
        if d is not None and d[0] == 'ni':
            ex = {c.a[0] for c in d[1] if c.op == 'i'}
            if l is None and t.op in ('size', 'count'):
                l = 0
            while l is not None and l in ex:
                l += 1
            while h is not None and h in ex:
                h -= 1
            if l is not None and h is not None and l > h:
                return False
        self.rng[t] = (l, h)
        if t.op in ('plus', 'minus') and t.a[1].op == 'i':
            k = t.a[1].a[0] * (1 if t.op == 'plus' else -1)
            return self._rng(t.a[0], None if l is None else l - k, None if h is None else h - k)
        return True

    def assume(self, t, val):
        """record that t is val; False if this is infeasible"""
        cur = self.truth(t)
        if cur is not None:
            return cur == val
        o = t.op
        if o == 'not':
            return self.assume(t.a[0], not val)
        if o == 'and':
            if val:
                return self.assume(t.a[0], True) and self.assume(t.a[1], True)
            if self.truth(t.a[0]):
                return self.assume(t.a[1], False)
            if self.truth(t.a[1]):
                return self.assume(t.a[0], False)
            self.facts[t] = False
            return True
        if o == 'or':
            if not val:
                return self.assume(t.a[0], False) and self.assume(t.a[1], False)
            if self.truth(t.a[0]) is False:
                return self.assume(t.a[1], True)
            if self.truth(t.a[1]) is False:
                return self.assume(t.a[0], True)
            self.facts[t] = True
            return True
        if o == 'ite':
            x, y = self.truth(t.a[1]), self.truth(t.a[2])
            if x is not None and x != val:
                return self.assume(t.a[0], False) and self.assume(t.a[2], val)
            if y is not None and y != val:
                return self.assume(t.a[0], True) and self.assume(t.a[1], val)
            self.facts[t] = val
            return True
        if o == 'eq' and t.a[0].op == 'ite' and isconst(t.a[1]):
            i = t.a[0]
            x, y = self.truth(eq(i.a[1], t.a[1])), self.truth(eq(i.a[2], t.a[1]))
            if x is not None and x != val:
                self.facts[t] = val
                return self.assume(i.a[0], False) and self.assume(eq(i.a[2], t.a[1]), val)
            if y is not None and y != val:
                self.facts[t] = val
                return self.assume(i.a[0], True) and self.assume(eq(i.a[1], t.a[1]), val)
        if o == 'eq' and isconst(t.a[1]):
            c = t.a[1]
            if not self._dom(t.a[0], frozenset((c,)), val):
                return False
            if c.op == 'i':
                if val:
                    return self._rng(t.a[0], c.a[0], c.a[0])
                lo, hi = self.interval(t.a[0])
                return self._rng(t.a[0], lo, hi)
            self.facts[t] = val
            return True
        if o == 'lt':
            a, b = t.a
            self.facts[t] = val
            if b.op == 'i':
                return self._rng(a, None if val else b.a[0], b.a[0] - 1 if val else None)
            if a.op == 'i':
                return self._rng(b, a.a[0] + 1 if val else None, None if val else a.a[0])
            return True
        if o == 'kp':
            self.facts[t] = val
            return self._dom(t.a[1], t.a[0], val)
        self.facts[t] = val
        # equalities between truth values
        for u, v in list(self.facts.items()):
            if u.op == 'eq' and (u.a[0] is t or u.a[1] is t) and not isconst(u.a[1]):
                w = u.a[1] if u.a[0] is t else u.a[0]
                if (w.op in BOOLOPS or o in BOOLOPS) and self.truth(w) is None and w not in self.facts:
                    if not self.assume(w, val if v else not val):
                        return False
        if o == 'eq' and not isconst(t.a[1]) and (t.a[0].op in BOOLOPS or t.a[1].op in BOOLOPS):
            for x, w in (t.a, t.a[::-1]):
                tv = self.truth(x)
                if tv is not None and self.truth(w) is None:
                    if not self.assume(w, tv if val else not tv):
                        return False
                    break
        if o not in ('eq', 'lt', 'r') or o == 'r':
            # truthiness of a pointer like value
            d = self.dom.get(t)
            if d is not None:
                return self._dom(t, frozenset((NULL,)), not val)
        return True

    def allfacts(self):
        r = [(show(k), v) for k, v in self.facts.items()]
        r += [(show(k), d[0] + ' {' + ','.join(sorted(map(show, d[1]))) + '}') for k, d in self.dom.items()]
        r += [(show(k), 'range %s..%s' % d) for k, d in self.rng.items()]
        return r


def is_prefix(p, q):
    """is path p a prefix of q (or equal)?"""
    while True:
        if q == p:
            return True
        if q[0] in ('S', 'I'):
            q = q[1]
        else:
            return False


class Summaries:
    """transitive effects of the functions of the program"""

    def __init__(self, prog):
        self.p = prog
        self.noret = set()
        self._compute_noret()
        self.dmods = {}
        self.dreads = {}
        self.pmods = {}
        self._compute_pmods()
        for f in prog.funcs.values():
            self.dmods[f.id], self.dreads[f.id] = self._direct(f)
        self.mods, self.reads = {}, {}
        self._trans()
        self.loopmods = {}

    def mutrefs(self, n):
        """indices of the arguments a call may modify"""
        if 'mutref' in n:
            if n['mutref'] and n.get('n', '').startswith('std::') and n['n'].split('::')[-1] in ('emplace', 'emplace_back', 'emplace_front', 'try_emplace', 'make_pair', 'make_tuple') \
                    and not self._takes_refs(n.get('ty', '')):
                return ()       # copied into the element
            return n['mutref']
        if n.get('n') == 'ethos::Plugin::notifyStep':
            return [6]      # documented: a plugin only provides the result
        if n.get('n') == 'ethos::Plugin::notifyAssume':
            return []
        g = self.p.funcs.get(n.get('f'))
        if g is None:
            return ()
        pot = [j for j, p in enumerate(g.params) if p.get('ref') and not p.get('cref')]
        if n.get('virt') or not g.blocks:
            return pot
        pm = self.pmods.get(g.id)
        return pot if pm is None else [j for j in pot if j in pm]

    def _takes_refs(self, ty):
        """may the constructors of the element type modify their arguments"""
        if not hasattr(self, '_refctors'):
            self._refctors = {f.cls for f in self.p.funcs.values() if f.cls and f.short == f.cls.split('::')[-1] and any(
                x.get('ref') and not x.get('cref') and x.get('ty', '').rstrip(' &') != f.cls for x in f.params)}
        return any(k in ty for k in self._refctors)

    def _compute_pmods(self):
        """which reference parameters a function may modify"""
        for f in self.p.funcs.values():
            self.pmods[f.id] = set()
        changed = True
        while changed:
            changed = False
            for f in self.p.funcs.values():
                if not f.blocks:
                    self.pmods[f.id] = set(range(len(f.params)))
                    continue
                vs, _ = self.effects(f, [e for b, e in f.elements() if isinstance(e, int)])
                new = {j for j, p in enumerate(f.params) if p['n'] in vs}
                if not new <= self.pmods[f.id]:
                    self.pmods[f.id] |= new
                    changed = True

    def _node_noret(self, n):
        return n.get('nr') or n.get('nrdtor') or n.get('f') in self.noret

    def _compute_noret(self):
        changed = True
        while changed:
            changed = False
            for f in self.p.funcs.values():
                if f.id in self.noret or not f.blocks or f.virtual:
                    continue
                seen, work, reach = {f.entry}, [f.entry], False
                while work:
                    b = work.pop()
                    bl = f.blocks[b]
                    if b == f.exit:
                        reach = True
                        break
                    if any(isinstance(e, int) and f.nodes[e]['k'] in ('call', 'ctor') and self._node_noret(f.nodes[e])
                           for e in bl['el']):
                        continue
                    for s in f.succs(b):
                        if s not in seen:
                            seen.add(s)
                            work.append(s)
                if not reach:
                    self.noret.add(f.id)
                    changed = True

    def roots(self, f, i, seen=None):
        """('field', name) / ('var', name) roots of the lvalue expression i"""
        out = set()
        seen = seen if seen is not None else set()
        if f.nodes[i]['k'] == 'var':
            self._inits(f)
            if (f.id, f.nodes[i]['n']) in self._nonref and not seen:
                # advancing an iterator does not modify the container
                return {('var', f.nodes[i]['n'])}
        while True:
            n = f.nodes[i]
            k = n['k']
            if k == 'mem':
                out.add(('field', n['n']))
                if n.get('arrow'):
                    return out
                i = n['b']
                continue
            if k == 'var' or k == 'gvar' or k == 'binding':
                if k == 'gvar':
                    out.add(('field', n['n']))
                else:
                    out.add(('var', n['n']))
                    if n['n'] not in seen:
                        seen.add(n['n'])
                        ini = self._inits(f).get(n['n'])
                        if ini is not None:
                            out |= self.roots(f, ini, seen)
                return out
            if k == 'idx':
                i = n['b']
                continue
            if k == 'call' and 'obj' in n and n.get('n', '').split('::')[-1] in ACCESS:
                i = n['obj']
                continue
            if k == 'call' and n.get('op') in ('*', '->', '[]') and n.get('a'):
                i = n.get('obj', n['a'][0])
                continue
            if k in ('un', 'cast'):
                i = n['a']
                continue
            if k == 'cond':
                return out | self.roots(f, n['a'], seen) | self.roots(f, n['b'], seen)
            if k == 'this':
                out.add(('this',))
            return out

    def iter_roots(self, f, i, seen=None):
        """the containers an iterator may point into"""
        seen = seen if seen is not None else set()
        n = f.nodes[i]
        if n['k'] == 'var':
            if n['n'] in seen:
                return set()
            seen.add(n['n'])
            self._inits(f)
            out = set()
            ini = self._ini.get(f.id, {}).get(n['n'])
            if ini is not None:
                out |= self.iter_roots(f, ini, seen)
            for m in f.nodes:
                if m['k'] == 'assign' and f.nodes[m['a']]['k'] == 'var' and f.nodes[m['a']]['n'] == n['n']:
                    out |= self.iter_roots(f, m['b'], seen)
                elif m['k'] == 'call' and m.get('op') == '=' and 'obj' in m and f.nodes[m['obj']]['k'] == 'var' and f.nodes[m['obj']]['n'] == n['n']:
                    out |= self.iter_roots(f, m['a'][0], seen)
            return out
        out = set()
        for j in f.subnodes(i):
            m = f.nodes[j]
            if m['k'] == 'call' and 'obj' in m and m.get('n', '').split('::')[-1] in ACCESS and 'terator' in m.get('ty', '') and 'terator' not in f.nodes[m['obj']].get('ty', ''):
                out |= self.roots(f, m['obj'])
            elif m['k'] == 'call' and 'obj' not in m and m.get('n', '').split('::')[-1] in ('begin', 'end', 'back_inserter', 'front_inserter', 'inserter', 'rbegin', 'rend') and m.get('a'):
                out |= self.roots(f, m['a'][0])
            elif j != i and m['k'] == 'var' and 'terator' in m.get('ty', ''):
                out |= self.iter_roots(f, j, seen)
        return out

    def _inits(self, f):
        """reference / iterator / pointer locals -> initialiser node"""
        c = getattr(self, '_ini', None)
        if c is None:
            c = self._ini = {}
            self._nonref = set()
        r = c.get(f.id)
        if r is None:
            r = {}
            for b, e in f.elements():
                if isinstance(e, dict) and e['k'] == 'decl':
                    for v in e['vars']:
                        t = v.get('ty', '')
                        if 'init' in v and v['init'] is not None and (t.endswith('&') or t.endswith('*') or 'terator' in t):
                            if not t.startswith('const '):
                                r[v['n']] = v['init']
                                if not t.endswith('&'):
                                    self._nonref.add((f.id, v['n']))
            c[f.id] = r
        return r

    def effects(self, f, nodes_elems):
        """(vars, fields) modified directly by the given elements"""
        vs, fs = set(), set()

        def add(rs):
            for r in rs:
                if r[0] == 'var':
                    vs.add(r[1])
                elif r[0] == 'field':
                    fs.add(r[1])
        for e in nodes_elems:
            if isinstance(e, dict):
                if e['k'] == 'decl':
                    for v in e['vars']:
                        vs.add(v['n'])
                continue
            n = f.nodes[e]
            k = n['k']
            if k == 'assign':
                add(self.roots(f, n['a']))
            elif k == 'un' and n['op'] in ('++', '--'):
                add(self.roots(f, n['a']))
            elif k == 'call':
                short = n.get('n', '').split('::')[-1]
                if 'obj' in n and not n.get('const') and 'f' in n:
                    if n['f'] in self.p.funcs:
                        pass  # fields are handled by the summary of the callee; struct locals below
                        if not n.get('arrow'):
                            add(x for x in self.roots(f, n['obj']) if x[0] == 'var')
                    elif short not in ACCESS or n.get('op') == '=':
                        add(self.roots(f, n['obj']))
                if n.get('op') in ('++', '--', '+=', '-=', '=') and 'obj' not in n and n.get('a'):
                    add(self.roots(f, n['a'][0]))
                for j in self.mutrefs(n):
                    if j < len(n.get('a', [])):
                        add(self.roots(f, n['a'][j]))
                for j in written_iters(f, n):
                    add(self.iter_roots(f, n['a'][j]))
            elif k == 'ctor':
                for j in self.mutrefs(n):
                    if j < len(n.get('a', [])):
                        add(self.roots(f, n['a'][j]))
            elif k == 'lambda':
                for c in n.get('caps', []):
                    vs.add(c if isinstance(c, str) else c.get('n', ''))
        return vs, fs

    def _direct(self, f):
        els = [e for b, e in f.elements()]
        vs, fs = self.effects(f, els)
        rd = {n['n'] for n in f.nodes if n['k'] == 'mem'}
        return fs, rd

    def _trans(self):
        cg = self.p.callgraph()
        for name, d, out in (('m', self.dmods, self.mods), ('r', self.dreads, self.reads)):
            cur = {k: set(v) for k, v in d.items()}
            changed = True
            while changed:
                changed = False
                for k, v in cur.items():
                    n0 = len(v)
                    for c in cg.get(k, ()):
                        if c in cur:
                            v |= cur[c]
                    if len(v) != n0:
                        changed = True
            out.update({k: frozenset(v) for k, v in cur.items()})

    def loop_mods(self, f, head):
        key = (f.id, head)
        if key not in self.loopmods:
            body = f.loopinfo()[head]
            els = [e for b in body for e in f.blocks[b]['el']]
            vs, fs = self.effects(f, els)
            for e in els:
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n['k'] in ('call', 'ctor') and 'f' in n:
                        for t in [n['f']] + (self.p.overriders.get(n['f'], []) if n.get('virt') else []):
                            fs |= self.mods.get(t, frozenset())
            self.loopmods[key] = (vs, fs)
        return self.loopmods[key]


class Result:
    def __init__(self):
        self.events = []       # watched events
        self.exits = []        # (ret term, state) of the root
        self.aborts = []       # events that end the program
        self.backs = []        # (func, head, state, ctx)
        self.loopexits = []
        self.loopvals = {}     # value at a loop head -> its values at the end of the body
        self.heads = set()     # values at loop heads
        self.loopentries = {}  # value at a loop head -> states in which the loop is entered with its first value
        self.loopstates = {}   # value at a loop head -> [(value, state)] at the end of the body
        self.unsure = set()    # loop head values for which some of these are unknown
        self.funcs = set()     # functions analysed
        self.capped = 0
        self.steps = 0


_summ = {}


def summaries(prog):
    s = _summ.get(id(prog))
    if s is None:
        s = _summ[id(prog)] = Summaries(prog)
    return s


class Interp:
    def __init__(self, prog, opt):
        self.p = prog
        self.o = opt
        self.s = summaries(prog)
        self.res = Result()
        self.base = baseline()
        self.stack = []      # (func, call site line)
        self.frames = {}     # ctx -> (func, parent ctx)
        self.mute = 0
        self.fillsize = {}
        self.fills = {}           # (loop, variable): a vector of a given size that the loop fills from the first element to the last -> what it held
        self.invs = frozenset()   # (loop, variable): the variable is known to keep its initial constant at the loop head
        self.copies = {}
        self.kp = kind_predicates(prog) if opt is not None and not getattr(opt, 'nokp', False) else {}

    # ---------------------------------------------------------------- paths
    def canon(self, path, st):
        """follow reference bindings"""
        for _ in range(20):
            v = st.env.get(path)
            if isinstance(v, tuple) and v and v[0] == 'REF':
                path = v[1]
                continue
            break
        if path[0] == 'D':
            t = path[1]
            if t.op == 'addr':
                return self.canon(t.a[0], st)
        if path[0] == 'F':
            t = path[1]
            if t.op == 'addr':
                return self.canon(('S', t.a[0], path[2]), st)
        if path[0] == 'S':
            q = self.canon(path[1], st)
            if q is not path[1]:
                path = ('S', q, path[2])
            if q[0] == 'D':
                path = self.canon(('F', q[1], path[2]), st)
        if path[0] == 'I':
            q = self.canon(path[1], st)
            if q is not path[1]:
                path = ('I', q, path[2])
        return path

    def load(self, path, st):
        path = self.canon(path, st)
        if self.o.wrap:
            for c in ('ethos::Integer', 'ethos::Rational'):
                v = st.env.get(('S', path, c + '::d_value'))
                if v is not None and isT(v):
                    return mk('new', c, (v,), ())
        v = st.env.get(path)
        if v is not None:
            return v
        k = path[0]
        if k == 'F':
            if path[2] == 'ethos::ExprValue::d_children':
                return mk('children', path[1])     # never modified after construction
            return mk('f', path[2], path[1], st.ep.get(path[2], 0))
        if k == 'S':
            b = st.env.get(path[1])
            if b is None and path[1][0] == 'I':
                b = self.load(path[1], st)
            if b is not None and isT(b) and b.op not in ('u',):
                return fld(path[2], b)
            return mk('f', path[2], path[1], st.ep.get(path[2], 0))
        if k == 'I':
            return index(self.load(path[1], st), path[2])
        if k == 'D':
            r = deref(path[1])
            return r if r is not None else mk('deref', path[1])
        if k == 'G':
            return mk('g', path[1], st.ep.get(path[1], 0))
        return mk('u', path)

    def store(self, path, v, st, site):
        path = self.canon(path, st)
        if not isT(v):
            v = self.load(v[1], st)
        if path[0] == 'I':
            old = self.load(path[1], st)
            # drop what was known of the element
            for q in [q for q in st.env if q is not path and q[0] in ('S', 'I') and is_prefix(path[1], q) and q != path[1]]:
                del st.env[q]
            if isT(old) and old.op == 'it' and old.a[:2] in self.fills:
                self.store(path[1], push(old, v), st, site)
                return
            self.store(path[1], mk('set', old, path[2], v), st, site)
            return
        for q in [q for q in st.env if q[0] in ('S', 'I') and q != path and is_prefix(path, q)]:
            del st.env[q]
        if path[0] == 'S' and path[2] == 'std::pair::second' and path[1][0] == 'L' and str(path[1][-1]).startswith('#d'):
            # through an iterator found in a map: the entry of the map
            b = st.env.get(path[1])
            if b is not None and b.op == 'entry':
                m = b.a[0]
                qs = [q for q, w in st.env.items() if w is m and q[0] in ('L', 'F', 'S') and not str(q[-1]).startswith('#')]
                if not qs and m.op == 'f':
                    qs = [x for x in [('F', m.a[1], m.a[0])] if self.load(x, st) is m]
                if len(qs) == 1:
                    self.store(('I', qs[0], b.a[1]), v, st, site)
                    new = st.env.get(self.canon(qs[0], st))
                    if isT(new):
                        for q, w in list(st.env.items()):
                            if isT(w) and w.op in ('find', 'entry') and w.a[0] is m:
                                st.env[q] = mk(w.op, new, w.a[1])
                    return
        if path[0] in ('F', 'S'):
            fldn = path[2]
            for q in [q for q in st.env if q[0] in ('F', 'S') and q[2] == fldn and q != path]:
                if path[0] == 'S' and path[1][0] == 'L' and not (q[0] == 'F'):
                    continue
                if q[0] == 'S' and q[1][0] == 'L':
                    continue
                del st.env[q]
            if not (path[0] == 'S' and path[1][0] == 'L'):
                st.ep[fldn] = site
            if path[0] == 'S':
                b = st.env.get(path[1])
                if b is not None and path[1][0] == 'L' and b.op not in ('u',):
                    # explode: keep the base symbolic, fields override
                    pass
        if path[0] == 'D':
            for q in [q for q in st.env if q[0] == 'D' and q != path]:
                del st.env[q]
        if path[0] == 'G':
            st.ep[path[1]] = site
        st.env[path] = v

    def havoc(self, path, st, val, site):
        self.store(path, val, st, site)

    # ---------------------------------------------------------------- values
    def node(self, f, i, ctx, st):
        """value or ('LV', path) of node i (evaluated earlier, or pure)"""
        v = st.tmp.get((ctx, i))
        if v is None:
            outs = self.eval(f, i, ctx, st)
            v = st.tmp.get((ctx, i))
            if v is None:
                v = mk('x', f.id, i)
        return v

    def rv(self, f, i, ctx, st):
        v = self.node(f, i, ctx, st)
        if isinstance(v, tuple):
            return self.load(v[1], st)
        return v

    def lv(self, f, i, ctx, st):
        """path of node i; rvalues get a temporary"""
        v = self.node(f, i, ctx, st)
        if isinstance(v, tuple):
            return v[1]
        p = ('L', ctx, '#%d' % i)
        st.env[p] = v
        return p

    def varpath(self, name, ctx):
        c = ctx
        while c is not None:
            fr = self.frames.get(c)
            if fr is None:
                break
            if name in fr[2]:
                return ('L', c, name)
            c = fr[1]
        # not found statically: search the dynamic frames (innermost first)
        for c in sorted(self.frames, key=lambda c: -len(c)):
            if name in self.frames[c][2]:
                return ('L', c, name)
        return ('L', ctx, name)

    def declared(self, f):
        r = getattr(f, '_cross', None)
        if r is None:
            r = {p['n'] for p in f.params}
            for b, e in f.elements():
                if isinstance(e, dict) and e['k'] == 'decl':
                    r.update(v['n'] for v in e['vars'])
            for n in f.nodes:
                pass
            f._cross = r
        return r

    # ---------------------------------------------------------------- evaluation of one element
    def eval(self, f, i, ctx, st):
        """evaluates node i; returns the list of resulting states (usually [st])"""
        n = f.nodes[i]
        k = n['k']
        T = st.tmp
        key = (ctx, i)
        if 'cv' in n and k not in ('call', 'ctor', 'assign'):
            cv = n['cv']
            if isinstance(cv, bool):
                T[key] = B(cv)
                return [st]
            if isinstance(cv, int) and k not in ('enum',):
                ty = n.get('ty', '')
                T[key] = B(bool(cv)) if ty == 'bool' else I(cv)
                return [st]
        if k == 'int':
            T[key] = I(n['v'])
        elif k == 'bool':
            T[key] = B(n['v'])
        elif k == 'str':
            T[key] = S(n['v'])
        elif k == 'float':
            T[key] = mk('fl', n.get('v'))
        elif k == 'null':
            T[key] = NULL
        elif k == 'enum':
            T[key] = E(n['n'].split('::')[-1], n.get('ty', '').split('::')[-1])
        elif k == 'zero':
            T[key] = I(0)
        elif k == 'this':
            T[key] = self.thisval(ctx)
        elif k == 'fref':
            T[key] = mk('fn', n['f'])
        elif k == 'var':
            T[key] = ('LV', self.varpath(n['n'], ctx))
        elif k == 'gvar':
            g = self.p.globals.get(n['n'])
            T[key] = ('LV', ('G', n['n']))
        elif k == 'binding' and 'base' in n:
            # a part of a pair
            T[key] = ('LV', self.canon(('S', self.varpath(n['base'], ctx), 'std::pair::' + ('first', 'second')[n['ix']]), st))
        elif k == 'binding':
            of = n.get('of')
            T[key] = ('LV', self.varpath(n['n'], ctx)) if of is None else mk('bind', n['n'], self.rv(f, of, ctx, st))
        elif k == 'mem':
            if n.get('arrow'):
                b = self.rv(f, n['b'], ctx, st)
                if b is not THIS:
                    self.emit('deref', '->', None, b, [], f, n, ctx, st, VOID)
                T[key] = ('LV', self.canon(('F', b, n['n']), st))
            else:
                b = self.node(f, n['b'], ctx, st)
                if isinstance(b, tuple):
                    T[key] = ('LV', self.canon(('S', b[1], n['n']), st))
                elif b.op == 'entry' or True:
                    T[key] = fld(n['n'], b)
            if self.o.reads and n['n'] in self.o.reads:
                v = T[key]
                self.emit('read', n['n'], None, None if isinstance(v, tuple) else b, [], f, n, ctx, st, VOID, objpath=v[1] if isinstance(v, tuple) else None)
        elif k == 'mfref':
            T[key] = mk('fn', n['f'])
        elif k == 'idx':
            b = self.node(f, n['b'], ctx, st)
            ix = self.rv(f, n['i'], ctx, st)
            ix = st.cval(ix)
            T[key] = ('LV', ('I', b[1], ix)) if isinstance(b, tuple) else index(b, ix)
        elif k == 'un':
            return self.unary(f, n, key, ctx, st)
        elif k == 'bin':
            T[key] = self.binary(n['op'], f, n, ctx, st)
        elif k == 'assign':
            p = self.lv(f, n['a'], ctx, st)
            v = self.rv(f, n['b'], ctx, st)
            op = n.get('op', '=')
            if op != '=':
                old = self.load(p, st)
                v = self.arith(op[:-1], old, v, n.get('ty', ''))
            self.event_write(f, n, p, v, ctx, st)
            self.store(p, v, st, self.site(f, i, ctx))
            T[key] = ('LV', p)
        elif k == 'cond':
            c = self.rv(f, n['c'], ctx, st)
            tv = st.truth(c)
            if tv is None:
                a = T.get((ctx, n['a']))
                b = T.get((ctx, n['b']))
                if a is not None and b is None:
                    tv = True
                elif b is not None and a is None:
                    tv = False
            if tv is not None:
                T[key] = self.node(f, n['a'] if tv else n['b'], ctx, st)
            else:
                T[key] = mk('ite', c, self.rv(f, n['a'], ctx, st), self.rv(f, n['b'], ctx, st))
        elif k == 'cast':
            T[key] = self.node(f, n['a'], ctx, st)
            if n.get('rv') and isinstance(T[key], tuple):
                T[key] = self.load(T[key][1], st)     # a copy
        elif k == 'init':
            T[key] = mk('list', tuple(self.rv(f, x, ctx, st) for x in n['a']))
        elif k == 'lambda':
            T[key] = mk('lambda', n['f'], ctx)
        elif k == 'new':
            c = self.rv(f, n['c'], ctx, st) if n.get('c') is not None else mk('raw', n.get('ty', ''))
            T[key] = c if c.op == 'new' else mk('new', n.get('ty', ''), (c,), self.site(f, i, ctx))
        elif k == 'delete':
            b = self.rv(f, n['b'], ctx, st)
            self.emit('delete', 'delete', None, None, [b], f, n, ctx, st, VOID)
            T[key] = VOID
        elif k == 'ctor':
            return self.ctor(f, i, n, key, ctx, st)
        elif k == 'call':
            return self.call(f, i, n, key, ctx, st)
        else:
            T[key] = mk('x', f.id, i, self.site(f, i, ctx))
        return [st]

    def site(self, f, i, ctx):
        return (ctx, f.id, i)

    def thisval(self, ctx):
        c = ctx
        while c is not None:
            fr = self.frames[c]
            if fr[3] is not None:
                return fr[3]
            c = fr[1]
        return THIS

    def unary(self, f, n, key, ctx, st):
        op = n['op']
        T = st.tmp
        if op in ('++', '--'):
            p = self.lv(f, n['a'], ctx, st)
            old = self.load(p, st)
            new = self.arith(op[0], old, I(1), '')
            self.event_write(f, n, p, new, ctx, st)
            self.store(p, new, st, self.site(f, key[1], ctx))
            T[key] = old if n.get('post') else ('LV', p)
            return [st]
        if op == '*':
            b = self.rv(f, n['a'], ctx, st)
            if b.op == 'addr':
                T[key] = ('LV', self.canon(b.a[0], st))
            else:
                T[key] = ('LV', ('D', b))
            return [st]
        if op == '&':
            b = self.node(f, n['a'], ctx, st)
            if isinstance(b, tuple):
                p = self.canon(b[1], st)
                T[key] = p[1] if p[0] == 'D' else mk('addr', p)
            else:
                T[key] = mk('addr', ('T', b))
            return [st]
        v = self.rv(f, n['a'], ctx, st)
        if op == '!':
            T[key] = not_(v) if v.op != 'i' else B(v.a[0] == 0)
        elif op == '-':
            T[key] = I(-v.a[0]) if v.op == 'i' else mk('neg', v)
        elif op == '~':
            T[key] = mk('compl', v)
        else:
            T[key] = v
        return [st]

    def arith(self, op, a, b, ty):
        if a.op == 'i' and b.op == 'i':
            x, y = a.a[0], b.a[0]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x // y if y else None,
                     '%': lambda: x % y if y else None, '<<': lambda: x << y if 0 <= y < 64 else None,
                     '>>': lambda: x >> y if 0 <= y < 64 else None, '|': lambda: x | y, '&': lambda: x & y,
                     '^': lambda: x ^ y}.get(op, lambda: None)()
            except Exception:
                r = None
            if r is not None:
                return I(r)
        if op == '+':
            if b.op == 'i' and b.a[0] == 0:
                return a
            if a.op == 'i':
                a, b = b, a
            if b.op == 'i' and a.op == 'minus' and a.a[1] is b:
                return a.a[0]
            if b.op == 'i' and a.op == 'plus' and a.a[1].op == 'i':
                return mk('plus', a.a[0], I(a.a[1].a[0] + b.a[0]))
            return mk('plus', a, b)
        if op == '-':
            if b.op == 'i' and b.a[0] == 0:
                return a
            if b.op == 'i' and a.op == 'plus' and a.a[1] is b:
                return a.a[0]
            return mk('minus', a, b)
        if op == '|' and (a.op == 'b' or b.op == 'b' or ty == 'bool'):
            return self.or_(a, b)
        if op == '&' and (a.op == 'b' or b.op == 'b' or ty == 'bool'):
            return self.and_(a, b)
        return mk('arith', op, a, b)

    def and_(self, a, b):
        if a.op == 'b':
            return b if a.a[0] else FALSE
        if b.op == 'b':
            return a if b.a[0] else FALSE
        if a is b:
            return a
        return mk('and', a, b)

    def or_(self, a, b):
        if a.op == 'b':
            return TRUE if a.a[0] else b
        if b.op == 'b':
            return TRUE if b.a[0] else a
        if a is b:
            return a
        return mk('or', a, b)

    def compare(self, op, a, b, st):
        if a.op == 'ite' and isconst(b) and op in ('==', '!='):
            x, y = eq(a.a[1], b), eq(a.a[2], b)
            if x.op == 'b' and y.op == 'b':
                r = (a.a[0] if x.a[0] else not_(a.a[0])) if x is not y else x
                return r if op == '==' else not_(r)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return not_(lt(b, a))
        return not_(lt(a, b))

    def binary(self, op, f, n, ctx, st):
        if op in ('&&', '||'):
            a = self.rv(f, n['a'], ctx, st)
            tv = st.truth(a)
            if op == '&&':
                if tv is False:
                    return FALSE
                b = self.rv(f, n['b'], ctx, st)
                if tv:
                    return b
                return self.and_(a, b)
            if tv:
                return TRUE
            b = self.rv(f, n['b'], ctx, st)
            if tv is False:
                return b
            return self.or_(a, b)
        if op == ',':
            return self.rv(f, n['b'], ctx, st)
        a = self.rv(f, n['a'], ctx, st)
        b = self.rv(f, n['b'], ctx, st)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, st)
        return self.arith(op, a, b, n.get('ty', ''))

    # ---------------------------------------------------------------- events
    def emit(self, kind, name, fid, obj, args, f, n, ctx, st, ret, objpath=None, argpaths=None, cls=None):
        if self.o.on is None and self.o.watch is None and not self.o.order:
            return None
        ev = Event()
        ev.kind, ev.name, ev.fid, ev.obj, ev.args, ev.func, ev.line, ev.ret, ev.node = kind, name, fid, obj, list(args), f, n.get('l', 0), ret, n
        ev.stack = tuple(self.stack)
        ev.st = st
        ev.objpath, ev.argpaths, ev.cls = objpath, argpaths, cls
        if self.o.watch is not None and self.o.watch(ev):
            ev2 = Event()
            for s in Event.__slots__:
                setattr(ev2, s, getattr(ev, s))
            ev2.st = st.copy()
            self.res.events.append(ev2)
        if name in self.o.order:
            st.ts = st.ts | {(name + '+') if name in st.ts else name}
        if self.o.on is not None:
            tags = self.o.on(ev)
            if tags:
                add = set(st.ts)
                for t in tags:
                    if isinstance(t, tuple) and t and t[0] == '-':
                        add.discard(t[1])
                    else:
                        add.add(t)
                st.ts = frozenset(add)
        return ev

    def event_write(self, f, n, p, v, ctx, st):
        p = self.canon(p, st)
        name = p[2] if p[0] in ('F', 'S') else (p[1] if p[0] == 'G' else None)
        q = p
        while name is None and q[0] == 'I':
            q = q[1]
            if q[0] in ('F', 'S'):
                name = q[2]
        if name is None:
            name = '#local'
        self.emit('write', name, None, None, [v if isT(v) else self.load(v[1], st)], f, n, ctx, st, VOID, objpath=p)

    # ---------------------------------------------------------------- constructors
    def ctor(self, f, i, n, key, ctx, st):
        cls = n.get('cls', '')
        sh = cls.split('::')[-1]
        args = n.get('a', [])
        T = st.tmp
        if n.get('nrdtor'):
            self.emit('abort', cls, n.get('f'), None, [], f, n, ctx, st, VOID)
            self.res.aborts.append((f, n.get('l', 0), st.copy(), tuple(self.stack)))
            return []
        if cls in ('ethos::Expr',):
            T[key] = self.rv(f, args[0], ctx, st) if args else NULL
            return [st]
        if cls.startswith('std::') or cls.startswith('__gnu_cxx'):
            vals = [self.node(f, a, ctx, st) for a in args]
            rvs = [self.load(v[1], st) if isinstance(v, tuple) else v for v in vals]
            if sh in ('vector', 'map', 'set', 'unordered_map', 'unordered_set', 'basic_string', 'list', 'deque'):
                if not rvs or (len(rvs) == 1 and 'allocator' in str(f.nodes[args[0]].get('cls', ''))):
                    T[key] = S('') if sh == 'basic_string' else EMPTY
                    return [st]
                if sh == 'basic_string' and len(rvs) == 2 and f.nodes[args[1]].get('ty') in ('char', 'const char') or \
                        sh == 'basic_string' and len(rvs) >= 2 and '(unsigned long,char' in n.get('f', ''):
                    T[key] = mk('rep', rvs[0], rvs[1])
                    return [st]
                if sh == 'basic_string' and len(rvs) <= 2:
                    T[key] = rvs[0]
                    return [st]
                if n.get('il') or rvs[0].op == 'list':
                    if rvs[0].op == 'list':
                        T[key] = rvs[0]
                        return [st]
                if len(rvs) >= 2 and rvs[0].op == 'begin' and rvs[1].op == 'end' and rvs[0].a[0] is rvs[1].a[0]:
                    T[key] = rvs[0].a[0]
                    return [st]
                if len(rvs) >= 2 and rvs[0].op == 'rbegin' and rvs[1].op == 'rend' and rvs[0].a[0] is rvs[1].a[0] and sh == 'vector':
                    T[key] = mk('reverse', rvs[0].a[0])
                    return [st]
                if len(rvs) >= 2 and rvs[1].op == 'end' and rvs[0].op == 'plus' and rvs[0].a[0].op == 'begin':
                    T[key] = mk('slice', rvs[0].a[0].a[0], rvs[0].a[1])
                    return [st]
                if len(rvs) >= 2 and rvs[0].op == 'begin' and rvs[1].op in ('plus', 'minus'):
                    T[key] = mk('prefix', rvs[0].a[0], rvs[1])
                    return [st]
                if sh == 'vector' and f.nodes[args[0]].get('ty', '').replace('const ', '') in ('unsigned long', 'size_t', 'std::size_t', 'int', 'unsigned int', 'size_type', 'std::vector::size_type') and not n.get('il'):
                    T[key] = mk('resize', EMPTY, *[v for j, v in enumerate(rvs) if 'allocator' not in str(f.nodes[args[j]].get('ty', ''))])
                    return [st]
                T[key] = mk('cont', sh, tuple(rvs))
                return [st]
            if sh == 'pair' and len(rvs) == 2:
                T[key] = mkpair(*rvs)
                return [st]
            if len(rvs) == 1 and sh not in ('basic_stringstream', 'basic_ifstream', 'basic_ofstream', 'basic_ostringstream',
                                            'basic_istringstream'):
                T[key] = rvs[0]
                return [st]
            if sh in ('unique_ptr', 'shared_ptr') and not rvs:
                T[key] = NULL
                return [st]
            T[key] = mk('new', cls, tuple(rvs), self.site(f, i, ctx))
            return [st]
        vals = [self.node(f, a, ctx, st) for a in args]
        rvs = [self.load(v[1], st) if isinstance(v, tuple) else v for v in vals]
        t = mk('new', cls, tuple(rvs), self.site(f, i, ctx))
        self.emit('ctor', n.get('n', cls), n.get('f'), None, rvs, f, n, ctx, st, t, cls=cls)
        self.effects(n, n.get('f'), f, i, ctx, st, vals, rvs, None)
        if n.get('f') in self.s.noret:
            self.res.aborts.append((f, n.get('l', 0), st.copy(), tuple(self.stack)))
            return []
        T[key] = t
        return [st]

    def effects(self, n, fid, f, i, ctx, st, vals, rvs, objv):
        """havoc what an opaque call may change"""
        site = self.site(f, i, ctx)
        targets = [fid] if fid else []
        if n.get('virt'):
            targets += self.p.overriders.get(fid, [])
        mods = set()
        for t in targets:
            mods |= self.s.mods.get(t, frozenset())
        if mods:
            self.kill_fields(st, mods, site)
        name = n.get('n', n.get('cls', ''))
        for j in self.s.mutrefs(n):
            if j < len(vals) and isinstance(vals[j], tuple):
                p = self.canon(vals[j][1], st)
                ty = ''
                if self._streamlike(f, n['a'][j]):
                    continue
                self.havoc(p, st, mk('o', name, objv, j, tuple(rvs), site), site)
        # pointers to locals
        for j, r in enumerate(rvs):
            if r.op == 'addr' and r.a[0][0] in ('L', 'S', 'I') and not self._streamlike(f, n['a'][j]) \
                    and not f.nodes[n['a'][j]].get('ty', '').startswith('const '):
                self.havoc(r.a[0], st, mk('o', name, objv, j, (), site), site)

    def _streamlike(self, f, i):
        ty = f.nodes[i].get('ty', '')
        return 'stream' in ty or 'Stats' in ty

    def kill_fields(self, st, fields, site):
        for q in [q for q in st.env if self._inv(q, fields)]:
            del st.env[q]
        for x in fields:
            st.ep[x] = site

    def _inv(self, q, fields):
        while True:
            k = q[0]
            if k == 'F':
                return q[2] in fields
            if k == 'S':
                if q[2] in fields and not (q[1][0] == 'L'):
                    return True
                q = q[1]
                continue
            if k == 'I':
                q = q[1]
                continue
            if k == 'G':
                return q[1] in fields
            return False

    # ---------------------------------------------------------------- calls
    def call(self, f, i, n, key, ctx, st):
        T = st.tmp
        name = n.get('n', '?')
        short = name.split('::')[-1]
        fid = n.get('f')
        args = n.get('a', [])
        objv = objn = None
        if 'obj' in n:
            objn = self.node(f, n['obj'], ctx, st)
            objv = self.load(objn[1], st) if isinstance(objn, tuple) else objn
            if objv.op == 'addr' and name.startswith('std::') and objv.a[0][0] != 'T':
                # the object a pointer points to
                objn = ('LV', self.canon(objv.a[0], st))
                objv = self.load(objn[1], st)
        vals = [self.node(f, a, ctx, st) for a in args]
        rvs = [self.load(v[1], st) if isinstance(v, tuple) else v for v in vals]
        op = n.get('op')

        # lambdas
        if short == 'operator()' and objv is not None and objv.op == 'lambda':
            g = self.p.funcs.get(objv.a[0])
            if g is not None and g.blocks:
                return self.inline(f, i, n, key, ctx, st, g, None, vals, rvs, parent=objv.a[1])
        if fid is None and 'fx' in n:
            fx = self.rv(f, n['fx'], ctx, st)
            if fx.op == 'fn':
                fid = fx.a[0]
                g = self.p.funcs.get(fid)
                name = g.name if g else name
                short = name.split('::')[-1]
            elif fx.op == 'lambda':
                g = self.p.funcs.get(fx.a[0])
                if g is not None and g.blocks:
                    return self.inline(f, i, n, key, ctx, st, g, None, vals, rvs, parent=fx.a[1])

        if short == '__builtin_expect' and rvs:
            T[key] = rvs[0]
            return [st]
        if name == '__ethos_true' or short == '__ethos_true':
            T[key] = TRUE
            return [st]

        if not (name.startswith('ethos::') and fid in self.p.funcs and fid not in ()) or cls_model(name):
            r = self.model(f, i, n, key, ctx, st, name, short, op, objn, objv, vals, rvs)
            if r is not None:
                return r

        if name in self.kp and len(rvs) == 1:
            t = rvs[0]
            T[key] = B(t in self.kp[name]) if t.op == 'e' else mk('kp', self.kp[name], t)
            tv = st.truth(T[key])
            if tv is not None:
                T[key] = B(tv)
            return [st]

        g = self.p.funcs.get(fid)
        # arrow object: pointer value; otherwise the address of the object
        thisv = None
        if 'obj' in n:
            if n.get('arrow') or (isinstance(objn, tuple) is False):
                thisv = objv
            else:
                p = self.canon(objn[1], st)
                thisv = p[1] if p[0] == 'D' else mk('addr', p)
        if g is not None and g.blocks and self.want_inline(g, n):
            self.emit('enter', name, fid, objv, rvs, f, n, ctx, st, VOID, argpaths=vals)
            return self.inline(f, i, n, key, ctx, st, g, thisv, vals, rvs)

        site = self.site(f, i, ctx)
        # result
        targets = [fid] + (self.p.overriders.get(fid, []) if n.get('virt') else [])
        mods = set()
        for t in targets:
            mods |= self.s.mods.get(t, frozenset())
        robj = objv if 'obj' in n else None
        if robj is not None and self._singleton(f, n, robj):
            robj = THIS
        hasmut = bool([j for j in self.s.mutrefs(n) if j < len(args) and not self._streamlike(f, args[j])]) if args else False
        ispure = (fid in self.p.funcs and not mods and not hasmut and not n.get('virt')) or name in self.o.pure
        known_ext = fid not in self.p.funcs
        if ispure:
            sig = ()
            if name not in self.o.pure:
                rd = self.s.reads.get(fid, frozenset())
                sig = tuple(sorted(((x, st.ep[x]) for x in rd if x in st.ep), key=lambda z: z[0]))
            ret = mk('r', name, robj, tuple(rvs), sig)
        elif known_ext and (n.get('const') or 'obj' not in n) and not hasmut:
            ret = mk('r', name, robj, tuple(rvs), ())
        else:
            ret = mk('r', name, robj, tuple(rvs), site)
        if n.get('ty') == 'void':
            pass
        if name in self.o.results:
            o = self.o.results[name](rvs, robj, st)
            if o is not None:
                ret = o
        ev = self.emit('call', name, fid, objv, rvs, f, n, ctx, st, ret,
                       objpath=objn[1] if isinstance(objn, tuple) else None, argpaths=vals)
        if n.get('nr') or fid in self.s.noret or n.get('nrdtor'):
            self.emit('abort', name, fid, objv, rvs, f, n, ctx, st, VOID)
            self.res.aborts.append((f, n.get('l', 0), st.copy(), tuple(self.stack)))
            return []
        wi = written_iters(f, n) if known_ext else []
        for j in wi:
            rs = self.s.iter_roots(f, args[j])
            if not rs:
                self.res.capped += 1
            for x in rs:
                if x[0] == 'var':
                    self.havoc(self.canon(self.varpath(x[1], ctx), st), st, mk('o', name, None, j, tuple(rvs), site), site)
            self.kill_fields(st, {x[1] for x in rs if x[0] == 'field'}, site)
        if not ispure:
            self.effects(n, fid, f, i, ctx, st, vals, rvs, robj)
            if 'obj' in n and not n.get('const') and known_ext and isinstance(objn, tuple) and short not in ACCESS \
               and not self._streamlike(f, n['obj']):
                self.havoc(objn[1], st, mk('o', name, None, -1, tuple(rvs), site), site)
            if fid in self.p.funcs and isinstance(objn, tuple):
                p = self.canon(objn[1], st)
                if p[0] == 'L' and not n.get('const') and not n.get('arrow'):
                    self.havoc(p, st, mk('o', name, None, -1, tuple(rvs), site), site)
        tv = st.truth(ret)
        T[key] = ret
        return [st]

    def _singleton(self, f, n, v):
        """is v the one object of its class (the state, the type checker, ...)"""
        ty = f.nodes[n['obj']].get('ty', '')
        return any(('ethos::' + c) in ty and 'ExprValue' not in ty
                   for c in ('State', 'TypeChecker', 'ExprParser', 'CmdParser', 'Lexer', 'Options', 'Parser', 'Plugin'))

    def want_inline(self, g, n):
        if n.get('virt'):
            return False
        if g.name in self.o.opaque:
            return False
        if g.id in [x[0].id for x in self.stack]:
            return False
        if len(self.stack) > self.o.depth:
            return False
        if g.name in self.o.inline or g.name.replace('ethos::', '', 1) in self.o.inline:
            return True
        if g.name not in self.base:
            return True
        return False

    def inline(self, f, i, n, key, ctx, st, g, thisv, vals, rvs, parent=None):
        nctx = ctx + ((f.id, i),)
        names = self.declared(g)
        self.frames[nctx] = (g, parent, names, thisv)
        if 'lambda' in g.id and thisv is None and parent is None:
            pass
        for j, p in enumerate(g.params):
            if j >= len(vals):
                break
            path = ('L', nctx, p['n'])
            for q in [q for q in st.env if q[0] in ('S', 'I') and is_prefix(path, q)]:
                del st.env[q]
            if p.get('ref') and isinstance(vals[j], tuple):
                st.env[path] = ('REF', self.canon(vals[j][1], st))
            else:
                st.env[path] = rvs[j]
        self.stack.append((g, n.get('l', 0)))
        outs = self.run_function(g, nctx, st)
        self.stack.pop()
        res = []
        for r, s in outs:
            if isinstance(r, tuple):
                p = self.canon(r[1], s)
                if g.ret.endswith('&') and not (p[0] == 'L' and p[1] == nctx):
                    r = ('LV', p)
                else:
                    r = self.load(p, s)
            # materialise values that live in the dead frame
            for q in [q for q in s.env if path_ctx(q) == nctx or q[0] == 'UN' and q[1] == nctx]:
                del s.env[q]
            for q in [q for q in s.tmp if q[0] == nctx]:
                del s.tmp[q]
            s.tmp[key] = r if r is not None else VOID
            res.append(s)
        return res

    # ---------------------------------------------------------------- models of library calls
    def model(self, f, i, n, key, ctx, st, name, short, op, objn, objv, vals, rvs):
        T = st.tmp
        operands = ([objn] if objn is not None else []) + vals
        orv = ([objv] if objv is not None else []) + rvs
        site = self.site(f, i, ctx)

        def ret(v):
            T[key] = v
            return [st]

        if short in ('any_of', 'all_of', 'none_of', 'for_each') and name.startswith('std::') and len(rvs) >= 3 and rvs[-1].op == 'lambda':
            g = self.p.funcs.get(rvs[-1].a[0])
            if g is not None and g.blocks:
                it = mk('it', site, short, rvs[-3])
                s0 = st.copy()
                outs = []
                if s0.assume(eq(it, rvs[-2]), True):
                    s0.tmp[key] = {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE}.get(short, VOID)
                    outs.append(s0)
                el = deref(it)
                for s in self.inline(f, i, n, key, ctx, st, g, None, [el], [el], parent=rvs[-1].a[1]):
                    v = s.tmp.get(key, VOID)
                    s1 = s.copy()
                    if short == 'for_each' or s1.assume(self.load(v[1], s) if isinstance(v, tuple) else v, short == 'all_of'):
                        # on to the next element
                        self.res.backs.append((f, None, s1, ctx))
                        self.res.loopvals.setdefault(it, set()).add(mk('plus', it, I(1)))
                    if short == 'for_each':
                        outs.append(s)
                    elif s.assume(self.load(v[1], s) if isinstance(v, tuple) else v, short != 'all_of'):
                        s.tmp[key] = {'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE}[short]
                        outs.append(s)
                return outs
        if short == 'back_inserter' and name.startswith('std::') and len(vals) == 1 and isinstance(vals[0], tuple):
            return ret(mk('addr', self.canon(vals[0][1], st)))
        if short in ('transform', 'copy_if', 'accumulate') and name.startswith('std::') and len(rvs) == 4 and rvs[3].op == 'lambda' \
                and (short == 'accumulate' or rvs[2].op == 'addr' and rvs[2].a[0][0] != 'T'):
            g = self.p.funcs.get(rvs[3].a[0])
            if g is not None and g.blocks:
                # as the loop it stands for
                it = mk('it', site, short, rvs[0])
                acc = rvs[2] if short == 'accumulate' else self.load(rvs[2].a[0], st)
                T0 = mk('it', site, short + '#', acc)
                sb = st.copy()
                el = deref(it)
                args = [T0, el] if short == 'accumulate' else [el]
                if sb.assume(eq(it, rvs[1]), False):
                    for s in self.inline(f, i, n, key, ctx, sb, g, None, list(args), list(args), parent=rvs[3].a[1]):
                        v = s.tmp.get(key, VOID)
                        v = self.load(v[1], s) if isinstance(v, tuple) else v
                        ends = [(push(T0, v), s)]
                        if short == 'accumulate':
                            ends = [(v, s)]
                        elif short == 'copy_if':
                            s2 = s.copy()
                            ends = ([(push(T0, el), s)] if s.assume(v, True) else []) + ([(T0, s2)] if s2.assume(v, False) else [])
                        for w, s2 in ends:
                            self.res.backs.append((f, None, s2, ctx))
                            for x, y in ((it, mk('plus', it, I(1))), (T0, w)):
                                self.res.loopvals.setdefault(x, set()).add(y)
                                self.res.loopstates.setdefault(x, []).append((y, s2))
                if not st.assume(eq(it, rvs[1]), True):
                    return []
                if short == 'accumulate':
                    return ret(T0)
                self.store(rvs[2].a[0], T0, st, site)
                return ret(VOID)
        # integers of arbitrary size
        if short in ('get_mpz_t', 'get_mpq_t', 'get_num_mpz_t', 'get_den_mpz_t') and objv is not None:
            p = self.canon(objn[1], st) if isinstance(objn, tuple) else ('T', objv)
            if short[4:7] in ('num', 'den'):
                p = ('S', p, '#' + short[4:7])
            return ret(mk('addr', p))
        if name.startswith('__gmp') and '::' not in name:
            src = [self.load(v.a[0], st) if v.op == 'addr' and v.a[0][0] != 'T' else v.a[0][1] if v.op == 'addr' else v for v in rvs]
            nd = 2 if short.endswith('div_qr') else 1
            dst = [v.a[0] for v in rvs[:nd] if v.op == 'addr' and v.a[0][0] != 'T']
            if n.get('ty') == 'void' and len(dst) == nd:
                for j, p in enumerate(dst):
                    fn = name if nd == 1 else name[:-2] + 'qr'[j]
                    sr = src if fn in ('__gmpz_setbit', '__gmpz_clrbit', '__gmpz_combit') else src[nd:]
                    self.store(p, mk('r', fn, None, tuple(sr), ()), st, site)
                return ret(VOID)
            if n.get('ty') != 'void' and not fid_mut(f, n):
                return ret(mk('r', name, None, tuple(src), ()))
        if short == 'canonicalize' and isinstance(objn, tuple):
            self.store(objn[1], mk('r', 'canonicalize', None, (objv,), ()), st, site)
            return ret(VOID)
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(orv) == 2:
            return ret(self.compare(op, orv[0], orv[1], st))
        if op in ('<<', '>>') and '__gmp_expr' in n.get('ty', ''):
            return ret(mk('r', name, None, tuple(orv), ()))
        if op == '<<' or op == '>>':
            if len(orv) == 2 and orv[0].op == 'i':
                return ret(self.arith(op, orv[0], orv[1], ''))
            if n.get('nr') or n.get('nrdtor'):
                return None
            if len(orv) == 2:
                self.emit('out', 'operator' + op, n.get('f'), orv[0], [orv[1]], f, n, ctx, st, VOID,
                          objpath=operands[0][1] if isinstance(operands[0], tuple) else None)
            if op == '>>' and isinstance(operands[1], tuple):
                self.havoc(operands[1][1], st, mk('o', name, None, 1, (), site), site)
            return ret(operands[0] if operands else VOID)
        if op == '=' and len(operands) == 2:
            if isinstance(operands[0], tuple):
                p = operands[0][1]
                self.event_write(f, n, p, orv[1], ctx, st)
                self.store(p, orv[1], st, site)
            return ret(operands[0])
        if op in ('++', '--') and operands:
            if isinstance(operands[0], tuple):
                p = operands[0][1]
                old = self.load(p, st)
                new = self.arith(op[0], old, I(1), '')
                self.store(p, new, st, site)
                return ret(old if len(operands) > 1 else ('LV', p))
            return ret(self.arith(op[0], orv[0], I(1), ''))
        if op in ('+', '-') and len(orv) == 2:
            if orv[0].op == 's' and orv[1].op == 's' and op == '+':
                return ret(S(orv[0].a[0] + orv[1].a[0]))
            return ret(self.arith(op, orv[0], orv[1], ''))
        if op == '+=' and len(orv) == 2 and isinstance(operands[0], tuple):
            v = self.arith('+', orv[0], orv[1], '')
            self.event_write(f, n, operands[0][1], v, ctx, st)
            self.store(operands[0][1], v, st, site)
            return ret(operands[0])
        if op == '*' and len(orv) == 1:
            o = orv[0]
            d = deref(o)
            if o.op == 'find':
                p = ('L', ctx, '#d%d' % i)
                for qq in [qq for qq in st.env if is_prefix(p, qq)]:
                    del st.env[qq]
                st.env[p] = d
                return ret(('LV', p))
            if d is not None and d.op != 'deref':
                return ret(d)
            if o.op == 'addr':
                return ret(('LV', self.canon(o.a[0], st)))
            return ret(('LV', ('D', o)))
        if op == '->' and len(orv) == 1:
            o = orv[0]
            d = deref(o) if o.op in ('begin', 'find') else None
            if d is not None:
                p = ('L', ctx, '#d%d' % i)
                for qq in [qq for qq in st.env if is_prefix(p, qq)]:
                    del st.env[qq]
                st.env[p] = d
                return ret(mk('addr', p))
            return ret(o)
        if op == '!' and len(orv) == 1:
            return ret(not_(orv[0]))
        if op == '[]' and len(orv) == 2:
            ix = st.cval(orv[1])
            if name in ('ethos::Expr::operator[]', 'ethos::ExprValue::operator[]'):
                x = orv[0]
                if name == 'ethos::ExprValue::operator[]' and x.op == 'deref':
                    x = x.a[0]
                ch = mk('children', x)
                self.emit('index', '[]', None, ch, [ix], f, n, ctx, st, VOID)
                return ret(index(ch, ix))
            self.emit('index', '[]', None, orv[0], [ix], f, n, ctx, st, VOID)
            if isinstance(operands[0], tuple):
                return ret(('LV', ('I', operands[0][1], ix)))
            return ret(index(orv[0], ix))
        if short in ('operator bool',) and objv is not None:
            return ret(objv)
        if name.startswith('std::') and objv is None:
            if short in ('move', 'forward', 'addressof', 'ref', 'cref') and len(vals) == 1:
                return ret(vals[0])
            if short == 'make_pair' and len(rvs) == 2:
                return ret(mkpair(rvs[0], rvs[1]))
            if short in ('begin', 'end', 'size', 'empty') and len(rvs) == 1:
                return ret({'begin': lambda: mk('begin', rvs[0]), 'end': lambda: mk('end', rvs[0]),
                            'size': lambda: size(rvs[0]), 'empty': lambda: eq(size(rvs[0]), I(0))}[short]())
            if short == 'reverse' and len(rvs) == 2 and rvs[0].op == 'begin':
                p = self._container_path(f, n['a'][0], ctx, st)
                if p is not None:
                    self.store(p, mk('reverse', rvs[0].a[0]), st, site)
                    return ret(VOID)
            if short == 'find' and len(rvs) == 3 and rvs[0].op == 'begin':
                return ret(mk('find', rvs[0].a[0], rvs[2]))
            if short == 'swap' and len(vals) == 2 and all(isinstance(v, tuple) for v in vals):
                self.store(vals[0][1], rvs[1], st, site)
                self.store(vals[1][1], rvs[0], st, site)
                return ret(VOID)
            if short in ('min', 'max') and len(rvs) == 2:
                return ret(mk(short, *rvs))
            if short in ('abort', 'exit', '_Exit', 'terminate'):
                return None
            if short == 'endl':
                return ret(VOID)
            if short in ('all_of', 'any_of', 'none_of', 'find_if', 'for_each', 'sort', 'accumulate', 'transform', 'copy', 'count_if'):
                return None
        if objv is not None and (name.startswith('std::')):
            cst = n.get('const')
            if short in ('size', 'length') and not rvs:
                o = objv
                while o.op == 'push':
                    o = o.a[0]
                return ret(self.fillsize[o] if o in self.fillsize else size(objv))
            if short == 'empty' and not rvs:
                return ret(eq(size(objv), I(0)))
            if short in ('begin', 'cbegin') and not rvs:
                return ret(mk('begin', objv))
            if short in ('end', 'cend') and not rvs:
                return ret(mk('end', objv))
            if short in ('rbegin', 'crbegin', 'rend', 'crend') and not rvs:
                return ret(mk(short.lstrip('c'), objv))
            if short == 'count' and len(rvs) == 1:
                return ret(mk('count', objv, rvs[0]))
            if short == 'contains':
                return ret(has(objv, rvs[0]))
            if short == 'find' and len(rvs) == 1 and 'string' not in name:
                return ret(mk('find', objv, rvs[0]))
            if short == 'at' and len(rvs) == 1:
                self.emit('index', 'at', None, objv, [st.cval(rvs[0])], f, n, ctx, st, VOID)
                return ret(('LV', ('I', objn[1], st.cval(rvs[0]))) if isinstance(objn, tuple) else index(objv, rvs[0]))
            if short == 'back' and not rvs:
                s = size(objv)
                b = back(objv)
                if b.op == 'back' and isinstance(objn, tuple):
                    return ret(('LV', ('I', objn[1], mk('minus', s, I(1)))))
                if isinstance(objn, tuple):
                    return ret(('LV', ('I', objn[1], I(s.a[0] - 1) if s.op == 'i' else mk('minus', s, I(1))))) if s.op == 'i' else ret(b)
                return ret(b)
            if short == 'front' and not rvs:
                return ret(('LV', ('I', objn[1], I(0))) if isinstance(objn, tuple) else index(objv, I(0)))
            if short in ('get', 'c_str', 'data') and not rvs and 'stringstream' not in name:
                return ret(objv)
            if isinstance(objn, tuple) and not cst:
                p = objn[1]
                new = None
                r = VOID
                ismap = name.startswith(('std::map::', 'std::unordered_map::'))
                if short in ('push_back', 'emplace_back', 'push') and len(rvs) == 1:
                    new = push(objv, rvs[0])
                elif short == 'emplace_back' and not rvs:
                    ty = str(n.get('ty', ''))
                    new = push(objv, EMPTY if ty.startswith(('std::vector<', 'std::map<', 'std::set<', 'std::unordered_')) else mk('dflt', ty))
                elif short == 'emplace_back' and len(rvs) == 2:
                    new = push(objv, mkpair(*rvs))
                elif short == 'emplace_back' and len(rvs) > 2:
                    new = push(objv, mk('tuple', *rvs))
                elif short in ('pop_back', 'pop') and not rvs:
                    new = pop(objv)
                elif short == 'clear':
                    new = EMPTY
                elif short in ('assign',) and len(rvs) == 2 and rvs[0].op == 'begin' and rvs[1].op == 'end':
                    new = rvs[0].a[0]
                elif short == 'resize' and rvs:
                    new = mk('resize', objv, *rvs)
                elif ismap and short in ('emplace', 'try_emplace', 'insert') and (len(rvs) == 2 and short != 'insert' or len(rvs) == 1 and rvs[0].op == 'pair'):
                    k, v = rvs if len(rvs) == 2 else rvs[0].a
                    if st.truth(has(objv, k)) is False:
                        new = mk('set', objv, k, v)
                    else:
                        new = mk('ins', objv, mkpair(k, v))
                    r = mk('insres', objv, k)
                elif ismap and short == 'insert_or_assign' and len(rvs) == 2:
                    new = mk('set', objv, *rvs)
                    r = mk('u', site)
                elif short in ('insert', 'emplace') and len(rvs) == 1:
                    new = mk('ins', objv, rvs[0])
                    r = mk('insres', objv, rvs[0])
                elif short == 'insert' and len(rvs) == 3 and rvs[1].op == 'begin' and rvs[2].op == 'end' and rvs[0].op == 'end':
                    new = mk('cat', objv, rvs[1].a[0])
                elif short == 'insert' and len(rvs) == 3 and rvs[0].op == 'end' and rvs[2].op == 'end':
                    new = mk('cat', objv, mk('slicefrom', rvs[1], rvs[2]))
                elif short == 'insert' and len(rvs) == 2 and rvs[0].op == 'begin':
                    new = mk('list', (rvs[1],) + objv.a[0]) if objv.op == 'list' else mk('pushf', objv, rvs[1])
                elif short == 'insert' and len(rvs) == 2 and rvs[0].op == 'end':
                    new = push(objv, rvs[1])
                elif short == 'erase' and len(rvs) == 2 and rvs[0].op == 'plus' and rvs[0].a[0] is mk('begin', objv) and rvs[1] is mk('end', objv):
                    # all elements from a place on
                    new = mk('resize', objv, rvs[0].a[1])
                elif short == 'erase' and rvs:
                    new = mk('erase', objv, rvs[0], *(rvs[1:]))
                    if 'string' in name.split('::')[-2]:
                        r = ('LV', p)
                    elif len(rvs) == 1 and n.get('ty', '') == 'unsigned long':
                        r = mk('count', objv, rvs[0])
                elif short == 'swap' and len(vals) == 1 and isinstance(vals[0], tuple):
                    new = rvs[0]
                    self.store(vals[0][1], objv, st, site)
                elif short == 'reserve':
                    return ret(VOID)
                if new is not None:
                    self.event_container(f, n, short, p, objv, rvs, ctx, st)
                    self.store(p, new, st, site)
                    return ret(r)
        if name.startswith('ethos::Expr::') and isT(objv) and objv.op == 'it' and isT(objv.a[-1]) and objv.a[-1].op in ('begin', 'rbegin'):
            # through an iterator over expressions
            objv = deref(objv)
        if name in ('ethos::Expr::getValue', 'ethos::ExprValue::getValue') and objv is not None:
            return ret(objv)
        if name in ('ethos::Expr::isNull', 'ethos::ExprValue::isNull') and objv is not None:
            return ret(eq(objv, NULL))
        if name in ('ethos::Expr::getKind', 'ethos::ExprValue::getKind'):
            if objv.op == 'null':
                return ret(E('NONE'))
            return ret(st.cval(mk('kind', objv)))
        if name in ('ethos::ExprValue::getChildren',):
            return ret(mk('children', objv))
        if name in ('ethos::Expr::getNumChildren', 'ethos::ExprValue::getNumChildren'):
            return ret(size(mk('children', objv)))
        if name in ('ethos::Expr::isGround', 'ethos::ExprValue::isGround'):
            return ret(mk('ground', objv))
        if name in ('ethos::Expr::isEvaluatable', 'ethos::ExprValue::isEvaluatable'):
            return ret(mk('evaluatable', objv))
        if name in ('ethos::Expr::getSymbol',):
            return ret(mk('symbol', objv))
        if name == 'ethos::ExprValue::asLiteral' or name == 'ethos::Literal::asLiteral':
            return ret(mk('lit', objv))
        if name in ('ethos::TypeChecker::isGround',) and rvs:
            return ret(mk('allground', rvs[0]))
        return None

    def _container_path(self, f, i, ctx, st):
        n = f.nodes[i]
        if n['k'] == 'call' and n.get('n', '').split('::')[-1] in ('begin', 'end') and 'obj' in n:
            v = self.node(f, n['obj'], ctx, st)
            return v[1] if isinstance(v, tuple) else None
        return None

    def event_container(self, f, n, short, p, objv, rvs, ctx, st):
        p = self.canon(p, st)
        q = p
        name = None
        while True:
            if q[0] in ('F', 'S'):
                name = q[2]
                break
            if q[0] == 'I':
                q = q[1]
                continue
            if q[0] == 'G':
                name = q[1]
            break
        self.emit('cont', (name or '#local') + '::' + short, None, objv, rvs, f, n, ctx, st, VOID, objpath=p)

    # ---------------------------------------------------------------- functions
    def key(self, st, f, ctx):
        flags = []
        for q, v in st.env.items():
            if q[0] == 'L' and q[1] == ctx and isT(v) and (v.op in ('b', 'e', 'null') or v.op == 'i' and self.o.unroll) and q[2][0] != '#':
                flags.append((q[2], v.id))
        return (frozenset(st.facts.items()), frozenset(st.dom.items()), frozenset(st.rng.items()), st.ts, frozenset(flags), self.unkey(st))

    def unkey(self, st):
        return frozenset((q, v[1]) for q, v in st.env.items() if q[0] == 'UN') if self.o.unroll else 0

    def merge(self, sts, where, facts=False):
        if len(sts) == 1:
            return sts[0]
        a = sts[0].copy()
        for bi, b in enumerate(sts[1:]):
            for d, e in ((a.env, b.env), (a.tmp, b.tmp)):
                for q in list(d):
                    v, w = d[q], e.get(q)
                    if w is None and q not in e:
                        if d is a.env and q[0] in ('F', 'S', 'G'):
                            # unknown on the other side: reload there
                            w = self.load(q, b)
                            if w is v:
                                continue
                            if q[0] in ('F', 'S'):
                                pass
                            d[q] = mk('phi', where, q, v, w) if isT(v) and isT(w) else mk('phi', where, q, None, None)
                            continue
                        del d[q]
                    elif v is not w and v != w:
                        if isT(v) and isT(w):
                            if v.op == 'phi' and v.a[0] == where and v.a[1] == q:
                                d[q] = mk('phi', where, q, *(v.a[2:] + ((w,) if w not in v.a[2:] else ())))
                            else:
                                d[q] = mk('phi', where, q, v, w)
                        elif d is a.tmp or q[0] == 'LP':
                            del d[q]
                        else:
                            d[q] = mk('phi', where, q, None, None)
            for q, w in b.env.items():
                if q not in a.env and q[0] in ('F', 'S', 'G'):
                    v = self.load(q, sts[0])
                    a.env[q] = v if v is w else (mk('phi', where, q, v, w) if isT(v) and isT(w) else mk('phi', where, q, None, None))
            for x in set(a.ep) | set(b.ep):
                if a.ep.get(x, 0) != b.ep.get(x, 0):
                    a.ep[x] = ('phi', where)
            if facts:
                for t in list(a.facts):
                    if b.truth(t) is not a.facts[t]:
                        del a.facts[t]
                for t in list(a.dom):
                    d1, d2 = a.dom[t], b.dom.get(t)
                    if d2 is None:
                        if t in b.rng:
                            pass
                        del a.dom[t]
                    elif d1 != d2:
                        if d1[0] == 'in' and d2[0] == 'in':
                            a.dom[t] = ('in', d1[1] | d2[1])
                        elif d1[0] == 'ni' and d2[0] == 'ni':
                            x = d1[1] & d2[1]
                            if x:
                                a.dom[t] = ('ni', x)
                            else:
                                del a.dom[t]
                        else:
                            i_, o_ = (d1, d2) if d1[0] == 'in' else (d2, d1)
                            x = o_[1] - i_[1]
                            if x:
                                a.dom[t] = ('ni', x)
                            else:
                                del a.dom[t]
                for t in list(a.rng):
                    l1, h1 = a.rng[t]
                    l2, h2 = b.interval(t)
                    l = None if l1 is None or l2 is None else min(l1, l2)
                    h = None if h1 is None or h2 is None else max(h1, h2)
                    if l is None and h is None:
                        del a.rng[t]
                    else:
                        a.rng[t] = (l, h)
        return a

    def compress(self, sts, f, b, ctx):
        where = (ctx, f.id, b)
        groups = {}
        for s in sts:
            groups.setdefault(self.key(s, f, ctx), []).append(s)
        out = [self.merge(g, where) for g in groups.values()]
        if len(out) > self.o.cap:
            self.res.capped += 1
            groups = {}
            for s in out:
                k = (s.ts, self.unkey(s), frozenset((t, v) for t, v in s.facts.items() if self.o.keep and self.o.keep(t)),
                     frozenset((t, v) for t, v in s.dom.items() if self.o.keep and self.o.keep(t)))
                groups.setdefault(k, []).append(s)
            out = [self.merge(g, where, True) for g in groups.values()]
            if len(out) > 4 * self.o.cap:
                groups = {}
                for s in out:
                    groups.setdefault((s.ts, self.unkey(s)), []).append(s)
                out = [self.merge(g, where, True) for g in groups.values()]
        return out

    def run_function(self, f, ctx, st0):
        """-> list of (return value, state)"""
        self.res.funcs.add(f.id)
        if not f.blocks:
            raise Broken('no body: %s' % f.name)
        rpo = f.rpo()
        loops = f.loopinfo()
        pending = {f.entry: [st0]}
        headts = {}
        outs = []
        order = sorted(rpo, key=lambda b: rpo[b])
        import heapq
        work = [(rpo[f.entry], f.entry)]
        inwork = {f.entry}
        while work:
            _, b = heapq.heappop(work)
            inwork.discard(b)
            again = [x[1] for x in pending.get(b, []) if isinstance(x, tuple)]
            sts = [x for x in pending.pop(b, []) if not isinstance(x, tuple)]
            if not sts and not again:
                continue
            self.res.steps += len(sts)
            if self.res.steps > self.o.maxsteps:
                raise Broken('analysis budget exceeded in %s' % f.name)
            if len(sts) > 1:
                sts = self.compress(sts, f, b, ctx)
            if b in loops:
                sts = [self.unrolled(f, b, s, ctx) or self.loop_head(f, b, s, ctx, headts) for s in sts] + again
            if b == f.exit:
                for s in sts:
                    outs.append((s.tmp.pop((ctx, 'ret'), None), s))
                continue
            bl = f.blocks[b]
            for s in self.run_block(f, bl, ctx, sts):
                for t, s2 in self.branch(f, bl, ctx, s):
                    if t is None:
                        continue
                    if self.copies and b in loops and t not in loops[b]:
                        self.copied(f, b, ctx, s2)
                    if t in loops and b in loops[t] and rpo[t] <= rpo[b]:
                        # back edge
                        if ('UN', ctx, t) in s2.env:
                            s2 = s2.copy()
                            s2.tmp = {k: v for k, v in s2.tmp.items() if k[0] is not ctx and not (isinstance(k[0], tuple) and k[0][:len(ctx)] == ctx)}
                            pending.setdefault(t, []).append(s2)
                            if t not in inwork:
                                inwork.add(t)
                                heapq.heappush(work, (rpo[t], t))
                            continue
                        self.res.backs.append((f, t, s2, ctx))
                        for q, it in s2.env.get(('LP', ctx, t), ('LPV',))[1:]:
                            if it is not None:
                                v = self.load(q, s2)
                                if v is it and isT(it) and it.op == 'it' and it.a[:2] in self.fills:
                                    v = push(it, self.fills[it.a[:2]])
                                self.res.loopvals.setdefault(it, set()).add(v)
                                self.res.loopstates.setdefault(it, []).append((v, s2))
                        seen = headts.setdefault((ctx, t), set())
                        if self.o.loophead is not None:
                            s2 = s2.copy()
                            s2.ts = frozenset((self.o.loopback or self.o.loophead)(f, t, s2))
                        for n, hs in enumerate(headts.get((ctx, t, 'st'), [])):
                            # what holds at the head holds in every iteration from it
                            if (n, s2.ts) in seen or clash(hs, s2):
                                continue
                            seen.add((n, s2.ts))
                            if hs.ts != s2.ts:
                                h2 = hs.copy()
                                h2.ts = s2.ts
                                # re-enter with the new tags
                                pending.setdefault(t, []).append(('again', h2))
                        if t not in inwork and pending.get(t):
                            inwork.add(t)
                            heapq.heappush(work, (rpo[t], t))
                        continue
                    pending.setdefault(t, []).append(s2)
                    if t not in inwork:
                        inwork.add(t)
                        heapq.heappush(work, (rpo[t], t))
        # merge the outcomes
        if len(outs) > 1:
            groups = {}
            for r, s in outs:
                s.tmp[(ctx, 'ret')] = r if r is not None else VOID
            res = self.compress([s for r, s in outs], f, -1, ctx)
            outs = [(s.tmp.pop((ctx, 'ret'), mk('x', f.id, -1)), s) for s in res]
        return outs

    def unrolled(self, f, b, s, ctx):
        """the state at a loop head whose condition is a constant"""
        if not self.o.unroll:
            return None
        n = s.env.get(('UN', ctx, b), ('LPV', 0))[1]
        t = f.blocks[b].get('t')
        if n > 12 or not t or t['k'] != 'ForStmt' or t.get('c') is None or len(f.blocks[b]['s']) < 2:
            return None
        x = s.copy()
        self.mute += 1
        try:
            c = [self.rv(f, t['c'], ctx, y) for y in self.run_block(f, f.blocks[b], ctx, [x])]
        finally:
            self.mute -= 1
        if len(c) != 1 or c[0].op != 'b':
            return None
        s = s.copy()
        s.env.pop(('LP', ctx, b), None)
        s.env[('UN', ctx, b)] = ('LPV', n + 1)
        return s

    def copied(self, f, b, ctx, s):
        """the containers a loop has filled with all elements of another one when it has run to its end"""
        site = ('loop', ctx, f.id, b)
        lp = s.env.get(('LP', ctx, b), ('LPV',))[1:]
        for p, it in lp:
            v = self.copies.get((site, it.a[1])) if isT(it) and it.op == 'it' else None
            if v is None or s.env.get(p) is not it:
                continue
            for q, x in lp:
                if not (isT(x) and x.op == 'it' and x.a[1] == v[1]):
                    continue
                C = None
                e = x.a[-1]
                if v[0] == 'deref' and isT(e) and e.op == 'begin' and s.truth(eq(x, mk('end', e.a[0]))) is True:
                    C = e.a[0]
                elif v[0] == 'idx' and e is I(0):
                    for h, d in s.facts.items():
                        if h.op == 'lt' and d is False and h.a[0] is x or h.op == 'eq' and d is True and x in h.a:
                            n = h.a[1] if h.a[0] is x else h.a[0]
                            if n.op == 'size' and shape(n.a[0]) in v[2]:
                                C = n.a[0]
                if C is not None:
                    s.env[p] = mk('cat', it.a[-1], C) if it.a[-1] not in (EMPTY, mk("list", ())) else C
                    break

    def loop_head(self, f, b, s, ctx, headts):
        s0 = s
        s = s.copy()
        s.env.pop(('UN', ctx, b), None)
        vs, fs = self.s.loop_mods(f, b)
        site = ('loop', ctx, f.id, b)
        lp = []
        for v in sorted(vs):
            p = self.varpath(v, ctx)
            e = s.env.get(p)
            if isinstance(e, tuple):
                q = self.canon(p, s)
                old = self.load(q, s)
                self.havoc(q, s, mk('it', site, 'ref', old), site)
                lp.append((q, s.env.get(q)))
                continue
            if e is None and v not in self.frames[ctx][2]:
                continue
            if e is None:
                # declared inside the loop
                continue
            if (site, v) in self.invs:
                continue
            if (site, v) in self.fills and isT(e) and e.op == 'resize':
                self.fillsize[mk('it', site, v, EMPTY)] = e.a[1]
                e = EMPTY
            self.havoc(p, s, mk('it', site, v, e), site)
            lp.append((p, s.env[p]))
        if fs:
            for q in [q for q in s.env if self._inv(q, fs)]:
                e = s.env[q]
                if isT(e) and e.op == 'it' and e.a[0] == site:
                    continue
                s.env[q] = mk('it', site, str(q[2]) if len(q) > 2 else 'x', e) if isT(e) and q[0] in ('F', 'G', 'S') else None
                if s.env[q] is None:
                    del s.env[q]
                else:
                    lp.append((q, s.env[q]))
            for x in fs:
                s.ep[x] = site
        s.env[('LP', ctx, b)] = ('LPV',) + tuple(lp)
        self.res.heads.update(it for q, it in lp if isT(it))
        for q, it in lp:
            if isT(it):
                self.res.loopentries.setdefault(it, []).append(s0)
        if self.o.loophead is not None:
            s.ts = frozenset(self.o.loophead(f, b, s))
        headts.setdefault((ctx, b, 'st'), []).append(s.copy())
        return s

    def run_block(self, f, bl, ctx, sts):
        for e in bl['el']:
            if not sts:
                return []
            nxt = []
            for s in sts:
                if isinstance(e, int):
                    nxt.extend(self.eval(f, e, ctx, s))
                elif e['k'] == 'decl':
                    for v in e['vars']:
                        self.decl(f, v, ctx, s)
                    nxt.append(s)
                elif e['k'] == 'ret':
                    if e.get('v') is not None:
                        v = self.node(f, e['v'], ctx, s)
                        if isinstance(v, tuple) and not f.ret.endswith('&'):
                            v = self.load(v[1], s)
                        s.tmp[(ctx, 'ret')] = v
                        if len(self.stack) == 1:
                            self.emit('return', f.name, f.id, None, [v if isT(v) else self.load(v[1], s)], f, e, ctx, s, VOID)
                    elif len(self.stack) == 1:
                        self.emit('return', f.name, f.id, None, [], f, e, ctx, s, VOID)
                    nxt.append(s)
                elif e['k'] == 'initm' and 'n' in e:
                    if e.get('v') is not None:
                        v = self.rv(f, e['v'], ctx, s)
                        p = ('F', self.thisval(ctx), e['n'])
                        self.store(p, v, s, (ctx, f.id, e['n']))
                    nxt.append(s)
                else:
                    nxt.append(s)
            if len(nxt) > 1 and nxt is not sts and len(nxt) > len(sts):
                nxt = self.compress(nxt, f, ('el', bl['id'], e if isinstance(e, int) else 0), ctx)
            sts = nxt
        if bl.get('noret') and not bl['s']:
            return []
        return sts

    def decl(self, f, v, ctx, s):
        p = ('L', ctx, v['n'])
        for q in [q for q in s.env if q[0] in ('S', 'I') and is_prefix(p, q)]:
            del s.env[q]
        ini = v.get('init')
        ty = v.get('ty', '')
        if ini is None or v.get('static') and not ty.startswith('const '):
            # a static local keeps the value of an earlier call
            s.env[p] = mk('u', p)
            return
        val = self.node(f, ini, ctx, s)
        if ty.endswith('&') and isinstance(val, tuple):
            s.env.pop(p, None)
            s.env[p] = ('REF', self.canon(val[1], s))
            return
        if isinstance(val, tuple):
            val = self.load(val[1], s)
        s.env[p] = val

    def branch(self, f, bl, ctx, s):
        t = bl.get('t')
        ss = bl['s']
        if not t or len(ss) < 2:
            return [(x, s) for x in ss[:1]]
        c = t.get('c')
        if t['k'] == 'SwitchStmt':
            return self.switch(f, bl, ctx, s, c)
        if c is None:
            return [(x, s.copy()) for x in ss]
        v = self.rv(f, c, ctx, s)
        mac = t.get('m')
        tv = s.truth(v)
        out = []
        if tv is not None:
            return [(ss[0] if tv else ss[1], s)]
        if mac in PURE_MACROS:
            return [(ss[0], s.copy()), (ss[1], s)]
        s1 = s.copy()
        if s1.assume(v, True):
            out.append((ss[0], s1))
        if s.assume(v, False):
            out.append((ss[1], s))
        return out

    def switch(self, f, bl, ctx, s, c):
        v = s.cval(self.rv(f, c, ctx, s))
        out = []
        labs = []
        default = None
        for t in bl['s']:
            if t is None:
                continue
            lab = f.blocks[t].get('lab')
            if lab and lab['k'] == 'case':
                cv = self.labval(f, lab['v'])
                labs.append((t, cv))
            else:
                default = t
        if v.op in ('e', 'i'):
            for t, cv in labs:
                if cv is v:
                    return [(t, s)]
            return [(default, s)] if default is not None else []
        seen = []
        for t, cv in labs:
            s1 = s.copy()
            seen.append(cv)
            if s1.assume(eq(v, cv), True):
                out.append((t, s1))
        if default is not None:
            ok = True
            for cv in seen:
                if not s.assume(eq(v, cv), False):
                    ok = False
                    break
            if ok:
                out.append((default, s))
        return out

    def labval(self, f, v):
        if isinstance(v, int) and not isinstance(v, bool):
            n = f.nodes[v]
            if n['k'] == 'enum':
                return E(n['n'].split('::')[-1], n.get('ty', '').split('::')[-1])
            if 'cv' in n:
                return I(n['cv'])
            if n['k'] == 'int':
                return I(n['v'])
        return mk('x', str(v))

    # ---------------------------------------------------------------- entry point
    def run(self, f, init=None, params=None, facts=()):
        ctx = ()
        self.frames[ctx] = (f, None, self.declared(f), None)
        self.stack = [(f, f.line)]
        st = St()
        for j, p in enumerate(f.params):
            st.env[('L', ctx, p['n'])] = mk('p', j, p['name'])
        for j, v in (params or {}).items():
            st.env[('L', ctx, f.params[j]['n'])] = v
        for path, v in (init or {}).items():
            st.env[path] = v
        for t, v in facts:
            if not st.assume(t, v):
                raise Broken('contradictory initial facts for %s' % f.name)
        self.res.exits = self.run_function(f, ctx, st)
        self.res.exits = [(self.load(r[1], s) if isinstance(r, tuple) else (r if r is not None else VOID), s)
                          for r, s in self.res.exits]
        return self.res


# assignments that copy the value (checked by the rule assign-copies of C16)
VALUE_ASSIGN = {'ethos::%s::operator=' % c for c in ('Integer', 'Rational', 'BitVector', 'String', 'Filepath')}


def cls_model(name):
    return name.startswith('ethos::Expr::') or name.startswith('ethos::ExprValue::') or name == 'ethos::TypeChecker::isGround' \
        or name.startswith('ethos::Literal::asLiteral') or name in VALUE_ASSIGN


def path_ctx(q):
    while q[0] in ('S', 'I'):
        q = q[1]
    return q[1] if q[0] == 'L' else None


_kp = {}


def kind_predicates(prog):
    """bool functions of one Kind (or Attr, Token): the set of constants on which they hold"""
    r = _kp.get(id(prog))
    if r is not None:
        return r
    _kp[id(prog)] = {}
    out = {}
    for f in list(prog.funcs.values()):
        if f.ret != 'bool' or len(f.params) != 1 or not f.blocks or f.cls:
            continue
        ty = f.params[0]['ty'].replace('ethos::', '').replace('const ', '').strip()
        en = prog.enums.get('ethos::' + ty)
        if not en:
            continue
        trues = set()
        ok = True
        for v in en['values']:
            c = E(v['n'].split('::')[-1], ty)
            o = Opt()
            o.nokp = True
            ip = Interp(prog, o)
            # calls to other predicates are inlined
            ip.want_inline = lambda g, n: True
            try:
                res = ip.run(f, params={0: c})
            except Broken:
                ok = False
                break
            vals = {x for x, s in res.exits}
            if vals == {TRUE}:
                trues.add(c)
            elif vals != {FALSE}:
                ok = False
                break
        if ok:
            out[f.name] = frozenset(trues)
    _kp[id(prog)] = out
    return out


def analyze(prog, f, init=None, params=None, facts=(), **kw):
    inv = kw.pop('inv', False)
    ip = Interp(prog, Opt(**kw))
    r = ip.run(f, init, params, facts)
    while True:
        c = constants(r) | ip.invs if inv else ip.invs
        cp = dict(ip.copies)
        for k, d in copies(r).items():
            cp[k] = d[:2] + (d[2] | cp.get(k, d)[2],)
        fl = ip.fills or fills(r)
        if fl is not ip.fills and fl:
            pass
        elif c == ip.invs and cp == ip.copies:
            break
        steps = r.steps
        ip = Interp(prog, Opt(**kw))
        ip.invs = c
        ip.copies = cp
        ip.fills = fl
        r = ip.run(f, init, params, facts)
        r.steps += steps
    r.interp = ip
    return r


def shape(t):
    """a term up to the values variables have at loop heads"""
    if not isT(t):
        return tuple(map(shape, t)) if isinstance(t, tuple) else t
    if t.op == 'it':
        return ('it', t.a[0], t.a[1])
    return (t.op,) + tuple(shape(x) for x in t.a)


def fills(r):
    """vectors made with a size, of which a loop then sets each element in turn"""
    out, no = {}, set()
    for t, l in r.loopstates.items():
        e = t.a[-1] if t.op == 'it' else None
        if not isT(e) or e.op != 'resize' or e.a[0] is not EMPTY:
            continue
        n = e.a[1]
        ok = t not in r.unsure and bool(l)
        for v, st in l:
            if v is t:
                # not set: keeps what it was made with
                continue
            i = v.a[1] if v.op == 'set' and v.a[0] is t else None
            ok = ok and i is not None and i.op == 'it' and i.a[0] == t.a[0] and i.a[-1] is I(0) and i not in r.unsure \
                and all(w.op == 'plus' and w.a[0] is i and w.a[1] is I(1) for w in r.loopvals.get(i, [VOID])) \
                and (st.truth(mk('lt', i, n)) is True or st.truth(mk('lt', i, size(t))) is True) and not any(y.op == 'idx' and y.a[0] is t for y in subterms(v.a[2]))
        if ok and all(v is t for v, st in l):
            ok = False
        if ok:
            out[t.a[:2]] = e.a[2] if len(e.a) > 2 else NULL
        else:
            no.add(t.a[:2])
    return {k: v for k, v in out.items() if k not in no}


def copies(r):
    """the containers to which every iteration of a loop adds the current element of another one (and nothing else)"""
    out, no = {}, set()
    for t, vs in r.loopvals.items():
        if t.op != 'it':
            continue
        k = t.a[:2]
        if k in no:
            continue
        for v in vs:
            w = v.a[1] if v.op == 'push' and v.a[0] is t else None
            x = d = None
            if isT(w) and w.op == 'deref' and w.a[0].op == 'it' and isT(w.a[0].a[-1]) and w.a[0].a[-1].op == 'begin':
                x, d = w.a[0], ('deref', w.a[0].a[1])
            elif isT(w) and w.op == 'idx' and isT(w.a[1]) and w.a[1].op == 'it' and w.a[1].a[-1] is I(0):
                x, d = w.a[1], ('idx', w.a[1].a[1])
            if x is None or t in r.unsure or x.a[0] != t.a[0] or x in r.unsure or any(y is t for y in subterms(w)) \
                    or not all(y.op == 'plus' and y.a[0] is x and y.a[1] is I(1) for y in r.loopvals.get(x, [VOID])) or k in out and out[k][0] != d:
                no.add(k)
                break
            out.setdefault(k, (d, set()))[1].add(shape(w.a[0]) if d[0] == 'idx' else None)
    return {k: d + (frozenset(c),) for k, (d, c) in out.items() if k not in no}


def constants(r):
    """the variables that have their (constant) initial value whenever a loop head is reached: an inductive argument over
    all back edges, established without assuming it"""
    def base(t):
        while isT(t) and t.op == 'it':
            t = t.a[-1]
        return t
    # the head is never reached again
    sites = {t.a[0] for t in r.loopvals if t.op == 'it'} | {('loop', x, f.id, h) for f, h, st, x in r.backs}
    never = frozenset(t.a[:2] for t in r.heads if t.op == 'it' and t.a[0] not in sites)
    cand = {t for t in r.loopvals if t.op == 'it' and t not in r.unsure and isT(base(t)) and (base(t).op in ('b', 'e', 'i') or all(v is t for v in r.loopvals[t]))}
    while True:
        bad = set()
        for t in cand:
            k = base(t)
            for v, st in r.loopstates[t]:
                if not (v is k or v is t or st.cval(v) is k or v in cand and base(v) is k):
                    bad.add(t)
                    break
            x = t.a[-1]
            if isT(x) and x.op == 'it' and x not in cand:
                bad.add(t)
        # one variable of one loop may have several values
        keys = {t.a[:2] for t in bad} | {t.a[:2] for t in r.loopvals if t.op == 'it' and t not in cand}
        bad |= {t for t in cand if t.a[:2] in keys}
        if not bad:
            return frozenset(t.a[:2] for t in cand) | never
        cand -= bad
