"""Loads the resolved program of /repo's current tree (via tool/extract)."""
import json, os, subprocess, sys, tempfile, shutil, glob, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'


class Broken(Exception):
    """The analysis could not be carried out (not a verdict)."""


def extractor():
    for p in (os.path.join(VERIF, 'build', 'extract'),):
        if os.path.exists(p) and os.path.getmtime(p) >= os.path.getmtime(os.path.join(VERIF, 'tool', 'extract.cpp')):
            return p
    subprocess.check_call(['bash', os.path.join(VERIF, 'setup.sh')], stdout=subprocess.DEVNULL)
    return os.path.join(VERIF, 'build', 'extract')


CONFIGS = {
    'release': ['-DNDEBUG'],
    'debug': ['-DEO_ASSERTIONS', '-DEO_TRACING'],
}


def sources():
    src = os.path.join(REPO, 'src')
    r = []
    for d, _, fs in os.walk(src):
        r += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(r)


def extract(config='release'):
    """-> list of per-TU dicts"""
    ex = extractor()
    src = os.path.join(REPO, 'src')
    tmp = tempfile.mkdtemp(prefix='vfacts')
    try:
        def one(i_f):
            i, f = i_f
            out = os.path.join(tmp, '%d.json' % i)
            cmd = [ex, src, out, f, '--', '-std=gnu++17', '-w', '-O0', '-I' + src, '-xc++',
                   '-resource-dir', LLVM + '/lib/clang/18'] + CONFIGS[config]
            p = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
            if p.returncode != 0 or not os.path.exists(out):
                raise Broken('cannot parse %s:\n%s' % (f, p.stderr[-2000:]))
            with open(out) as fh:
                return json.load(fh)
        fs = sources()
        if len(fs) < 10:
            raise Broken('found only %d source files' % len(fs))
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as p:
            return fs, list(p.map(one, enumerate(fs)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Func:
    __slots__ = ('id', 'name', 'cls', 'file', 'line', 'endline', 'ret', 'params', 'nodes', 'blocks', 'entry', 'exit',
                 'loops', 'raw', '_rpo', '_heads', '_loopinfo', 'isconst', 'virtual', 'overrides', '_cross', 'short', '_preds')

    def __init__(self, d):
        self.raw = d
        self.id = d['id']
        self.name = d['name']
        self.short = self.name.split('::')[-1]
        self.cls = d.get('cls')
        self.file = d['file']
        self.line = d['line']
        self.endline = d['endline']
        self.ret = d['ret']
        self.params = d['params']
        self.nodes = d.get('nodes', [])
        self.isconst = d.get('const', False)
        self.virtual = d.get('virtual', False)
        self.overrides = d.get('overrides', [])
        self.blocks = {b['id']: b for b in d.get('blocks', [])}
        self.entry = d.get('entry')
        self.exit = d.get('exit')
        self.loops = d.get('loops', [])
        self._rpo = self._heads = self._loopinfo = self._cross = self._preds = None

    def __repr__(self):
        return '<%s>' % self.name

    def succs(self, b):
        return [s for s in self.blocks[b]['s'] if s is not None]

    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.blocks}
            for b in self.blocks:
                for s in self.succs(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(self.entry, iter(self.succs(self.entry)))]
            seen.add(self.entry)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            order.reverse()
            self._rpo = {b: i for i, b in enumerate(order)}
        return self._rpo

    def loopinfo(self):
        """head -> set of blocks of the natural loop (union over back edges)"""
        if self._loopinfo is None:
            rpo = self.rpo()
            preds = self.preds()
            info = {}
            for b in rpo:
                for s in self.succs(b):
                    if rpo[s] <= rpo[b]:
                        body = info.setdefault(s, {s})
                        work = [b]
                        while work:
                            x = work.pop()
                            if x in body or x not in rpo:
                                continue
                            body.add(x)
                            work.extend(preds[x])
            self._loopinfo = info
        return self._loopinfo

    def subnodes(self, i):
        """all node ids in the expression tree rooted at i"""
        out, work = [], [i]
        while work:
            n = work.pop()
            if n is None or n < 0:
                continue
            out.append(n)
            work.extend(children(self.nodes[n]))
        return out

    def elements(self):
        """(block id, element) for all elements of reachable blocks"""
        rpo = self.rpo()
        for b in sorted(rpo, key=lambda x: rpo[x]):
            for e in self.blocks[b]['el']:
                yield b, e

    def calls(self):
        """(block, node id, node) of all call nodes evaluated in reachable blocks"""
        for b, e in self.elements():
            if isinstance(e, int):
                n = self.nodes[e]
                if n['k'] in ('call', 'ctor'):
                    yield b, e, n


def children(n):
    k = n['k']
    if k in ('call', 'ctor'):
        r = list(n.get('a', []))
        if 'obj' in n:
            r = [n['obj']] + r
        if 'fx' in n:
            r.append(n['fx'])
        return r
    if k in ('bin', 'assign'):
        return [n['a'], n['b']]
    if k in ('un', 'cast'):
        return [n['a']]
    if k == 'cond':
        return [n['c'], n['a'], n['b']]
    if k == 'init':
        return list(n['a'])
    if k in ('mem', 'mfref', 'delete'):
        return [n['b']]
    if k == 'idx':
        return [n['b'], n['i']]
    if k == 'new':
        return [n['c']] if 'c' in n else []
    if k == 'binding':
        return [n['of']] if 'of' in n else []
    return []


class Program:
    def __init__(self, config='release'):
        self.config = config
        self.files, tus = extract(config)
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        for tu in tus:
            for f in tu['functions']:
                if f['id'] not in self.funcs:
                    self.funcs[f['id']] = Func(f)
            for r in tu['records']:
                self.records[r['name']] = r
            for e in tu['enums']:
                self.enums[e['name']] = e
            for g in tu['globals']:
                if g['n'] not in self.globals or 'init' in g:
                    self.globals[g['n']] = g
        self.byname = {}
        for f in self.funcs.values():
            self.byname.setdefault(f.name, []).append(f)
        self._mods = None
        self._cg = None
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.overrides:
                self.overriders.setdefault(o, []).append(f.id)

    def fn(self, name, optional=False):
        """the functions of the given qualified name (namespace ethos is implied)"""
        for n in (name, 'ethos::' + name):
            if n in self.byname:
                return self.byname[n]
        if optional:
            return []
        raise Broken('anchor vanished: function %s' % name)

    def fn1(self, name, nparams=None):
        c = self.fn(name)
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if len(c) != 1:
            c2 = [f for f in c if f.blocks]
            if len(c2) == 1:
                return c2[0]
            raise Broken('anchor ambiguous: function %s (%d)' % (name, len(c)))
        return c[0]

    def enum(self, name):
        e = self.enums.get(name) or self.enums.get('ethos::' + name)
        if not e:
            raise Broken('anchor vanished: enum %s' % name)
        return [v['n'] for v in e['values']]

    def record(self, name):
        e = self.records.get(name) or self.records.get('ethos::' + name)
        if not e:
            raise Broken('anchor vanished: class %s' % name)
        return e

    # -- call graph
    def callees(self, fid):
        return self.callgraph().get(fid, set())

    def callgraph(self):
        if self._cg is None:
            cg = {}
            for f in self.funcs.values():
                s = set()
                for n in f.nodes:
                    if n['k'] in ('call', 'ctor') and 'f' in n:
                        s.add(n['f'])
                        if n.get('virt'):
                            s.update(self.overriders.get(n['f'], ()))
                    if n['k'] in ('fref', 'mfref', 'lambda'):
                        s.add(n['f'])
                        s.update(self.overriders.get(n['f'], ()))
                cg[f.id] = s
            self._cg = cg
        return self._cg

    def reachable(self, roots):
        cg = self.callgraph()
        seen, work = set(), list(roots)
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work.extend(cg.get(x, ()))
        return seen

    def callsites(self, name):
        """(func, block, node id, node) calling a function of the qualified name"""
        full = {name, 'ethos::' + name}
        for f in self.funcs.values():
            for b, i, n in f.calls():
                if n.get('n') in full:
                    yield f, b, i, n
