"""Obligations, violations, evidence."""
import os, json, time
import facts, absint
from facts import Broken, Program, VERIF
from terms import *

_progs = {}


def program(config='release'):
    if config not in _progs:
        _progs[config] = Program(config)
    return _progs[config]


def known_findings():
    """lines 'known: property=<id> key=<obligation key> <what fails>' (and 'fixed:' lines, which suppress nothing)"""
    r = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                d = dict(w.split('=', 1) for w in l.split()[1:3])
                r[(d['property'], d['key'])] = l.strip()[7:]
    return r


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obl = {}            # rule -> [ (inst, ok, where, detail) ]
        self.rules = {}          # rule -> text
        self.analysed = set()
        self.paths = self.steps = self.runs = 0
        self.capped = []
        self.floors = {}
        self.samples = []
        self.assumptions = []

    @property
    def prog(self):
        return program('release')

    @property
    def dbg(self):
        return program('debug')

    # -- rules and obligations
    def rule(self, name, text, floor=1):
        """declare a rule; fewer than `floor` instances means its anchors vanished"""
        self.rules[name] = text
        self.floors[name] = floor
        self.obl.setdefault(name, [])

    def ob(self, rule, ok, where, inst, detail=None, st=None):
        if rule not in self.rules:
            raise Broken('undeclared rule ' + rule)
        if hasattr(where, 'where'):
            where = where.where()
        elif isinstance(where, facts.Func):
            where = '%s:%d (%s)' % (where.file, where.line, where.name)
        d = None
        if not ok:
            d = detail() if callable(detail) else detail
            if st is not None:
                d = (d or '') + '\n    path facts:\n' + '\n'.join('      %s: %s' % x for x in st.allfacts()[:60])
        self.obl[rule].append((inst, bool(ok), where, d))
        return ok

    def analyze(self, f, **kw):
        return self.run_analysis(self.prog, f, **kw)

    def run_analysis(self, prog, f, **kw):
        if isinstance(f, str):
            f = prog.fn1(f)
        r = absint.analyze(prog, f, **kw)
        self.runs += 1
        self.analysed |= {prog.funcs[g].name for g in r.funcs if g in prog.funcs}
        self.analysed.add(f.name)
        self.steps += r.steps
        self.paths += len(r.exits) + len(r.aborts)
        if r.capped:
            self.capped.append(f.name)
        r.f = f
        return r

    def touch(self, *names):
        self.analysed |= set(names)

    def finish(self):
        for r, n in self.floors.items():
            if len(self.obl[r]) < max(1, n // 3):
                raise Broken('rule %s of %s found %d instances, expected at least %d: its anchors vanished'
                             % (r, self.pid, len(self.obl[r]), n))

    def report(self, t0, broken):
        known = known_findings()
        viol, kf = [], []
        seen = set()
        for rule, obs in self.obl.items():
            for inst, ok, where, d in obs:
                if ok:
                    continue
                key = rule + ':' + inst.replace(' ', '_')
                if key in seen:
                    continue
                seen.add(key)
                if (self.pid, key) in known:
                    kf.append((key, known[(self.pid, key)]))
                else:
                    viol.append((rule, inst, where, d))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        total = sum(len(o) for o in self.obl.values())
        good = sum(1 for o in self.obl.values() for x in o if x[1])
        samples = []
        for rule, obs in self.obl.items():
            u = {}
            for inst, ok, where, d in obs:
                u.setdefault(inst, where)
            for inst, where in sorted(u.items())[:3]:
                samples.append({'rule': rule, 'instance': inst, 'at': where})
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
            'coverage': {
                'explanation': 'Static analysis of the resolved program of %s/src (clang 18 AST and CFG, %s): a forward '
                               'path-sensitive dataflow analysis (value numbering, branch facts, typestate) and queries over the '
                               'resolved call graph and declarations. An obligation is one instance of a rule at a construct '
                               'of the current source.' % (facts.REPO, '/'.join(sorted(_progs))),
                'rules': {r: {'text': t, 'instances': len(self.obl[r]),
                              'distinct': len({x[0] for x in self.obl[r]}),
                              'holding': sum(1 for x in self.obl[r] if x[1])} for r, t in self.rules.items()},
                'obligations': total, 'discharged': good,
                'functions_analysed': sorted(self.analysed)[:200], 'n_functions_analysed': len(self.analysed),
                'analyses_run': self.runs, 'paths_to_exit': self.paths, 'abstract_steps': self.steps,
                'capped_functions': sorted(set(self.capped)),
                'samples': samples,
                'known_findings': [k for k, _ in kf],
            },
            'assumptions': self.assumptions,
        }
        if broken:
            ev['coverage']['broken'] = broken[-2000:]
        ef = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(ef + '.tmp', 'w') as fh:
            json.dump(ev, fh, indent=1)
        os.replace(ef + '.tmp', ef)
        for key, text in kf:
            print('KNOWN-FINDING: %s' % text)
        if viol:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as fh:
                for rule, inst, where, d in viol:
                    fh.write('property %s, rule %s: %s\n  instance: %s\n  at: %s\n%s\n\n'
                             % (self.pid, rule, self.rules[rule], inst, where, '  ' + d if d else ''))
            for rule, inst, where, d in viol[:8]:
                print('  %s: %s\n    at %s%s' % (rule, inst, where, ('\n    ' + d.split('\n')[0][:300]) if d else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if broken:
            print('BROKEN property=%s: %s' % (self.pid, broken[-1500:]))
            return 2
        print('ok property=%s obligations=%d functions=%d wall=%.1fs' % (self.pid, total, len(self.analysed), time.time() - t0))
        return 0
