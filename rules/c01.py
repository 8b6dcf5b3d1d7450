"""Who creates proofs, and of what."""
from common import *

CREATORS = ['CmdParser::parseNextCommand', 'State::notifyStep']


def run(c):
    c.rule('proof-kind', 'only mkProof builds a term of the kind of proofs', 2)
    c.rule('proof-creators', 'proofs are made only by the command parser and the rule checker', 3)
    c.rule('proof-commands', 'among the commands, only assume, step and declare-rule (and their variants) make proofs', 20)
    c.rule('proof-content', 'the proof that is bound is of the assumed formula or of the checked result; the proofs of declare-rule are patterns '
           'that stay in the program of the rule', 5)
    kinds(c)
    n = only_callers(c, 'proof-creators', 'State::mkProof', CREATORS)
    commands(c)


def kinds(c):
    n = 0
    for prog in (c.prog,):
        for f, node, u in enum_uses(prog, 'Kind', 'PROOF'):
            if u is not None and u['k'] == 'bin' and u['op'] in ('==', '!=') or \
                    u is not None and u['k'] == 'call' and u.get('n', '').split('::')[-1] in ('operator==', 'operator!='):
                continue
            n += 1
            own = names_of(prog, f)
            ok = own == {q('State::mkProof')}
            c.ob('proof-kind', ok, '%s:%d (%s)' % (f.file, node.get('l', 0), f.name), 'the kind of proofs is used as a value only by mkProof',
                 detail='used by ' + ', '.join(sorted(own)))
        for f in prog.funcs.values():
            for node in f.nodes:
                if node['k'] == 'cast' and node.get('ty', '').split('::')[-1] == 'Kind' and '::' in node.get('ty', ''):
                    src = f.nodes[node['a']]
                    if src.get('ty', '').split('::')[-1] != 'Kind':
                        c.ob('proof-kind', False, '%s:%d (%s)' % (f.file, node.get('l', 0), f.name), 'no kind is made from a number')
    c.ob('proof-kind', n > 0, c.prog.fn1('State::mkProof'), 'the kind of proofs is used')
    r = c.analyze('State::mkProof', watch=watch('State::mkExprInternal'))
    p = mk('p', 0, r.f.params[0]['name'])
    for e in r.events:
        ok = e.args[0] is kind('PROOF') and segments(e.args[1]) in ([('one', p)], [('one', mk('value', p))])
        c.ob('proof-content', ok, e, 'mkProof makes the proof of its argument', detail=show(e.args[1]))


def commands(c):
    MP, BIND = q('State::mkProof'), q('ExprParser::bind')
    toks = [t for t in c.prog.enum('Token')]
    for tk in toks:
        r = command(c, tk, [MP, BIND, 'State::bind', 'ExprParser::bindOverload', 'State::bindOverload'])
        mp = named(r.events, MP)
        allow = tk in ('ASSUME', 'ASSUME_PUSH', 'STEP', 'STEP_POP', 'DECLARE_RULE')
        c.ob('proof-commands', not mp or allow, mp[0] if mp else r.f, 'command %s makes %s' % (tk, 'a proof' if allow else 'no proof'))
        if not allow:
            continue
        for e in named(r.events, BIND) + named(r.events, q('State::bind')):
            v = e.args[1] if len(e.args) > 1 else e.args[0]
            pf = calls_in(v, 'State::mkProof')
            if tk in ('ASSUME', 'ASSUME_PUSH'):
                ok = is_call(v, 'State::mkProof') and is_call(cargs(v)[0], 'ExprParser::parseFormula')
                c.ob('proof-content', ok, e, tk + ' binds the proof of the formula that was read', detail=show(v))
            elif tk in ('STEP', 'STEP_POP'):
                ok = is_call(v, 'State::mkProof') and len(outs_in(cargs(v)[0], 'State::notifyStep')) == 1 and cargs(v)[0].op == 'o'
                c.ob('proof-content', ok, e, tk + ' binds the proof of the checked result', detail=show(v))
            else:
                c.ob('proof-content', not pf, e, tk + ' binds no proof', detail=show(v))
