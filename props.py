#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json. A property is claimed iff rules/<id>.py exists."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech,
                  note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(HERE, 'props_data.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            if not p['na'] and not os.path.exists(os.path.join(HERE, 'rules', p['id'].lower() + '.py')):
                continue
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                            'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mech']],
                            'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        elif os.path.exists(os.path.join(HERE, 'rules', p['id'].lower() + '.py')):
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                                'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                                'evidence_file': 'evidence/%s.json' % p['id'],
                                'technique': 'static analysis: ' + p['tech'], 'level': 'other', 'level_note': p['note'] or NOTE})
    m['notes'] = 'Static analysis only; no hooks in /repo. See DESIGN.md.'
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
