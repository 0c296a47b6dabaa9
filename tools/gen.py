#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, note='', state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append((d, claim, na, note))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _, _ in P:
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sa/selfcheck.py',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks: /repo carries only fix: commits. All checks read the LLVM IR that clang produces from /repo\'s current sources.'}
for d, claim, na, note in P:
    if claim:
        m['checks'].append({'property': d['id'], 'quick_cmd': 'python3 sa/run.py %s' % d['id'],
                            'thorough_cmd': 'python3 sa/run.py %s --tier thorough' % d['id'],
                            'technique': claim, 'level': 'other', 'level_note': note})
    else:
        m['not_applicable'].append({'property': d['id'], 'reason': na})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
