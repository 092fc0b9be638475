#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from spec/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path.insert(0, here)
import props
with open(V + '/properties.jsonl', 'w') as fh:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}
        fh.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
for p in props.PROPS:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                            'thorough_cmd': 'python3 check.py ' + p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m['notes'] = 'No hooks in /repo: every check reads the current sources with a clang-based front end (ccx/) and never executes them.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
