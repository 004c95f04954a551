import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']: a['observe_at'] = p['observe']
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Static analysis only: every check parses the current /repo tree with clang (AST dump by tool/spx.cpp, type checking, or LLVM IR) and decides from that; nothing of Sprout is executed. No hooks are used.'}
for p in P:
    if p['check']:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 checks/%s.py' % p['check'], 'thorough_cmd': p['thorough'] or 'VERIF_TIER=thorough python3 checks/%s.py' % p['check'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'checks')
