"""writes MANIFEST.json (run by hand after changing what is claimed)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = 'path-sensitive abstract interpretation (linear terms), two build variants'
CLAIMED = json.load(open(os.path.join(HERE, 'tools', 'claimed.json')))
NA = json.load(open(os.path.join(HERE, 'tools', 'na.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({
            'property': i,
            'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % i,
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', ABS),
            'level': 'other',
            'level_note': c['note'],
        })
    else:
        na.append({'property': i, 'reason': NA[i]})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -m compileall -q sa check.py', 'checks': checks,
           'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
