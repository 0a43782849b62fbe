"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'props', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': './check %s' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough ./check %s thorough' % pid,
            'technique': NOTES[pid]['technique'],
            'level': 'model_checking',
            'level_note': NOTES[pid]['note'],
        })
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; recorded calls of the real code are validated against them. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not yet')
