#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present and the properties listed."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
sys.path[:0] = [H + '/lib', H + '/checks']
notes = json.load(open(H + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (H, i.lower())):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=n.get('technique', 'TLA+ specification checked with TLC, trace validation and replay'), level='model_checking',
                           level_note=n.get('note', 'Exhaustive on the specification in small scopes; the real code is bound by replaying generated behaviours and validating recorded traces.')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
