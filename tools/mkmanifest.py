#!/usr/bin/env python3
"""writes MANIFEST.json from the property list and the checks present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
NOTE = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
DEF = 'static analysis: abstract interpretation of the typed syntax tree into algebraic terms (global value numbering); equality of terms decided by normal form, difference reported only with a separating random interpretation'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')) and i not in NA:
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=n.get('technique', DEF), level='other', level_note=n.get('note', 'all obligations enumerated from the current source; undecided obligations are listed in the evidence and not claimed')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
old = json.load(open(os.path.join(V, 'MANIFEST.json')))
old.update(setup_cmd='bash extract/build.sh', checks=checks, not_applicable=na)
json.dump(old, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
