#!/usr/bin/env python3
"""writes MANIFEST.json from registry.py and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in registry.PROPS:
        s = registry.PROPS[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': s.get('technique', registry.TECHNIQUE),
            'level': s.get('level', 'other'),
            'level_note': s.get('note', registry.NOTE),
        })
    else:
        na.append({'property': pid, 'reason': registry.NOT_APPLICABLE[pid]})
doc = {
    'version': 1,
    'setup_cmd': 'python3 -m py_compile check.py registry.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Everything is decided from the source of /repo by /verif/absint (abstract interpretation written for '
             'this repository, Python standard library only); /repo is neither imported nor executed. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fo:
    json.dump(doc, fo, indent=1)
    fo.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
