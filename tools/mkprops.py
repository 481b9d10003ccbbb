#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays reviewable)."""
import json, os

F = 'pilo/fields.py'
C = 'pilo/context.py'
I = 'pilo/__init__.py'
S = 'pilo/source/__init__.py'
SD, SJ, SC, SU, SM = ('pilo/source/%s.py' % n for n in ('default', 'json', 'configparser', 'union', 'mount'))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, title
    d = {
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        },
    }
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    P.append(d)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_table.py')).read())

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fo:
    for d in P:
        fo.write(json.dumps(d) + '\n')
print(len(P), 'properties')
