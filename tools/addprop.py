#!/usr/bin/env python3
"""addprop.py ID TITLE STATEMENT OVER QUANT WHY FILES MECH OBSERVE  (or import add) : append or replace a property"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = HERE + '/properties.jsonl'


def add(id, title, statement, over, quant, why, files, mech, observe):
    assert len(title) <= 80, len(title)
    ps = [json.loads(l) for l in open(F)]
    p = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}}
    for i, q in enumerate(ps):
        if q['id'] == id:
            ps[i] = p
            break
    else:
        ps.append(p)
    ps.sort(key=lambda q: q['id'])
    with open(F, 'w') as f:
        for q in ps:
            f.write(json.dumps(q, ensure_ascii=False) + '\n')
