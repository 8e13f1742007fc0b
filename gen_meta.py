#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py"""
import json
from meta import P
from checks import CHECKS
try:
    from meta import NA
except ImportError:
    NA = []
with open('properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], **({'observe_at': p['observe']} if p['observe'] else {})}}) + '\n')
claimed = [p for p in P if p['id'] in CHECKS]
na = [{'property': i, 'reason': r} for i, r in NA]
assert {p['id'] for p in P} == {p['id'] for p in claimed} | {i for i, _ in NA}, 'unclaimed'
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import checks, meta"',
           'checks': [{'property': p['id'], 'quick_cmd': f'./check {p["id"]} --tier quick', 'thorough_cmd': f'./check {p["id"]} --tier thorough',
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] or 'generated search, no absence claim'} for p in claimed],
           'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
