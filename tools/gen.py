# -*- coding: utf-8 -*-
"""writes properties.jsonl and MANIFEST.json from the table in tools/table.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from table import PROPERTIES, NOT_APPLICABLE      # noqa
from sa import check                              # noqa

check.load()
with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPERTIES:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier={'over': p['over'], 'text': p['quant']}, why_tests_cant=p['why'],
                 anchors={'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None})
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for p in PROPERTIES:
    i = p['id']
    if i in check.PROPS:
        checks.append({'property': i, 'quick_cmd': 'python3 -m sa.check %s --tier quick' % i,
                       'thorough_cmd': 'python3 -m sa.check %s --tier thorough' % i,
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    else:
        assert i in NOT_APPLICABLE, i
for i, r in NOT_APPLICABLE.items():
    assert i not in check.PROPS
    na.append({'property': i, 'reason': r})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis only; see DESIGN.md. Checkers use the standard library of the system python3.'}, f, indent=1, ensure_ascii=False)
print(len(PROPERTIES), 'properties', len(checks), 'checks', len(na), 'not applicable')
