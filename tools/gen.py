#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.table import TABLE, NOT_APPLICABLE
from pbsa.props import PROPS

TECH = 'abstract interpretation of the source (value numbering over named axes), finite trace partitions'
TECHS = {'C24': 'custom lints over the syntax trees: scope, namespace, class-family and signature resolution',
         'C29': 'effect analysis: draw events along the abstract paths of deterministic requests, and effect lints over '
                'every call site and store'}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for p in TABLE:
    q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    assert len(q['title']) <= 80, q['title']
    assert q['statement'].count('. ') <= 2, q['id']
    f.write(json.dumps(q) + '\n')
na = {x[0] for x in NOT_APPLICABLE}
checks = []
for p in TABLE:
  if p['id'] in na:
    continue
  assert p['id'] in PROPS, p['id']
  checks.append({
      'property': p['id'],
      'quick_cmd': f"python3 -m pbsa.check {p['id']} --tier quick",
      'thorough_cmd': f"python3 -m pbsa.check {p['id']} --tier thorough",
      'technique': TECHS.get(p['id'], TECH),
      'level': 'other',
      'level_note': p['level_note'],
  })
m = {'version': 1,
     'setup_cmd': 'python3 -m compileall -q pbsa',
     'checks': checks,
     'not_applicable': [{'property': a, 'reason': b} for a, b in NOT_APPLICABLE],
     'notes': 'Static analysis only: nothing of /repo is imported or executed by a check. '
              'See DESIGN.md; known_findings.txt lists repaired defects and recorded findings.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(TABLE), 'properties,', len(checks), 'checks')
