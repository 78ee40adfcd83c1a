#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from LOG (lines of all checks) and seeded/: design.py LOG"""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.table import TABLE
d = open(os.path.join(HERE, 'DESIGN.md')).read()
log = open(sys.argv[1]).read()
rows = ['<!-- table -->', '| | property | scenarios | obligations | functions | s |', '|---|---|---|---|---|---|']
for p in TABLE:
  m = re.search(p['id'] + r' rc=0 (\d+)s.*?: (.*)', log)
  if m:
    n = re.search(r'(\d+) scenarios', m[2])
    o = re.search(r'(\d+) obligations', m[2])
    f = re.search(r'(\d+) functions', m[2])
    rows.append(f"| {p['id']} | {p['title']} | {n[1] if n else '-'} | {o[1] if o else '-'} | {f[1] if f else '-'} | {m[1]} |")
rows.append('<!-- /table -->')
s = ['<!-- seeds -->', '| | caught by | what it breaks | needs |', '|---|---|---|---|']
for x in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
  m = json.load(open(x))
  s.append(f"| {os.path.basename(os.path.dirname(x))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
s.append('<!-- /seeds -->')
for tag, name, rs in (('@@TABLE@@', 'table', rows), ('@@SEEDS@@', 'seeds', s)):
  t = '\n'.join(rs)
  d = d.replace(tag, t)
  d = re.sub(f'<!-- {name} -->.*<!-- /{name} -->', lambda _: t, d, flags=re.S)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)
