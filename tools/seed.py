#!/usr/bin/env python3
"""Builds and validates the planted bugs of tools/seeds.py in scratch copies.

  seed.py [ID ...]        write seeded/<id>/ and validate (demo clean=0, patched!=0, tests pass)
  seed.py --check [ID..]  run the property's check against each planted bug (scratch copy, --root)
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.seeds import SEEDS
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def sh(cmd, cwd=None, timeout=900, env=None):
  return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                        text=True, timeout=timeout, env=env or ENV)


def copy():
  d = tempfile.mkdtemp(prefix='pbseed.')
  sh(f"cp -a /repo {d}/r")
  sh("git checkout -q -- . && git clean -fdq", cwd=d + '/r')
  return d, d + '/r'


def edit(root, s):
  for f, a, b in s['edits']:
    p = os.path.join(root, f)
    t = open(p).read()
    assert t.count(a) == 1, (s['id'], f, t.count(a), a)
    open(p, 'w').write(t.replace(a, b))


def demo(sd, root):
  # the demo imports the package from its working directory
  return sh(f"bash {sd}/demo.sh", cwd=root, timeout=300)


def one(s, tests=True):
  sd = os.path.join(HERE, 'seeded', s['id'])
  os.makedirs(sd, exist_ok=True)
  with open(sd + '/demo.sh', 'w') as f:
    f.write('#!/bin/bash\n# cwd: the repository under test\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            'export PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
  with open(sd + '/demo.py', 'w') as f:
    f.write(s['demo'].lstrip('\n'))
  json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
            open(sd + '/meta.json', 'w'), indent=1)
  d, root = copy()
  try:
    r0 = demo(sd, root)
    edit(root, s)
    diff = sh("git diff", cwd=root).stdout
    open(sd + '/patch.diff', 'w').write(diff)
    r1 = demo(sd, root)
    msg = f"{s['id']}: clean rc {r0.returncode}, patched rc {r1.returncode}"
    if r0.returncode:
      msg += '\n   CLEAN FAILS ' + r0.stdout[-600:]
    if not r1.returncode:
      msg += '\n   NOT SHOWN ' + r1.stdout[-300:]
    if tests:
      for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/repo', root)
        open(f"{d}/{n}", 'w').write(t)
      b = sh(f"bash {d}/build.sh")
      t = sh(f"bash {d}/test.sh {d}/out.json")
      stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
      passed = set(json.load(open(d + '/out.json'))['passed'])
      miss = sorted(stable - passed)
      msg += f", build rc {b.returncode}, stable tests missing {len(miss)} {miss[:4]}"
    return msg
  finally:
    shutil.rmtree(d)


def check(s):
  d, root = copy()
  try:
    edit(root, s)
    r = sh(f"python3 -m pbsa.check {s['prop']} --tier quick --root {root} -j 4", cwd=HERE)
    lines = r.stdout.strip().splitlines()
    return f"{s['id']} [{s['prop']}]: rc {r.returncode} " + ('CAUGHT ' if r.returncode == 1 else 'MISSED ') + \
        (' '.join(l.strip() for l in lines if 'broken at' in l)[:260] if r.returncode == 1 else lines[-1][:200] if lines else '')
  finally:
    shutil.rmtree(d)


if __name__ == '__main__':
  args = sys.argv[1:]
  chk = '--check' in args
  notest = '--notest' in args
  ids = [a for a in args if not a.startswith('--')]
  todo = [s for s in SEEDS if not ids or s['id'] in ids]
  with cf.ThreadPoolExecutor(2 if chk else 3) as ex:
    for m in ex.map(check if chk else (lambda s: one(s, not notest)), todo):
      print(m, flush=True)
