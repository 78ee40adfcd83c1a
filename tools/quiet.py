#!/usr/bin/env python3
"""quiet.py ROOT [STEP]: every STEP-th scenario on another source root; prints the alarms and what got undecided."""
import os, sys, collections, time
sys.argv, args = sys.argv[:1] + ['none'], sys.argv[1:]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools import mutate as M
from concurrent.futures import ProcessPoolExecutor


def work(a):
  root, ix = a
  P = M.Program(root)
  out = []
  for i in ix:
    bad, res, why = M.run1(P, M.S[i], 60)
    fails = [(o.rule, o.detail, o.site) for _, o in bad or ()]
    opens = [o.detail for o in res.obligations if o.status == 'open']
    out.append((i, fails, opens, why, len(res.obligations)))
  return out


if __name__ == '__main__':
  root, step = args[0], int(args[1]) if len(args) > 1 else 1
  ix = list(range(0, len(M.S), step))
  t = time.time()
  with ProcessPoolExecutor(8) as ex:
    rs = [x for r in ex.map(work, [(root, ix[k::64]) for k in range(64)]) for x in r]
  f, o, n = collections.Counter(), collections.Counter(), 0
  eg = {}
  for i, fails, opens, why, k in rs:
    n += k
    for r in fails:
      key = (M.S[i].mod, r[0], r[2])
      f[key] += 1
      eg.setdefault(key, (M.S[i].construct, r[1][:160]))
    for r in opens:
      o[r[:110]] += 1
    if why:
      o[why] += 1
  print(root, len(rs), 'scenarios', n, 'obligations', sum(f.values()), 'ALARMS', sum(o.values()), 'open', round(time.time() - t), 's')
  for k, c in f.most_common(12):
    print('   ALARM', c, k, eg[k])
  for k, c in o.most_common(8):
    print('   open ', c, k)
