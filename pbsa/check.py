"""Driver: decide one property on the current source of /repo.

  python3 -m pbsa.check C01 [--tier quick|thorough] [--root /repo] [-v]

Exit 0: no violation outside the known findings.  Exit 1: a VIOLATION line.
Exit 2: the analysis itself is broken (the interface vanished, nothing decided).
"""
import argparse
import collections
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from .harness import Program, Result, run_scenario, run_orders   # noqa: E402
from .props import PROPS   # noqa: E402

SCN_SECONDS = 40       # ceiling per scenario; an overrun leaves it open
RUN_SECONDS = {'quick': 560, 'thorough': 3000}

_P = None
_S = None


class Overrun(Exception):
  pass


def _alarm(*_):
  raise Overrun()


def _load(root):
  return Program(root)


def _work(args):
  idx, deadline = args
  if time.time() > deadline:
    return [(i, None) for i in idx]
  out = []
  signal.signal(signal.SIGALRM, _alarm)
  for i in idx:
    if time.time() > deadline:
      out.append((i, None))
      continue
    res = Result()
    scn = _S[i]
    signal.alarm(SCN_SECONDS)
    try:
      if scn.orders:
        run_orders(_P, scn, res)
      else:
        run_scenario(_P, scn, res)
    except Overrun:
      signal.alarm(0)
      out.append((i, ('overrun', [], set(), 0, 0)))
      continue
    except RecursionError:
      signal.alarm(0)
      out.append((i, ('internal: recursion limit', [], set(), 0, 0)))
      continue
    except Exception as e:      # an unmodelled construct must not become an alarm
      signal.alarm(0)
      out.append((i, (f'internal: {type(e).__name__}: {e}', [], set(), 0, 0)))
      continue
    finally:
      signal.alarm(0)
    obl = [(o.rule, o.status, o.construct, o.detail, o.site, getattr(o, 'partition', ''))
           for o in res.obligations]
    out.append((i, ('', obl, res.funcs, res.paths, len(res.lines))))
  return out


def findings(path, prop):
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('finding:'):
        head, _, what = line[len('finding:'):].partition(' :: ')
        f = dict(kv.split('=', 1) for kv in head.split('\t') if '=' in kv)
        f = {k.strip(): v.strip() for k, v in f.items()}
        if f.get('property') == prop:
          f['what'] = what
          f['hit'] = 0
          out.append(f)
  return out


def listed(ob, known):
  for f in known:
    if f.get('rule') == ob[0] and ob[2].startswith(f.get('construct', '\0')) and \
        f.get('detail', '') in ob[3]:
      f['hit'] += 1
      return True
  return False


def main(argv=None):
  global _P, _S
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--root', default='/repo')
  ap.add_argument('-v', action='store_true')
  ap.add_argument('-j', type=int, default=0)
  a = ap.parse_args(argv)
  t0 = time.time()
  sys.setrecursionlimit(20000)
  prop = PROPS[a.prop]
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  try:
    _P = _load(a.root)
  except Exception as e:
    print(f"ANALYSIS-BROKEN property={a.prop} cannot load the package: {e}")
    return 2
  scns = []
  orders = prop.get('orders')
  for modname, want in prop['scenarios']:
    mod = importlib.import_module('pbsa.' + modname)
    for s in mod.scenarios(tier):
      if want is None or want(s):
        s.orders = orders[tier] if orders else None
        scns.append(s)
  _S = scns
  rules = prop.get('rules')
  obl, funcs, npaths, nlines = [], set(), 0, 0
  broken, skipped = [], 0
  deadline = t0 + RUN_SECONDS[tier]
  nproc = a.j or min(16, os.cpu_count() or 4)
  n = max(1, min(40, len(scns) // (nproc * 4) or 1))
  chunks = [(list(range(i, min(i + n, len(scns)))), deadline) for i in range(0, len(scns), n)]
  if chunks:
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(nproc) as pool:
      for part in pool.imap_unordered(_work, chunks):
        for i, r in part:
          if r is None:
            skipped += 1
            continue
          err, ob, fn, np_, nl = r
          if err:
            broken.append((scns[i].construct, err))
          obl += [(i,) + o for o in ob]
          funcs |= fn
          npaths += np_
          nlines = max(nlines, nl)
  obl.sort(key=lambda o: o[0])
  obl = [o[1:] for o in obl]
  lint_info = {}
  for lname in prop.get('lints', ()):
    lm = importlib.import_module('pbsa.' + lname[0])
    info, lo = getattr(lm, lname[1])(a.root)
    lint_info[lname[1]] = info
    obl += [(o.rule, o.status, o.construct, o.detail, o.site, '') for o in lo]
  if rules is not None:
    obl = [o for o in obl if o[0] in rules]
  cnt = collections.Counter(o[1] for o in obl)
  known = findings(os.path.join(HERE, 'known_findings.txt'), a.prop)
  fails = [o for o in obl if o[1] == 'fail']
  new = [o for o in fails if not listed(o, known)]
  for f in known:
    if f['hit']:
      print(f"KNOWN-FINDING: property={a.prop} {f['what']}")
  # report
  ev_dir = os.path.join(HERE, 'evidence')
  os.makedirs(ev_dir, exist_ok=True)
  decided = cnt['hold'] + cnt['fail']
  samples = []
  seen = set()
  for o in obl:
    k = (o[0], o[2].split(' ')[0])
    if o[1] == 'hold' and k not in seen and len(samples) < 24:
      seen.add(k)
      samples.append({'rule': o[0], 'construct': o[2], 'decided': o[3][:300], 'site': o[4]})
  per_rule = collections.defaultdict(collections.Counter)
  for o in obl:
    per_rule[o[0]][o[1]] += 1
  evidence = {
      'property': a.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
      'level': 'other',
      'coverage': {
          'explanation': prop['explanation'],
          'rule': prop['rule_text'],
          'scenarios': len(scns), 'paths': npaths,
          'obligations': len(obl), 'discharged': cnt['hold'], 'open': cnt['open'],
          'failed': cnt['fail'],
          'distinct_constructs': len(set(o[2] for o in obl)),
          'per_rule': {k: dict(v) for k, v in sorted(per_rule.items())},
          'functions_analysed': sorted(f for f in funcs if isinstance(f, str)),
          'scenarios_not_reached_in_time': skipped,
          'scenarios_outside_the_domains': [f"{c}: {e}" for c, e in broken[:20]],
          'open_samples': [f"{o[2]}: {o[3][:160]}" for o in obl if o[1] == 'open'][:10],
          'lints': lint_info,
          'samples': samples,
          'checker_cmd': f"python3 -m pbsa.check {a.prop} --tier {tier}",
          'exhaustive': False,
      },
      'assumptions': prop['assumptions'],
      'wall_s': round(time.time() - t0, 2),
      'violations': len(new),
  }
  with open(os.path.join(ev_dir, a.prop + '.json'), 'w') as f:
    json.dump(evidence, f, indent=1, default=str)
  print(f"property={a.prop} tier={tier}: {len(scns)} scenarios, {npaths} partitions, "
        f"{len(obl)} obligations ({cnt['hold']} hold, {cnt['fail']} fail, {cnt['open']} open), "
        f"{len(funcs)} functions analysed, {evidence['wall_s']} s")
  if broken:
    print(f"  {len(broken)} scenarios outside the domains, e.g. {broken[0]}")
  if a.v:
    for o in obl:
      if o[1] == 'open':
        print('  open:', o[0], '|', o[2], '|', o[3][:200], '|', o[4], '|', o[5])
  if new:
    rp = os.path.join(ev_dir, f"{a.prop}.replay.txt")
    groups = collections.OrderedDict()
    for o in new:
      groups.setdefault((o[0], o[4]), []).append(o)
    with open(rp, 'w') as f:
      f.write(f"Violations of {a.prop}: {prop['title']}\nRule: {prop['rule_text']}\n"
              f"Reproduce: cd /verif && python3 -m pbsa.check {a.prop} --tier {tier}\n\n")
      for (rule, site), os_ in groups.items():
        f.write(f"* rule {rule} at {site}: {len(os_)} abstract clients violate it\n")
        for o in os_[:6]:
          f.write(f"    client: {o[2]}\n    finding: {o[3]}\n    partition: {o[5]}\n")
    shown = 0
    for (rule, site), os_ in groups.items():
      print(f"  {rule} broken at {site} ({len(os_)} clients), e.g. {os_[0][2]}: {os_[0][3][:300]}")
      shown += 1
      if shown >= 8:
        break
    print(f"VIOLATION property={a.prop} replay={rp}")
    return 1
  if decided < max(1, prop.get('floor', 1)):
    print(f"ANALYSIS-BROKEN property={a.prop}: only {decided} obligations decided")
    return 2
  return 0


if __name__ == '__main__':
  sys.exit(main())
