#!/usr/bin/env python3
"""Mutation of the syntax trees of /repo: which changes do no scenarios notice?

  mutate.py cov                   map every statement to the scenarios reaching it (/tmp/pbmut.cov)
  mutate.py gaps                  statements no scenario reaches
  mutate.py run FILE [LO HI]      mutants of one file; prints the survivors
A development aid: no registered check uses it and nothing of /repo is executed or written.
"""
import ast, copy, importlib, os, pickle, random, signal, sys, time, collections
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from pbsa.harness import Program, Result, run_scenario, run_orders
from pbsa.props import PROPS
from pbsa.check import findings, listed, Overrun
ROOT = '/repo'
COV = '/tmp/pbmut.cov'


def all_scenarios():
  out, seen = [], {}
  for pid, p in PROPS.items():
    for m, flt in p['scenarios']:
      mod = importlib.import_module('pbsa.' + m)
      if m not in seen:
        seen[m] = {}
        for s in mod.scenarios('quick'):
          s.props, s.mod = set(), m
          seen[m][s.construct + '|' + s.rule] = s
          out.append(s)
      if p.get('orders'):
        continue
      for s in seen[m].values():
        if flt is None or flt(s):
          s.props.add(pid)
  return out


S = all_scenarios()


def _alarm(*_):
  raise Overrun()


def run1(P, s, secs=20):
  """ failing obligations that some property reports """
  res = Result()
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(secs)
  try:
    run_scenario(P, s, res)
  except Overrun:
    return None, res, 'overrun'
  except Exception as e:
    return None, res, f"internal {type(e).__name__} {e}"
  finally:
    signal.alarm(0)
  bad = []
  for o in res.obligations:
    if o.status == 'fail':
      pids = [p for p in s.props if PROPS[p]['rules'] is None or o.rule in PROPS[p]['rules']]
      if pids:
        bad.append((pids, o))
  return bad, res, ''


def cov_work(ix):
  P = Program(ROOT)
  out = []
  for i in ix:
    t = time.time()
    bad, res, why = run1(P, S[i], 60)
    out.append((i, frozenset(res.lines), time.time() - t,
                frozenset((o.rule, o.detail) for _, o in bad or ())))
  return out


def cov():
  N = 8
  with ProcessPoolExecutor(N) as ex:
    rs = [x for r in ex.map(cov_work, [list(range(k, len(S), N * 4)) for k in range(N * 4)]) for x in r]
  lines = collections.defaultdict(list)
  info = {}
  for i, ls, t, bad in rs:
    info[S[i].mod + '|' + S[i].construct + '|' + S[i].rule] = (t, bad)
    for l in ls:
      lines[l].append(S[i].mod + '|' + S[i].construct + '|' + S[i].rule)
  pickle.dump((dict(lines), info), open(COV, 'wb'))
  print(len(S), 'scenarios', len(lines), 'statements')


SMALL = COV + '.small'
CAP = 200


def compact():
  """ at most CAP scenarios per statement and module, as indices """
  lines, info = pickle.load(open(COV, 'rb'))
  rnd = random.Random(0)
  out = {}
  for k, v in lines.items():
    by = collections.defaultdict(list)
    for c in v:
      by[c.split('|', 1)[0]].append(c)
    out[k] = [c for lst in by.values() for c in (lst if len(lst) <= CAP else rnd.sample(lst, CAP))]
  pickle.dump((out, info), open(SMALL, 'wb'))


def load():
  if not os.path.exists(SMALL) or os.path.getmtime(SMALL) < os.path.getmtime(COV):
    compact()
  lines, info = pickle.load(open(SMALL, 'rb'))
  idx = {s.mod + '|' + s.construct + '|' + s.rule: i for i, s in enumerate(S)}
  return {k: [idx[c] for c in v if c in idx] for k, v in lines.items()}, \
      {idx[c]: v for c, v in info.items() if c in idx}


def stmts(tree):
  """ statements inside functions """
  for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for m in n.body:
        yield from sub(m)


def sub(st):
  yield st
  for f in ('body', 'orelse', 'finalbody'):
    for m in getattr(st, f, []) or []:
      if isinstance(m, ast.stmt):
        yield from sub(m)
  for h in getattr(st, 'handlers', []) or []:
    for m in h.body:
      yield from sub(m)


def gaps():
  lines, _ = load()
  P = Program(ROOT)
  for mod, tree in P.trees.items():
    f = P.files[mod]
    src = open(os.path.join(ROOT, f)).read().splitlines()
    seen = set()
    for st in stmts(tree):
      if isinstance(st, (ast.FunctionDef, ast.ClassDef)) or st.lineno in seen:
        continue
      seen.add(st.lineno)
      if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
        continue
      if (f, st.lineno) not in lines:
        print(f"{f}:{st.lineno}: {src[st.lineno - 1].strip()}")


CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.FloorDiv}
NAMES = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'minimum': 'maximum', 'maximum': 'minimum',
         'union': 'intersection', 'zeros': 'ones', 'ones': 'zeros', 'ravel': 'copy', 'sum': 'prod', 'prod': 'sum',
         'log': 'exp', 'exp': 'log', 'leafs': 'roots', 'roots': 'leafs', '_leafs': '_roots', '_roots': '_leafs',
         'prob': 'logp', 'logp': 'prob', 'marg': 'cond', 'cond': 'marg', 'keys': 'values', 'values': 'keys',
         'append': 'extend', 'logical_or': 'logical_and', 'logical_and': 'logical_or'}
WRAP = {'list', 'dict', 'sorted', 'set', 'tuple', 'copy', 'deepcopy', 'OrderedDict', 'reversed', 'abs', 'float', 'int',
        'bool', 'len'}


def sites(tree):
  """ (lineno of statement, description, path mutator) """
  out = []
  for st in stmts(tree):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
      continue
    ln = st.lineno
    own = []
    if isinstance(st, ast.Raise):
      out.append((ln, 'delete raise', ('stmt', st)))
      continue
    if isinstance(st, ast.Assert):
      out.append((ln, 'delete assert', ('stmt', st)))
      roots = [st.test]
    elif isinstance(st, (ast.If, ast.While)):
      roots = [st.test]
      out.append((ln, 'negate test', ('neg', st)))
    elif isinstance(st, ast.For):
      roots = [st.iter]
    elif isinstance(st, (ast.With, ast.Try)):
      roots = []
    else:
      roots = [st]
      if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign)) and not (
              isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
        out.append((ln, 'delete statement', ('stmt', st)))
      if isinstance(st, (ast.Break, ast.Continue)):
        out.append((ln, 'swap break/continue', ('brk', st)))
      if isinstance(st, ast.AugAssign) and type(st.op) in BIN:
        out.append((ln, 'augmented operator', ('op', st)))
    for r in roots:
      for n in ast.walk(r):
        if isinstance(n, ast.Compare):
          for j, o in enumerate(n.ops):
            if type(o) in CMP:
              out.append((ln, f"compare {type(o).__name__}", ('cmp', n, j)))
        elif isinstance(n, ast.BoolOp):
          out.append((ln, 'and/or', ('bool', n)))
          for j in range(len(n.values)):
            out.append((ln, f"drop operand {j}", ('boolop', n, j)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
          out.append((ln, f"drop {type(n.op).__name__}", ('un', n)))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
          out.append((ln, f"operator {type(n.op).__name__}", ('op', n)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)):
          out.append((ln, f"constant {n.value}", ('const', n)))
        elif isinstance(n, ast.Constant) and n.value is None and not isinstance(st, ast.Assert):
          pass
        elif isinstance(n, ast.IfExp):
          out.append((ln, 'swap ternary', ('tern', n)))
        elif isinstance(n, ast.Call):
          nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
          if nm in ('format',):
            continue
          if nm in NAMES:
            out.append((ln, f"{nm} -> {NAMES[nm]}", ('name', n)))
          if nm in WRAP and len(n.args) == 1:
            out.append((ln, f"unwrap {nm}", ('unwrap', n)))
          for j, k in enumerate(n.keywords):
            out.append((ln, f"drop keyword {k.arg}", ('kw', n, j)))
          if len(n.args) > 1:
            out.append((ln, f"swap arguments of {nm}", ('swap', n)))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES and isinstance(n.ctx, ast.Load):
          out.append((ln, f".{n.attr} -> {NAMES[n.attr]}", ('attr', n)))
        elif isinstance(n, ast.Slice):
          for f in ('lower', 'upper', 'step'):
            if getattr(n, f) is not None:
              out.append((ln, f"drop slice {f}", ('slice', n, f)))
        elif isinstance(n, ast.comprehension) and n.ifs:
          out.append((ln, 'drop comprehension filter', ('ifs', n)))
  return out


def mutate(tree, k):
  """ copy of the tree with mutant k applied """
  t = copy.deepcopy(tree)
  s = sites(t)
  ln, what, m = s[k]
  kind, n = m[0], m[1]

  def replace(old, new):
    for p in ast.walk(t):
      for f, v in ast.iter_fields(p):
        if v is old:
          setattr(p, f, new)
          return
        if isinstance(v, list):
          for i, x in enumerate(v):
            if x is old:
              v[i] = new
              return
  if kind == 'stmt':
    replace(n, ast.copy_location(ast.Pass(), n))
  elif kind == 'neg':
    n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
  elif kind == 'brk':
    replace(n, ast.copy_location((ast.Continue if isinstance(n, ast.Break) else ast.Break)(), n))
  elif kind == 'cmp':
    n.ops[m[2]] = CMP[type(n.ops[m[2]])]()
  elif kind == 'bool':
    n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
  elif kind == 'boolop':
    del n.values[m[2]]
    if len(n.values) == 1:
      replace(n, n.values[0])
  elif kind == 'un':
    replace(n, n.operand)
  elif kind == 'op':
    n.op = BIN[type(n.op)]()
  elif kind == 'const':
    v = n.value
    n.value = (not v) if isinstance(v, bool) else v + 1 if v == 0 else 0 * v if v == 1 else v - 1
  elif kind == 'tern':
    n.body, n.orelse = n.orelse, n.body
  elif kind == 'name':
    if isinstance(n.func, ast.Name):
      n.func.id = NAMES[n.func.id]
    else:
      n.func.attr = NAMES[n.func.attr]
  elif kind == 'attr':
    n.attr = NAMES[n.attr]
  elif kind == 'unwrap':
    replace(n, n.args[0])
  elif kind == 'kw':
    del n.keywords[m[2]]
  elif kind == 'swap':
    n.args[0], n.args[1] = n.args[1], n.args[0]
  elif kind == 'slice':
    setattr(n, m[2], None)
  elif kind == 'ifs':
    n.ifs = []
  ast.fix_missing_locations(t)
  return t, ln, what


_LINES = _INFO = None


def mut_work(a):
  global _LINES, _INFO
  mod, ks, limit = a
  if _LINES is None:
    _LINES, _INFO = load()
  P = Program(ROOT)
  base = P.trees[mod]
  f = P.files[mod]
  out = []
  for k in ks:
    try:
      t, ln, what = mutate(base, k)
    except RecursionError:
      continue
    P.trees[mod] = t
    P._locals.clear()
    P._isgen.clear()
    scn = list(_LINES.get((f, ln), ()))
    if not scn:
      out.append((k, ln, what, 'unreached', ''))
      continue
    rnd = random.Random(k)
    rnd.shuffle(scn)
    # one of every module first, cheap ones first
    by = collections.defaultdict(list)
    for i in scn:
      by[S[i].mod].append(i)
    order = []
    for lst in by.values():
      lst.sort(key=lambda i: _INFO[i][0] > 0.3)
    while any(by.values()):
      for lst in by.values():
        if lst:
          order.append(lst.pop(0))
    t0 = time.time()
    kill, n, opens = None, 0, 0
    for i in order[:limit]:
      bad, res, why = run1(P, S[i], 10)
      n += 1
      if bad is None:
        opens += 1
        continue
      bad = [(p, o) for p, o in bad if (o.rule, o.detail) not in _INFO[i][1]]
      if bad:
        kill = f"{','.join(bad[0][0])} {S[i].construct[:60]}: {bad[0][1].detail[:80]}"
        break
      opens += any(o.status == 'open' for o in res.obligations)
      if time.time() - t0 > 90:
        break
    st = 'killed' if kill else 'survived'
    out.append((k, ln, what, st, kill or f"{n}/{len(scn)} scenarios, {opens} open"))
  P.trees[mod] = base
  return out


def run(fname, lo=0, hi=10**9, limit=400, step=1):
  P = Program(ROOT)
  mod = [m for m, f in P.files.items() if os.path.basename(f) == fname][0]
  ss = sites(P.trees[mod])
  ks = [k for k, s in enumerate(ss) if lo <= s[0] <= hi][::step]
  src = open(os.path.join(ROOT, P.files[mod])).read().splitlines()
  global _LINES, _INFO
  _LINES, _INFO = load()
  random.Random(1).shuffle(ks)
  chunks = [ks[i:i + 5] for i in range(0, len(ks), 5)]
  with ProcessPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
    rs = [x for r in ex.map(mut_work, [(mod, c, limit) for c in chunks]) for x in r]
  rs.sort(key=lambda r: (r[1], r[0]))
  c = collections.Counter(r[3] for r in rs)
  print(fname, dict(c))
  for k, ln, what, st, d in rs:
    if st == 'survived':
      print(f"  {fname}:{ln}: [{what}] {src[ln - 1].strip()[:100]}   ({d})")
  return rs


if __name__ == '__main__':
  cmd = sys.argv[1]
  if cmd == 'cov':
    cov()
  elif cmd == 'gaps':
    gaps()
  elif cmd == 'run':
    for f in sys.argv[2].split(','):
      run(f, *[int(x) for x in sys.argv[3:5]], limit=int(os.environ.get('LIMIT', '400')),
          step=int(os.environ.get('STEP', '1')))
