""" Variables: domains, sampled values, deltas, derived state. """
import itertools

from . import terms as tm
from .values import Num, SArr, NArr, Unk, AbsExc, Inst, NT, ASet, AbsFn, Lib
from .harness import Scenario, norm

LO, LEN = tm.sym('lo'), None
E = {k: tm.sym(k, (), '+') for k in ('e1', 'e2', 'e3')}
HI = LO + E['e1'] + E['e2']
MID = LO + E['e1']
POS = {'below': LO - E['e3'], 'lo': LO, 'mid': MID, 'hi': HI, 'above': HI + E['e3']}
ENDS = [('c', 'c'), ('c', 'o'), ('o', 'c'), ('o', 'o')]


def f(t):
  return Num(t, (), 'float', 'float')


def inside(pos, ends):
  return {'below': False, 'above': False, 'mid': True, 'lo': ends[0] == 'c',
          'hi': ends[1] == 'c'}[pos]


def vset_of(ends, rev=False):
  v = [f(LO) if ends[0] == 'c' else (f(LO),), f(HI) if ends[1] == 'c' else (f(HI),)]
  return v[::-1] if rev else v


def name_of(ends):
  return ('[' if ends[0] == 'c' else '(') + 'lo,hi' + (']' if ends[1] == 'c' else ')')


def build(obs, ends, rev=False, form='list', cls='Variable', vtype='kw'):
  V = obs.api(cls)
  vs = vset_of(ends, rev)
  if form == 'tuple':
    vs = (f(HI), f(LO)) if rev else (f(LO), f(HI))
  elif form == 'array':
    vs = SArr([f(HI), f(LO)] if rev else [f(LO), f(HI)], 'float')
  obs.freeze('vset given', vs)
  if vtype == 'kw':
    return obs.call(V, 'x', vset=vs, vtype=float)
  if vtype == 'pos':
    return obs.call(V, 'x', vs, float)
  if vtype == 'swapped':
    return obs.call(V, 'x', float, vs)
  return obs.call(V, 'x', vs)


def truth(obs, v):
  """ the constant truth of an abstract boolean, None when not decided """
  if isinstance(v, bool):
    return v
  if isinstance(v, Num):
    c = v.t.const()
    return None if c is None else bool(c)
  return None


def check_float(obs, rule, x, ends, lims=None, ulims=None, what=''):
  """ every derived quantity of a float variable agrees with its domain """
  lo, hi = lims or (LO, HI)
  pos = POS if lims is None else {'below': lo - E['e3'], 'lo': lo, 'hi': hi, 'above': hi + E['e3']}
  ins = obs.attr(x, 'inside')
  for p, t in pos.items():
    got = obs.call(ins, f(t))
    tr = truth(obs, got)
    obs.add(rule, None if tr is None else tr == inside(p, ends),
            f"{what}inside({p}) = {tr} for {name_of(ends)}")
    got = obs.meth(x, '__contains__', f(t))
    tr = truth(obs, got)
    obs.add(rule, None if tr is None else tr == inside(p, ends),
            f"{what}{p} in x = {tr} for {name_of(ends)}")
  arr = obs.call(ins, SArr([f(t) for t in pos.values()], 'float'))
  if isinstance(arr, SArr):
    trs = [truth(obs, v) for v in arr.items]
    obs.add(rule, None if None in trs else trs == [inside(p, ends) for p in pos],
            f"{what}inside(array) = {trs} for {name_of(ends)}")
  else:
    obs.add(rule, None if isinstance(arr, Unk) else False, f"inside(array) gives {arr!r}")
  obs.same(rule, obs.attr(x, 'vlims'), [f(lo), f(hi)], what + 'vlims')
  ulo, uhi = ulims or (lo, hi)
  obs.same(rule, obs.attr(x, 'ulims'), [f(ulo), f(uhi)], what + 'ulims')
  obs.num(rule, obs.attr(x, 'length'), uhi - ulo, what + 'length')
  obs.num(rule, obs.attr(x, 'lhv'), tm.log_t(uhi - ulo), what + 'lhv')
  vs = obs.attr(x, 'vset')
  if isinstance(vs, list) and len(vs) == 2:
    for i, (e, lim) in enumerate(zip(ends, (lo, hi))):
      v = vs[i]
      ex = isinstance(v, tuple)
      obs.add(rule, ex == (e == 'o'), f"{what}vset end {i} exclusion {ex} for {name_of(ends)}")
      obs.same(rule, v[0] if ex else v, f(lim), f"{what}vset end {i}")
  else:
    obs.add(rule, None if isinstance(vs, Unk) else False, f"vset {vs!r}")


def domain(ends, rev, form, vtype):
  def cl(obs):
    x = build(obs, ends, rev, form, vtype=vtype)
    e = ('o', 'o') if form == 'tuple' else ('c', 'c') if form == 'array' else ends
    obs.add('domain', obs.attr(x, 'vtype') is float, f"vtype {obs.attr(x, 'vtype')}")
    check_float(obs, 'domain', x, e)
    tr = truth(obs, obs.attr(x, 'isfinite'))
    obs.add('domain', tr, f"isfinite {tr}")
    obs.unmutated('operand-unchanged')
  return cl


def half_infinite(side):
  """ one end at infinity """
  def cl(obs):
    V = obs.api('Variable')
    OO = obs.api('OO', 'probayes.vtypes')
    neg = obs.I.lib.unary('neg', OO) if hasattr(obs.I.lib, 'unary') else None
    vs = [f(LO), (OO,)]
    x = obs.call(V, 'x', vset=vs, vtype=float)
    ins = obs.attr(x, 'inside')
    for p, t in (('below', LO - E['e3']), ('lo', LO), ('above', LO + E['e3'])):
      tr = truth(obs, obs.call(ins, f(t)))
      obs.add('domain', None if tr is None else tr == (p != 'below'), f"inside({p}) = {tr}")
    tr = truth(obs, obs.attr(x, 'isfinite'))
    obs.add('domain', None if tr is None else not tr, f"isfinite {tr}")
  return cl


def default_float():
  def cl(obs):
    V = obs.api('Variable')
    x = obs.call(V, 'x', vtype=float)
    tr = truth(obs, obs.call(obs.attr(x, 'inside'), f(tm.sym('v'))))
    obs.add('domain', tr, f"inside(any) = {tr}")
    tr = truth(obs, obs.attr(x, 'isfinite'))
    obs.add('domain', None if tr is None else not tr, f"isfinite {tr}")
    obs.raises('refusal', lambda: obs.meth(x, 'evaluate', ASet([3])), None,
               'sampling an unbounded variable')
    # changing one variable does not alter the default of another
    y = obs.call(V, 'y', vtype=float)
    obs.I.setattr(y, 'vset', [0., 1.])
    z = obs.call(V, 'z', vtype=float)
    tr = truth(obs, obs.attr(z, 'isfinite'))
    obs.add('domain', None if tr is None else not tr, f"default of a later variable: isfinite {tr}")
  return cl


DISCRETE = [
  ('int', [3, 5, 9], 'list'), ('int', [3, 5, 9], 'set'), ('int', [9, 3, 5], 'array'),
  ('int', [2, 3, 4], 'range'), ('int', [7], 'scalar'), ('int', None, None),
  ('bool', None, None), ('none', None, None), ('infer', [3, 5, 9], 'list'), ('infer', [3, 5, 9], 'set'),
  ('infer', [2, 3, 4], 'range'), ('bool', [False, True], 'list'), ('bool', [False, True], 'set'),
]


def make_discrete(obs, kind, vals, form, cls='Variable', name='x'):
  V = obs.api(cls)
  kw = {}
  if kind in ('int', 'bool'):
    kw['vtype'] = {'int': int, 'bool': bool}[kind]
  if form == 'list':
    kw['vset'] = list(vals)
  elif form == 'set':
    kw['vset'] = ASet(vals)
  elif form == 'array':
    kw['vset'] = SArr(list(vals), 'int')
  elif form == 'range':
    kw['vset'] = range(vals[0], vals[-1] + 1)
  elif form == 'scalar':
    kw['vset'] = vals[0]
  if 'vset' in kw:
    obs.freeze('vset given', kw['vset'])
  return obs.call(V, name, **kw)


def expected(kind, vals):
  if vals is None:
    return [0, 1]
  return sorted(int(v) for v in vals)


def discrete(kind, vals, form, order=None):
  def cl(obs):
    x = make_discrete(obs, kind, vals, form)
    want = expected(kind, vals)
    isb = kind in ('bool', 'none')
    obs.add('domain', obs.attr(x, 'vtype') is (bool if isb else int), f"vtype {obs.attr(x, 'vtype')}")
    obs.same('domain', obs.attr(x, 'vset'), want, 'vset')
    obs.same('domain', obs.attr(x, 'vlims'), [want[0], want[-1]], 'vlims')
    obs.same('domain', obs.attr(x, 'length'), 2 if isb else len(want), 'length')
    obs.num('domain', obs.attr(x, 'lhv'), tm.log_t(tm.const_t(2 if isb else len(want))), 'lhv')
    ins = obs.attr(x, 'inside')
    probe = [0, 1] if isb else sorted(set(want + [want[0] - 1, want[-1] + 1, want[0] + 1]))
    if isb:
      probe = [False, True]
    for v in probe:
      tr = truth(obs, obs.call(ins, v))
      obs.add('domain', None if tr is None else tr == (int(v) in want), f"inside({v}) = {tr}")
    dup = [v for v in probe for _ in range(2)]
    arr = obs.call(ins, SArr(dup, 'bool' if isb else 'int'))
    trs = [truth(obs, v) for v in arr.items] if isinstance(arr, SArr) else None
    obs.add('domain', None if trs is None or None in trs else trs == [int(v) in want for v in dup],
            f"inside({dup}) = {trs}")
    # every value of the variable when nothing is asked for
    d = obs.call(x)
    obs.same('sampling', list(norm(d).values())[0], want, 'all values')
    obs.unmutated('operand-unchanged')
  return cl


def helper(fn):
  """ the plural constructors build what the singular ones would """
  def cl(obs):
    vs = obs.call(obs.api(fn), 'x,y', vtype=float, vset=[f(LO), f(HI)])
    obs.same('domain', [obs.attr(v, 'name') for v in vs], ['x', 'y'], 'names')
    for v in vs:
      check_float(obs, 'domain', v, ('c', 'c'))
    vs = obs.call(obs.api(fn), ['p', 'q'], vtype=int)
    for v in vs:
      obs.same('domain', obs.attr(v, 'vset'), [0, 1], 'default vset')
  return cl


def constructor(cls):
  def cl(obs):
    V = obs.api(cls)
    for lab, x in (('vtype keyword', obs.call(V, 'x', vtype=int)),
                   ('vset then vtype', obs.call(V, 'x', [0, 1], int)),
                   ('vtype then vset', obs.call(V, 'x', int, [0, 1])),
                   ('vset keyword', obs.call(V, 'x', vset=[0, 1]))):
      obs.add('domain', obs.attr(x, 'vtype') is int, f"{lab}: vtype {obs.attr(x, 'vtype')}")
      obs.same('domain', obs.attr(x, 'vset'), [0, 1], f"{lab}: vset")
      obs.same('domain', obs.attr(x, 'name'), 'x', f"{lab}: name")
  return cl


# ------------------------------------------------------------------ derived state
def ufun_pair(obs, log=None):
  def fwd(I, args, kwds):
    v = args[0]
    if isinstance(v, SArr):
      return SArr([fwd(I, [x], kwds) for x in v.items], 'float')
    n = I.lib.to_num(v)
    t = n.t
    # a monotonic increasing map: written as u(lo) plus positive increments
    known = {LO.key: tm.sym('ulo'), HI.key: tm.sym('ulo') + tm.sym('ulen', (), '+')}
    if t.key in known:
      return Num(known[t.key], n.axes, n.kind, 'float')
    return Num(tm.func('u', (t,), labels=t.labels), n.axes, n.kind, 'float')

  def inv(I, args, kwds):
    v = args[0]
    if isinstance(v, SArr):
      return SArr([inv(I, [x], kwds) for x in v.items], 'float')
    n = I.lib.to_num(v)
    return Num(tm.func('uinv', (n.t,), labels=n.t.labels), n.axes, n.kind, 'float')
  return AbsFn('u', fwd), AbsFn('uinv', inv)


ULO = tm.sym('ulo')
UHI = ULO + tm.sym('ulen', (), '+')


def derived(step, cls='Variable'):
  """ after any setter, the derived quantities are those of a fresh variable """
  def cl(obs):
    I = obs.I
    x = build(obs, ('c', 'c'), cls=cls)
    if step == 'ufun':
      obs.meth(x, 'set_ufun', ufun_pair(obs))
      check_float(obs, 'derived', x, ('c', 'c'), ulims=(ULO, UHI))
    elif step == 'ufun-cleared':
      obs.meth(x, 'set_ufun', ufun_pair(obs))
      obs.meth(x, 'set_ufun', None)
      check_float(obs, 'derived', x, ('c', 'c'))
    elif step == 'ufun-vset':
      obs.meth(x, 'set_ufun', ufun_pair(obs))
      I.setattr(x, 'vset', vset_of(('o', 'c')))
      check_float(obs, 'derived', x, ('o', 'c'), ulims=(ULO, UHI))
    elif step == 'vset':
      lo2 = tm.sym('lo2')
      I.setattr(x, 'vset', [(f(lo2),), f(lo2 + E['e2'])])
      check_float(obs, 'derived', x, ('o', 'c'), lims=(lo2, lo2 + E['e2']))
    elif step == 'vset-reversed':
      I.setattr(x, 'vset', vset_of(('o', 'c'), True))
      check_float(obs, 'derived', x, ('o', 'c'))
    elif step == 'vtype':
      y = obs.call(obs.api(cls), 'y', vset=[2, 7])
      obs.add('derived', obs.attr(y, 'vtype') is int, 'vtype inferred')
      I.setattr(y, 'vtype', float)
      ins = obs.attr(y, 'inside')
      for v, w in ((1.5, False), (2., True), (3.5, True), (7., True), (7.5, False)):
        tr = truth(obs, obs.call(ins, v))
        obs.add('derived', None if tr is None else tr == w, f"inside({v}) = {tr}")
      obs.same('derived', obs.attr(y, 'length'), 5, 'length')
    elif step == 'ufun-decreasing':
      fwd, inv = ufun_pair(obs)
      def neg(I, args, kwds):
        v = args[0]
        if isinstance(v, SArr):
          return SArr([neg(I, [i], kwds) for i in v.items], 'float')
        n = I.lib.to_num(v)
        known = {LO.key: UHI, HI.key: ULO}
        return Num(known.get(n.t.key, tm.func('d', (n.t,), labels=n.t.labels)), n.axes, n.kind, 'float')
      obs.meth(x, 'set_ufun', (AbsFn('d', neg), inv))
      obs.num('derived', obs.attr(x, 'length'), UHI - ULO, 'length under a decreasing map')
      obs.num('derived', obs.attr(x, 'lhv'), tm.log_t(UHI - ULO), 'lhv under a decreasing map')
      obs.same('derived', obs.attr(x, 'isfinite'), True, 'isfinite')
      ins = obs.attr(x, 'inside')
      for pos in ('below', 'lo', 'mid', 'hi', 'above'):
        tr = truth(obs, obs.call(ins, f(POS[pos])))
        obs.add('derived', None if tr is None else tr == inside(pos, ('c', 'c')),
                f"inside at {pos}: {tr}")
    elif step == 'mixed':
      for bad in ([1, 2.5], [2.5, 1], [True, 2], [0, 1, True], [(0.,), 1]):
        obs.raises('domain', lambda: obs.call(obs.api(cls), 'y', vset=list(bad)), None,
                   f"vset={bad} without a vtype")
    elif step == 'prob':
      def uniform(v, at, length, what):
        r = obs.meth(v, 'eval_prob', {obs.attr(v, 'name'): at})
        obs.num('derived', r, tm.ONE / length, what)
      mid = f(POS['mid'])
      uniform(x, mid, HI - LO, 'default probability')
      I.setattr(x, 'vset', [f(LO - E['e1']), f(HI)])
      uniform(x, mid, HI - LO + E['e1'], 'default probability after vset')
      y = obs.call(obs.api(cls), 'y', vset=[2, 7])
      uniform(y, 7, tm.const_t(2), 'default probability')
      I.setattr(y, 'vset', [1, 5, 7, 9])
      uniform(y, 7, tm.const_t(4), 'default probability after vset')
      I.setattr(y, 'vset', range(3, 5))
      uniform(y, 4, tm.const_t(2), 'default probability after vset')
    elif step == 'two':
      # two variables do not share derived state
      y = obs.call(obs.api(cls), 'y', vset=[(f(tm.sym('a')),), f(tm.sym('a') + E['e2'])], vtype=float)
      obs.meth(y, 'set_ufun', ufun_pair(obs))
      check_float(obs, 'derived', x, ('c', 'c'))
  return cl


# ------------------------------------------------------------------ sampled values
def values_of(obs, d, key='x'):
  if isinstance(d, Unk):
    return d
  p = d.payload if isinstance(d, Inst) else d
  if not isinstance(p, dict) or list(p.keys()) != [key]:
    return None
  return p[key]


def grid(n, ends, lo=None, hi=None):
  """ n equally spaced points, excluded ends left out; one point of a closed
  interval is its middle """
  lo, hi = lo or LO, hi or HI
  a, b = ends[0] == 'o', ends[1] == 'o'
  if n == 1 and not a and not b:
    a = b = True
  steps = n - 1 + a + b
  return [lo + (hi - lo) * tm.const_t(tm.Fraction(i + a, steps)) for i in range(n)]


def uniform_draw(t, lo, hi):
  """ t is an affine image of one unit deviate spanning [lo, hi]; None if not
  recognised """
  us = [a for a in t.atoms() if a.op == 'rand.unit']
  if len(us) != 1:
    return None
  u = tm.atom_t(us[0])
  return t.key in ((lo + (hi - lo) * u).key, (hi - (hi - lo) * u).key)


def elements(v):
  if isinstance(v, SArr):
    return list(v.items)
  return None


def sampling(ends, n, ufun, wrap):
  def cl(obs):
    I, lib = obs.I, obs.I.lib
    x = build(obs, ends)
    lo, hi = LO, HI
    back = lambda t: t
    if ufun:
      obs.meth(x, 'set_ufun', ufun_pair(obs))
      lo, hi = ULO, UHI
      back = lambda t: tm.func('uinv', (t,), labels=t.labels)
    snap = lib.snapshot(x)
    asked = ASet([n]) if n is not None else None
    arg = {'x': asked} if wrap == 'dict' else {x: asked} if wrap == 'key' else asked
    d = obs.call(x, arg)
    v = values_of(obs, d)
    what = f"{name_of(ends)} {{{n}}}{' ufun' if ufun else ''}"
    if v is None or isinstance(v, Unk):
      return obs.add('sampling', None if v is not None else False, f"{what}: {d!r}")
    if n:
      m = abs(n)
      els = elements(v)
      if n > 0:
        if els is None:
          return obs.add('sampling', None, f"{what}: {v!r}")
        obs.add('sampling', len(els) == m, f"{what}: {len(els)} values")
        for i, (g, w) in enumerate(zip(els, grid(m, ends, lo, hi))):
          obs.num('sampling', g, back(w), f"{what} value {i}")
        return
      if els is not None:
        obs.add('sampling', len(els) == m, f"{what}: {len(els)} values")
        ts = [lib.numt(e) for e in els]
      else:
        sh = [lib.numt(q).key for q in lib.shape_of(v)]
        obs.add('sampling', sh == [str(m)], f"{what}: shape {sh}")
        ts = [v.t]
        # independent draws: the deviate varies along the axis
        if m > 1:
          obs.add('sampling', bool(v.t.labels), f"{what}: one draw repeated")
    else:
      sh = [lib.numt(q).key for q in lib.shape_of(v)] if isinstance(v, Num) else None
      obs.add('sampling', sh == [], f"{what}: shape {sh}")
      ts = [lib.numt(v)]
    for t in ts:
      if ufun:
        inner = [a for a in t.atoms() if a.op == 'uinv']
        if t.key != (tm.atom_t(inner[0]).key if len(inner) == 1 else ''):
          obs.add('sampling', None if t.opaque else False, f"{what}: {t.key} not mapped back")
          continue
        t = inner[0].args[0]
      ok = uniform_draw(t, lo, hi)
      obs.add('sampling', ok, f"{what}: draw {t.key}")
    obs.add('operand-unchanged', lib.snapshot(x) == snap, 'the variable is unchanged by sampling')
  return cl


def passthrough(cls):
  def cl(obs):
    x = build(obs, ('c', 'c'), cls=cls)
    ev = (lambda v: obs.meth(x, 'evaluate', v))
    a = Num(tm.sym('v', ('n',)), ('n',), 'arr')
    for lab, v in (('array', a), ('scalar', f(tm.sym('s')))):
      for arg in (v, {'x': v}):
        got = values_of(obs, ev(arg))
        obs.same('sampling', got, v, f"{lab} given as values")
    obs.raises('refusal', lambda: ev({'q': a}), None, 'values of another variable')
  return cl


def picks(v, want):
  """ v is an element of want at a random in-range index; None when not recognised """
  if not isinstance(v, Num):
    return norm(v) in want
  at = [a for a in v.t.atoms() if a.op == 'pick']
  if len(at) != 1 or tm.atom_t(at[0]).key != v.t.key:
    return None
  items, idx = at[0].args
  if [t.key for t in items] != [str(w) for w in want]:
    return False
  rs = [a for a in idx.atoms() if a.op in ('rand.randint', 'mod')]
  if len(rs) != 1 or tm.atom_t(rs[0]).key != idx.key:
    return None
  if rs[0].op == 'mod':
    return rs[0].args[1].key == str(len(want))
  return [rs[0].args[0].key, rs[0].args[1].key] == ['0', str(len(want))]


def discrete_sampling(kind, vals, form, n):
  def cl(obs):
    I, lib = obs.I, obs.I.lib
    x = make_discrete(obs, kind, vals, form)
    want = expected(kind, vals)
    d = obs.call(x, ASet([n]))
    v = values_of(obs, d)
    what = f"{want} {{{n}}}"
    if v is None or isinstance(v, Unk):
      return obs.add('sampling', None if v is not None else False, f"{what}: {d!r}")
    if n > 0:
      obs.same('sampling', v, [want[i % len(want)] for i in range(n)], what)
    elif n == 0:
      sh = [lib.numt(q).key for q in lib.shape_of(v)] if isinstance(v, (Num, SArr)) else []
      obs.add('sampling', sh == [], f"{what}: shape {sh}")
      ps = picks(v, want)
      obs.add('sampling', ps, f"{what}: {v!r}")
    else:
      els = elements(v)
      m = len(els) if els is not None else lib.numt(lib.shape_of(v)[0]).key \
          if isinstance(v, Num) and v.axes else None
      obs.add('sampling', str(m) == str(-n), f"{what}: {m} values")
      if els is not None and len(want) > 1 and n < -1:
        ps = [picks(e, want) for e in els]
        obs.add('sampling', None if None in ps else all(ps), f"{what}: every value from the domain")
        obs.add('sampling', len({norm(e)[1] if isinstance(norm(e), tuple) else id(e) for e in els}) == len(els),
                f"{what}: distinct draws")
  return cl


def bernoulli_sampling(n, how):
  def cl(obs):
    lib = obs.I.lib
    x = obs.call(obs.api('RV'), 'x', vtype=bool, prob=0.25)
    d = obs.call(x, ASet([n])) if how == 'call' else \
        obs.meth(x, 'evaluate', ASet([n]) if how == 'evaluate' else {'x': ASet([n])})
    v = values_of(obs, d)
    what = f"Bernoulli {{{n}}} by {how}"
    if v is None or isinstance(v, Unk):
      return obs.add('sampling', None if v is not None else False, f"{what}: {d!r}")
    if n > 0:
      return obs.same('sampling', v, [[False, True][i % 2] for i in range(n)], what)
    sh = [lib.numt(q).key for q in lib.shape_of(v)] if isinstance(v, (Num, SArr, NArr)) else \
         ([] if isinstance(v, bool) else None)
    want = [str(-n)] if n else []
    obs.add('sampling', None if sh is None else sh == want, f"{what}: shape {sh}, {v!r}"[:300])
  return cl


# ------------------------------------------------------------------ deltas
def bound_choice(ends):
  """ what is asked for at a call prevails over the default given beforehand """
  def cl(obs):
    for default in (None, False, True):
      for asked in (None, False, True):
        for how in ('default', 'argument'):
          x = build(obs, ends)
          d = f(POS['above'] - POS['mid'])
          kw = {} if default is None else {'bound': default}
          if how == 'default':
            obs.meth(x, 'set_delta', d, **kw)
            args = []
          else:
            obs.meth(x, 'set_delta', f(tm.sym('other')), **kw)
            args = [d]
          ask = {} if asked is None else {'bound': asked}
          for v in (f(MID), SArr([f(MID)] * 2, 'float')):
            got = obs.meth(x, 'apply_delta', v, *args, **ask)
            b = asked if asked is not None else bool(default)
            want = expect_bounded('mid', 'above', ends) if b else POS['above']
            els = elements(got)
            for e in els if els is not None else [got]:
              obs.num('bounded-delta', e, want, f"default bound {default}, asked {asked}, {how}")
  return cl


def expect_bounded(start, target, ends):
  """ where a bounded move from start to target ends """
  if inside(target, ends):
    return POS[target]
  low = target in ('below', 'lo')
  return POS[start] if ends[0 if low else 1] == 'o' else (LO if low else HI)


def bounded(ends, start, form, how):
  """ all targets of one start; scalars one by one, arrays in one call each """
  def cl(obs):
    I, lib = obs.I, obs.I.lib
    targets = list(POS)
    for target in targets:
      x = build(obs, ends)
      delta = f(POS[target] - POS[start])
      v = f(POS[start]) if form == 'scalar' else SArr([f(POS[start])] * 2, 'float') \
          if form == 'array' else Num(POS[start], ('n',), 'arr')
      if how == 'default':
        obs.meth(x, 'set_delta', delta, bound=True)
        args, kw = [v], {}
      elif how == 'argument':
        args, kw = [v, delta], {'bound': True}
      elif how == 'Delta':
        args, kw = [v, obs.meth(x, 'Delta', delta)], {'bound': True}
      elif how == 'dict':
        args, kw = [{'x': v}, delta], {'bound': True}
      obs.freeze('values', v)
      got = obs.meth(x, 'apply_delta', *args, **kw)
      want = expect_bounded(start, target, ends)
      what = f"{name_of(ends)} {form} {how}: {start} to {target}"
      if isinstance(got, Unk):
        obs.add('bounded-delta', None, f"{what}: {got.why}")
        continue
      els = elements(got)
      if form == 'array':
        obs.add('bounded-delta', els is not None and len(els) == 2, f"{what}: {got!r}")
      for e in els if els is not None else [got]:
        obs.num('bounded-delta', e, want, what)
      obs.unmutated('operand-unchanged')
      obs.inputs.clear()
  return cl


def mixed(ends, delta):
  """ one array call whose elements end in different places """
  def cl(obs):
    x = build(obs, ends)
    starts = [p for p in ('lo', 'mid', 'hi') if inside(p, ends)]
    v = SArr([f(POS[p]) for p in starts], 'float')
    obs.freeze('values', v)
    got = obs.meth(x, 'apply_delta', v, f(delta), bound=True)
    els = elements(got)
    if els is None or len(els) != len(starts):
      return obs.add('bounded-delta', None if isinstance(got, Unk) else False, f"{got!r}")
    for e, p in zip(els, starts):
      t = POS[p] + delta
      low, high = (t - LO).sign(), (HI - t).sign()
      if low == '-' or low == '0' and ends[0] == 'o':
        t = LO if ends[0] == 'c' else POS[p]
      elif high == '-' or high == '0' and ends[1] == 'o':
        t = HI if ends[1] == 'c' else POS[p]
      obs.num('bounded-delta', e, t, f"{name_of(ends)} mixed array: {p} + {delta.key}")
    obs.unmutated('operand-unchanged')
  return cl


def bounded_ufun(ends, target):
  def cl(obs):
    x = build(obs, ends)
    seen = []
    u, _ = ufun_pair(obs)

    def inv(I, args, kwds):
      seen.append(I.lib.numt(args[0]).key)
      return f(POS[target])
    obs.meth(x, 'set_ufun', (u, AbsFn('uinv', inv)))
    d = tm.sym('d')
    v = f(MID)
    got = obs.meth(x, 'apply_delta', v, f(d), bound=True)
    want = tm.func('u', (MID,)) + d
    obs.add('bounded-delta', seen == [want.key], f"delta applied in transformed space: {seen}")
    obs.num('bounded-delta', got, expect_bounded('mid', target, ends), f"{name_of(ends)} ufun to {target}")
  return cl


def unbounded(form):
  """ without bounds a delta is added exactly """
  def cl(obs):
    x = build(obs, ('c', 'o'))
    v = f(tm.sym('v')) if form == 'scalar' else Num(tm.sym('v', ('n',)), ('n',), 'arr')
    vt = obs.I.lib.numt(v)
    d = tm.sym('d', (), '+')
    obs.freeze('values', v)
    obs.num('delta', obs.meth(x, 'apply_delta', v, f(d)), vt + d, 'scalar delta')
    obs.num('delta', obs.meth(x, 'apply_delta', v, f(-d)), vt - d, 'negative delta')
    obs.num('delta', obs.meth(x, 'apply_delta', v, obs.meth(x, 'Delta', f(d))), vt + d, 'Delta instance')
    obs.num('delta', obs.meth(x, 'apply_delta', v), vt, 'no delta set')
    obs.meth(x, 'set_delta', f(d))
    obs.num('delta', obs.meth(x, 'apply_delta', v), vt + d, 'default delta')
    obs.num('delta', obs.meth(x, 'apply_delta', v, 0.), vt, 'explicit zero')
    e = obs.meth(x, 'eval_delta')
    obs.num('delta', obs.meth(x, 'apply_delta', v, e), vt + d, 'evaluated default delta')
    obs.num('delta', obs.meth(x, 'apply_delta', v, f(d), bound=False), vt + d, 'bound=False')
    # a callable delta maps the values
    g = AbsFn('g', lambda I, a, k: Num(tm.func('g', (I.lib.numt(a[0]),),
                                               labels=I.lib.numt(a[0]).labels),
                                       I.lib.to_num(a[0]).axes, I.lib.to_num(a[0]).kind))
    obs.meth(x, 'set_delta', g)
    obs.num('delta', obs.meth(x, 'apply_delta', v), tm.func('g', (vt,), labels=vt.labels), 'callable delta')
    obs.unmutated('operand-unchanged')
  return cl


def random_delta(kind):
  def cl(obs):
    I, lib = obs.I, obs.I.lib
    d = tm.sym('d', (), '+')
    if kind == 'int':
      x = obs.call(obs.api('Variable'), 'x', vset=[0, 1, 2, 3, 4, 5, 6], vtype=int)
      e = obs.meth(x, 'eval_delta', [2])
      t = lib.numt(e.vals[0]) if isinstance(e, NT) else None
      at = [a for a in t.atoms() if a.op == 'rand.randint'] if t is not None else []
      obs.add('delta', None if len(at) != 1 else t.key == tm.atom_t(at[0]).key and
              [q.key for q in at[0].args[:2]] == ['-2', '3'], f"integer list delta {t and t.key}")
    elif kind == 'list':
      x = build(obs, ('c', 'c'))
      e = obs.meth(x, 'eval_delta', [f(d)])
      t = lib.numt(e.vals[0]) if isinstance(e, NT) else None
      obs.add('delta', None if t is None else uniform_draw(t, -d, d), f"list delta {t and t.key}")
      r = obs.meth(x, 'apply_delta', f(MID), [f(d)])
      t = lib.numt(r)
      obs.add('delta', None if t is None else uniform_draw(t - MID, -d, d), f"list delta applied {t and t.key}")
    elif kind == 'tuple':
      x = build(obs, ('c', 'c'))
      e = obs.meth(x, 'eval_delta', (f(d),))
      t = lib.numt(e.vals[0]) if isinstance(e, NT) else None
      obs.add('delta', None if t is None else t.key in (d.key, (-d).key), f"tuple delta {t and t.key}")
      # both polarities occur
      dec = [v for k, v, *_ in I.ctx.taken]
      obs.add('delta', len(dec) >= 1, 'polarity depends on a random draw')
    elif kind == 'scale':
      x = build(obs, ('c', 'c'))
      obs.meth(x, 'set_delta', f(d), scale=True)
      e = obs.meth(x, 'eval_delta')
      obs.num('delta', e.vals[0] if isinstance(e, NT) else e, d * (HI - LO), 'scaled delta')
      e = obs.meth(x, 'eval_delta', f(tm.sym('q')))
      obs.num('delta', e.vals[0] if isinstance(e, NT) else e, tm.sym('q'), 'explicit delta unscaled')
    elif kind == 'bool':
      x = obs.call(obs.api('Variable'), 'x', vtype=bool)
      for v in (False, True):
        for dl in (True, False):
          r = obs.meth(x, 'apply_delta', v, obs.meth(x, 'Delta', dl))
          tr = truth(obs, r)
          obs.add('delta', None if tr is None else tr == (v != dl), f"bool {v} delta {dl}: {tr}")
      for n in (2, 3):
        src = [i % 2 == 0 for i in range(n)]
        arr = SArr(list(src), 'bool')
        obs.freeze('values', arr)
        r = obs.meth(x, 'apply_delta', arr, [0.5])
        obs.add('delta', isinstance(r, SArr) and len(r.items) == n or (None if isinstance(r, Unk) else False),
                f"bool values flipped {r!r}")
        r = obs.meth(x, 'apply_delta', arr, obs.meth(x, 'Delta', True))
        obs.same('delta', [truth(obs, i) for i in r.items] if isinstance(r, SArr) else r, [not s for s in src],
                 'bool values with a delta')
      obs.unmutated('operand-unchanged')
    obs.raises('refusal', lambda: obs.meth(x, 'eval_delta', [1., 2.]), None, 'list of two deltas')
  return cl


def flips(taken):
  """ for each draw compared with 1/2: whether it fell below, in order (None if unclear) """
  out, names = [], []
  for k, v, *_ in taken:
    if not (isinstance(k, tuple) and k[0] == 'sign' and str(k[1]).count('rand.unit(') == 1):
      return None
    names.append(str(k[1]).split('rand.unit(')[1].split(')')[0])
    out.append((v == '+') == ('-1*rand.unit(' in str(k[1])))
  return out if len(set(names)) == len(names) else None


def bool_flips(n, form):
  """ values of a boolean array are each negated by their own draw """
  def cl(obs):
    I = obs.I
    x = obs.call(obs.api('Variable'), 'x', vtype=bool)
    src = [i % 2 == 0 for i in range(n)]
    arr = SArr(list(src), 'bool')
    obs.freeze('values', arr)
    if form == 'default':
      obs.meth(x, 'set_delta', [0.5])
    k = len(I.ctx.taken)
    r = obs.meth(x, 'apply_delta', arr, *(() if form == 'default' else ([0.5],)))
    got = flips(list(I.ctx.taken)[k:])
    if got is None or len(got) != n or not isinstance(r, SArr):
      obs.add('delta', None, f"boolean values {r!r}")
    else:
      obs.same('delta', [truth(obs, i) for i in r.items], [a != b for a, b in zip(src, got)],
               'boolean values each negated as drawn')
    obs.unmutated('operand-unchanged')
  return cl


def callable_delta(ends, start, target, how):
  """ a delta given by a function is kept within bounds as any other """
  def cl(obs):
    x = build(obs, ends)
    seen = []

    def move(I, args, kwds):
      seen.append((len(args), norm(kwds)))
      return f(POS[target])
    obs.meth(x, 'set_delta', AbsFn('move', move), **({'bound': True} if how == 'default' else {}))
    v = f(POS[start])
    kw = {'bound': True} if how in ('argument', 'dict') else {}
    got = obs.meth(x, 'apply_delta', {'x': v} if how == 'dict' else v, **kw)
    obs.same('delta', len(seen), 1, 'one call')
    want = POS[target] if how == 'unbound' else expect_bounded(start, target, ends)
    obs.num('delta' if how == 'unbound' else 'bounded-delta', got, want,
            f"{name_of(ends)} from {start} to {target} by a function, {how}")
  return cl


def callable_arguments():
  """ functions of delta are called with the arguments stored beside them, save for the flags """
  def cl(obs):
    V = obs.api('Variable')
    for flags in ({}, {'bound': False}, {'scale': True}, {'scale': False, 'bound': False}):
      x = obs.call(V, 'x', vtype=float, vset=[f(LO), f(HI)])
      seen = []

      def move(I, args, kwds):
        seen.append((norm(list(args)), norm(dict(kwds))))
        return f(tm.sym('r'))
      v, q, w = (f(tm.sym(k)) for k in 'vqw')
      obs.meth(x, 'set_delta', AbsFn('move', move), q=q, w=w, **flags)
      obs.num('delta', obs.meth(x, 'apply_delta', v), tm.sym('r'), 'result of the function')
      obs.same('delta', seen, [(norm([v]), norm({'q': q, 'w': w}))], f"arguments with {sorted(flags)}")
      obs.meth(x, 'set_delta')
      obs.num('delta', obs.meth(x, 'apply_delta', v), tm.sym('v'), 'delta cleared')
      obs.same('delta', obs.attr(x, 'delta'), None, 'delta cleared')
  return cl


def delta_refusals():
  def cl(obs):
    V = obs.api('Variable')
    x = obs.call(V, 'x', vtype=float, vset=[f(LO), f(HI)])
    i = obs.call(V, 'i', vtype=int, vset=[0, 1, 2])
    b = obs.call(V, 'b', vtype=bool)
    for var, nm in ((x, 'float'), (i, 'int'), (b, 'bool')):
      for bad in ((1, 2), [1, 2], (), []):
        obs.raises('refusal', lambda: obs.meth(var, 'eval_delta', bad), None, f"{nm} delta {bad!r}")
        obs.raises('refusal', lambda: obs.meth(var, 'apply_delta', 1, bad), None, f"{nm} delta {bad!r} applied")
      for bad in ({'x': 1}, SArr([1, 2], 'int')):
        obs.raises('refusal', lambda: obs.meth(var, 'eval_delta', bad), None, f"{nm} delta {bad!r}")
    z = obs.call(V, 'z', vtype=float, vset=[0., float('inf')])
    obs.meth(z, 'set_delta', f(tm.sym('d', (), '+')), scale=True)
    obs.raises('refusal', lambda: obs.meth(z, 'eval_delta'), None, 'delta scaled to an infinite length')
    for form in (set, dict):
      obs.raises('refusal', lambda: obs.I.getitem(x, 'x'), None, 'item of a variable')
    obs.raises('refusal', lambda: obs.I.getitem(x, 0), None, 'item of a variable')
  return cl


def given_sets(cls):
  """ the set is the variable's own, in its own type; other specifications are refused """
  def cl(obs):
    V = obs.api(cls)
    own = [0, 1]
    obs.freeze('own', own)
    x = obs.call(V, 'x', vset=own, vtype=float)
    got = obs.attr(x, 'vset')
    obs.add('domain', got is not own, 'the set of the variable is not the list given')
    obs.add('domain', all(isinstance(i, float) for i in got), f"floats of a float variable: {got!r}")
    own2 = [3, 1, 2]
    obs.freeze('own2', own2)
    y = obs.call(V, 'y', vset=own2)
    own3 = [(0,), 5]
    obs.freeze('own3', own3)
    z = obs.call(V, 'z', vset=own3, vtype=float)
    got = obs.attr(z, 'vset')
    obs.add('domain', isinstance(got[0], tuple) and isinstance(got[0][0], float) and isinstance(got[1], float),
            f"floats of a float variable: {got!r}")
    obs.unmutated('operand-unchanged')
    own2.append(9)
    ins = obs.attr(y, 'inside')
    tr = truth(obs, obs.call(ins, 9))
    obs.add('domain', None if tr is None else not tr, 'a value appended to the list given later')
    for what, bad in (('three floats', [1., 2., 3.]), ('one float', [1.]), ('three in a tuple', (1., 2., 3.)),
                      ('one in a tuple', (1.,)), ('a dictionary', {'a': 1}), ('an object', AbsFn('o', lambda *a: None))):
      obs.raises('refusal', lambda: obs.call(V, 'w', vset=bad, vtype=float), None, f"{what} for a set of floats")
    obs.raises('refusal', lambda: obs.call(V, 'w', vset={'a': 1}), None, 'a dictionary for a set')
  return cl


def infinite_images(cls):
  """ transformed limits decide whether a range is finite """
  def cl(obs):
    inf = float('inf')

    def pair(lo, hi):
      def fwd(I, args, kwds):
        v = args[0]
        if isinstance(v, SArr):
          return SArr([fwd(I, [x], kwds) for x in v.items], 'float')
        n = I.lib.to_num(v)
        return {LO.key: lo, HI.key: hi}.get(n.t.key) if n.t.key in (LO.key, HI.key) else \
            Num(tm.func('u', (n.t,), labels=n.t.labels), n.axes, n.kind, 'float')
      return (AbsFn('u', fwd), AbsFn('uinv', lambda I, a, k: Num(
          tm.func('uinv', (I.lib.numt(a[0]),)), (), 'float', 'float')))
    for lo, hi in ((-inf, f(tm.sym('h'))), (f(tm.sym('l')), inf), (-inf, inf)):
      x = build(obs, ('o', 'o'), cls=cls)
      obs.meth(x, 'set_ufun', pair(lo, hi))
      tr = truth(obs, obs.attr(x, 'isfinite'))
      obs.add('derived', None if tr is None else not tr, f"isfinite under a map to {lo!r}, {hi!r}: {tr}")
      for n in (0, 3, -2):
        obs.raises('refusal', lambda: obs.meth(x, 'evaluate', {n}), None, f"{n} values of an infinite image")
      ins = obs.attr(x, 'inside')
      for pos in ('below', 'lo', 'mid', 'hi', 'above'):
        tr = truth(obs, obs.call(ins, f(POS[pos])))
        obs.add('derived', None if tr is None else tr == inside(pos, ('o', 'o')), f"inside at {pos}: {tr}")
      obs.meth(x, 'set_ufun')
      check_float(obs, 'derived', x, ('o', 'o'))
  return cl


def ufun_refusals(cls):
  def cl(obs):
    V = obs.api(cls)
    u, inv = ufun_pair(obs)
    x = build(obs, ('c', 'c'), cls=cls)
    for what, bad in (('one function', u), ('one in a tuple', (u,)), ('three', (u, inv, u)), ('a list', [u, inv]),
                      ('a constant first', (3, inv)), ('a constant last', (u, 3)), ('a number', 3)):
      obs.raises('refusal', lambda: obs.meth(x, 'set_ufun', bad), None, f"{what} for a transformation")
    obs.raises('refusal', lambda: obs.meth(x, 'set_ufun', (u, inv), no_ucov=True), None,
               'functions without change of variables')
    for vt in (int, bool):
      y = obs.call(V, 'y', vtype=vt)
      obs.raises('refusal', lambda: obs.meth(y, 'set_ufun', (u, inv)), None, f"transformation of {vt.__name__}")
  return cl


def int_bounded():
  def cl(obs):
    for v in (2, 3, 6):
      for d in (-9, -1, 1, 9):
        x = obs.call(obs.api('Variable'), 'x', vset=[2, 3, 4, 5, 6], vtype=int)
        r = obs.meth(x, 'apply_delta', v, d, bound=True)
        obs.same('bounded-delta', r, max(2, min(6, v + d)), f"int {v} {d:+d}")
        a = SArr([v, v], 'int')
        r = obs.meth(x, 'apply_delta', a, d, bound=True)
        obs.same('bounded-delta', r, [max(2, min(6, v + d))] * 2, f"int array {v} {d:+d}")
  return cl


def sparse():
  """ a large sparse integer domain, probed with repeated values """
  def cl(obs):
    vals = [i * 1000003 for i in range(30)]
    x = obs.call(obs.api('Variable'), 'x', vset=list(vals))
    arr = obs.call(obs.attr(x, 'inside'), SArr([5, 5, vals[3], vals[3]], 'int'))
    trs = [truth(obs, v) for v in arr.items] if isinstance(arr, SArr) else None
    obs.add('domain', None if trs is None or None in trs else trs == [False, False, True, True],
            f"inside of repeated values: {trs}")
  return cl


def scenarios(tier='quick'):
  out = []
  add = out.append
  ns = [0, 1, 2, 3, 5, -1, -2, -4] if tier == 'quick' else [0] + list(range(1, 13)) + [-1, -2, -3, -7, -12]
  for ends in ENDS:
    for u in (False, True):
      for n in ns:
        add(Scenario('sampling', f"Variable.evaluate {name_of(ends)} {{{n}}} ufun={u}", sampling(ends, n, u, None)))
    for w in ('dict', 'key'):
      add(Scenario('sampling', f"Variable.evaluate {name_of(ends)} {{3}} by {w}", sampling(ends, 3, False, w)))
    add(Scenario('sampling', f"Variable.evaluate {name_of(ends)} None", sampling(ends, None, False, None)))
  for c in ('Variable', 'RV'):
    add(Scenario('sampling', f"{c}.evaluate given values", passthrough(c)))
  for kind, vals, form in DISCRETE:
    for n in (0, 1, 2, 3, 5, 7, -1, -3, -4):
      add(Scenario('sampling', f"Variable.evaluate {kind} {vals} {form} {{{n}}}", discrete_sampling(kind, vals, form, n)))
  for ends in ENDS:
    for start in ('lo', 'mid', 'hi'):
      if not inside(start, ends):
        continue
      for form in ('scalar', 'array', 'tensor'):
        for how in ('argument', 'default', 'Delta', 'dict'):
          add(Scenario('bounded-delta', f"apply_delta {name_of(ends)} from {start} {form} {how}",
                       bounded(ends, start, form, how)))
    for d in (-E['e1'], E['e2'], -E['e1'] - E['e2'], E['e1'] + E['e2'], -HI + LO - E['e3']):
      add(Scenario('bounded-delta', f"apply_delta {name_of(ends)} mixed {d.key}", mixed(ends, d)))
    for target in POS:
      add(Scenario('bounded-delta', f"apply_delta {name_of(ends)} ufun {target}", bounded_ufun(ends, target)))
  for ends in ENDS:
    add(Scenario('bounded-delta', f"apply_delta {name_of(ends)} bound default/asked", bound_choice(ends)))
  for n in (2, 3, 0, -1, -3):
    for how in ('call', 'evaluate', 'dict'):
      if how != 'call':
        add(Scenario('sampling', f"RV.evaluate Bernoulli {{{n}}} {how}", bernoulli_sampling(n, how)))
  for form in ('scalar', 'array'):
    add(Scenario('delta', f"apply_delta unbounded {form}", unbounded(form)))
  for k in ('int', 'list', 'tuple', 'scale', 'bool'):
    add(Scenario('delta', f"eval_delta {k}", random_delta(k)))
  add(Scenario('bounded-delta', 'apply_delta int', int_bounded()))
  for n in (1, 2, 3):
    for form in ('argument', 'default'):
      add(Scenario('delta', f"apply_delta bool array of {n} {form}", bool_flips(n, form)))
  for ends in ENDS:
    for start in ('lo', 'mid', 'hi'):
      if inside(start, ends):
        for target in POS:
          for how in ('default', 'argument', 'dict', 'unbound'):
            add(Scenario('bounded-delta', f"apply_delta {name_of(ends)} function {start} to {target} {how}",
                         callable_delta(ends, start, target, how)))
  add(Scenario('delta', 'set_delta function arguments', callable_arguments()))
  add(Scenario('refusal', 'Variable delta refusals', delta_refusals()))
  for c in ('Variable', 'RV'):
    add(Scenario('domain', f"{c} given sets", given_sets(c)))
    add(Scenario('derived', f"{c} infinite images", infinite_images(c)))
    add(Scenario('refusal', f"{c} ufun refusals", ufun_refusals(c)))
  add(Scenario('domain', 'Variable sparse int', sparse()))
  for ends in ENDS:
    for rev in (False, True):
      for vt in ('kw', 'pos', 'swapped', None):
        add(Scenario('domain', f"Variable float {name_of(ends)} rev={rev} vtype={vt}",
                     domain(ends, rev, 'list', vt)))
  for form in ('tuple', 'array'):
    for rev in (False, True):
      add(Scenario('domain', f"Variable float vset {form} rev={rev}", domain(('c', 'c'), rev, form, 'kw')))
  add(Scenario('domain', 'Variable float default', default_float()))
  add(Scenario('domain', 'Variable float half infinite', half_infinite(1)))
  for kind, vals, form in DISCRETE:
    for order in ('fwd', 'rev'):
      add(Scenario('domain', f"Variable {kind} {vals} {form} {order}", discrete(kind, vals, form), order=order))
  for fn in ('variables', 'RVs'):
    add(Scenario('domain', f"{fn}()", helper(fn)))
  for c in ('Variable', 'RV'):
    add(Scenario('domain', f"{c} constructor", constructor(c)))
    for s in ('ufun', 'ufun-cleared', 'ufun-vset', 'vset', 'vset-reversed', 'vtype', 'two'):
      add(Scenario('derived', f"{c} derived after {s}", derived(s, c)))
    for s in ('ufun-decreasing', 'mixed') + (('prob',) if c == 'RV' else ()):
      add(Scenario('derived', f"{c} derived after {s}", derived(s, c)))
  return out
