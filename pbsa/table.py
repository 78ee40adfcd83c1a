"""Oracle for distributions with explicit elements: read every cell of the
probability together with the values its dimensions designate."""
import itertools

from . import terms as tm
from .terms import T
from .values import Num, SArr, NArr, Unk, Inst
from .pdlib import decode, check_name
from .harness import norm


def shape_items(lib, v):
  """ (shape, items) of a scalar or explicit array, None when not explicit """
  if isinstance(v, Unk):
    return None
  if isinstance(v, (bool, int, float)):
    return (), [v]
  if isinstance(v, Num) and not v.axes:
    return (), [v]
  p = lib.nd(v)
  return None if p is None else (tuple(p[0]), list(p[1]))


def cells(obs, rule, pd, keys, what):
  """ [(values by key, stored probability)], or None (reason already recorded) """
  lib = obs.I.lib
  if isinstance(pd, Unk):
    obs.add(rule, None, f"{what}: {pd.why}")
    return None
  if not isinstance(pd, Inst) or pd.payload is None:
    obs.add(rule, False, f"{what}: {pd!r} is not a distribution")
    return None
  got = list(pd.payload.keys())
  if sorted(got) != sorted(keys):
    obs.add(rule, False, f"{what}: variables {got}, expected {keys}")
    return None
  dims = obs.attr(pd, 'dims')
  prob = obs.attr(pd, 'prob')
  if prob is None:
    obs.add(rule, False, f"{what}: no probability")
    return None
  pi = shape_items(lib, prob)
  if pi is None:
    obs.add(rule, None, f"{what}: probability {prob!r}")
    return None
  shape, items = pi
  cols = {}
  for k in keys:
    v = pd.payload[k]
    vi = shape_items(lib, v)
    if vi is None:
      obs.add(rule, None, f"{what}: values of {k} {v!r}")
      return None
    d = dims.get(k) if isinstance(dims, dict) else None
    d = None if d is None else obs.I.as_int(d)
    if vi[0] == ():
      if d is not None:
        obs.add(rule, False, f"{what}: scalar {k} has dimension {d}")
        return None
    elif d is None:
      if len(vi[1]) != 1:
        obs.add(rule, False, f"{what}: array variable {k} of {len(vi[1])} values has no dimension")
        return None
    else:
      if not 0 <= d < len(shape):
        obs.add(rule, False, f"{what}: dimension {d} of {k} outside probability of shape {shape}")
        return None
      if shape[d] != len(vi[1]):
        obs.add(rule, False, f"{what}: {len(vi[1])} values of {k} along axis {d} of shape {shape}")
        return None
      want = tuple(len(vi[1]) if i == d else 1 for i in range(len(shape)))
      if vi[0] != want and len(vi[0]) != 1:
        obs.add(rule, False, f"{what}: values of {k} of shape {vi[0]} along axis {d} of {shape}")
        return None
    cols[k] = (d, vi[1])
  used = {c[0] for c in cols.values() if c[0] is not None}
  for i, s in enumerate(shape):
    if s != 1 and i not in used:
      obs.add(rule, False, f"{what}: axis {i} of probability of shape {shape} has no variable")
      return None
  out = []
  for n, ix in enumerate(itertools.product(*[range(s) for s in shape])):
    out.append(({k: (its[ix[d]] if d is not None else its[0]) for k, (d, its) in cols.items()},
                items[n]))
  return out


def same_term(got, want):
  """ True/False/None """
  return tm.agree(got, want)


def check_cells(obs, rule, pd, keys, truth, what, values=None, roles=None, pscale=None):
  """ every cell denotes truth(values); values: expected sequence per key """
  cs = cells(obs, rule, pd, list(keys), what)
  if cs is None:
    return None
  ps = obs.attr(pd, 'pscale')
  if isinstance(pd, Inst) and pd.payload is not None:
    check_name(obs, pd, what)
  for vals, p in cs:
    want = truth(vals)
    if want is None:
      continue
    if isinstance(want, (int, float)):
      want = tm.const_t(want)
    t = decode(obs.I, p, ps)
    lab = ','.join(f"{k}={norm(v)}" for k, v in vals.items())[:120]
    if t is None:
      obs.add(rule, None, f"{what}: at {lab} stored {p!r} pscale {ps!r}")
      continue
    if want.const() == 0:
      a = tm.numeric(t)
      small = a is not None and abs(a) < 1e-300
      if small or is_log_zero(p):
        obs.add(rule, True, f"{what}: zero at {lab}")
        continue
    ok = same_term(t, want)
    obs.add(rule, ok, f"{what}: at {lab} denotes {t.key[:160]}, expected {want.key[:160]}")
  if values:
    for k, want in values.items():
      got = []
      for vals, _ in cs:
        n = norm(vals[k])
        if n not in got:
          got.append(n)
      obs.same(rule, got, dedup(want),
               f"{what}: values of {k}")
  if roles is not None:
    obs.same(rule, sorted(obs.attr(pd, 'marg').keys()), sorted(roles[0]), f"{what}: marginal keys")
    obs.same(rule, sorted(obs.attr(pd, 'cond').keys()), sorted(roles[1]), f"{what}: conditional keys")
  if pscale is not None:
    obs.same(rule, ps, pscale, f"{what}: pscale")
  return cs


def dedup(xs):
  out = []
  for x in xs:
    n = norm(x)
    if n not in out:
      out.append(n)
  return out


def is_log_zero(p):
  """ a stored log probability standing for zero """
  if isinstance(p, (int, float)):
    return p < -1e37
  if isinstance(p, Num):
    c = [c for mono, c in p.t.m if not mono]
    return bool(c) and c[0] < -10 ** 37
  return False
