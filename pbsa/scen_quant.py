""" Quantiles of distributions with explicit values. """
import itertools
from fractions import Fraction as F

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet
from .harness import Scenario, norm
from .pdlib import SCALES, pscale_value, encode

TABLES = [(2, 3, 4, 3, 2), (1, 1, 1, 1), (6, 1, 1, 1, 1), (0, 0, 7, 0, 1), (1, 2, 4), (1, 9), (5, 3, 1)]
LEVELS = (F(1, 20), F(1, 10), F(1, 4), F(9, 20), F(1, 2), F(11, 20), F(3, 4), F(9, 10), F(19, 20))
GRID = (-1., 0., 0.5, 2., 3.5, 4., 5., 7., 8.)


def locate(table, q):
  """ last cell whose cumulative probability does not exceed q (else the first), None at a tie """
  tot = sum(table)
  cum = list(itertools.accumulate(F(x, tot) for x in table))
  if q in cum[:-1]:
    return None, cum
  return max([i for i, c in enumerate(cum) if c <= q] or [0]), cum


def expected(table, vals, q, i, cum):
  """ exact value where interpolation is due, else None: only bracketed """
  if i == len(vals) - 1:
    return vals[i]
  p0, p1 = table[i], table[i + 1]
  if abs(p0 - p1) < min(q, 1 - q):
    if q <= cum[i]:
      return vals[i]
    return float(F(vals[i]) + (q - cum[i]) * (F(vals[i + 1]) - F(vals[i])) / (cum[i + 1] - cum[i]))
  return None


def check(obs, got, what, lo, hi, exact):
  t = obs.I.lib.numt(got) if not isinstance(got, Unk) else None
  v = tm.numeric(t) if t is not None else None
  if v is None:
    if isinstance(got, ASet):
      return obs.add('quantile', False, f"{what}: {got!r}")
    return obs.add('quantile', None, f"{what}: {got!r}")
  lo, hi = min(lo, hi), max(lo, hi)
  obs.add('quantile', lo - 1e-9 <= v <= hi + 1e-9, f"{what}: {v}, between {lo} and {hi}")
  if exact is not None:
    obs.add('quantile', abs(v - exact) < 1e-9, f"{what}: {v}, expected {exact}")


def probs(table, scale):
  """ stored elements of the (normalised) table """
  tot = sum(table)
  out = []
  for x in table:
    if x == 0 and scale in ('log', 'offs'):
      out.append(float('-inf'))
    else:
      out.append(Num(encode(scale, tm.const_t(F(x, tot)))))
  return SArr(out, 'float')


def one(table, scale, desc, listed, extra):
  """ extra: a scalar beside, 'shared': a second variable of the same axis """
  def cl(obs):
    vals = list(GRID[:len(table)])
    if desc:
      vals = vals[::-1]
    d = {'x': SArr(list(vals), 'float')}
    kw = {}
    if extra == 'scalar':
      d['y'] = Num(tm.sym('y0'), (), 'float', 'float')
    if extra == 'shared':
      d['y'] = SArr([10. * (i + 1) for i in range(len(vals))], 'float')
      kw['dims'] = {'x': 0, 'y': 0}
    pd = obs.call(obs.api('PD'), ','.join(d), d, prob=probs(table, scale), pscale=pscale_value(scale), **kw)
    obs.freeze('distribution', pd)
    levels = [q for q in LEVELS if locate(table, q)[0] is not None]
    if listed:
      rs = list(obs.I.iterate(obs.meth(pd, 'quantile', [float(q) for q in levels])))
      obs.same('quantile', len(rs), len(levels), 'number of quantiles')
    else:
      rs = [obs.meth(pd, 'quantile', float(q)) for q in levels]
    for q, r in zip(levels, rs):
      i, cum = locate(table, q)
      what = f"{float(q)} quantile of {table} pscale={scale}"
      if isinstance(r, Unk):
        obs.add('quantile', None, f"{what}: {r.why}")
        continue
      obs.same('quantile', list(r.keys()), list(d.keys()), f"{what}: keys")
      j = min(i + 1, len(vals) - 1)
      check(obs, r['x'], what + ' x', vals[i], vals[j], expected(table, vals, q, i, cum))
      if extra == 'scalar':
        obs.num('quantile', r['y'], tm.sym('y0'), f"{what}: scalar")
      if extra == 'shared':
        ys = [10. * (n + 1) for n in range(len(vals))]
        check(obs, r['y'], what + ' y', ys[i], ys[j], expected(table, ys, q, i, cum))
    if not listed:
      d0 = obs.meth(pd, 'quantile')
      i, cum = locate(table, F(1, 2))
      if i is not None and not isinstance(d0, Unk):
        check(obs, d0['x'], 'median', vals[i], vals[min(i + 1, len(vals) - 1)],
              expected(table, vals, F(1, 2), i, cum))
    obs.unmutated('operand-unchanged')
  return cl


def unsorted(scale):
  def cl(obs):
    pd = obs.call(obs.api('PD'), 'x', {'x': SArr([0., 2., 1.], 'float')}, prob=probs((1, 2, 1), scale),
                  pscale=pscale_value(scale))
    r = obs.meth(pd, 'quantile', 0.5)
    obs.same('quantile', r['x'], ASet([3]), 'unsorted values give their number')
  return cl


def scalar(scale):
  def cl(obs):
    PD = obs.api('PD')
    pd = obs.call(PD, 'x,y', {'x': Num(tm.sym('x0')), 'y': 2.}, prob=Num(encode(scale, tm.sym('P', sign='+'))),
                  pscale=pscale_value(scale))
    r = obs.meth(pd, 'quantile')
    obs.num('quantile', r['x'], tm.sym('x0'), 'scalar')
    obs.num('quantile', r['y'], tm.const_t(2), 'scalar')
    rs = list(obs.I.iterate(obs.meth(pd, 'quantile', [0.25, 0.5, 0.75])))
    obs.same('quantile', len(rs), 3, 'number of quantiles')
    for r in rs:
      obs.num('quantile', r['x'], tm.sym('x0'), 'scalar')
  return cl


JOINT = ((1, 2, 3), (4, 5, 3), (2, 1, 4), (3, 1, 2))


def joint(scale, rev):
  """ the first axis is that of the cell, the last is interpolated """
  def cl(obs):
    flat = [x for row in JOINT for x in row]
    tot = sum(flat)
    xs, ys = [0., 1., 3., 4.], [10., 20., 40.]
    vals = {'x': SArr(xs, 'float'), 'y': SArr(ys, 'float')}
    keys = ['y', 'x'] if rev else ['x', 'y']
    # axis 0 is x, axis 1 is y whatever the order of the keys
    P = NArr((4, 3), [Num(encode(scale, tm.const_t(F(x, tot)))) for x in flat], 'float')
    pd = obs.call(obs.api('PD'), ','.join(keys), {k: vals[k] for k in keys}, dims={'x': 0, 'y': 1}, prob=P,
                  pscale=pscale_value(scale))
    obs.freeze('distribution', pd)
    for q in LEVELS:
      i, cum = locate(flat, q)
      if i is None:
        continue
      r = obs.meth(pd, 'quantile', float(q))
      a, b = divmod(i, 3)
      what = f"{float(q)} joint quantile"
      check(obs, r['x'], what + ' x', xs[a], xs[a], xs[a])
      j = min(b + 1, 2)
      ex = None
      if b == 2:
        ex = ys[2]
      elif abs(F(flat[i], tot) - F(flat[i + 1], tot)) < min(q, 1 - q):
        ex = ys[b] if q <= cum[i] else \
            float(F(ys[b]) + (q - cum[i]) * (F(ys[b + 1]) - F(ys[b])) / (cum[i + 1] - cum[i]))
      check(obs, r['y'], what + ' y', ys[b], ys[j], ex)
    obs.unmutated('operand-unchanged')
  return cl


def scenarios(tier='quick'):
  out = []
  add = lambda rule, name, c, **k: out.append(Scenario(rule, name, c, **k))
  for scale in SCALES:
    for t in TABLES:
      for extra in ('', 'scalar', 'shared'):
        for desc, listed in ((False, False), (True, False), (False, True)):
          add('quantile', f"PD.quantile of {t} pscale={scale} {extra} {'descending ' if desc else ''}"
              f"{'listed' if listed else ''}", one(t, scale, desc, listed, extra))
    add('quantile', f"PD.quantile unsorted pscale={scale}", unsorted(scale))
    add('quantile', f"PD.quantile scalar pscale={scale}", scalar(scale))
    for rev in (False, True):
      add('quantile', f"PD.quantile joint pscale={scale} rev={rev}", joint(scale, rev))
  return out
