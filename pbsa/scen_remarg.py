""" Redistribution of a distribution over the cells of another. """
import itertools

from . import terms as tm
from .values import Num, SArr, NArr
from .harness import Scenario
from .pdlib import SCALES, pscale_value, encode
from .table import check_cells

# name: (edges, values of a 2x3 table, cell each falls into)
COLS = {
    'r': ((0., 1., 2.5, 4.), (-3., 0., 0.5, 1., 2., 9.)),      # below, on, between, on, between, above
    's': ((-1., 1.), (5., -1., -2., 0.9, 1., 1.)),
    't': ((0., 10., 20.), (10., 10., 10., 10., 20., 19.)),
}


def cell(edges, v):
  return max([i for i, e in enumerate(edges) if e <= v] or [0])


def remarg(shape, keys, scale, form, scalar, given=None):
  def cl(obs):
    n = 1
    for s in shape:
      n *= s
    srcs = 'xy'[:len(shape)]
    p = [tm.sym('p%d' % i, (), '+') for i in range(n)]
    d = {}
    for i, k in enumerate(srcs):
      d[k] = SArr([float(j) for j in range(shape[i])], 'float')
    if scalar:
      d['w'] = Num(tm.sym('w0'), (), 'float', 'float')
    prob = [Num(encode(scale, q)) for q in p]
    prob = SArr(prob, 'float') if len(shape) == 1 else NArr(shape, prob)
    pd = obs.call(obs.api('PD'), ','.join(d), d, prob=prob, pscale=pscale_value(scale))
    D = obs.api('Distribution')
    target = obs.call(D, ','.join(keys), {k: SArr(list(COLS[k][0]), 'float') for k in keys})
    vals = {}
    for k in keys:
      v = list(COLS[k][1][:n])
      vals[k] = SArr(v, 'float') if len(shape) == 1 else NArr(shape, v)
    obs.freeze('distribution', pd)
    obs.freeze('target', target)
    obs.freeze('mapping', vals)
    if form == 'kwds':
      r = obs.meth(pd, 'remarginalise', target, **vals)
    else:
      r = obs.meth(pd, 'remarginalise', target, vals)
    where = [tuple(cell(COLS[k][0], COLS[k][1][i]) for k in keys) for i in range(n)]

    def truth(at):
      ix = []
      for k in keys:
        t = tm.numeric(obs.I.lib.numt(at[k]))
        ix.append([j for j, e in enumerate(COLS[k][0]) if e == t][0])
      tot = tm.const_t(0)
      for q, w in zip(p, where):
        if w == tuple(ix):
          tot = tot + q
      return tot
    check_cells(obs, 'redistribution', r, keys, truth, f"remarginalise onto {','.join(keys)}",
                values={k: list(COLS[k][0]) for k in keys}, roles=(keys, ''), pscale=pscale_value(scale))
    obs.unmutated('operand-unchanged')
  return cl


def refusals():
  def cl(obs):
    PD, D = obs.api('PD'), obs.api('Distribution')
    p = [tm.sym('p%d' % i, (), '+') for i in range(3)]
    pd = obs.call(PD, 'x', {'x': SArr([0., 1., 2.], 'float')}, prob=SArr([Num(q) for q in p], 'float'))
    t = obs.call(D, 'r', {'r': SArr([0., 1.], 'float')})
    v = SArr([0., 1., 1.], 'float')
    one = obs.call(PD, 'x=1', {'x': 1.}, prob=0.5)
    for what, who, args, kw in (
        ('scalar probability', one, (t, {'r': 1.}), {}),
        ('target that is no distribution', pd, ({'r': 1}, {'r': v}), {}),
        ('dictionary and keywords', pd, (t, {'r': v}), {'r': v}),
        ('nothing', pd, (t,), {}),
        ('a list', pd, (t, [v]), {}),
        ('unknown variable', pd, (t, {'q': v}), {}),
        ('too few values', pd, (t, {'r': SArr([0., 1.], 'float')}), {})):
      obs.raises('refusal', lambda: obs.meth(who, 'remarginalise', *args, **kw), None, what)
  return cl


def scenarios(tier):
  out = []
  for shape in ((6,), (3,), (2, 3), (3, 2)):
    for n in (1, 2, 3):
      for keys in itertools.permutations('rst', n):
        if n == 3 and keys != tuple('rst') and tier == 'quick':
          continue
        for scale in SCALES:
          for form in ('dict', 'kwds'):
            out.append(Scenario('redistribution', f"PD.remarginalise {shape} onto {','.join(keys)} {form} pscale={scale}",
                                remarg(shape, list(keys), scale, form, False)))
  out.append(Scenario('refusal', 'PD.remarginalise refusals', refusals()))
  return out
