""" Concatenation of distributions with explicit values: every cell of the sum is a
cell of exactly one operand, along the one axis on which the operands differ. """
import collections
import itertools

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet
from .harness import Scenario
from .pdlib import SCALES, encode, pscale_value
from .table import check_cells

R = 'concatenation'


def operand(obs, lay, vals, i, scale, scalars=(), counts=None):
  """ lay: [(key, role, dim)], vals: key -> floats; probabilities are fresh symbols per cell """
  keys = [k for k, _, _ in lay]
  nd = max([d for _, _, d in lay if d is not None], default=-1) + 1
  shape = [0] * nd
  for k, _, d in lay:
    if d is not None:
      shape[d] = len(vals[k])
  d0 = collections.OrderedDict()
  for k, _, d in lay:
    if counts and k in counts:
      d0[k] = ASet([counts[k]])
    elif d is None:
      d0[k] = vals[k][0]
    else:
      d0[k] = SArr(list(vals[k]), 'float')
  cells, items = {}, []
  for ix in itertools.product(*[range(s) for s in shape]):
    t = tm.sym(f"P{i}_{'_'.join(map(str, ix))}", sign='+')
    cells[ix] = t
    items.append(Num(encode(scale, t)))
  prob = SArr(items, 'float') if nd == 1 else NArr(shape, items)
  m = ','.join(k for k, r, _ in lay if r == 'm')
  c = ','.join(k for k, r, _ in lay if r == 'c')
  pd = obs.call(obs.api('PD'), m + ('|' + c if c else ''), d0,
                dims=collections.OrderedDict((k, d) for k, _, d in lay),
                prob=prob, pscale=pscale_value(scale))
  return pd, cells


def joined(lay, axis, n, scale, via, scal):
  """ n operands joined along axis """
  def cl(obs):
    pds, truth = [], {}
    base = {k: [10. * (1 + j) + q for q in range(2 + (j % 2))] for j, (k, _, _) in enumerate(lay)}
    for k, _, d in lay:          # variables of one axis have equally many values
      for k2, _, d2 in lay:
        if d is not None and d == d2 and k2 > k:
          base[k2] = [100. * (ord(k2) - 96) + x for x in base[k]]
    for i in range(n):
      vals = {}
      size = (2, 2, 3)[i]
      for j, (k, _, d) in enumerate(lay):
        vals[k] = [1000. * (j + 1) + 100. * i + q for q in range(size)] if d == axis else base[k]
      pd, cells = operand(obs, lay, vals, i, scale)
      for ix, t in cells.items():
        truth[tuple(vals[k][0 if d is None else ix[d]] for k, _, d in lay)] = t
      pds.append(pd)
      obs.freeze(f"operand {i}", pd)
    if via == 'add':
      r = pds[0]
      for p in pds[1:]:
        r = obs.I.binop('add', r, p)
    else:
      r = obs.call(obs.api('summate', 'probayes.pd_utils'), *pds)
    keys = [k for k, _, _ in lay]
    def want(vals):
      return truth.get(tuple(float(vals[k]) if isinstance(vals[k], (int, float)) else _f(vals[k]) for k in keys))
    cs = check_cells(obs, R, r, keys, want, f"{n} operands along axis {axis}",
                     roles=([k for k, x, _ in lay if x == 'm'], [k for k, x, _ in lay if x == 'c']),
                     pscale=pscale_value(scale))
    if cs is not None:
      got = [tuple(float(v[k]) if isinstance(v[k], (int, float)) else _f(v[k]) for k in keys) for v, _ in cs]
      obs.same(R, sorted(map(str, got)), sorted(map(str, truth)), 'cells of the sum')
      # operands follow one another in their order
      for k, _, d in lay:
        if d == axis:
          seen = []
          for v, _ in cs:
            x = float(v[k]) if isinstance(v[k], (int, float)) else _f(v[k])
            if x not in seen:
              seen.append(x)
          obs.same(R, seen, sorted(seen), f"order of {k}")
    obs.unmutated('operand-unchanged')
  return cl


def _f(v):
  c = v.t.const() if isinstance(v, Num) else None
  return float(c) if c is not None else repr(v)


def refused(make, why):
  def cl(obs):
    pds = make(obs)
    obs.raises('refusal', lambda: obs.call(obs.api('summate', 'probayes.pd_utils'), *pds), None, why)
  return cl


X, Y = ('x', 'm', 0), ('y', 'm', 1)
LAYS = [
    ([X], (0,)),
    ([X, ('y', 'm', None)], (0,)),
    ([X, ('y', 'c', None)], (0,)),
    ([X, ('y', 'm', 0)], (0,)),
    ([X, ('y', 'c', 0)], (0,)),
    ([X, Y], (0, 1)),
    ([('x', 'm', 1), ('y', 'm', 0)], (0, 1)),
    ([X, ('y', 'c', 1)], (0,)),
    ([('x', 'm', 1), ('y', 'c', 0)], (1,)),
    ([X, Y, ('z', 'm', 0)], (0, 1)),
    ([X, Y, ('z', 'c', 1)], (0, 1)),
    ([X, Y, ('z', 'c', 2)], (0, 1)),
    ([X, ('y', 'm', 2), ('z', 'm', 1)], (0, 1, 2)),
    ([X, ('y', 'm', None), ('z', 'm', 1)], (0, 1)),
]


def scenarios(tier):
  out = []
  for lay, axes in LAYS:
    name = ' '.join(f"{k}:{r}{'' if d is None else d}" for k, r, d in lay)
    for axis in axes:
      for sc in SCALES:
        for n, via in ((2, 'add'), (3, 'add'), (3, 'summate'), (1, 'summate')):
          if n == 1 and (axis or sc != 'one'):
            continue
          if n == 1:
            continue
          out.append(Scenario(R, f"summate {n} via {via} [{name}] axis {axis} pscale={sc}",
                              joined(lay, axis, n, sc, via, None)))
  V = {'x': [0., 1.], 'y': [5., 6.], 'z': [8., 9.]}
  def alt(**kw):
    return dict(V, **kw)
  def case(lay, a, b, why, sa='one', sb='one', names=None, third=None):
    def make(obs):
      pds = [operand(obs, lay, a, 0, sa)[0], operand(obs, names or lay, b, 1, sb)[0]]
      if third:
        pds.append(operand(obs, third[0], third[1], 2, third[2])[0])
      return pds
    nm = ' '.join(f"{k}:{r}{'' if d is None else d}" for k, r, d in lay)
    out.append(Scenario('refusal', f"summate [{nm}] {why}", refused(make, why)))
  n2 = {'x': [2., 3.], 'y': [7., 8.]}
  for lay in ([X, Y], [('x', 'm', 1), ('y', 'm', 0)], [X, ('y', 'c', 1)]):
    case(lay, V, alt(**n2), 'both variables have other values')
    case(lay, V, alt(x=[2., 3.], y=[7., 8., 9.]), 'both variables differ and one in size')
  case([X, ('y', 'm', None)], V, alt(x=[2., 3.], y=[7.]), 'scalar marginal of another value')
  case([X, ('y', 'c', None)], V, alt(x=[2., 3.], y=[7.]), 'scalar conditional of another value')
  case([X, Y, ('z', 'c', 2)], V, alt(x=[2., 3.], z=[3., 4.]), 'array conditional of other values')
  case([X, ('y', 'c', 1)], V, V, 'identical distributions')
  case([X, Y], V, alt(x=[2., 3.]), 'dimensions exchanged', names=[('x', 'm', 1), ('y', 'm', 0)])
  case([X, ('y', 'm', None)], V, alt(x=[2., 3.]), 'scalar and array of one variable', names=[X, Y])
  case([X, ('y', 'c', None)], V, alt(x=[2., 3.]), 'other conditional variable',
       names=[X, ('z', 'c', None)])
  case([X, ('y', 'c', None)], V, alt(x=[2., 3.]), 'conditional made marginal', names=[X, ('y', 'm', None)])
  case([X], V, alt(x=[2., 3.]), 'other variable', names=[('z', 'm', 0)])
  case([X], V, alt(x=[2., 3.]), 'pscales differ', 'one', 'coef')
  case([X], V, alt(x=[2., 3.]), 'pscales differ in kind', 'one', 'log')
  case([X], V, alt(x=[2., 3.]), 'third pscale differs', third=([X], alt(x=[6., 7.]), 'log'))
  case([X], V, alt(x=[2., 3.]), 'second pscale differs', 'one', 'log', third=([X], alt(x=[6., 7.]), 'one'))
  case([X, Y], V, alt(x=[2., 3.]), 'third along another axis', third=([X, Y], alt(y=[1., 2.]), 'one'))
  case([X, Y], V, alt(y=[2., 3.]), 'third along another axis first', third=([X, Y], alt(x=[4., 2.]), 'one'))
  sc = [('x', 'm', None), ('y', 'c', None)]
  for why, a, b in (('third scalar conditional', sc, [('x', 'm', None), ('z', 'c', None)]),
                    ('third marginal', sc, [('z', 'm', None), ('y', 'c', None)])):
    case(sc, V, alt(x=[2.]), why, names=sc, third=(b, alt(x=[3.]), 'one'))
  return out
