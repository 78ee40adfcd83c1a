""" Distributions over numbers of unspecified samples: products of batches, chains,
concatenation; quantiles and copies of scalar distributions. """
import itertools

from . import terms as tm
from .values import Num, Unk, ASet
from .harness import Scenario
from .pdlib import SCALES, Spec, check_pd, default_dims, pscale_value, encode


def mk(keys, roles, labels, scale, tag, counts=None, order=None, named=()):
  counts = counts or {}
  lb = {k: None if k in counts else labels[k] for k in keys}
  return Spec(keys, dict(zip(keys, roles)), lb, default_dims(keys, lb, order), scale, None, tag,
              named, counts)


def prod(sps, via, marg, cond, counts, out_scale=None):
  """ the product over marg given cond with the counts expected """
  def cl(obs):
    pds = [sp.build(obs) for sp in sps]
    for i, pd in enumerate(pds):
      obs.freeze(f"factor {i}", pd)
    labels, truth = {}, tm.ONE
    for sp in sps:
      labels.update({k: None if k in counts else sp.labels[k] for k in sp.keys})
      truth = truth * sp.truth
    if via == 'mul':
      r = pds[0]
      for p in pds[1:]:
        r = obs.I.binop('mul', r, p)
    else:
      kw = {} if out_scale is None else {'pscale': pscale_value(out_scale, 'out')}
      r = obs.call(obs.api('product', 'probayes.pd_utils'), *pds, **kw)
    check_pd(obs, 'product-rule', r, marg, cond, labels, truth, ' * '.join(sp.name() for sp in sps),
             pscale_value(out_scale, 'out') if out_scale else None,
             values={k: ASet([n]) for k, n in counts.items()})
    obs.unmutated('operand-unchanged')
  return cl


def refuse(sps, why):
  def cl(obs):
    pds = [sp.build(obs) for sp in sps]
    obs.raises('refusal', lambda: obs.I.binop('mul', *pds), None, why)
  return cl


def added(counts_a, counts_b, scale, keys, roles):
  """ scalar distributions concatenate; numbers of unspecified samples add """
  def cl(obs):
    PD = obs.api('PD')
    pds = []
    for i, cs in enumerate((counts_a, counts_b)):
      vals = {k: ASet([cs[k]]) if k in cs else Num(tm.sym(f"{k}{i}")) for k in keys}
      m = ','.join(k for k, r in zip(keys, roles) if r == 'm')
      c = ','.join(k for k, r in zip(keys, roles) if r == 'c')
      pds.append(obs.call(PD, m + ('|' + c if c else ''), vals,
                          prob=Num(encode(scale, tm.sym(f"P{i}", sign='+'))), pscale=pscale_value(scale)))
    for i, pd in enumerate(pds):
      obs.freeze(f"operand {i}", pd)
    r = obs.I.binop('add', *pds)
    if isinstance(r, Unk):
      return obs.add('concatenation', None, r.why)
    for k in keys:
      if k in counts_a:
        obs.same('concatenation', r.payload[k], ASet([counts_a[k] + counts_b[k]]), f"samples of {k}")
        obs.same('concatenation', obs.attr(r, 'dims').get(k), None, f"dimension of {k}")
      else:
        obs.same('concatenation', r.payload[k], [tm.sym(f"{k}0"), tm.sym(f"{k}1")], f"values of {k}")
        obs.same('concatenation', obs.attr(r, 'dims').get(k), 0, f"dimension of {k}")
    obs.same('concatenation', sorted(obs.attr(r, 'marg').keys()), sorted(k for k, x in zip(keys, roles) if x == 'm'),
             'marginal keys')
    obs.same('concatenation', sorted(obs.attr(r, 'cond').keys()), sorted(k for k, x in zip(keys, roles) if x == 'c'),
             'conditional keys')
    obs.same('concatenation', obs.attr(r, 'prob'),
             [encode(scale, tm.sym(f"P{i}", sign='+')) for i in range(2)], 'probabilities')
    obs.same('concatenation', obs.attr(r, 'pscale'), pscale_value(scale), 'pscale')
    obs.unmutated('operand-unchanged')
  return cl


def add_refuse(va, vb, why):
  def cl(obs):
    PD = obs.api('PD')
    pds = [obs.call(PD, 'x,y', {'x': v, 'y': Num(tm.sym(f"y{i}"))}, prob=Num(tm.sym(f"P{i}", sign='+')))
           for i, v in enumerate((va, vb))]
    obs.raises('refusal', lambda: obs.I.binop('add', *pds), None, why)
  return cl


def scenarios(tier='quick'):
  out = []
  R = 'product-rule'
  add = lambda rule, name, c, **k: out.append(Scenario(rule, name, c, **k))
  pairs = list(itertools.product(SCALES, SCALES)) if tier == 'thorough' else \
      [('one', 'one'), ('log', 'log'), ('offs', 'offs'), ('coef', 'coef'), ('one', 'log'), ('offs', 'coef')]
  L = {k: k for k in 'xyzw'}
  N = {k: None for k in 'xyzw'}
  for sa, sb in pairs:
    # batches of samples of one variable under the same conditions
    for labels, ord_ in [(L, (None, None)), (L, ('rev', None)), (L, (None, 'rev')), (L, ('rev', 'rev')),
                         (N, (None, None)), (dict(L, z=None), (None, None)), (dict(L, y='z'), (None, None))]:
      for keys, roles in ((('x', 'y', 'z'), 'mcc'), (('x', 'y'), 'mc'), (('x',), 'm')):
        if len(keys) < 3 and ord_ != (None, None):
          continue
        for named in ((), ('x',)):
          a = mk(keys, roles, labels, sa, 'a', {'x': 2}, ord_[0], named)
          b = mk(keys, roles, labels, sb, 'b', {'x': 3}, ord_[1], named)
          marg = ['x']
          cond = list(keys[1:])
          add(R, f"PD.__mul__ batches {a.label()} * {b.label()}", prod([a, b], 'mul', marg, cond, {'x': 5}))
        if ord_ == (None, None) and sa == sb:
          c = mk(keys, roles, labels, sa, 'c', {'x': 7})
          add(R, f"product batches {a.label()} * {b.label()} * {c.label()}",
              prod([mk(keys, roles, labels, sa, 'a', {'x': 2}), mk(keys, roles, labels, sb, 'b', {'x': 3}), c],
                   'product', ['x'], cond, {'x': 12}))
        add(R, f"product(pscale=log) batches {a.label()} * {b.label()}",
            prod([a, b], 'product', ['x'], cond, {'x': 5}, 'log'))
    # two counted variables
    a = mk(('x', 'y', 'z'), 'mmc', L, sa, 'a', {'x': 2, 'y': 4})
    b = mk(('x', 'y', 'z'), 'mmc', L, sb, 'b', {'x': 3, 'y': 1})
    add(R, f"PD.__mul__ batches {a.label()} * {b.label()}", prod([a, b], 'mul', ['x', 'y'], ['z'], {'x': 5, 'y': 5}))
    # samples of one variable beside, given or conditioning another
    for labels in (L, N):
      for named in ((), ('x',)):
        for ka, ra, kb, rb, marg, cond in (
            (('x', 'y'), 'mc', ('y',), 'm', ['x', 'y'], []),
            (('y',), 'm', ('x', 'y'), 'mc', ['y', 'x'], []),
            (('x', 'y', 'z'), 'mcc', ('y', 'z'), 'mm', ['x', 'y', 'z'], []),
            (('x', 'y', 'z'), 'mcc', ('y', 'z'), 'mc', ['x', 'y'], ['z']),
            (('y', 'x'), 'mc', ('x',), 'm', ['y', 'x'], []),
            (('x',), 'm', ('y', 'x'), 'mc', ['x', 'y'], []),
            (('y', 'x'), 'mc', ('z', 'x'), 'mc', ['y', 'z'], ['x']),
            (('x',), 'm', ('y',), 'm', ['x', 'y'], []),
            (('y', 'z', 'x'), 'mmc', ('x',), 'm', ['y', 'z', 'x'], [])):
          a = mk(ka, ra, labels, sa, 'a', {'x': 4} if 'x' in ka else {}, None, named)
          b = mk(kb, rb, labels, sb, 'b', {'x': 4} if 'x' in kb else {}, None, named)
          add(R, f"PD.__mul__ samples {a.label()} * {b.label()}", prod([a, b], 'mul', marg, cond, {'x': 4}))
  # disagreeing factors
  for sc in ('one', 'log'):
    for named in ((), ('x',)):
      a = mk(('y', 'x'), 'mc', L, sc, 'a', {'x': 4}, None, named)
      b = mk(('x',), 'm', L, sc, 'b', {'x': 3}, None, named)
      add('refusal', f"PD.__mul__ {a.label()} * {b.label()}", refuse([a, b], 'different numbers of samples'))
      c = mk(('x',), 'm', L, sc, 'b')
      for p in ([a, c], [c, a]):
        add('refusal', f"PD.__mul__ {p[0].label()} * {p[1].label()}", refuse(p, 'samples against values'))
    a = mk(('x', 'y'), 'mm', L, sc, 'a', {'x': 4})
    b = mk(('x', 'z'), 'mm', L, sc, 'b', {'x': 3})
    add('refusal', f"PD.__mul__ {a.label()} * {b.label()}", refuse([a, b], 'batches of different variables'))
    a = mk(('x', 'y'), 'mc', L, sc, 'a', {'x': 4})
    b = mk(('x', 'z'), 'mc', L, sc, 'b', {'x': 3})
    add('refusal', f"PD.__mul__ {a.label()} * {b.label()}", refuse([a, b], 'batches under different conditions'))
  for sc in SCALES:
    add('concatenation', f"PD.__add__ samples and values pscale={sc}",
        added({'x': 2}, {'x': 3}, sc, ['x', 'y'], 'mm'))
    add('concatenation', f"PD.__add__ samples given values pscale={sc}",
        added({'x': 2}, {'x': 3}, sc, ['x', 'y'], 'mc'))
    add('concatenation', f"PD.__add__ values given samples pscale={sc}",
        added({'y': 2}, {'y': 3}, sc, ['x', 'y'], 'mc'))
    add('concatenation', f"PD.__add__ conditional values pscale={sc}", added({}, {}, sc, ['x', 'y'], 'mc'))
  add('refusal', 'PD.__add__ samples with values', add_refuse(ASet([2]), Num(tm.sym('x0')), 'samples and a value'))
  add('refusal', 'PD.__add__ values with samples', add_refuse(Num(tm.sym('x0')), ASet([2]), 'a value and samples'))
  return out
