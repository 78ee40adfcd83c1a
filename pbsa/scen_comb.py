""" Combination of distributions: product rule and concatenation. """
import collections
import itertools

from . import terms as tm
from .values import Num, Unk, ASet, AbsExc, Inst
from .harness import Scenario
from .pdlib import SCALES, Spec, check_pd, default_dims, pscale_value, decode


def mk(keys, roles, labels, scale, tag, order=None):
  lb = {k: labels[k] for k in keys}
  return Spec(keys, dict(zip(keys, roles)), lb, default_dims(keys, lb, order), scale, None, tag)


def prod(sps, via, out_scale=None):
  def cl(obs):
    pds = [sp.build(obs) for sp in sps]
    for i, pd in enumerate(pds):
      obs.freeze(f"factor {i}", pd)
    marg = []
    for sp in sps:
      marg += [k for k in sp.keys if sp.roles[k] == 'm']
    cond = []
    for sp in sps:
      for k in sp.keys:
        if sp.roles[k] == 'c' and k not in marg and k not in cond:
          cond.append(k)
    labels = {}
    truth = tm.ONE
    for sp in sps:
      labels.update(sp.labels)
      truth = truth * sp.truth
    if via == 'mul':
      r = pds[0]
      for p in pds[1:]:
        r = obs.I.binop('mul', r, p)
    else:
      kw = {} if out_scale is None else {'pscale': pscale_value(out_scale, 'out')}
      r = obs.call(obs.api('product', 'probayes.pd_utils'), *pds, **kw)
    what = ' * '.join(sp.name() for sp in sps)
    check_pd(obs, 'product-rule', r, marg, cond, labels, truth, what,
             pscale_value(out_scale, 'out') if out_scale else None)
    obs.unmutated('operand-unchanged')
  return cl


def refuse(sps, why):
  def cl(obs):
    pds = [sp.build(obs) for sp in sps]
    obs.raises('refusal', lambda: obs.I.binop('mul', pds[0], pds[1]), None, why)
  return cl


def scenarios(tier):
  out = []
  big = tier == 'thorough'
  pairs = list(itertools.product(SCALES, SCALES)) if big else \
      [('one', 'one'), ('coef', 'coef'), ('log', 'log'), ('offs', 'offs'), ('one', 'log'),
       ('coef', 'offs'), ('offs', 'one'), ('log', 'coef')]
  # shapes of (keys, roles) pairs whose product is defined
  shapes = [
      ((('x',), 'm'), (('y',), 'm')),
      ((('x', 'y'), 'mm'), (('z',), 'm')),
      ((('z',), 'm'), (('x', 'y'), 'mm')),
      ((('x', 'y'), 'mc'), (('y',), 'm')),
      ((('y',), 'm'), (('x', 'y'), 'mc')),
      ((('x', 'z'), 'mc'), (('y', 'z'), 'mc')),
      ((('x', 'y', 'z'), 'mcc'), (('y', 'z'), 'mc')),
      ((('x', 'y', 'z'), 'mmc'), (('z',), 'm')),
      ((('z',), 'm'), (('x', 'y', 'z'), 'mmc')),
      ((('x', 'y', 'z'), 'mcc'), (('y', 'z'), 'mm')),
      ((('y', 'z'), 'mm'), (('x', 'y', 'z'), 'mcc')),
      ((('z', 'y'), 'mm'), (('x', 'y', 'z'), 'mcc')),
      ((('x', 'y', 'z'), 'mcc'), (('w', 'y', 'z'), 'mcc')),
  ]
  for (ka, ra), (kb, rb) in shapes:
    ks = sorted(set(ka) | set(kb))
    for scal in itertools.product((False, True), repeat=len(ks)):
      labels = {k: (None if s else k) for k, s in zip(ks, scal)}
      for sa, sb in pairs:
        orders = [(None, None)]
        na = len([k for k in ka if labels[k]])
        nb = len([k for k in kb if labels[k]])
        if na > 1:
          orders.append(('rev', None))
        if nb > 1:
          orders.append((None, 'rev'))
        for oa, ob in orders:
          a = mk(ka, ra, labels, sa, 'a', oa)
          b = mk(kb, rb, labels, sb, 'b', ob)
          out.append(Scenario('product-rule', f"PD.__mul__ {a.label()} * {b.label()}",
                              prod([a, b], 'mul')))
          if (oa, ob) == (None, None) and (sa, sb) in (('one', 'one'), ('log', 'log'), ('one', 'log'),
                                                       ('coef', 'offs')):
            for osc in (SCALES if big else ('coef', 'log')):
              out.append(Scenario('product-rule',
                                  f"product(pscale={osc}) {a.label()} * {b.label()}",
                                  prod([a, b], 'product', osc)))
  # variables named with the values they were given
  for (ka, ra), (kb, rb) in shapes:
    marg = [k for k, r in zip(ka + kb, ra + rb) if r == 'm']
    conds = [k for k, r in zip(ka + kb, ra + rb) if r == 'c']
    if not all(k in marg for k in conds):
      continue
    for scal in (False, True):
      for sa, sb in (('one', 'one'), ('log', 'coef')):
        labels = {k: None if scal else k for k in ka + kb}
        for na, nb in ((ka, ()), ((), kb), (ka, kb)):
          a, b = mk(ka, ra, labels, sa, 'a'), mk(kb, rb, labels, sb, 'b')
          a.named, b.named = na, nb
          out.append(Scenario('product-rule', f"PD.__mul__ {a.label()} * {b.label()}",
                              prod([a, b], 'mul')))
  # three factors
  for scs in (itertools.product(('one', 'log', 'offs'), repeat=3) if big else
              [('one', 'one', 'one'), ('log', 'log', 'log'), ('one', 'log', 'offs')]):
    for scal in itertools.product((False, True), repeat=3):
      labels = {k: (None if s else k) for k, s in zip('xyz', scal)}
      a = mk(('x', 'y', 'z'), 'mcc', labels, scs[0], 'a')
      b = mk(('y', 'z'), 'mc', labels, scs[1], 'b')
      c = mk(('z',), 'm', labels, scs[2], 'c')
      for perm in itertools.permutations((a, b, c)):
        out.append(Scenario('product-rule', 'product ' + ' * '.join(p.label() for p in perm),
                            prod(list(perm), 'product')))
      d = mk(('x',), 'm', labels, scs[0], 'a')
      e = mk(('y',), 'm', labels, scs[1], 'b')
      out.append(Scenario('product-rule', f"product {d.label()} * {e.label()} * {c.label()}",
                          prod([d, e, c], 'product')))
  # shared dimension inside one factor
  for sa, sb in pairs:
    labels = {'x': 'x', 'y': 'x', 'z': 'z'}
    a = mk(('x', 'y'), 'mm', labels, sa, 'a')
    b = mk(('z',), 'm', labels, sb, 'b')
    for p in ([a, b], [b, a]):
      out.append(Scenario('product-rule', f"PD.__mul__ shared {p[0].label()} * {p[1].label()}",
                          prod(p, 'mul')))
  # a dimension shared by conditionals, or by variables that are conditionals of another factor
  for sa, sb in pairs:
    labels = {'x': 'x', 'y': 'x', 'z': 'z', 'w': None}
    for (ka, ra), (kb, rb) in (
        ((('z', 'x', 'y'), 'mcc'), (('x', 'y'), 'mm')),
        ((('z', 'x'), 'mc'), (('x', 'y'), 'mm')),
        ((('z', 'y'), 'mc'), (('x', 'y'), 'mm')),
        ((('w', 'x', 'y'), 'mcc'), (('x', 'y'), 'mm')),
        ((('w', 'x', 'y'), 'mcc'), (('z', 'x', 'y'), 'mcc')),
        ((('z', 'x', 'y'), 'mmc'), (('w',), 'm')),
        ((('x', 'y', 'z'), 'mmc'), (('z',), 'm')),
        ((('x', 'z', 'y'), 'mmm'), (('w', 'x'), 'mc'))):
      for oa, ob in ((None, None), ('rev', None), (None, 'rev')):
        a, b = mk(ka, ra, labels, sa, 'a', oa), mk(kb, rb, labels, sb, 'b', ob)
        if oa and len(a.axes()) < 2 or ob and len(b.axes()) < 2:
          continue
        for p in ([a, b], [b, a]):
          out.append(Scenario('product-rule',
                              f"PD.__mul__ shared {p[0].label()} * {p[1].label()}", prod(p, 'mul')))
  # refused combinations
  L = {'x': 'x', 'y': 'y', 'z': 'z', 'w': 'w'}
  for sc in ('one', 'log'):
    for (ka, ra), (kb, rb), why in (
        ((('x',), 'm'), (('x',), 'm'), 'shared marginal variable'),
        ((('x', 'y'), 'mm'), (('x', 'z'), 'mm'), 'shared marginal variable'),
        ((('x', 'y'), 'mc'), (('w', 'z'), 'mc'), 'different conditionals')):
      a, b = mk(ka, ra, L, sc, 'a'), mk(kb, rb, L, sc, 'b')
      out.append(Scenario('refusal', f"PD.__mul__ {a.label()} * {b.label()}", refuse([a, b], why)))
  # marginal values of a variable must match its conditional values
  def mism(obs):
    a = mk(('x', 'y'), 'mc', L, 'one', 'a').build(obs)
    PD = obs.api('PD')
    b = obs.call(PD, 'y', {'y': Num(tm.sym('other', ('y',)), ('y',), 'arr')},
                 prob=Num(tm.sym('Pb', ('y',), sign='+'), ('y',), 'arr'))
    def attempt():
      r = obs.I.binop('mul', a, b)
      # the partition in which the two sets of values do agree
      if any(k[0] in ('allclose', 'array_equal') and v is True for k, v, _ in obs.I.ctx.taken):
        raise AbsExc('agree')
      return r
    obs.raises('refusal', attempt, None, 'values of y differ between the factors')
  out.append(Scenario('refusal', 'PD.__mul__ mismatched conditional values', mism))
  out += sum_scenarios(tier)
  return out


def sum_scenarios(tier):
  out = []
  R = 'concatenation'
  for sc in SCALES:
    for scal_y in (True,):
      def cl(obs, sc=sc):
        # all-scalar distributions concatenate along one new dimension
        PD = obs.api('PD')
        pds = []
        for i in range(2):
          t = tm.sym(f"P{i}", sign='+')
          from .pdlib import encode
          pds.append(obs.call(PD, 'x,y', collections.OrderedDict(
              [('x', Num(tm.sym(f"x{i}"))), ('y', Num(tm.sym(f"y{i}")))]),
              prob=Num(encode(sc, t)), pscale=pscale_value(sc)))
        for i, p in enumerate(pds):
          obs.freeze(f"operand {i}", p)
        r = obs.I.binop('add', pds[0], pds[1])
        if isinstance(r, Unk):
          obs.add(R, None, r.why)
          return
        for k in ('x', 'y'):
          obs.same(R, r.payload[k], [tm.sym(f"{k}0"), tm.sym(f"{k}1")], f"values of {k}")
          obs.same(R, obs.attr(r, 'dims').get(k), 0, f"dimension of {k}")
        p = obs.attr(r, 'prob')
        from .pdlib import encode
        obs.same(R, p, [encode(sc, tm.sym('P0', sign='+')), encode(sc, tm.sym('P1', sign='+'))],
                 'probabilities')
        obs.same(R, obs.attr(r, 'pscale'), pscale_value(sc), 'pscale')
        obs.unmutated('operand-unchanged')
      out.append(Scenario(R, f"PD.__add__ scalars pscale={sc}", cl))
  def diffscale(obs):
    a = mk(('x',), 'm', {'x': None}, 'one', 'a').build(obs)
    b = mk(('x',), 'm', {'x': None}, 'log', 'b').build(obs)
    obs.raises('refusal', lambda: obs.I.binop('add', a, b), None, 'different pscales')
  out.append(Scenario('refusal', 'PD.__add__ of different pscales', diffscale))
  def diffvars(obs):
    a = mk(('x',), 'm', {'x': None}, 'one', 'a').build(obs)
    b = mk(('y',), 'm', {'y': None}, 'one', 'b').build(obs)
    obs.raises('refusal', lambda: obs.I.binop('add', a, b), None, 'different variables')
  out.append(Scenario('refusal', 'PD.__add__ of different variables', diffvars))
  def diffcond(obs):
    a = mk(('x', 'y'), 'mc', {'x': None, 'y': None}, 'one', 'a').build(obs)
    b = mk(('x', 'y'), 'mm', {'x': None, 'y': None}, 'one', 'b').build(obs)
    obs.raises('refusal', lambda: obs.I.binop('add', a, b), None, 'different conditionals')
  out.append(Scenario('refusal', 'PD.__add__ of different conditionals', diffcond))
  # arrays: concatenate along the only differing variable
  for sc in SCALES:
    for dim, nd in ((0, 1), (0, 2), (1, 2)):
      def cl(obs, sc=sc, dim=dim, nd=nd):
        from .pdlib import encode
        PD = obs.api('PD')
        keys = ('x', 'y')[:nd]
        var = keys[dim]
        pds, terms = [], []
        for i in range(2):
          vals = collections.OrderedDict()
          for k in keys:
            lab = k if k != var else f"{k}{i}"
            vals[k] = Num(tm.sym(k + 's' + (str(i) if k == var else ''), (lab,)), (lab,), 'arr')
          labs = tuple(k if k != var else f"{k}{i}" for k in keys)
          t = encode(sc, tm.sym(f"P{i}", labs, sign='+'))
          terms.append((t, labs))
          pds.append(obs.call(PD, ','.join(keys), vals,
                              prob=Num(t, labs, 'arr'), pscale=pscale_value(sc)))
        for i, p in enumerate(pds):
          obs.freeze(f"operand {i}", p)
        r = obs.I.binop('add', pds[0], pds[1])
        cat = obs.I.lib.np_concatenate([Num(t, l, 'arr') for t, l in terms], axis=dim)
        p = obs.attr(r, 'prob')
        if isinstance(p, Unk):
          obs.add(R, None, p.why)
          return
        obs.same(R, p, cat, 'probabilities joined along the differing variable')
        v = obs.I.lib.np_ravel(r.payload[var])
        w = obs.I.lib.np_concatenate([Num(tm.sym(f"{var}s{i}", (f"{var}{i}",)), (f"{var}{i}",), 'arr')
                                      for i in range(2)])
        obs.num(R, v, w.t, f"values of {var}")
        obs.same(R, obs.attr(r, 'pscale'), pscale_value(sc), 'pscale')
        obs.unmutated('operand-unchanged')
      out.append(Scenario(R, f"PD.__add__ arrays ndim={nd} along {dim} pscale={sc}", cl))
  return out
