""" Sum rule, conditioning and expectation over distributions. """
import itertools

from . import terms as tm
from .values import Num, Unk, ASet, AbsExc, Inst
from .harness import Scenario
from .pdlib import SCALES, Spec, check_pd, default_dims, pscale_value, decode

KEYS = ('x', 'y', 'z', 'w')


def specs(n, kinds=('ma', 'ms', 'ca', 'cs'), orders=(None, 'rev'), shared=False, scales=SCALES):
  """ every arrangement of n variables: marginal/conditional, array/scalar,
  dimension order along or against the variable order """
  for combo in itertools.product(kinds, repeat=n):
    # conditionals are named after marginals
    if any(combo[i][0] == 'c' and combo[j][0] == 'm' for i in range(n) for j in range(i, n)):
      continue
    if not any(c[0] == 'm' for c in combo):
      continue
    keys = KEYS[:n]
    roles = {k: c[0] for k, c in zip(keys, combo)}
    labels = {k: (k if c[1] == 'a' else None) for k, c in zip(keys, combo)}
    narr = sum(1 for l in labels.values() if l)
    labelings = [labels]
    if shared:
      arrs = [k for k in keys if labels[k]]
      for a, b in itertools.combinations(arrs, 2):
        l2 = dict(labels)
        l2[b] = labels[a]
        labelings.append(l2)
    for lb in labelings:
      for o in orders:
        if o == 'rev' and len(set(l for l in lb.values() if l)) < 2:
          continue
        for sc in scales:
          yield Spec(keys, roles, lb, default_dims(keys, lb, o), sc)


def subsets(xs):
  for n in range(1, len(xs) + 1):
    for c in itertools.combinations(xs, n):
      yield c


def sum_over(t, labels):
  for l in labels:
    t = tm.sum_t(t, l)
  return t


def marginalise(sp, ks, form):
  """ form: 'str' | 'list' | 'marginal' """
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    labs = set(sp.labels[k] for k in ks)
    bad = any(l is None for l in labs) or \
        any(sp.roles[k] != 'm' for k in ks)
    rest = [k for k in sp.keys if k not in ks]
    split = any(sp.labels[k] in labs and sp.labels[k] for k in rest)
    arg = ks[0] if form == 'str' else list(ks)
    if bad:
      obs.raises('refusal', lambda: obs.meth(pd, 'marginalise', arg), None,
                 'marginalise along a scalar or a conditional')
      return
    if split or not rest:
      return
    r = obs.meth(pd, 'marginalise', arg)
    check_pd(obs, 'sum-rule', r, [k for k in rest if sp.roles[k] == 'm'],
             [k for k in rest if sp.roles[k] == 'c'], sp.labels, sum_over(sp.truth, labs),
             f"marginalise({','.join(ks)})", pscale_value(sp.scale))
    obs.unmutated('operand-unchanged')
  return cl


def marginal(sp, ks):
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    if any(sp.roles[k] != 'm' for k in ks):
      obs.raises('refusal', lambda: obs.meth(pd, 'marginal', list(ks)), None,
                 'marginal of a conditional')
      return
    out = [k for k in sp.keys if sp.roles[k] == 'm' and k not in ks]
    if any(sp.labels[k] is None for k in out):
      obs.raises('refusal', lambda: obs.meth(pd, 'marginal', list(ks)), None,
                 'marginal leaving out a marginal scalar')
      return
    labs = set(sp.labels[k] for k in out)
    keep = [k for k in sp.keys if k not in out]
    mine = set(sp.labels[k] for k in ks if sp.labels[k])
    if any(sp.labels[k] in mine for k in keep if k not in ks):
      return    # shares an axis with a conditional: left open
    if any(sp.labels[k] in labs for k in keep if sp.labels[k]):
      if any(sp.labels[k] in labs for k in ks if sp.labels[k]):
        obs.raises('refusal', lambda: obs.meth(pd, 'marginal', list(ks)), None,
                   'marginal splitting a shared dimension')
      return
    r = obs.meth(pd, 'marginal', list(ks))
    check_pd(obs, 'sum-rule', r, [k for k in keep if sp.roles[k] == 'm'],
             [k for k in keep if sp.roles[k] == 'c'], sp.labels, sum_over(sp.truth, labs),
             f"marginal({','.join(ks)})", pscale_value(sp.scale))
    obs.unmutated('operand-unchanged')
  return cl


def expectation(sp, ks, exponent):
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    if ks is not None and any(sp.roles[k] != 'm' for k in ks):
      obs.raises('refusal', lambda: obs.meth(pd, 'expectation', list(ks)), None,
                 'expectation of a conditional')
      return
    kk = ks if ks is not None else tuple(k for k in sp.keys if sp.roles[k] == 'm')
    args = [list(ks)] if ks is not None else []
    kw = {'exponent': exponent} if exponent else {}
    r = obs.meth(pd, 'expectation', *args, **kw)
    labs = set(sp.labels[k] for k in kk if sp.labels[k])
    if not isinstance(r, dict):
      obs.add('expectation', None if isinstance(r, Unk) else False, repr(r))
      return
    want = [k for k in sp.keys if k in kk or sp.roles[k] == 'c']
    obs.same('expectation', sorted(r.keys()), sorted(want), 'variables reported')
    den = sum_over(sp.truth, labs)
    for k in kk:
      if k not in r:
        continue
      e = tm.Fraction(exponent or 1)
      if sp.labels[k] is None:
        obs.num('expectation', r[k], tm.sym(k + '0').power(e), f"E[{k}]")
      else:
        num = sum_over(sp.truth * tm.sym(k + 's', (sp.labels[k],)).power(e), labs)
        obs.num('expectation', r[k], num / den, f"E[{k}]")
    obs.unmutated('operand-unchanged')
  return cl


def scenarios(tier):
  out = []
  big = tier == 'thorough'
  for n in (1, 2, 3):
    for sp in specs(n, shared=True, orders=(None, 'rev'),
                    scales=SCALES if n < 3 or big else ('coef', 'offs')):
      for ks in subsets(sp.keys):
        out.append(Scenario('sum-rule', f"PD.marginalise({','.join(ks)}) {sp.label()}",
                            marginalise(sp, ks, 'list')))
        if len(ks) == 1:
          out.append(Scenario('sum-rule', f"PD.marginalise('{ks[0]}') {sp.label()}",
                              marginalise(sp, ks, 'str')))
        out.append(Scenario('sum-rule', f"PD.marginal({','.join(ks)}) {sp.label()}",
                            marginal(sp, ks)))
        out.append(Scenario('expectation', f"PD.expectation({','.join(ks)}) {sp.label()}",
                            expectation(sp, ks, None)))
      out.append(Scenario('expectation', f"PD.expectation() {sp.label()}",
                          expectation(sp, None, None)))
      out.append(Scenario('expectation', f"PD.expectation(exponent=2) {sp.label()}",
                          expectation(sp, None, 2)))
  return out
