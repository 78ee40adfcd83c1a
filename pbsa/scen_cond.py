""" Conditioning and division of distributions. """
import itertools

from . import terms as tm
from .values import Num, Unk, ASet, AbsExc, Inst
from .harness import Scenario
from .pdlib import SCALES, Spec, check_pd, default_dims, pscale_value, decode
from .scen_pd import specs, subsets, sum_over


def conditionalise(sp, ks, form):
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    arg = ks[0] if form == 'str' else list(ks)
    if any(sp.roles[k] != 'm' for k in ks):
      obs.raises('refusal', lambda: obs.meth(pd, 'conditionalise', arg), None,
                 'conditionalise on a conditional')
      return
    rest = [k for k in sp.keys if sp.roles[k] == 'm' and k not in ks]
    klabs = set(sp.labels[k] for k in ks if sp.labels[k])
    if any(sp.labels[k] in klabs for k in sp.keys if sp.labels[k] and k not in ks):
      return   # shared with a variable left behind
    if not any(sp.labels[k] for k in rest):
      return   # nothing left to normalise over
    r = obs.meth(pd, 'conditionalise', arg)
    rlabs = set(sp.labels[k] for k in rest if sp.labels[k])
    truth = sp.truth
    if rlabs:
      truth = truth / sum_over(truth, rlabs)
    check_pd(obs, 'conditioning', r, rest, [k for k in sp.keys if k not in rest], sp.labels,
             truth, f"conditionalise({','.join(ks)})", pscale_value(sp.scale))
    obs.unmutated('operand-unchanged')
  return cl


def division(sp, ks, other_scale, other_order):
  """ P(all|cond) / P(ks|cond) """
  def cl(obs):
    pd = sp.build(obs)
    keys = [k for k in sp.keys if k in ks or sp.roles[k] == 'c']
    labs = sorted(set(sp.labels[k] for k in keys if sp.labels[k]))
    Q = tm.sym('Q', labs, sign='+')
    lb = {k: sp.labels[k] for k in keys}
    dsp = Spec(keys, {k: sp.roles[k] for k in keys}, lb, default_dims(keys, lb, other_order),
               other_scale, Q, 'd')
    dv = dsp.build(obs)
    obs.freeze('dividend', pd)
    obs.freeze('divisor', dv)
    r = obs.I.binop('truediv', pd, dv)
    rest = [k for k in sp.keys if sp.roles[k] == 'm' and k not in ks]
    check_pd(obs, 'division', r, rest, [k for k in sp.keys if k not in rest], sp.labels,
             sp.truth / Q, f"{sp.name()} / {dsp.name()}", pscale_value(sp.scale))
    obs.unmutated('operand-unchanged')
  return cl


def refuse_div(a, b, why):
  def cl(obs):
    x, y = a.build(obs), b.build(obs)
    obs.raises('refusal', lambda: obs.I.binop('truediv', x, y), None,
               f"{a.name()} / {b.name()}: {why}")
  return cl


def mk(keys, roles, scalars, scale, tag):
  lb = {k: None if k in scalars else k for k in keys}
  return Spec(keys, dict(zip(keys, roles)), lb, default_dims(keys, lb), scale, None, tag)


def refusals():
  out = []
  for sc, so in (('one', 'one'), ('coef', 'log')):
    for scal in ('', 'z', 'y', 'xz', 'xyz', 'v', 'vz', 'vxyz'):
      for (ka, ra), (kb, rb), why in (
          (('xyz', 'mmc'), ('x', 'm'), 'a conditional the divisor lacks'),
          (('xy', 'mm'), ('xz', 'mc'), 'a conditional the dividend lacks'),
          (('xyz', 'mmc'), ('xzv', 'mcc'), 'one more conditional in the divisor'),
          (('xyzv', 'mmcc'), ('xz', 'mc'), 'one more conditional in the dividend'),
          (('xyz', 'mmc'), ('xv', 'mc'), 'another conditional'),
          (('xy', 'mm'), ('xv', 'mm'), 'a marginal the dividend lacks')):
        if why.startswith('a marginal') and not (set('xv') <= set(scal)):
          continue
        a, b = mk(ka, ra, scal, sc, 'a'), mk(kb, rb, scal, so, 'b')
        out.append(Scenario('refusal', f"PD.__truediv__ {a.label()} / {b.label()}: {why}",
                            refuse_div(a, b, why)))
  return out


def scenarios(tier):
  out = refusals()
  big = tier == 'thorough'
  for n in (1, 2, 3):
    for sp in specs(n, shared=True, scales=SCALES if n < 3 or big else ('coef', 'offs')):
      for ks in subsets(sp.keys):
        out.append(Scenario('conditioning', f"PD.conditionalise({','.join(ks)}) {sp.label()}",
                            conditionalise(sp, ks, 'list')))
      out.append(Scenario('conditioning', f"PD.conditionalise('{sp.keys[-1]}') {sp.label()}",
                          conditionalise(sp, (sp.keys[-1],), 'str')))
      marg = [k for k in sp.keys if sp.roles[k] == 'm']
      for ks in subsets(marg):
        arr = [k for k in ks if sp.labels[k]]
        if not any(sp.labels.values()):
          continue
        scal = set(k for k in marg if sp.labels[k] is None)
        oarr = [k for k in sp.keys if (k in ks or sp.roles[k] == 'c') and sp.labels[k]]
        if not oarr and scal != set(ks):
          continue
        if any(sp.labels[a] == sp.labels[b] for a in oarr for b in sp.keys if b not in ks
               and sp.roles[b] == 'm' and sp.labels[b]):
          continue
        for os in (('one', 'log') if not big else SCALES):
          out.append(Scenario('division', f"PD.__truediv__({','.join(ks)}:{os}) {sp.label()}",
                              division(sp, ks, os, None)))
  return out
