""" SciPy and SymPy distributions as probabilities of variables, fields and transitions. """
import itertools
import math

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet, Lib, Inst, AbsFn
from .harness import Scenario, norm
from .interp import SliceV
from .libdist import fn_t
from .pdlib import pscale_value, decode, check_pd
from .table import check_cells, cells, shape_items
from .scen_variable import LO, HI, MID, f, vset_of, name_of, values_of, grid, uniform_draw, elements

SCALES = ('one', 'log')     # distributions provide probabilities and log probabilities
LOC, WID = tm.sym('loc'), tm.sym('wid', sign='+')


def num(t, axes=()):
  return Num(t, axes, 'arr' if axes else 'float', 'float')


def lim(kind):
  return {} if kind == 'one' else {'pscale': 'log'}


def gauss(x, loc=LOC, wid=WID):
  return fn_t('phi', [(x - loc) / wid]) / wid


def cumul(x, loc=LOC, wid=WID):
  return fn_t('ndtr', [(x - loc) / wid])


def quant(p, loc=LOC, wid=WID):
  return loc + wid * fn_t('ndtri', [p])


def poiss(k, mu=WID):
  return fn_t('poissond', [k, mu])


def scipy(obs, name):
  return obs.api(name, 'scipy.stats')


X = tm.sym('x')
XA = tm.sym('xa', ('a',))
VALUES = (('scalar', num(X), X), ('array', num(XA, ('a',)), XA))


def denote(obs, rule, got, scale, want, axes, what):
  d = decode(obs.I, got, pscale_value(scale))
  if d is None:
    return obs.add(rule, None, f"{what}: {got!r}")
  obs.num(rule, num(d, got.axes if isinstance(got, Num) else ()), want, what)
  obs.same(rule, got.axes if isinstance(got, Num) else (), axes, f"{what}: axes")


def prob_scipy(dist, scale, how):
  """ Prob of a SciPy distribution: density, rescaling, partials, (cdf, ppf) pair """
  def cl(obs):
    Prob = obs.api('Prob')
    kw = {'loc': num(LOC), 'scale': num(WID)} if dist == 'norm' else {'mu': num(WID)}
    if how == 'set_prob':
      p = obs.call(Prob, num(tm.const_t(0.5)))
      obs.meth(p, 'set_prob', scipy(obs, dist), **kw, **lim(scale))
    else:
      p = obs.call(Prob, scipy(obs, dist), **kw, **lim(scale))
    dens = gauss if dist == 'norm' else poiss
    for lab, v, t in VALUES:
      axes = v.axes
      what = f"{dist} {how} pscale={scale} {lab}"
      denote(obs, 'probability', obs.call(p, v), scale, dens(t), axes, what)
      for b in SCALES:
        denote(obs, 'probability', obs.call(p, v, pscale=lim(b).get('pscale', 1.)), b, dens(t), axes,
               f"{what} asked in {b}")
      for key, sc in ((('pdf' if dist == 'norm' else 'pmf'), 'one'), ('prob', 'one'), ('logp', 'log'),
                      (('logpdf' if dist == 'norm' else 'logpmf'), 'log')):
        denote(obs, 'probability', obs.call(obs.I.getitem(p, key), v), sc, dens(t), axes,
               f"{what} [{key}]")
      c = cumul(t) if dist == 'norm' else fn_t('poissonc', [t, WID])
      q = quant(t) if dist == 'norm' else fn_t('poissoni', [t, WID])
      denote(obs, 'probability', obs.call(obs.I.getitem(p, 'cdf'), v), 'one', c, axes, f"{what} [cdf]")
      denote(obs, 'probability', obs.call(obs.I.getitem(p, 'ppf'), v), 'one', q, axes, f"{what} [ppf]")
      pf = obs.attr(p, 'pfun')
      denote(obs, 'probability', obs.call(obs.I.getitem(pf, 0), v), 'one', c, axes, f"{what} pfun[0]")
      denote(obs, 'probability', obs.call(obs.I.getitem(pf, 1), v), 'one', q, axes, f"{what} pfun[1]")
    obs.same('probability', obs.attr(p, 'isscipy'), True, 'isscipy')
    obs.same('probability', obs.attr(p, 'issympy'), False, 'issympy')
    obs.same('probability', obs.attr(p, 'issmvar'), False, 'issmvar')
    obs.raises('refusal', lambda: obs.attr(p, 'pr'), None, 'pr of a scipy distribution')
    for e in ([], {}, ()):
      obs.raises('refusal', lambda: obs.I.getitem(p, e), None, f"{e!r} of a scipy distribution")
  return cl


def prob_reset(scale):
  """ a probability set later replaces the distribution """
  def cl(obs):
    Prob = obs.api('Prob')
    p = obs.call(Prob, scipy(obs, 'norm'), loc=num(LOC), scale=num(WID), **lim(scale))
    obs.meth(p, 'set_prob', scipy(obs, 'poisson'), mu=num(WID))
    denote(obs, 'probability', obs.call(p, num(X)), scale, poiss(X), (), 'after set_prob(poisson)')
    obs.meth(p, 'set_prob', scipy(obs, 'norm'), loc=num(WID))
    denote(obs, 'probability', obs.call(p, num(X)), scale, gauss(X, WID, tm.ONE), (),
           'after set_prob(norm)')
    obs.meth(p, 'set_prob', obs.code('lambda x: x * x'))
    got = obs.call(p, num(X))
    obs.num('probability', got, X * X, 'after set_prob(function)')
    obs.same('probability', obs.attr(p, 'isscipy'), False, 'isscipy after set_prob(function)')
  return cl


def rv_scipy(ends, scale):
  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=vset_of(ends), vtype=float, prob=scipy(obs, 'norm'), loc=num(LOC),
                 scale=num(WID), **lim(scale))
    ps = pscale_value(scale)

    def truth(vals):
      return gauss(obs.I.lib.to_num(vals['x']).t)
    vs = [f(MID), f(LO), f(HI)]
    for v in vs:
      check_cells(obs, 'probability', obs.call(x, v), ['x'], truth, 'norm p(v)', pscale=ps,
                  roles=(['x'], []))
      check_cells(obs, 'probability', obs.call(x, {'x': v}), ['x'], truth, 'norm p({x: v})', pscale=ps)
    check_cells(obs, 'probability', obs.call(x, SArr(vs, 'float')), ['x'], truth, 'norm p(array)',
                pscale=ps, values={'x': vs})
    for n in (1, 3):
      cs = check_cells(obs, 'probability', obs.call(x, ASet([n])), ['x'], truth, f"norm p({{{n}}})",
                       pscale=ps)
      if cs is not None:
        obs.same('probability', len(cs), n, f"number of values of p({{{n}}})")
  return cl


def rv_sampling(ends, n, ufun=False):
  """ contiguous and random values are quantiles between the cumulative limits """
  def cl(obs):
    I, lib = obs.I, obs.I.lib
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=vset_of(ends), vtype=float, prob=scipy(obs, 'norm'), loc=num(LOC),
                 scale=num(WID))
    lo, hi = cumul(LO), cumul(HI)
    v = values_of(obs, obs.meth(x, 'evaluate', ASet([n])))
    what = f"norm on {name_of(ends)} {{{n}}}"
    if v is None or isinstance(v, Unk):
      return obs.add('sampling', None if v is not None else False, f"{what}: no values")
    if n > 0:
      els = elements(v)
      if els is None:
        return obs.add('sampling', None, f"{what}: {v!r}")
      obs.add('sampling', len(els) == n, f"{what}: {len(els)} values")
      for i, (g, w) in enumerate(zip(els, grid(n, ends, lo, hi))):
        obs.num('sampling', g, quant(w), f"{what} value {i}")
      return
    els = elements(v)
    if els is None:
      sh = [lib.numt(q).key for q in lib.shape_of(v)]
      obs.add('sampling', sh == ([str(-n)] if n else []), f"{what}: shape {sh}")
      if n < -1:
        obs.add('sampling', bool(v.t.labels), f"{what}: one draw repeated")
      els = [v]
    else:
      obs.add('sampling', n < 0 and len(els) == -n, f"{what}: {len(els)} values")
    for e in els:
      t = lib.numt(e)
      inner = [a for a in t.atoms() if a.op == 'ndtri']
      if len(inner) != 1 or t.key != quant(inner[0].args[0]).key:
        obs.add('sampling', None if t.opaque else False, f"{what}: {t.key} is no quantile")
        continue
      obs.add('sampling', uniform_draw(inner[0].args[0], lo, hi), f"{what}: draw {t.key}")
  return cl


def rv_infinite(side):
  def cl(obs):
    RV = obs.api('RV')
    inf = float('inf')
    vset = {'lo': (-inf, 1.), 'hi': (0., inf), 'both': (-inf, inf)}[side]
    x = obs.call(RV, 'x', vset=vset, vtype=float, prob=scipy(obs, 'norm'))
    for n in (3, -3, 0):
      obs.raises('refusal', lambda: obs.meth(x, 'evaluate', ASet([n])), None,
                 f"{{{n}}} values between infinite limits")
    check_cells(obs, 'probability', obs.call(x, 0.5), ['x'],
                lambda vals: gauss(tm.const_t(0.5), tm.ZERO, tm.ONE), 'norm p(0.5)')
  return cl


def rv_poisson(scale):
  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=range(4), vtype=int, prob=scipy(obs, 'poisson'), mu=num(WID),
                 **lim(scale))

    def truth(vals):
      return poiss(obs.I.lib.to_num(vals['x']).t)
    ps = pscale_value(scale)
    for args in ((), (2,), (SArr([3, 0], 'int'),), ({'x': 1},)):
      check_cells(obs, 'probability', obs.call(x, *args), ['x'], truth, f"poisson p{args}", pscale=ps,
                  values={'x': list(range(4))} if not args else None)
  return cl


# ------------------------------------------------------------ fields
MEAN = {'x': 0.5, 'y': -1., 'z': 2.}
COV = {('x', 'x'): 2., ('x', 'y'): .5, ('x', 'z'): .25, ('y', 'y'): 1., ('y', 'z'): -.125,
       ('z', 'z'): 1.5}


def cov(a, b):
  return COV[(a, b)] if (a, b) in COV else COV[(b, a)]


def mvn(keys, vals):
  """ oracle: joint normal of the values by key (ordered as the field) """
  ts = [vals[k] - tm.const_t(MEAN[k]) for k in keys]
  cs = [tm.const_t(cov(a, b)) for a in keys for b in keys]
  return tm.func('mvn', tuple(ts) + tuple(cs), '+')


def params(keys):
  return ([MEAN[k] for k in keys], [[cov(a, b) for b in keys] for a in keys])


def real_field(obs, keys, scale, ends=(-3., 3.)):
  RV = obs.api('RV')
  rvs = [obs.call(RV, k, vtype=float, vset=[-8., 8.], **lim(scale)) for k in keys]
  return obs.call(obs.api('RF'), *rvs), rvs


def value_of(k, form, label=None):
  label = label or k + 'n'
  if form == 's':
    return f(tm.sym(k + '0'))
  if form == 'a':
    return SArr([f(tm.sym(f"{k}{i}")) for i in range(2)], 'float')
  if form == 'l':
    return Num(tm.sym(k + 's', (label,)), (label,), 'arr', 'float')
  raise ValueError(form)


def rf_mvn(keys, scale, forms, order, how='keywords'):
  """ the density of a field follows the order of its variables, whatever the order
  and the form the values are given in """
  def cl(obs):
    rf, rvs = real_field(obs, keys, scale)
    mean, covm = params(keys)
    if how == 'keywords':
      obs.meth(rf, 'set_prob', scipy(obs, 'multivariate_normal'), mean=mean, cov=covm)
    else:
      obs.meth(rf, 'set_prob', scipy(obs, 'multivariate_normal'), mean, covm)
    vals = {k: value_of(k, forms[keys.index(k)]) for k in order}
    what = f"mvn over {keys} given {order} as {forms} pscale={scale}"
    pd = obs.call(rf, vals)
    lib = obs.I.lib

    def truth(vs):
      return mvn(keys, {k: lib.to_num(vs[k]).t for k in keys})
    if 'l' in forms:
      check_pd(obs, 'joint', pd, list(keys), [], {k: (k + 'n' if v.axes else None) for k, v in vals.items()},
               truth(vals), what, pscale=pscale_value(scale))
      return
    check_cells(obs, 'joint', pd, list(keys), truth, what, pscale=pscale_value(scale),
                roles=(list(keys), []),
                values={k: elements(v) if isinstance(v, SArr) else [v] for k, v in vals.items()})
    # also keyed by the variables themselves
    pd = obs.call(rf, {rvs[keys.index(k)]: v for k, v in vals.items()})
    check_cells(obs, 'joint', pd, list(keys), truth, what + ' by variable', pscale=pscale_value(scale))
  return cl


def rf_mvn_shared(scale, order):
  """ variables given together share their dimension """
  def cl(obs):
    keys = ['x', 'y', 'z']
    rf, rvs = real_field(obs, keys, scale)
    mean, covm = params(keys)
    obs.meth(rf, 'set_prob', scipy(obs, 'multivariate_normal'), mean, covm)
    xs, ys, zs = (value_of(k, 'a') for k in keys)
    pair = 'x,y' if order == 'xy' else 'y,x'
    first, second = (xs, ys) if order == 'xy' else (ys, xs)
    pd = obs.call(rf, {pair: (first, second), 'z': zs})
    lib = obs.I.lib

    def truth(vs):
      return mvn(keys, {k: lib.to_num(vs[k]).t for k in keys})
    cs = check_cells(obs, 'joint', pd, keys, truth, f"mvn with '{pair}' sharing a dimension",
                     pscale=pscale_value(scale))
    if cs is not None:
      got = sorted((norm(c[0]['x']), norm(c[0]['y'])) for c in cs)
      want = sorted((norm(a), norm(b)) for a, b in zip(xs.items, ys.items) for _ in zs.items)
      obs.same('joint', [list(g) for g in got], [list(w) for w in want], 'values paired')
  return cl


def rf_mvn_grid(scale):
  """ default evaluation over counts: one dimension per variable """
  def cl(obs):
    keys = ['x', 'y']
    rf, rvs = real_field(obs, keys, scale)
    mean, covm = params(keys)
    obs.meth(rf, 'set_prob', scipy(obs, 'multivariate_normal'), mean, covm)
    lib = obs.I.lib
    for req in ({'x': ASet([2]), 'y': ASet([3])}, {'y': ASet([2]), 'x': 0.25}, {'y': 1.5, 'x': ASet([1])}):
      pd = obs.call(rf, req)

      def truth(vs):
        return mvn(keys, {k: lib.to_num(vs[k]).t for k in keys})
      cs = check_cells(obs, 'joint', pd, keys, truth, f"mvn over {list(req)}", pscale=pscale_value(scale))
      want = 1
      for v in req.values():
        want *= list(v.d.values())[0] if isinstance(v, ASet) else 1
      if cs is not None:
        obs.same('joint', len(cs), want, 'combinations evaluated')
  return cl


def rf_mvn_refuse():
  def cl(obs):
    rf, rvs = real_field(obs, ['x', 'y'], 'one')
    mean, covm = params(['x', 'y', 'z'])
    def bad():
      obs.meth(rf, 'set_prob', scipy(obs, 'multivariate_normal'), mean, covm)
      return obs.call(rf, {'x': 0.5, 'y': 0.25})
    obs.raises('refusal', bad, None, 'three means for two variables')
  return cl


# ------------------------------------------------------------ transitions
def schur(keys, k):
  """ oracle: regression coefficients and conditional deviation of k """
  rest = [j for j in keys if j != k]
  if len(rest) == 1:
    inv = [[1. / cov(rest[0], rest[0])]]
  else:
    a, b, c = cov(rest[0], rest[0]), cov(rest[0], rest[1]), cov(rest[1], rest[1])
    det = a * c - b * b
    inv = [[c / det, -b / det], [-b / det, a / det]]
  coef = [sum(cov(k, rest[j]) * inv[j][i] for j in range(len(rest))) for i in range(len(rest))]
  var = cov(k, k) - sum(c * cov(r, k) for c, r in zip(coef, rest))
  return rest, coef, math.sqrt(var)


def check_draw(obs, rule, v, k, keys, given, lims, what):
  """ v is a draw of k given the others, by inverse of the truncated conditional
  normal; given: values (floats) by key """
  rest, coef, sd = schur(keys, k)
  mean = MEAN[k] + sum(c * (given[r] - MEAN[r]) for c, r in zip(coef, rest))
  t = obs.I.lib.numt(v)
  if t is None:
    return obs.add(rule, None if isinstance(v, Unk) else False, f"{what}: {v!r}")
  inner = [a for a in t.atoms() if a.op == 'ndtri']
  if len(inner) != 1:
    return obs.add(rule, None if t.opaque else False, f"{what}: {t.key} is no quantile")
  at = tm.atom_t(inner[0])
  rest_t = t.m
  got_sd = [c for mono, c in t.m if mono]
  got_mean = [c for mono, c in t.m if not mono] or [0.]
  ok = len(got_sd) == 1 and abs(float(got_sd[0]) - sd) < 1e-9 and abs(float(got_mean[0]) - mean) < 1e-9
  obs.add(rule, ok, f"{what}: {t.key[:80]} has mean {float(got_mean[0]):g}, deviation "
          f"{float(got_sd[0]) if got_sd else 0:g}, expected {mean:g}, {sd:g}")
  # the cumulative probability is uniform between those of the limits
  cdfs = sorted({a.key: a for a in inner[0].args[0].atoms() if a.op == 'ndtr'}.items())
  zs = sorted(float(a.args[0].const()) for _, a in cdfs if a.args[0].const() is not None)
  want = sorted((l - mean) / sd for l in lims)
  obs.add(rule, len(zs) == 2 and all(abs(a - b) < 1e-6 for a, b in zip(zs, want)),
          f"{what}: cumulative limits at {zs}, expected {want}")
  rnd = [a for a in inner[0].args[0].atoms() if a.op.startswith('rand')]
  obs.add(rule, len({a.key for a in rnd}) == 1, f"{what}: {len(rnd)} random deviates")


def tran_scipy(keys, order, tsteps, moves):
  """ conditional sampling of a joint normal: tsteps variables at a time in the
  order of the field (all of them when not given), each given the latest values """
  def cl(obs):
    rf, rvs = real_field(obs, keys, 'one')
    mean, covm = params(keys)
    kw = {} if tsteps is None else {'tsteps': tsteps}
    obs.meth(rf, 'set_tran', scipy(obs, 'multivariate_normal'), mean, covm, **kw)
    vals = {k: 0.25 + 0.5 * keys.index(k) for k in keys}
    start = 0
    seen = []
    for move in range(moves):
      pred = {k: vals[k] for k in order}
      st = obs.meth(rf, 'step', dict(pred))
      what = f"move {move} of {keys} given {order} tsteps={tsteps}"
      if isinstance(st, Unk):
        return obs.add('transition', None, f"{what}: {st.why}")
      pay = st.payload
      obs.same('transition', sorted(pay.keys()), sorted(list(keys) + [k + "'" for k in keys]), f"{what}: keys")
      new = keys if tsteps is None else keys[start:start + tsteps]
      for k in keys:
        obs.num('transition', pay[k], tm.const_t(vals[k]), f"{what}: predecessor {k}")
        if k not in new:
          obs.num('transition', pay[k + "'"], tm.const_t(vals[k]), f"{what}: {k} is kept")
      if tsteps is None and len(new) > 1:
        first = new[0]
        check_draw(obs, 'transition', pay[first + "'"], first, keys, vals, (-8., 8.), f"{what}: {first}")
        # the others are conditioned on values already drawn
        for k in new[1:]:
          t = obs.I.lib.numt(pay[k + "'"])
          dep = t is not None and len({a.key for a in t.atoms() if a.op.startswith('rand')}) > 1
          obs.add('transition', None if t is None else dep, f"{what}: {k} is drawn given the new values")
      else:
        for k in new:
          if len(new) == 1:
            check_draw(obs, 'transition', pay[k + "'"], k, keys, vals, (-8., 8.), f"{what}: {k}")
      for k in new:
        t = obs.I.lib.numt(pay[k + "'"])
        rs = {a.key for a in t.atoms() if a.op.startswith('rand')} if t is not None else set()
        obs.add('transition', None if t is None else not (len(rs) == 1 and rs <= set(seen)),
                f"{what}: {k} is drawn afresh")
        seen.extend(rs)
      if tsteps is not None:
        start += tsteps
        if start >= len(keys):
          start = 0
  return cl


# ------------------------------------------------------------ SymPy
def sym_x(obs, name='x'):
  return obs.I.call(Lib('sympy.Symbol'), [name], {})


def prob_sympy(dist, scale):
  def cl(obs):
    I = obs.I
    Prob = obs.api('Prob')
    x = sym_x(obs)
    mk = obs.api(dist, 'sympy.stats')
    if dist == 'Normal':
      d = obs.call(mk, x, 1., 0.5)
      dens = lambda t: gauss(t, tm.ONE, tm.const_t(0.5))
      cdf = lambda t: cumul(t, tm.ONE, tm.const_t(0.5))
      icdf = lambda t: quant(t, tm.ONE, tm.const_t(0.5))
    else:
      d = obs.call(mk, x, 2.)
      dens = lambda t: tm.const_t(2.) * tm.exp_t(tm.const_t(-2.) * t)
      cdf = icdf = None
    p = obs.call(Prob, d, **lim(scale))
    for lab, v, t in VALUES:
      what = f"sympy {dist} pscale={scale} {lab}"
      denote(obs, 'probability', obs.call(p, v), scale, dens(t), v.axes, what)
      denote(obs, 'probability', obs.call(p, {'x': v}), scale, dens(t), v.axes, what + ' by name')
      for b in SCALES:
        denote(obs, 'probability', obs.call(p, v, pscale=lim(b).get('pscale', 1.)), b, dens(t), v.axes,
               f"{what} asked in {b}")
      for key, sc, fn in (('prob', 'one', dens), ('logp', 'log', dens), ('cdf', 'one', cdf),
                          ('icdf', 'one', icdf)):
        if fn is not None:
          denote(obs, 'probability', obs.call(I.getitem(p, key), v), sc, fn(t), v.axes,
                 f"{what} [{key}]")
      if icdf is not None:
        pf = obs.attr(p, 'pfun')
        denote(obs, 'probability', obs.call(I.getitem(pf, 0), v), 'one', cdf(t), v.axes, f"{what} pfun[0]")
        denote(obs, 'probability', obs.call(I.getitem(pf, 1), v), 'one', icdf(t), v.axes, f"{what} pfun[1]")
    obs.same('probability', obs.attr(p, 'issympy'), True, 'issympy')
    obs.same('probability', obs.attr(p, 'isscipy'), False, 'isscipy')
    obs.add('probability', I.getitem(p, ASet([])) is d, 'p[set()] is the distribution')
    obs.add('probability', I.getitem(p, []) is obs.attr(p, 'probj'), 'p[[]] is the probability object')
    ex = I.getitem(p, {})
    keys = list(ex.keys()) if isinstance(ex, dict) else None
    obs.same('probability', I.getitem(p, ''), keys, "p[''] lists the expressions")
    key = 'prob' if scale == 'one' else 'logp'
    pr = obs.attr(p, 'pr')
    obs.add('probability', isinstance(ex, dict) and pr is ex.get(key), f"p.pr is the {key} expression")
    obs.add('probability', I.getitem(p, ()) is obs.attr(pr, 'expr'), f"p[()] is the {key} expression")
    obs.raises('refusal', lambda: I.getitem(p, ['x']), None, 'non-empty list index')
    obs.raises('refusal', lambda: I.getitem(p, SliceV(None, None)), None, 'slice index')
  return cl


def prob_refuse(cls):
  """ cumulative and sampling functions come in pairs; an expression holds no distribution to index """
  def cl(obs):
    I = obs.I
    kw = {'vtype': float, 'vset': [0., 1.]}
    fn = AbsFn('g', lambda I, a, k: a[0])
    mk = lambda: obs.call(obs.api('Prob'), fn) if cls == 'Prob' else obs.call(obs.api('RV'), 'x', **kw)
    for lab, bad in (('one function', fn), ('three functions', (fn, fn, fn)), ('a list', [fn, fn]),
                     ('one in a tuple', (fn,)), ('a number first', (1., fn)), ('a number second', (fn, 1.)),
                     ('a number', 1.)):
      obs.raises('refusal', lambda b=bad: obs.meth(mk(), 'set_pfun', b), None, f"{lab} for pfun")
      if lab != 'one function':
        obs.raises('refusal', lambda b=bad: obs.meth(mk(), 'set_sfun', b), None, f"{lab} for sfun")
    p = mk()
    obs.meth(p, 'set_pfun', (fn, fn))
    obs.meth(p, 'set_sfun', (fn, fn))
    obs.meth(p, 'set_pfun')
    obs.meth(p, 'set_sfun')
    obs.same('probability', obs.attr(p, 'pfun'), None, 'no pfun left')
    obs.same('probability', obs.attr(p, 'sfun'), None, 'no sfun left')
    if cls == 'Prob':
      obs.raises('refusal', lambda: obs.attr(p, 'pr'), None, 'pr of a function')
      for lab, e in (('set()', ASet([])), ('[]', []), ('{}', {}), ('()', ())):
        obs.raises('refusal', lambda e=e: I.getitem(p, e), None, f"{lab} of a function")
      obs.raises('refusal', lambda: I.getitem(p, SliceV(None, None)), None, 'slice of a function')
  return cl


def rv_sympy(scale):
  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=vset_of(('c', 'c')), vtype=float, **lim(scale))
    d = obs.call(obs.api('Normal', 'sympy.stats'), obs.I.getitem(x, SliceV(None, None)), 1., 0.5)
    obs.meth(x, 'set_prob', d)
    ps = pscale_value(scale)

    def truth(vals):
      return gauss(obs.I.lib.to_num(vals['x']).t, tm.ONE, tm.const_t(0.5))
    vs = [f(MID), f(LO), f(HI)]
    for v in vs:
      check_cells(obs, 'probability', obs.call(x, v), ['x'], truth, 'sympy normal p(v)', pscale=ps)
      check_cells(obs, 'probability', obs.call(x, {'x': v}), ['x'], truth, 'sympy normal p({x: v})',
                  pscale=ps)
    check_cells(obs, 'probability', obs.call(x, SArr(vs, 'float')), ['x'], truth,
                'sympy normal p(array)', pscale=ps, values={'x': vs})
    v = values_of(obs, obs.meth(x, 'evaluate', ASet([3])))
    els = elements(v) if v is not None and not isinstance(v, Unk) else None
    if els is None:
      obs.add('sampling', None, f"sympy normal {{3}}: {v!r}")
    else:
      lo, hi = (cumul(t, tm.ONE, tm.const_t(0.5)) for t in (LO, HI))
      for i, (g, w) in enumerate(zip(els, grid(3, ('c', 'c'), lo, hi))):
        obs.num('sampling', g, quant(w, tm.ONE, tm.const_t(0.5)), f"sympy normal value {i} of 3")
  return cl


def rf_sympy(scale, forms):
  """ a symbolic joint density is evaluated by name """
  def cl(obs):
    keys = ['x', 'y']
    rf, rvs = real_field(obs, keys, scale)
    sx, sy = (obs.I.getitem(r, SliceV(None, None)) for r in rvs)
    expr = obs.code('sympy.exp(2*x - y)', x=sx, y=sy, sympy=Lib('sympy'))
    if scale == 'log':
      expr = obs.code('2*x - y', x=sx, y=sy)
    obs.meth(rf, 'set_prob', expr)
    lib = obs.I.lib
    for order in (keys, keys[::-1]):
      vals = {k: value_of(k, forms[keys.index(k)]) for k in order}
      pd = obs.call(rf, vals)

      def truth(vs):
        a, b = (lib.to_num(vs[k]).t for k in keys)
        return tm.exp_t(tm.const_t(2) * a - b)
      check_cells(obs, 'joint', pd, keys, truth, f"symbolic joint density given {order} as {forms}",
                  pscale=pscale_value(scale))
  return cl


def rv_change(scale, fn):
  """ a univariate transformation without change of variables: the density is that
  of a uniform transformed variable, values and deltas stay untransformed; with
  change of variables the transformed variable is uniform and evenly spaced """
  def cl(obs):
    I = obs.I
    RV = obs.api('RV')
    kw = {} if scale == 'one' else {'pscale': pscale_value(scale)}
    x = obs.call(RV, 'x', vtype=float, vset=[1., 8.], **kw)
    sx = I.getitem(x, SliceV(None, None))
    if fn == 'log':
      u, du = obs.code('sympy.log(x)', x=sx, sympy=Lib('sympy')), lambda t: tm.ONE / t
      fwd, back = tm.log_t, tm.exp_t
    else:
      u, du = obs.code('3*x + 2', x=sx), lambda t: tm.const_t(3)
      fwd, back = (lambda t: tm.const_t(3) * t + tm.const_t(2)), \
          (lambda t: (t - tm.const_t(2)) / tm.const_t(3))
    ends = [tm.const_t(1.), tm.const_t(8.)]
    wide = fwd(ends[1]) - fwd(ends[0])
    at = [tm.const_t(2.), tm.const_t(4.), tm.const_t(8.)]
    for free in (True, False, True):
      obs.meth(x, 'set_ufun', u, no_ucov=free)
      lab = f"{fn} no_ucov={free}"
      dens = (lambda t: du(t) / wide) if free else (lambda t: tm.ONE / wide)

      def truth(vals):
        return dens(obs.I.lib.to_num(vals['x']).t)
      for t in at:
        check_cells(obs, 'probability', obs.call(x, num(t)), ['x'], truth, f"{lab}: p(v)",
                    pscale=pscale_value(scale))
      check_cells(obs, 'probability', obs.call(x, SArr([num(t) for t in at], 'float')), ['x'], truth,
                  f"{lab}: p(array)", pscale=pscale_value(scale))
      obs.num('derived', obs.attr(x, 'length'), (ends[1] - ends[0]) if free else wide, f"{lab}: length")
      els = elements(values_of(obs, obs.meth(x, 'evaluate', ASet([3]))))
      if els is None:
        obs.add('sampling', None, lab)
      else:
        for i, g in enumerate(els):
          w = grid(3, ('c', 'c'), *(ends if free else [fwd(e) for e in ends]))[i]
          obs.num('sampling', g, w if free else back(w), f"{lab}: value {i} of 3")
      t = at[0]
      d = tm.const_t(.5)
      obs.num('delta', obs.meth(x, 'apply_delta', num(t), 0.5), t + d if free else back(fwd(t) + d),
              f"{lab}: delta")
    obs.raises('refusal', lambda: obs.meth(x, 'set_ufun', (Lib('numpy.log'), Lib('numpy.exp')),
                                           no_ucov=True), None, 'no_ucov of a pair of functions')
    obs.raises('refusal', lambda: obs.meth(
        obs.call(RV, 'y', vtype=float, vset=[1., 8.], prob=scipy(obs, 'norm')), 'set_ufun', u), None,
        'transformation beside CDF and ICDF')
  return cl


def scenarios(tier):
  out = []

  def add(rule, construct, cl, **k):
    out.append(Scenario(rule, construct, cl, **k))
  for sc in SCALES:
    for dist in ('norm', 'poisson'):
      for how in ('keywords', 'set_prob'):
        add('probability', f"Prob.__call__ scipy {dist} {how} pscale={sc}", prob_scipy(dist, sc, how))
    add('probability', f"Prob.set_prob replaced pscale={sc}", prob_reset(sc))
    for ends in (('c', 'c'), ('o', 'c'), ('o', 'o')):
      add('probability', f"RV.__call__ scipy norm {name_of(ends)} pscale={sc}", rv_scipy(ends, sc))
    add('probability', f"RV.__call__ scipy poisson pscale={sc}", rv_poisson(sc))
    for keys in (['x'], ['x', 'y'], ['y', 'x'], ['z', 'x', 'y']):
      for forms in itertools.product('sal' if len(keys) < 3 else 'sa', repeat=len(keys)):
        if 'l' in forms and 'a' in forms:
          continue
        for order in itertools.permutations(keys):
          add('joint', f"RF.__call__ multivariate_normal {','.join(keys)} given {','.join(order)} as "
              f"{''.join(forms)} pscale={sc}", rf_mvn(keys, sc, forms, order))
    add('joint', f"RF.__call__ multivariate_normal positional pscale={sc}",
        rf_mvn(['x', 'y'], sc, 'sa', ['y', 'x'], 'positional'))
    for o in ('xy', 'yx'):
      add('joint', f"RF.__call__ multivariate_normal shared {o} pscale={sc}", rf_mvn_shared(sc, o))
    add('joint', f"RF.__call__ multivariate_normal grid pscale={sc}", rf_mvn_grid(sc))
    for dist in ('Normal', 'Exponential'):
      add('probability', f"Prob.__call__ sympy {dist} pscale={sc}", prob_sympy(dist, sc))
    add('probability', f"RV.__call__ sympy Normal pscale={sc}", rv_sympy(sc))
    for forms in ('ss', 'sa', 'as', 'aa'):
      add('joint', f"RF.__call__ symbolic as {forms} pscale={sc}", rf_sympy(sc, forms))
  add('refusal', 'RF.set_prob multivariate_normal incommensurate', rf_mvn_refuse())
  for ends in (('c', 'c'), ('o', 'c'), ('c', 'o'), ('o', 'o')):
    for n in (1, 2, 3, 4, 0, -1, -3):
      add('sampling', f"RV.evaluate scipy norm {name_of(ends)} {{{n}}}", rv_sampling(ends, n))
  for fn in ('log', 'affine'):
    for sc in ('one', 'coef', 'log', 'offs'):
      add('probability', f"RV.set_ufun {fn} with and without change of variables pscale={sc}",
          rv_change(sc, fn))
  for cls in ('Prob', 'RV'):
    add('refusal', f"{cls}.set_pfun and set_sfun refusals", prob_refuse(cls))
  for side in ('lo', 'hi', 'both'):
    add('refusal', f"RV.evaluate scipy norm infinite {side}", rv_infinite(side))
  for keys in (['x', 'y'], ['y', 'x'], ['z', 'x', 'y']):
    for order in itertools.permutations(keys):
      for ts in (1, 2, None):
        add('transition', f"RF.step multivariate_normal {','.join(keys)} given {','.join(order)} "
            f"tsteps={ts}", tran_scipy(keys, list(order), ts, 4 if ts else 2))
  return out
