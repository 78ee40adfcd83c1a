""" Random fields and stochastic dependences: joint evaluation. """
import itertools

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet, AbsFn, Cplx, Inst
from .harness import Scenario, norm
from .pdlib import pscale_value, encode, decode, check_pd
from .table import check_cells, cells
from .scen_variable import LO, HI, MID, f, vset_of

SCALES = ('one', 'coef', 'log', 'offs')


def and_(obs, a, b):
  return obs.meth(a, '__and__', b)


def or_(obs, a, b):
  return obs.meth(a, '__or__', b)


def lim(kind, tag):
  return {} if kind == 'one' else {'pscale': pscale_value(kind, tag)}


def stored(kind, truth, tag):
  return Num(encode(kind, truth, tag), (), 'float', 'float')


class Var:
  """ a random variable with its declared probability """
  def __init__(self, obs, key, kind, scale='one'):
    self.key, self.kind, self.scale = key, kind, scale
    RV = obs.api('RV')
    kw = lim(scale, key)
    self.ps = pscale_value(scale, key)
    self.obs = obs
    if kind == 'bool':
      self.members = [False, True]
      self.rv = obs.call(RV, key, vtype=bool, prob=stored(scale, tm.const_t(0.25), key), **kw)
    elif kind == 'int':
      self.members = [0, 1, 2]
      self.rv = obs.call(RV, key, vtype=int, vset=[0, 1, 2], **kw)
    elif kind == 'tab':
      self.members = [3, 5]
      self.rv = obs.call(RV, key, vtype=int, vset=[3, 5],
                         prob=SArr([stored(scale, self.p(i), key) for i in range(2)], 'float'), **kw)
    elif kind == 'float':
      self.members = None
      self.rv = obs.call(RV, key, vtype=float, vset=[f(LO), f(HI)], prob=density(key), **kw)
    self.vtype = {'bool': 'bool', 'int': 'int', 'tab': 'int', 'float': 'float'}[kind]

  def p(self, i):
    return tm.sym(f"p{self.key}{i}", (), '+')

  def truth(self, v):
    n = norm(v)
    if self.kind == 'bool':
      return tm.const_t(0.25) if n == 1 else tm.const_t(0.75)
    if self.kind == 'int':
      return tm.const_t(1) / tm.const_t(3) if n in (0, 1, 2) else tm.ZERO
    if self.kind == 'tab':
      return self.p(0) if n == 3 else self.p(1) if n == 5 else tm.ZERO
    raw = Num(tm.func('D' + self.key, (self.obs.I.lib.to_num(v).t,), sign='+'), (), 'float', 'float')
    return decode(self.obs.I, raw, self.ps)

  def scalar(self, i=0):
    if self.kind == 'float':
      return f([MID, LO, HI][i])
    return self.members[i % len(self.members)]

  def array(self, n=2):
    if self.kind == 'float':
      return SArr([f(t) for t in (HI, LO, MID)][:n], 'float')
    m = self.members[::-1]
    return SArr([m[i % len(m)] for i in range(n)], self.vtype)


def density(key):
  def fn(I, args, kwds):
    v = list(args) + [kwds[k] for k in sorted(kwds)]
    if isinstance(v[0], Num) and v[0].axes:
      return Num(tm.func('D' + key, (v[0].t,), sign='+'), v[0].axes, 'arr', 'float')
    return I.lib.ndmap(lambda x: Num(tm.func('D' + key, (I.lib.to_num(x).t,), sign='+'), (),
                                     'float', 'float'), v[0])
  return AbsFn('density ' + key, fn)


def product_truth(vs):
  def truth(vals):
    t = tm.ONE
    for v in vs:
      t = t * v.truth(vals[v.key])
    return t
  return truth


def expect_values(v, req):
  if req == 'none':
    return list(v.members)
  if req in ('scalar', 'kwd'):
    return [v.scalar(1)]
  return list(v.array(3 if req == 'array3' else 2).items)


def request(v, req):
  if req == 'none':
    return None
  if req in ('scalar', 'kwd'):
    return v.scalar(1)
  return v.array(3 if req == 'array3' else 2)


def expected_scale(scales):
  """ scale kind of a product of stored probabilities, None if only its kind matters """
  return None


def rf_independent(kinds, scales, reqs, how='dict'):
  """ by default variables are independent """
  keys = ['x', 'y', 'z'][:len(kinds)]

  def cl(obs):
    vs = [Var(obs, k, kd, sc) for k, kd, sc in zip(keys, kinds, scales)]
    j = vs[0].rv
    for v in vs[1:]:
      j = and_(obs, j, v.rv)
    vals = {v.key: request(v, r) for v, r in zip(vs, reqs) if r != 'none'}
    obs.freeze('values', vals)
    if how == 'kwds':
      pd = obs.call(j, **vals)
    elif not vals:
      pd = obs.call(j)
    else:
      pd = obs.call(j, vals)
    check_cells(obs, 'joint', pd, keys, product_truth(vs), 'p(' + ','.join(keys) + ')',
                values={v.key: expect_values(v, r) for v, r in zip(vs, reqs)
                        if v.members is not None or r != 'none'},
                roles=(keys, []))
    obs.unmutated('operand-unchanged')
  return cl


class LateVar(Var):
  """ a variable set up after it was combined with others """
  def __init__(self, obs, key, kind, scale='one'):
    super().__init__(obs, key, kind, scale)
    RV = obs.api('RV')
    self.rv = {'bool': lambda: obs.call(RV, key, vtype=bool),
               'int': lambda: obs.call(RV, key, vtype=int, vset=[0, 1]),
               'tab': lambda: obs.call(RV, key, vtype=int, vset=[1, 2, 4]),
               'float': lambda: obs.call(RV, key, vtype=float, vset=[f(MID), f(HI)])}[kind]()

  def settle(self):
    obs, kw = self.obs, lim(self.scale, self.key)
    if self.kind == 'int':
      obs.I.setattr(self.rv, 'vset', [0, 1, 2])
    elif self.kind == 'tab':
      obs.I.setattr(self.rv, 'vset', [3, 5])
      obs.meth(self.rv, 'set_prob', SArr([stored(self.scale, self.p(i), self.key) for i in range(2)], 'float'), **kw)
    elif self.kind == 'bool':
      obs.meth(self.rv, 'set_prob', stored(self.scale, tm.const_t(0.25), self.key), **kw)
    else:
      obs.I.setattr(self.rv, 'vset', [f(LO), f(HI)])
      obs.meth(self.rv, 'set_prob', density(self.key), **kw)


def late(kinds, scales, reqs, form):
  """ variables may be set up after they are combined """
  keys = ['x', 'y', 'z'][:len(kinds)]

  def cl(obs):
    vs = [LateVar(obs, k, kd, sc) for k, kd, sc in zip(keys, kinds, scales)]
    if form == 'RF':
      j = obs.call(obs.api('RF'), *[v.rv for v in vs])
    else:
      j = vs[0].rv
      for v in vs[1:]:
        if form == 'nested':
          vs[0].settle()
        j = and_(obs, j, v.rv)
      if form in ('SD', 'SP'):
        j = obs.call(obs.api(form), j)
    for v in vs:
      v.settle()
    vals = {v.key: request(v, r) for v, r in zip(vs, reqs) if r != 'none'}
    pd = obs.call(j, vals) if vals else obs.call(j)
    check_cells(obs, 'joint', pd, keys, product_truth(vs), f"{form} of variables set up later",
                values={v.key: expect_values(v, r) for v, r in zip(vs, reqs)
                        if v.members is not None or r != 'none'},
                roles=(keys, []))
  return cl


def rf_shared(kinds, scales, third=None):
  """ variables sharing an axis """
  keys = ['x', 'y', 'z'][:len(kinds)]

  def cl(obs):
    vs = [Var(obs, k, kd, sc) for k, kd, sc in zip(keys, kinds, scales)]
    j = vs[0].rv
    for v in vs[1:]:
      j = and_(obs, j, v.rv)
    a, b = vs[0].array(3), vs[1].array(3)
    b = SArr(b.items[::-1], b.dtype)
    vals = {'x,y': [a, b]}
    if len(vs) > 2 and third != 'none':
      vals['z'] = request(vs[2], third)
    obs.freeze('values', vals)
    pd = obs.call(j, vals)
    cs = check_cells(obs, 'joint', pd, keys, product_truth(vs), 'p(shared)',
                     values={'x': list(a.items), 'y': list(b.items)}, roles=(keys, []))
    if cs is not None:
      pairs = {(repr(norm(c[0]['x'])), repr(norm(c[0]['y']))) for c in cs}
      want = {(repr(norm(p)), repr(norm(q))) for p, q in zip(a.items, b.items)}
      obs.add('joint', pairs == want, f"pairs of x,y {sorted(pairs)}, expected {sorted(want)}")
    obs.unmutated('operand-unchanged')
  return cl


def joint_fn(keys, tag='J'):
  """ a client function of exactly keys """
  def fn(I, args, kwds):
    extra = {k: v for k, v in kwds.items() if k not in keys}
    if args or sorted(k for k in kwds if k in keys) != sorted(keys) or extra:
      raise I.exc('TypeError', f"joint probability called with {list(args)} {sorted(kwds)}")

    def el(*xs):
      return Num(tm.func(tag, tuple(I.lib.to_num(x).t for x in xs), sign='+'), (), 'float', 'float')
    return I.lib.ndmap(el, *[kwds[k] for k in keys])
  return AbsFn(tag, fn)


def tensor_fn(keys, tag='J', dims_log=None):
  """ a client function of exactly keys, over arrays of any length """
  def fn(I, args, kwds):
    kwds = dict(kwds)
    if dims_log is not None:
      dims_log.append(dict(kwds.pop('dims', {}) or {}))
    if args or sorted(kwds) != sorted(keys):
      raise I.exc('TypeError', f"joint probability called with {list(args)} {sorted(kwds)}")
    t = None
    for k in keys:
      x = kwds[k]
      n = I.lib.to_num(x)
      u = Num(tm.func('g' + tag + k, (n.t,), sign='+'), n.axes, n.kind, 'float')
      t = u if t is None else I.binop('mul', t, u)
    return t
  return AbsFn(tag, fn)


def rf_callable(scale, reqs, cls='RF', passdims=False):
  """ set_prob: the joint probability is the function's, axis by axis """
  keys = ['x', 'y', 'z'][:len(reqs)]

  def cl(obs):
    RV = obs.api('RV')
    rvs = [obs.call(RV, k, vtype=float, vset=[0., 1.]) for k in keys]
    if cls == 'RF':
      j = rvs[0]
      for v in rvs[1:]:
        j = and_(obs, j, v)
    else:
      j = rvs[1]
      for v in rvs[2:]:
        j = and_(obs, j, v)
      j = or_(obs, rvs[0], j)
    ps = pscale_value(scale, 'J')
    kw = {} if scale == 'one' else {'pscale': ps}
    log = [] if passdims else None
    if passdims:
      kw['passdims'] = True
    obs.meth(j, 'set_prob', tensor_fn(keys, 'J', log), **kw)
    vals, labels, raw = {}, {}, tm.ONE
    for k, r in zip(keys, reqs):
      if r == 'array':
        t = tm.sym(k + 's', (k,))
        vals[k], labels[k] = Num(t, (k,), 'arr', 'float'), k
      else:
        t = tm.sym(k + '0')
        vals[k], labels[k] = Num(t, (), 'float', 'float'), None
      raw = raw * tm.func('gJ' + k, (t,), sign='+')
    obs.freeze('values', vals)
    pd = obs.call(j, vals)
    ax = tuple(labels[k] for k in keys if labels[k])
    truth = decode(obs.I, Num(raw, ax, 'arr' if ax else 'float', 'float'), ps)
    marg, cond = (keys, []) if cls == 'RF' else (keys[:1], keys[1:])
    check_pd(obs, 'joint', pd, marg, cond, labels, truth, 'p' + str(reqs), pscale=ps)
    if log:
      want = {k: i for i, k in enumerate([k for k in keys if labels[k]])}
      got = {k: v for k, v in log[0].items() if v is not None}
      obs.same('joint', got, want if want else {}, 'dimensions passed')
    obs.unmutated('operand-unchanged')
  return cl


def rf_samples(scale, spec):
  """ random requests: the probability is that of the values returned """
  def cl(obs):
    x, y = Var(obs, 'x', 'float', scale), Var(obs, 'y', 'float', scale)
    j = and_(obs, x.rv, y.rv)
    if spec == 'default':
      pd = obs.call(j)
    elif spec == 'common':
      pd = obs.call(j, ASet([0]))
    elif spec == 'n':
      pd = obs.call(j, {'x': ASet([2]), 'y': ASet([3])})
    else:
      pd = obs.call(j, {'x': ASet([-2])})
      obs.same('joint', obs.attr(pd, 'dims'), {'x': 0, 'y': None}, 'dimensions')
    check_cells(obs, 'joint', pd, ['x', 'y'], product_truth([x, y]), f"p({spec})", roles=(['x', 'y'], []))
  return cl


def sd_conditional(kinds, scale, reqs, mode):
  """ p(x|y): the function is the conditional probability; joint multiplies by p(y) """
  keys = ['x', 'y', 'z'][:len(kinds)]

  def cl(obs):
    vs = [Var(obs, k, kd, 'one') for k, kd in zip(keys, kinds)]
    cond = vs[1].rv
    for v in vs[2:]:
      cond = and_(obs, cond, v.rv)
    sd = or_(obs, vs[0].rv, cond)
    ps = pscale_value(scale, 'J')
    kw = {} if scale == 'one' else {'pscale': ps}
    obs.meth(sd, 'set_prob', joint_fn(keys), **kw)
    vals = {v.key: request(v, r) for v, r in zip(vs, reqs) if r != 'none'}
    obs.freeze('values', vals)
    args = (vals,) if vals else ()

    def ctruth(v):
      lib = obs.I.lib
      raw = tm.func('J', tuple(lib.to_num(v[k]).t for k in keys), sign='+')
      return decode(obs.I, Num(raw, (), 'float', 'float'), ps)
    expect = {v.key: expect_values(v, r) for v, r in zip(vs, reqs)}
    if mode == 'cond':
      pd = obs.call(sd, *args)
      check_cells(obs, 'joint', pd, keys, ctruth, f"p({keys[0]}|..)", values=expect,
                  roles=(keys[:1], keys[1:]), pscale=ps)
    else:
      pd = obs.call(sd, *args, joint=True)

      def jtruth(v):
        return ctruth(v) * product_truth(vs[1:])(v)
      check_cells(obs, 'joint', pd, keys, jtruth, 'joint', values=expect, roles=(keys, []))
    obs.unmutated('operand-unchanged')
  return cl


def sd_parallel(scales, reqs):
  """ p(x|y) & p(x|z) """
  keys = ['x', 'y', 'z']

  def cl(obs):
    vs = {k: Var(obs, k, kd, 'one') for k, kd in zip(keys, ('bool', 'int', 'tab'))}
    a = or_(obs, vs['x'].rv, vs['y'].rv)
    b = or_(obs, vs['x'].rv, vs['z'].rv)
    pa, pb = pscale_value(scales[0], 'A'), pscale_value(scales[1], 'B')
    obs.meth(a, 'set_prob', joint_fn(['x', 'y'], 'A'), **({} if scales[0] == 'one' else {'pscale': pa}))
    obs.meth(b, 'set_prob', joint_fn(['x', 'z'], 'B'), **({} if scales[1] == 'one' else {'pscale': pb}))
    sd = and_(obs, a, b)
    obs.same('joint', sorted(obs.attr(sd, 'keylist')), sorted(keys), 'variables')
    vals = {k: request(vs[k], r) for k, r in zip(keys, reqs) if r != 'none'}
    pd = obs.call(sd, vals) if vals else obs.call(sd)

    def truth(v):
      lib = obs.I.lib
      ra = tm.func('A', (lib.to_num(v['x']).t, lib.to_num(v['y']).t), sign='+')
      rb = tm.func('B', (lib.to_num(v['x']).t, lib.to_num(v['z']).t), sign='+')
      return decode(obs.I, Num(ra, (), 'float', 'float'), pa) * decode(obs.I, Num(rb, (), 'float', 'float'), pb)
    check_cells(obs, 'joint', pd, keys, truth, 'p(x|y,z)', roles=(['x'], ['y', 'z']),
                values={k: expect_values(vs[k], r) for k, r in zip(keys, reqs)})
  return cl


def rf_default_scale(kinds, reqs, before=None):
  """ a function given without a scale is in the scale of the field's variables """
  keys = ['x', 'y', 'z'][:len(kinds)]

  def cl(obs):
    vs = [Var(obs, k, 'float', kd) for k, kd in zip(keys, kinds)]
    j = vs[0].rv
    for v in vs[1:]:
      j = and_(obs, j, v.rv)
    if before:
      obs.meth(j, 'set_prob', tensor_fn(keys, 'gB'), pscale=1. if before == 'one' else 'log')
    obs.meth(j, 'set_prob', tensor_fn(keys))
    truth = tm.ONE
    for i, (v, kd) in enumerate(zip(vs, kinds)):
      truth = truth * decode(obs.I, 0. if kd in ('log', 'offs') else 1., obs.attr(v.rv, 'pscale'))
    ps = obs.attr(j, 'pscale')
    log = any(kd in ('log', 'offs') for kd in kinds)
    if isinstance(ps, Unk):
      return obs.add('joint', None, 'pscale')
    obs.add('joint', isinstance(ps, (complex, Cplx)) == log, f"scale of the field {ps!r} for {kinds}")
    got = decode(obs.I, 0. if log else 1., ps)
    obs.add('joint', None if got is None else tm.agree(got, truth), f"scale of the field {ps!r}")
    vals, labels, raw = {}, {}, tm.ONE
    for k, r in zip(keys, reqs):
      t = tm.sym(k + 's', (k,)) if r == 'array' else tm.sym(k + '0')
      vals[k] = Num(t, (k,), 'arr', 'float') if r == 'array' else Num(t, (), 'float', 'float')
      labels[k] = k if r == 'array' else None
      raw = raw * tm.func('gJ' + k, (t,), sign='+')
    pd = obs.call(j, vals)
    ax = tuple(labels[k] for k in keys if labels[k])
    check_pd(obs, 'joint', pd, keys, [], labels,
             decode(obs.I, Num(raw, ax, 'arr' if ax else 'float', 'float'), ps), 'p' + str(reqs), pscale=ps)
  return cl


def sd_dims(reqs):
  """ each function of a combined dependence is told of the dimensions of its own variables """
  def cl(obs):
    RV = obs.api('RV')
    x, y, z = [obs.call(RV, k, vtype=float, vset=[0., 1.]) for k in 'xyz']
    la, lb = [], []
    a, b = or_(obs, x, y), or_(obs, x, z)
    ka, kb, marg, cond = ['x', 'y'], ['x', 'z'], ['x'], ['y', 'z']
    obs.meth(a, 'set_prob', tensor_fn(ka, 'A', la), passdims=True)
    obs.meth(b, 'set_prob', tensor_fn(kb, 'B', lb), passdims=True)
    sd = and_(obs, a, b)
    vals, labels, ts = {}, {}, {}
    for k, r in zip('xyz', reqs):
      ts[k] = tm.sym(k + 's', (k,)) if r == 'array' else tm.sym(k + '0')
      vals[k] = Num(ts[k], (k,), 'arr', 'float') if r == 'array' else Num(ts[k], (), 'float', 'float')
      labels[k] = k if r == 'array' else None
    order = list(obs.attr(sd, 'keylist'))
    pd = obs.call(sd, vals)
    raw = tm.ONE
    for tag, ks in (('A', ka), ('B', kb)):
      for k in ks:
        raw = raw * tm.func('g' + tag + k, (ts[k],), sign='+')
    check_pd(obs, 'joint', pd, marg, cond, labels, raw, f"parallel {reqs}", pscale=1.)
    arrs = [k for k in order if labels[k]]
    for log, ks, lab in ((la, ka, 'first'), (lb, kb, 'second')):
      want = {k: arrs.index(k) for k in ks if labels[k]}
      if not log:
        obs.add('joint', False, f"the {lab} function is not called")
        continue
      extra = [k for k in log[0] if k not in ks]
      obs.add('joint', not extra, f"dimensions of {extra} passed to a function of {ks}")
      obs.same('joint', {k: v for k, v in log[0].items() if v is not None}, want,
               f"dimensions passed to the {lab} function")
  return cl


def rf_shared_scalars(kinds, scale, third):
  """ variables given jointly as scalars take no axis """
  keys = ['x', 'y', 'z']

  def cl(obs):
    vs = [Var(obs, k, kd, scale) for k, kd in zip(keys, kinds)]
    j = and_(obs, and_(obs, vs[0].rv, vs[1].rv), vs[2].rv)
    a, b = request(vs[0], 'scalar'), request(vs[1], 'scalar')
    vals = {'x,y': [a, b]}
    if third != 'none':
      vals['z'] = request(vs[2], third)
    pd = obs.call(j, vals)
    check_cells(obs, 'joint', pd, keys, product_truth(vs), 'p(scalar pair)',
                values={'x': [a], 'y': [b], 'z': expect_values(vs[2], third)}, roles=(keys, []))
    dims = obs.attr(pd, 'dims')
    want = {'x': None, 'y': None, 'z': None if third == 'scalar' else 0}
    obs.same('joint', dict(dims) if isinstance(dims, dict) else dims, want, 'dimensions')
  return cl


def rf_iid(scale, n):
  """ iid multiplies over the values of the variable """
  def cl(obs):
    RV = obs.api('RV')
    x = Var(obs, 'x', 'tab', scale)
    y = Var(obs, 'y', 'int', 'one')
    sd = or_(obs, x.rv, y.rv)
    ps = pscale_value(scale, 'J')
    obs.meth(sd, 'set_prob', joint_fn(['x', 'y']), **({} if scale == 'one' else {'pscale': ps}))
    arr = SArr([5, 3, 5][:n], 'int')
    pd = obs.call(sd, {'x': arr}, iid=True)
    if isinstance(pd, Unk):
      obs.add('joint', None, pd.why)
      return
    lib = obs.I.lib
    from .table import shape_items
    prob, ps2 = obs.attr(pd, 'prob'), obs.attr(pd, 'pscale')
    si = shape_items(lib, prob)
    if si is None:
      obs.add('joint', None, f"iid probability {prob!r}")
      return
    obs.same('joint', len(si[1]), 3, 'iid probability runs over y')
    ys = norm(pd.payload['y'])
    while isinstance(ys, list) and ys and isinstance(ys[0], list):
      ys = [e for r in ys for e in r]
    obs.same('joint', ys, [0, 1, 2], 'values of y')
    for yv, p in zip((0, 1, 2), si[1]):
      want = tm.ONE
      for xv in arr.items:
        raw = tm.func('J', (tm.const_t(xv), tm.const_t(yv)), sign='+')
        want = want * decode(obs.I, Num(raw, (), 'float', 'float'), ps)
      t = decode(obs.I, p, ps2)
      obs.add('joint', None if t is None or (t.opaque and t.key != want.key) else t.key == want.key,
              f"iid probability at y={yv} denotes {t.key[:120] if t is not None else p!r}, "
              f"expected {want.key[:120]}")
  return cl


def refusals():
  def cl(obs):
    x, y = Var(obs, 'x', 'bool'), Var(obs, 'y', 'int')
    j = and_(obs, x.rv, y.rv)
    obs.raises('refusal', lambda: obs.call(j, {'w': 1}), None, 'unknown variable w')
    obs.raises('refusal', lambda: obs.call(j, w=1), None, 'unknown variable w by keyword')
    obs.raises('refusal', lambda: obs.call(j, {'x,y': [True, 1, 2]}), None, 'three values for x,y')
    for key in ('w,x', 'x,w', 'w,v'):
      for vals in ([True, 1], (True, 1), 1):
        obs.raises('refusal', lambda: obs.call(j, {key: vals}), None, f"{key}: {vals}")
        obs.raises('refusal', lambda: obs.call(j, {key: vals, 'y': 1}), None, f"{key}: {vals} and y")
        obs.raises('refusal', lambda: obs.call(j, {'x': True, key: vals}), None, f"x and {key}: {vals}")
    obs.raises('refusal', lambda: and_(obs, x.rv, 3), None, 'RV & 3')
    obs.raises('refusal', lambda: obs.meth(j, 'eval_prob', {'x': True}), None, 'missing variable')
  return cl


def naming():
  def cl(obs):
    x, y = Var(obs, 'x', 'bool'), Var(obs, 'y', 'int')
    j, d = and_(obs, x.rv, y.rv), or_(obs, x.rv, y.rv)
    for o, args, want in ((j, {}, 'x,y'), (j, {'x': True}, 'x=True,y'), (j, {'y': 2}, 'x,y=2'),
                          (j, {'x': True, 'y': 1}, 'x=True,y=1'), (d, {}, 'x|y'),
                          (d, {'y': 1}, 'x|y=1'), (d, {'x': False}, 'x=False|y'),
                          (d, {'x': False, 'y': 0}, 'x=False|y=0')):
      obs.same('joint', obs.attr(obs.call(o, args), 'name'), want, f"name of p({args})")
  return cl


def scenarios(tier):
  out = []

  def add(rule, construct, cl, **k):
    out.append(Scenario(rule, construct, cl, **k))
  R = ('none', 'scalar', 'array')
  for kinds in (('bool', 'int'), ('int', 'tab'), ('tab', 'bool')):
    for scales in itertools.product(SCALES, SCALES):
      full = scales in (('one', 'one'), ('log', 'coef'))
      for reqs in itertools.product(R, R):
        if not full and reqs not in (('none', 'none'), ('scalar', 'scalar'), ('none', 'array')):
          continue
        add('joint', f"RF.__call__ {kinds} pscales={scales} values={reqs}",
            rf_independent(kinds, scales, reqs))
    for reqs in (('scalar', 'none'), ('array', 'scalar'), ('scalar', 'scalar')):
      add('joint', f"RF.__call__ {kinds} by keywords values={reqs}",
          rf_independent(kinds, ('one', 'one'), reqs, 'kwds'))
  for scales in itertools.product(SCALES, SCALES):
    for reqs in (('array', 'array3'), ('scalar', 'array'), ('array', 'scalar'), ('scalar', 'scalar')):
      add('joint', f"RF.__call__ float,float pscales={scales} values={reqs}",
          rf_independent(('float', 'float'), scales, reqs))
    add('joint', f"RF.__call__ shared axis pscales={scales}", rf_shared(('tab', 'float'), scales))
  for form in ('and', 'nested', 'RF', 'SD', 'SP'):
    for kinds in (('bool', 'tab'), ('tab', 'float'), ('float', 'bool'), ('int', 'tab'), ('float', 'float')):
      for scales in (('one', 'one'), ('log', 'one'), ('coef', 'log'), ('one', 'offs')):
        if 'int' in kinds:
          scales = ('one',) + scales[1:]
        for reqs in (('scalar', 'array'), ('array', 'scalar')) + (() if 'float' in kinds else (('none', 'none'),)):
          add('joint', f"RF.__call__ late {form} {kinds} pscales={scales} values={reqs}",
              late(kinds, scales, reqs, form))
  for scales in (('one', 'one', 'one'), ('log', 'one', 'coef'), ('offs', 'coef', 'log')):
    for reqs in itertools.product(R, R, R):
      add('joint', f"RF.__call__ three variables pscales={scales} values={reqs}",
          rf_independent(('bool', 'tab', 'int'), scales, reqs))
    for third in R:
      add('joint', f"RF.__call__ x,y share an axis, z {third} pscales={scales}",
          rf_shared(('bool', 'int', 'tab'), scales, third))
  for sc in SCALES:
    for n in (1, 2, 3):
      for reqs in itertools.product(('scalar', 'array'), repeat=n):
        if n > 1:
          add('joint', f"RF.set_prob function pscale={sc} values={reqs}", rf_callable(sc, reqs))
          add('joint', f"SD.set_prob function pscale={sc} values={reqs}", rf_callable(sc, reqs, 'SD'))
          add('joint', f"RF.set_prob passdims pscale={sc} values={reqs}",
              rf_callable(sc, reqs, 'RF', True))
    for spec in ('default', 'common', 'n', 'partial'):
      add('joint', f"RF.__call__ sampled {spec} pscale={sc}", rf_samples(sc, spec))
    for kinds in (('bool', 'int'), ('tab', 'bool')):
      for reqs in itertools.product(R, R):
        for mode in ('cond', 'joint'):
          add('joint', f"SD.__call__ {mode} {kinds} pscale={sc} values={reqs}",
              sd_conditional(kinds, sc, reqs, mode))
    for reqs in (('none', 'none', 'none'), ('scalar', 'none', 'array'), ('none', 'scalar', 'none'),
                 ('array', 'array', 'scalar')):
      for mode in ('cond', 'joint'):
        add('joint', f"SD.__call__ {mode} three variables pscale={sc} values={reqs}",
            sd_conditional(('tab', 'bool', 'int'), sc, reqs, mode))
    for s2 in SCALES:
      for reqs in (('none', 'none', 'none'), ('scalar', 'none', 'none'), ('none', 'scalar', 'array'),
                   ('scalar', 'scalar', 'scalar')):
        add('joint', f"SD.__call__ parallel pscales={(sc, s2)} values={reqs}",
            sd_parallel((sc, s2), reqs))
    for n in (2, 3):
      add('joint', f"SD.__call__ iid of {n} pscale={sc}", rf_iid(sc, n))
    for kinds in (('bool', 'int', 'tab'), ('tab', 'tab', 'bool')):
      for third in R:
        add('joint', f"RF.__call__ scalar pair, z {third} {kinds} pscale={sc}",
            rf_shared_scalars(kinds, sc, third))
    for s2 in SCALES:
      for reqs in (('scalar', 'scalar'), ('array', 'scalar'), ('array', 'array')):
        add('joint', f"RF.set_prob function in the scale of {(sc, s2)} values={reqs}",
            rf_default_scale((sc, s2), reqs))
        if sc == s2 or 'one' in (sc, s2):
          for before in ('one', 'log'):
            add('joint', f"RF.set_prob function in the scale of {(sc, s2)} values={reqs} after {before}",
                rf_default_scale((sc, s2), reqs, before))
  for reqs in itertools.product(('scalar', 'array'), repeat=3):
    add('joint', f"SD.__call__ parallel passdims values={reqs}", sd_dims(reqs))
  add('refusal', 'RF refusals', refusals())
  add('joint', 'RF naming', naming())
  return out
