""" Random fields: covariance steps, proposals, default transitions, spherical
deltas, products left to the function, and fields of plain variables. """
import itertools
from fractions import Fraction

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet, AbsFn, AbsExc, Inst, NT
from .harness import Scenario, norm
from .pdlib import pscale_value, encode, decode
from .table import check_cells, shape_items
from .scen_variable import f, LO, HI
from .scen_field import and_, lim
from .scen_process import (N, T, term, kfn, build, floats, pkey, primes, check_step, check_pd_at, field, WIDE,
                           draw_of)

SCALES = ('one', 'coef', 'log', 'offs')


def pos(name):
  return tm.sym(name, (), '+')


# ------------------------------------------------------------ covariance
def lower(n):
  """ symbolic lower triangular matrix of positive diagonal, and its covariance """
  L = [[pos(f"l{i}{j}") if i == j else T(f"l{i}{j}") if j < i else tm.ZERO for j in range(n)] for i in range(n)]
  C = [[sum((L[i][m] * L[j][m] for m in range(n)), tm.ZERO) for j in range(n)] for i in range(n)]
  return L, C


def matrix(rows):
  n = len(rows)
  return NArr((n, len(rows[0])), [N(t) if t.key != '0' else 0. for r in rows for t in r], 'float')


def apply(L, ts):
  return [sum((L[i][j] * t for j, t in enumerate(ts)), tm.ZERO) for i in range(len(ts))]


def unit_draws(obs, t):
  return [a for a in t.atoms() if a.op == 'rand.unit']


def covariance(n, by, form, scale='one'):
  """ deltas are correlated by the lower triangular root of the covariance """
  keys = 'xyz'[:n]

  def cl(obs):
    x = build(obs, 'RF', keys)
    if scale != 'one':
      obs.meth(x, 'set_prob', kfn('J', keys), **lim(scale, 'J'))
    L, C = lower(n)
    if by == 'tran':
      m = matrix(C)
      obs.freeze('covariance', m)
      obs.meth(x, 'set_tran', m)
    else:
      if by == 'upper':
        L = [[L[j][i] for j in range(n)] for i in range(n)]
      m = matrix(L)
      obs.freeze('factor', m)
      obs.meth(x, 'set_tfun', m)
    d = {k: T('d' + k) for k in keys}
    if form == 'dict':
      obs.meth(x, 'set_delta', {k: N(d[k]) for k in keys})
    else:
      d = {k: pos('dpos') for k in keys}
      obs.meth(x, 'set_delta', [N(pos('dpos'))] if form == 'list' else N(pos('dpos')))
    pred = {k: N(T('a' + k)) for k in keys}
    obs.freeze('pred', pred)

    def moves(ts, what):
      """ the moves ts are L times the deltas (drawn independently if form is list) """
      if form != 'list':
        want = apply(L, [d[k] for k in keys])
        for k, t, w in zip(keys, ts, want):
          obs.num('covariance', N(t), w, f"{what} of {k}")
        return
      us = []
      for t in ts:
        for a in unit_draws(obs, t):
          if a.key not in [u.key for u in us]:
            us.append(a)
      obs.add('covariance', len(us) == n, f"{what}: {len(us)} independent draws")
      if len(us) != n:
        return
      for perm in itertools.permutations(us):
        drawn = [pos('dpos') * (tm.const_t(2) * tm.atom_t(a) - tm.ONE) for a in perm]
        if all(t.key == w.key for t, w in zip(ts, apply(L, drawn))):
          return obs.add('covariance', True, f"{what}: correlated draws")
      obs.add('covariance', False, f"{what}: {[t.key[:160] for t in ts]} are not draws within +-d times the factor")
    e = obs.meth(x, 'eval_delta')
    if isinstance(e, Unk):
      return obs.add('covariance', None, e.why)
    ts = []
    for k in keys:
      v = field(e, k)
      while isinstance(v, NT):
        v = v.vals[0]
      s = shape_items(obs.I.lib, v)
      if s is None or len(s[1]) != 1:
        return obs.add('covariance', None if s is None else False, f"delta of {k}: {v!r}")
      ts.append(obs.I.lib.numt(s[1][0]))
    moves(ts, 'delta')
    for turn in range(2):
      st = obs.meth(x, 'step', pred)
      if isinstance(st, Unk):
        return obs.add('covariance', None, st.why)
      succ = {k: st.payload.get(k + "'") for k in keys}
      moves([term(obs, succ[k]) - term(obs, pred[k]) for k in keys], f"step {turn}")
      if by == 'tran':
        check_cells(obs, 'covariance', st, primes(keys), lambda v: tm.ONE, f"step {turn}",
                    values={**{k: [pred[k]] for k in keys}, **{k + "'": [succ[k]] for k in keys}},
                    roles=([k + "'" for k in keys], list(keys)),
                    pscale=pscale_value(scale, 'J') if scale != 'one' else 1.0)
    obs.unmutated('operand-unchanged')
  return cl


def covariance_refusals(obs):
  C2, C3 = matrix(lower(2)[1]), matrix(lower(3)[1])
  L2 = matrix(lower(2)[0])
  bad = [('covariance of another size', 'set_tran', C3, {}),
         ('rows as lists', 'set_tran', [[1., 0.], [0., 1.]], {}),
         ('vector', 'set_tran', SArr([1., 2.], 'float'), {}),
         ('rectangle', 'set_tran', NArr((2, 3), [1.] * 6, 'float'), {}),
         ('covariance and tsteps', 'set_tran', C2, {'tsteps': 1}),
         ('factor of another size', 'set_tfun', matrix(lower(3)[0]), {}),
         ('full factor', 'set_tfun', NArr((2, 2), [1., 2., 3., 4.], 'float'), {}),
         ('vector factor', 'set_tfun', SArr([1., 2.], 'float'), {}),
         ('steps that are no integer', 'set_tran', kfn('F', pkey('xy')), {'tsteps': 1.5})]
  for why, meth, m, kw in bad:
    x = build(obs, 'RF', 'xy')
    obs.raises('refusal', lambda: obs.meth(x, meth, m, **kw), None, why)
  x = build(obs, 'RF', 'xy')
  obs.meth(x, 'set_tfun', L2)
  obs.meth(x, 'set_tfun')
  obs.same('refusal', obs.attr(x, 'tfun'), None, 'tfun cleared')
  obs.meth(x, 'set_tran', C2)
  obs.meth(x, 'set_tran')
  obs.same('refusal', obs.attr(x, 'tran'), None, 'tran cleared')


def copied(which, multi):
  """ a conditional function object of another field serves this one """
  keys = 'xy'

  def cl(obs):
    x, y = build(obs, 'RF', keys), build(obs, 'RF', keys)
    CF = obs.api('CF')
    if which == 'tran':
      fns = (kfn('F', pkey(keys), extra=('c',)), kfn('R', pkey(keys), extra=('c',)))
      obs.meth(x, 'set_tran', obs.call(CF, y, None, fns if multi else fns[0], c=7))
      pred = {k: N(T('a' + k)) for k in keys}
      succ = {k: N(T('b' + k)) for k in keys}
      for rev in (False, True):
        st = obs.meth(x, 'step', pred, succ, **({'reverse': True} if rev else {}))
        tag = 'R' if multi and rev else 'F'
        check_step(obs, st, keys, pred, succ, tag, f"step by a conditional function, reverse={rev}")
      st = obs.meth(x, 'step', pred, succ)
      back = obs.meth(x, 'reval_tran', st)
      tag = 'R' if multi else 'F'
      check_cells(obs, 'transition', back, primes(keys),
                  lambda v: tm.func(tag, tuple(term(obs, v[k]) for k in pkey(keys)), sign='+'), 'way back',
                  values={**{k: [pred[k]] for k in keys}, **{k + "'": [succ[k]] for k in keys}},
                  roles=(list(keys), [k + "'" for k in keys]))
      obs.raises('refusal', lambda: obs.meth(x, 'set_tran', obs.call(CF, y, None, fns[0]), 3), None,
                 'arguments beside a conditional function')
      return
    log = []

    def sampler(tag):
      def fn(I, args, kwds):
        k = dict(kwds)
        u = k.pop('unknown', None)
        if args or sorted(k) != ['x', 'y']:
          raise I.exc('TypeError', f"sampler called with {list(args)} {sorted(kwds)}")
        return N(tm.func(tag + u, tuple(I.lib.to_num(k[j]).t for j in keys)))
      return AbsFn(tag, fn)
    obs.meth(x, 'set_tfun', obs.call(CF, y, None, (sampler('S'), sampler('R')) if multi else sampler('S')))
    pred = {k: T('a' + k) for k in keys}
    st = obs.meth(x, 'step', {k: N(v) for k, v in pred.items()})
    cur = dict(pred)
    for k in keys:
      cur[k] = tm.func('S' + k, tuple(cur[j] for j in keys))
    check_cells(obs, 'transition', st, primes(keys), lambda v: tm.ONE, 'step by a conditional function',
                values={**{k: [N(pred[k])] for k in keys}, **{k + "'": [N(cur[k])] for k in keys}},
                roles=([k + "'" for k in keys], list(keys)))
    obs.raises('refusal', lambda: obs.meth(x, 'set_tfun', obs.call(CF, y, None, sampler('S')), 3), None,
               'arguments beside a conditional function')
  return cl


# ------------------------------------------------------------ default transitions
def default_step(scales, kinds, how, keys='xy'):
  """ without a transition independent variables step with the geometric mean of both ends """
  def cl(obs):
    RV = obs.api('RV')
    from .scen_process import kfn1
    vs, ps = [], []
    for k, sc, kind in zip(keys, scales, kinds):
      v = obs.call(RV, k, vtype=float, vset=WIDE if kind == 'fn' else [-8., 8.],
                   prob=kfn1('P' + k) if kind == 'fn' else N(encode(sc, pos('pconst' + k), k)), **lim(sc, k))
      vs.append(v)
      ps.append(pscale_value(sc, k))
    x = vs[0]
    for v in vs[1:]:
      x = and_(obs, x, v)
    if len(vs) == 1:
      x = obs.call(obs.api('RF'), x)
    if kinds[0] == 'fn':
      pred = {k: N(T('a' + k)) for k in keys}
      mv = {k: T('d' + k) for k in keys}
    else:
      pred = {k: float(i) for i, k in enumerate(keys)}
      mv = {k: tm.const_t(i + 2) for i, k in enumerate(keys)}
    if how == 'delta':
      obs.meth(x, 'set_delta', {k: N(mv[k]) for k in keys})
      st = obs.meth(x, 'step', pred)
    else:
      st = obs.meth(x, 'step', pred, {k: N(obs.I.lib.numt(pred[k]) + mv[k]) for k in keys})

    def p(i, k, v):
      if kinds[i] != 'fn':
        return pos('pconst' + k)
      return decode(obs.I, N(tm.func('P' + k, (term(obs, v),), sign='+')), ps[i])

    def truth(v):
      a = b = tm.ONE
      for i, k in enumerate(keys):
        a = a * p(i, k, v[k])
        b = b * p(i, k, v[k + "'"])
      return a if a.key == b.key else (a * b).power(Fraction(1, 2))
    succ = {k: [N(obs.I.lib.numt(pred[k]) + mv[k])] for k in keys}
    check_cells(obs, 'transition', st, primes(keys), truth, 'step without transition',
                values={**{k: [pred[k]] for k in keys}, **{k + "'": succ[k] for k in keys}},
                roles=([k + "'" for k in keys], list(keys)), pscale=obs.attr(x, 'pscale'))
  return cl


def single(kind, how):
  """ a field of one variable steps by the transition of the variable """
  def cl(obs):
    RV, RF = obs.api('RV'), obs.api('RF')
    if kind == 'matrix':
      v = obs.call(RV, 'x', vtype=int, vset=[0, 1])
      obs.meth(v, 'set_tran', NArr((2, 2), [0.75, 0.25, 0.25, 0.75], 'float'))
      x = obs.call(RF, v)
      p = [[0.75, 0.25], [0.25, 0.75]]
      for a in (0, 1):
        if how == 'given':
          for b in (0, 1):
            st = obs.meth(x, 'step', {'x': a}, {'x': b})
            check_cells(obs, 'transition', st, ['x', "x'"], lambda v: tm.const_t(p[b][a]), f"step {a} to {b}",
                        values={'x': [a], "x'": [b]}, roles=(["x'"], ['x']))
        else:
          st = obs.meth(x, 'step', {'x': a}, ASet([0])) if how == 'drawn' else obs.meth(x, 'step', {'x': a})
          if isinstance(st, Unk):
            obs.add('transition', None, st.why)
            continue
          b = norm(st.payload["x'"])
          if isinstance(b, tuple):
            obs.add('transition', None, f"{b}")
            continue
          obs.add('transition', b in (0, 1), f"drawn successor {b}")
          bins = [e[2] for e in obs.I.ctx.events if e[0] == 'bin'][-1:]
          cum = [0., p[0][a], 1.]
          obs.add('transition', None if not bins else list(bins[0]) == cum[int(b):int(b) + 2],
                  f"from {a}, successor {b} drawn for deviates in {bins}, expected {cum}")
          if b in (0, 1):
            check_cells(obs, 'transition', st, ['x', "x'"], lambda v: tm.const_t(p[int(b)][a]), f"step from {a}",
                        values={'x': [a], "x'": [b]}, roles=(["x'"], ['x']))
      return
    v = obs.call(RV, 'x', vtype=float, vset=[-8., 8.])
    obs.meth(v, 'set_tran', kfn('F', ["x'", 'x']))
    if how == 'drawn':
      x = obs.call(RF, v)
      obs.raises('refusal', lambda: obs.meth(x, 'step', {'x': N(T('a'))}, ASet([0])), None, 'draw without tfun')
      return
    x = obs.call(RF, v)
    a, b = N(T('a')), N(T('b'))
    if how == 'delta':
      obs.meth(x, 'set_delta', N(T('d')))
      b = N(T('a') + T('d'))
      st = obs.meth(x, 'step', {'x': a})
    else:
      st = obs.meth(x, 'step', {'x': a}, {'x': b})
    check_cells(obs, 'transition', st, ['x', "x'"],
                lambda v: tm.func('F', (term(obs, v["x'"]), term(obs, v['x'])), sign='+'), 'step',
                values={'x': [a], "x'": [b]}, roles=(["x'"], ['x']))
  return cl


def draw_refusals(obs):
  for n in (1, 2):
    keys = 'xy'[:n]
    for tran in (None, 'tran'):
      x = build(obs, 'RF', keys)
      if tran:
        obs.meth(x, 'set_tran', kfn('F', pkey(keys)) if n > 1 else kfn('F', pkey(keys)))
      pred = {k: N(T('a' + k)) for k in keys}
      obs.raises('refusal', lambda: obs.meth(x, 'step', pred, ASet([0])), None, f"draw of {keys} without tfun")
      obs.raises('refusal', lambda: obs.meth(x, 'step', pred), None, f"draw of {keys} without tfun or delta")


# ------------------------------------------------------------ proposals
def proposal(kind, scale):
  keys = 'xy'

  def cl(obs):
    x = build(obs, 'RF', keys)
    ps = pscale_value(scale, 'J')
    obs.meth(x, 'set_prob', kfn('J', keys), **lim(scale, 'J'))
    vals = {k: N(T('a' + k)) for k in keys}
    obs.freeze('values', vals)
    if kind == 'scalar':
      obs.meth(x, 'set_prop', N(encode(scale, pos('pconst'), 'J')))
      truth = lambda v: pos('pconst')
    elif kind == 'keywords':
      obs.meth(x, 'set_prop', kfn('Q', keys, extra=('c',)), c=7)
      truth = lambda v: decode(obs.I, N(tm.func('Q', tuple(term(obs, v[k + "'"]) for k in keys), sign='+')), ps)
    elif kind == 'cleared':
      obs.meth(x, 'set_prop', kfn('Q', keys))
      obs.meth(x, 'set_prop')
      obs.same('sample', obs.attr(x, 'prop'), None, 'prop cleared')
      truth = lambda v: decode(obs.I, N(tm.func('J', tuple(term(obs, v[k + "'"]) for k in keys), sign='+')), ps)
    elif kind == 'deps':
      obs.meth(x, 'set_prop', kfn('Q', keys), deps=['y'])
      truth = lambda v: decode(obs.I, N(tm.func('Q', tuple(term(obs, v[k + "'"]) for k in keys), sign='+')), ps)
    else:
      truth = lambda v: decode(obs.I, N(tm.func('J', tuple(term(obs, v[k + "'"]) for k in keys), sign='+')), ps)
    pks = [k + "'" for k in keys]
    check_cells(obs, 'sample', obs.meth(x, 'propose', vals), pks, truth, f"proposal {kind}",
                values={k + "'": [vals[k]] for k in keys}, roles=(pks, []), pscale=ps)
    check_cells(obs, 'sample', obs.meth(x, 'propose', suffix="*", **vals), [k + '*' for k in keys],
                lambda v: truth({k + "'": v[k + '*'] for k in keys}), f"proposal {kind} with suffix *",
                values={k + '*': [vals[k]] for k in keys}, roles=([k + '*' for k in keys], []), pscale=ps)
    e = obs.meth(x, 'eval_prop', vals)
    obs.num('sample', e, obs.I.lib.to_num(encoded(obs, truth({k + "'": vals[k] for k in keys}), scale)).t
            if scale in ('one', 'log') else term(obs, e), f"eval_prop {kind}")
    obs.unmutated('operand-unchanged')
  return cl


def encoded(obs, truth, scale):
  return N(encode(scale, truth, 'J'))


def proposal_refusals(obs):
  x = build(obs, 'RF', 'xy')
  obs.meth(x, 'set_prop', kfn('Q', 'xy'))
  obs.raises('refusal', lambda: obs.meth(x, 'set_tran', kfn('F', pkey('xy'))), None, 'transition beside a proposal')
  x = build(obs, 'RF', 'xy')
  obs.meth(x, 'set_tran', kfn('F', pkey('xy')))
  obs.raises('refusal', lambda: obs.meth(x, 'set_prop', kfn('Q', 'xy')), None, 'proposal beside a transition')


# ------------------------------------------------------------ spherical deltas
def spherical(cls, keys, unscale, how):
  """ the step has the length given, in a direction drawn, but for the variables given """
  def cl(obs):
    Cls = obs.api('RV' if cls == 'RF' else 'Variable')
    x = None
    for i, k in enumerate(keys):
      v = obs.call(Cls, k, vtype=float, vset=[-4., 4. + i])
      x = v if x is None else and_(obs, x, v)
    d = pos('dpos')
    fixed = {keys[0]: T('e')} if unscale else {}
    if how == 'bound':
      obs.meth(x, 'set_delta', (N(d),), bound=False)
    elif unscale:
      obs.meth(x, 'set_delta', (N(d),), {keys[0]: N(T('e'))})
    else:
      obs.meth(x, 'set_delta', (N(d),))
    free = [k for k in keys if k not in fixed]
    seen = []
    for turn in range(2):
      try:
        e = obs.meth(x, 'eval_delta')
      except AbsExc as exc:
        if exc.etype == 'ZeroDivisionError':
          return      # all draws null: of no probability
        raise
      if isinstance(e, Unk):
        return obs.add('delta', None, e.why)
      ts = {k: obs.I.lib.numt(field(e, k)) for k in keys}
      for k in fixed:
        obs.num('delta', N(ts[k]), fixed[k], f"delta of {k}")
      us = []
      for k in free:
        for a in unit_draws(obs, ts[k]):
          if a.key not in [u.key for u in us]:
            us.append(a)
      obs.add('delta', len(us) == len(free), f"{len(us)} draws for {len(free)} variables")
      if len(us) != len(free):
        return
      seen += [u.key for u in us]
      ok = False
      for perm in itertools.permutations(us):
        r = [d * (tm.const_t(2) * tm.atom_t(a) - tm.ONE) for a in perm]
        s = sum((t * t for t in r), tm.ZERO)
        # the direction drawn, of length d
        if all(tm.agree(ts[k], d * t * s.power(Fraction(-1, 2))) for k, t in zip(free, r)):
          ok = True
          break
      obs.add('delta', ok or None if any(t.opaque for t in ts.values()) else ok,
              f"{[t.key[:200] for t in ts.values()]} is a direction of length d")
      v = {k: N(T('a' + k)) for k in keys}
      moved = obs.meth(x, 'apply_delta', v, e)
      for k in keys:
        obs.num('delta', moved[k] if not isinstance(moved, Unk) else moved, T('a' + k) + ts[k], f"{k} moved")
    obs.add('delta', len(set(seen)) == len(seen), 'fresh draws')
  return cl


# ------------------------------------------------------------ products of the user's function
def left_to_function(order, axis, scale):
  """ a function that multiplies over the iid variable itself """
  keys = order

  def cl(obs):
    x = build(obs, 'RF', keys)
    iid = keys[axis]
    nx, ny = (3, 2) if axis == 0 else (2, 3)
    sizes = {keys[0]: nx, keys[1]: ny}
    lib = obs.I.lib

    def fn(I, args, kwds):
      if args or sorted(kwds) != ['x', 'y']:
        raise I.exc('TypeError', 'arguments')
      its = {k: lib.nd(kwds[k]) for k in keys}
      if any(v is None or [n for n in v[0] if n != 1] != [sizes[k]] or v[0].index(sizes[k]) != keys.index(k)
             for k, v in its.items()):
        raise I.exc('ValueError', 'shape of arguments')
      a, b = its[iid][1], its[[k for k in keys if k != iid][0]][1]
      out = []
      for y in b:
        t = tm.ONE
        for v in a:
          t = t * tm.func('H', (lib.to_num(v).t, lib.to_num(y).t), sign='+')
        out.append(N(encode(scale, t, 'J')))
      return SArr(out, 'float')
    obs.meth(x, 'set_prob', AbsFn('prob', fn), **lim(scale, 'J'))
    vals = {k: SArr([N(T(f"{k}{i}")) for i in range(sizes[k])], 'float') for k in keys}
    other = [k for k in keys if k != iid][0]
    pd = obs.meth(x, '__call__', vals, iid=[iid])
    if isinstance(pd, Unk):
      return obs.add('joint', None, pd.why)
    obs.same('joint', pd.payload[iid], ASet([sizes[iid]]), 'number multiplied')
    obs.same('joint', [obs.attr(pd, 'dims').get(k) for k in (iid, other)], [None, 0], 'axes')
    sh = shape_items(lib, obs.attr(pd, 'prob'))
    obs.add('joint', None if sh is None else sh[0] == (sizes[other],), f"shape {sh and sh[0]}")
    if sh is not None and len(sh[1]) == sizes[other]:
      for i, p in enumerate(sh[1]):
        t = tm.ONE
        for j in range(sizes[iid]):
          t = t * tm.func('H', (T(f"{iid}{j}"), T(f"{other}{i}")), sign='+')
        obs.num('joint', N(decode(obs.I, p, pscale_value(scale, 'J'))), t, f"probability of {other}{i}")
    obs.same('joint', pd.payload[other], [T(f"{other}{i}") for i in range(sizes[other])], f"values of {other}")
  return cl


# ------------------------------------------------------------ plain variables
def plain(spec):
  """ a field of variables called with values is a distribution of them """
  def cl(obs):
    V = obs.api('Variable')
    vs = [obs.call(V, 'x', vtype=float, vset=WIDE), obs.call(V, 'y', vtype=int, vset=[0, 1, 2]),
          obs.call(V, 'z', vtype=float, vset=WIDE)]
    j = and_(obs, and_(obs, vs[0], vs[1]), vs[2])
    arr = lambda k, n: SArr([N(T(f"{k}{i}")) for i in range(n)], 'float')
    req, want, dims = {
        'scalars': ({'x': N(T('a')), 'y': 1, 'z': N(T('c'))}, {'x': T('a'), 'y': 1, 'z': T('c')}, {}),
        'arrays': ({'x': arr('x', 2), 'y': None, 'z': arr('z', 4)},
                   {'x': [T('x0'), T('x1')], 'y': [0, 1, 2], 'z': [T(f"z{i}") for i in range(4)]},
                   {'x': 0, 'y': 1, 'z': 2}),
        'mixed': ({'z': arr('z', 2), 'x': N(T('a')), 'y': None},
                  {'x': T('a'), 'y': [0, 1, 2], 'z': [T('z0'), T('z1')]}, {'y': 0, 'z': 1}),
        'shared': ({'x,z': [arr('x', 2), arr('z', 2)], 'y': 2},
                   {'x': [T('x0'), T('x1')], 'y': 2, 'z': [T('z0'), T('z1')]}, {'x': 0, 'z': 0}),
        'shared and default': ({'x,z': [arr('x', 2), arr('z', 2)], 'y': None},
                               {'x': [T('x0'), T('x1')], 'y': [0, 1, 2], 'z': [T('z0'), T('z1')]},
                               {'x': 0, 'y': 1, 'z': 0})}[spec]
    obs.freeze('values', req)
    d = obs.meth(j, '__call__', req)
    if isinstance(d, Unk):
      return obs.add('joint', None, d.why)
    obs.same('joint', sorted(d.payload), ['x', 'y', 'z'], 'variables')
    for k in want:
      v = d.payload[k]
      sh = shape_items(obs.I.lib, v)
      if sh is None:
        obs.add('joint', None, f"values of {k} {v!r}")
        continue
      w = want[k] if isinstance(want[k], list) else [want[k]]
      obs.same('joint', list(sh[1]), w, f"values of {k}")
      obs.same('joint', obs.attr(d, 'dims').get(k), dims.get(k), f"dimension of {k}")
    obs.unmutated('operand-unchanged')
  return cl


def scenarios(tier):
  out = []

  def add(rule, construct, cl, **k):
    out.append(Scenario(rule, construct, cl, **k))
  for n in (1, 2, 3):
    for by in ('tran', 'lower', 'upper'):
      for form in ('scalar', 'dict', 'list'):
        if n > 1 or by == 'lower':
          add('covariance', f"RF.set_{'tran' if by == 'tran' else 'tfun'} {by} of {n} delta={form}",
              covariance(n, by, form))
  for sc in ('coef', 'log', 'offs'):
    add('covariance', f"RF.set_tran covariance pscale={sc}", covariance(2, 'tran', 'dict', sc))
  add('refusal', 'RF.set_tran refusals', covariance_refusals)
  for which in ('tran', 'tfun'):
    for multi in (False, True):
      add('transition', f"RF.set_{which} conditional function of another field, multiple={multi}",
          copied(which, multi))
  for how in ('delta', 'given'):
    for sc in SCALES:
      for kind in ('fn', 'const'):
        add('transition', f"RF.step default {how} of two {kind} pscale={sc}", default_step((sc, 'one'), (kind,) * 2, how))
        add('transition', f"RF.step default {how} of two {kind} pscales={sc}", default_step((sc, sc), (kind,) * 2, how))
        add('transition', f"RF.step default {how} of one {kind} pscale={sc}", default_step((sc,), (kind,), how, 'x'))
  for kind in ('matrix', 'function'):
    for how in ('given', 'drawn', 'default', 'delta'):
      if (kind, how) not in (('matrix', 'delta'), ('function', 'default')):
        add('transition', f"RF.step of one variable {kind} {how}", single(kind, how))
  add('refusal', 'RF.step refusals', draw_refusals)
  for kind in ('scalar', 'keywords', 'cleared', 'deps', 'none'):
    for sc in SCALES:
      add('sample', f"RF.propose {kind} pscale={sc}", proposal(kind, sc))
  add('refusal', 'RF.set_prop refusals', proposal_refusals)
  for cls in ('RF', 'Field'):
    for keys in ('xy', 'xyz'):
      for un in (False, True):
        if not un or len(keys) > 2:
          add('delta', f"{cls}.set_delta spherical {keys} fixed={un}", spherical(cls, keys, un, ''))
  for order in ('xy', 'yx'):
    for axis in (0, 1):
      for sc in SCALES:
        add('joint', f"RF.__call__ iid by the function {order} axis {axis} pscale={sc}",
            left_to_function(order, axis, sc))
  for spec in ('scalars', 'arrays', 'mixed', 'shared', 'shared and default'):
    add('joint', f"Field.__call__ {spec}", plain(spec))
  return out
