""" Random variables: probabilities, transitions, steps. """
import itertools

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet, AbsFn, Cplx
from .harness import Scenario, norm
from .pdlib import pscale_value, encode, decode
from .table import check_cells, cells
from .scen_variable import grid as spaced, picks, uniform_draw, LO, HI, MID, E, POS, ENDS, f, inside, vset_of, name_of

SCALES = ('one', 'coef', 'log', 'offs')


def lim(kind):
  """ keywords asking for a probability scale """
  return {} if kind == 'one' else {'pscale': pscale_value(kind)}


def stored(kind, truth):
  return Num(encode(kind, truth), (), 'float', 'float')


def key(v):
  """ hashable constant of a value """
  n = norm(v)
  return n


# ------------------------------------------------------------ uniform, float
def uniform_float(ends, scale, mode):
  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=vset_of(ends), vtype=float, **lim(scale))
    dens = tm.ONE / (HI - LO)
    by = {norm(f(t)): inside(p, ends) for p, t in POS.items()}

    def truth(vals):
      return dens if by[norm(vals['x'])] else 0
    if mode == 'array':
      pd = obs.call(x, SArr([f(t) for t in POS.values()], 'float'))
      check_cells(obs, 'probability', pd, ['x'], truth, f"p(x) on {name_of(ends)}",
                  pscale=pscale_value(scale), roles=(['x'], []),
                  values={'x': [f(t) for t in POS.values()]})
    elif mode == 'dict':
      for p, t in POS.items():
        pd = obs.call(x, {'x': f(t)})
        check_cells(obs, 'probability', pd, ['x'], truth, f"p({{x: {p}}}) on {name_of(ends)}",
                    pscale=pscale_value(scale), roles=(['x'], []))
    else:
      for p, t in POS.items():
        pd = obs.call(x, f(t))
        check_cells(obs, 'probability', pd, ['x'], truth, f"p({p}) on {name_of(ends)}",
                    pscale=pscale_value(scale), roles=(['x'], []))
  return cl


# ------------------------------------------------------------ uniform, discrete
VSETS = {
    'bool': (bool, None, [False, True], []),
    'int{0,1}': (int, None, [0, 1], [2, -1]),
    'int[3]': (int, [3], [3], [0]),
    'int[0,1,2]': (int, [0, 1, 2], [0, 1, 2], [3, -1]),
    'int[5,2,9]': (int, [5, 2, 9], [2, 5, 9], [3, 4]),
    'int{2,4,6,8}': (int, 'set', [2, 4, 6, 8], [3, 5]),
    'int range(4)': (int, 'range', [0, 1, 2, 3], [4]),
}


def mkset(v):
  return ASet([2, 4, 6, 8]) if v == 'set' else range(4) if v == 'range' else v


def uniform_discrete(name, scale):
  vtype, vset, members, out = VSETS[name]

  def cl(obs):
    RV = obs.api('RV')
    kw = dict(lim(scale))
    if vset is not None:
      kw['vset'] = mkset(vset)
    x = obs.call(RV, 'x', vtype=vtype, **kw)
    n = len(members)
    ps = pscale_value(scale)

    def truth(vals):
      v = norm(vals['x'])
      return tm.const_t(1) / tm.const_t(n) if v in [norm(m) for m in members] else 0
    pd = obs.call(x)
    cs = check_cells(obs, 'probability', pd, ['x'], truth, f"p(x) over {name}", pscale=ps,
                     roles=(['x'], []))
    if cs is not None:
      obs.same('probability', sorted(norm(c[0]['x']) for c in cs), sorted(norm(m) for m in members),
               f"default values over {name}")
    for v in members + out:
      pd = obs.call(x, v)
      check_cells(obs, 'probability', pd, ['x'], truth, f"p({v}) over {name}", pscale=ps)
      pd = obs.call(x, {'x': v})
      check_cells(obs, 'probability', pd, ['x'], truth, f"p({{x: {v}}}) over {name}", pscale=ps)
    arr = members + out + members[:1]
    pd = obs.call(x, SArr(arr, vtype.__name__))
    check_cells(obs, 'probability', pd, ['x'], truth, f"p(array) over {name}", pscale=ps,
                values={'x': arr})
    pd = obs.call(x, SArr(arr[::-1], vtype.__name__))
    check_cells(obs, 'probability', pd, ['x'], truth, f"p(array) over {name}", pscale=ps,
                values={'x': arr[::-1]})
  return cl


# ------------------------------------------------------------ Bernoulli
def bernoulli(scale, how, bias):
  def cl(obs):
    RV = obs.api('RV')
    if bias == 'b':
      b = tm.sym('b', (), '+')
    else:
      b = tm.const_t(bias)
    p = stored(scale, b)
    if how == 'init':
      x = obs.call(RV, 'x', vtype=bool, prob=p, **lim(scale))
    else:
      x = obs.call(RV, 'x', vtype=bool)
      obs.meth(x, 'set_prob', p, **lim(scale))
    ps = pscale_value(scale)

    def truth(vals):
      return b if norm(vals['x']) == 1 else tm.ONE - b
    if bias == 'b':
      # the partition in which the bias is not one half
      if not isinstance(obs.attr(x, 'callable'), bool):
        obs.add('probability', None, 'Bernoulli')
        return
      if not obs.attr(x, 'callable'):
        return
    for args in ((), (True,), (False,), ({'x': True},), ({'x': False},),
                 (SArr([True, False, True], 'bool'),), (SArr([False, True], 'bool'),)):
      pd = obs.call(x, *args)
      check_cells(obs, 'probability', pd, ['x'], truth, f"Bernoulli p{args}", pscale=ps,
                  roles=(['x'], []))
  return cl


def bernoulli_reset(scale):
  """ a probability set later replaces the previous one everywhere """
  def cl(obs):
    RV = obs.api('RV')
    ps = pscale_value(scale)
    x = obs.call(RV, 'x', vtype=bool, prob=stored(scale, tm.const_t(0.25)), **lim(scale))
    for b in (0.75, 0.5, 0.125):
      obs.meth(x, 'set_prob', stored(scale, tm.const_t(b)))
      bt = tm.const_t(b)

      def truth(vals):
        return bt if norm(vals['x']) == 1 else tm.ONE - bt
      for args in ((), (True,), (False,)):
        pd = obs.call(x, *args)
        check_cells(obs, 'probability', pd, ['x'], truth, f"after set_prob({b}): p{args}",
                    pscale=ps)
      s = obs.attr(x, 'sfun')
      if b == 0.5 and s is not None:
        k = obs.attr(s, 'kwds') if not isinstance(s, Unk) else None
        if isinstance(k, dict) and 'bias' in k:
          obs.same('probability', k['bias'], 0.5, "bias of the sampling function after set_prob(0.5)")
        elif isinstance(s, Unk):
          obs.add('probability', None, 'sfun')
      elif s is not None and not isinstance(s, Unk):
        k = obs.attr(s, 'kwds')
        if isinstance(k, dict) and 'bias' in k:
          obs.num('probability', k['bias'], bt, f"bias of the sampling function after set_prob({b})")
  return cl


# ------------------------------------------------------------ tabulated
def tabulated(name, scale):
  vtype, vset, members, out = VSETS[name]

  def cl(obs):
    RV = obs.api('RV')
    kw = dict(lim(scale))
    if vset is not None:
      kw['vset'] = mkset(vset)
    ps = pscale_value(scale)
    listed = list(vset) if isinstance(vset, list) else members
    tab = {norm(m): tm.sym(f"p{i}", (), '+') for i, m in enumerate(listed)}
    given = SArr([stored(scale, tab[norm(m)]) for m in listed], 'float')
    obs.freeze('prob given', given)
    x = obs.call(RV, 'x', vtype=vtype, prob=given, **kw)

    def truth(vals):
      return tab.get(norm(vals['x']), 0)
    pd = obs.call(x)
    check_cells(obs, 'probability', pd, ['x'], truth, f"tabulated p(x) over {name}", pscale=ps)
    for v in members + out:
      pd = obs.call(x, v)
      check_cells(obs, 'probability', pd, ['x'], truth, f"tabulated p({v}) over {name}", pscale=ps)
    arr = (members + out)[::-1]
    pd = obs.call(x, SArr(arr, vtype.__name__))
    check_cells(obs, 'probability', pd, ['x'], truth, f"tabulated p(array) over {name}", pscale=ps,
                values={'x': arr})
    obs.unmutated('operand-unchanged')
  return cl


def incommensurate():
  def cl(obs):
    RV = obs.api('RV')
    obs.raises('refusal', lambda: obs.call(RV, 'x', vtype=int, vset=[0, 1, 2],
                                           prob=SArr([0.5, 0.5], 'float')), None,
               'two probabilities for three values')
  return cl


# ------------------------------------------------------------ callables
def pfn(name='P'):
  def fn(I, args, kwds):
    v = list(args) + [kwds[k] for k in sorted(kwds)]
    return I.lib.ndmap(lambda x: Num(tm.func(name, (I.lib.to_num(x).t,), sign='+'), (), 'float', 'float'),
                       v[0])
  return AbsFn(name, fn)


def callable_prob(scale, mode):
  def cl(obs):
    RV = obs.api('RV')
    ps = pscale_value(scale)
    x = obs.call(RV, 'x', vset=vset_of(('c', 'c')), vtype=float, prob=pfn(), **lim(scale))

    def truth(vals):
      raw = tm.func('P', (obs.I.lib.to_num(vals['x']).t,), sign='+')
      return decode(obs.I, Num(raw, (), 'float', 'float'), ps)
    vs = [f(MID), f(LO), f(HI)]
    if mode == 'scalar':
      for v in vs:
        check_cells(obs, 'probability', obs.call(x, v), ['x'], truth, 'callable p(v)', pscale=ps,
                    roles=(['x'], []))
        check_cells(obs, 'probability', obs.call(x, {'x': v}), ['x'], truth, 'callable p({x: v})',
                    pscale=ps)
    else:
      check_cells(obs, 'probability', obs.call(x, SArr(vs, 'float')), ['x'], truth,
                  'callable p(array)', pscale=ps, values={'x': vs})
      check_cells(obs, 'probability', obs.call(x, ASet([3])), ['x'], truth,
                  'callable p({3})', pscale=ps)
  return cl


def prob_rescale(a, b):
  """ Prob called with pscale gives the same probability in the scale asked for """
  def cl(obs):
    Prob = obs.api('Prob')
    t = tm.sym('P', (), '+')
    p = obs.call(Prob, stored(a, t), **lim(a))
    got = obs.call(p, pscale=pscale_value(b, 'n'))
    d = decode(obs.I, got, obs.call(obs.api('eval_pscale', 'probayes.pscales'), pscale_value(b, 'n')))
    obs.add('probability', None if d is None else d.key == t.key,
            f"Prob(...)(pscale={b}) denotes {d.key if d is not None else got!r}, expected {t.key}")
    got = obs.call(p)
    d = decode(obs.I, got, pscale_value(a))
    obs.add('probability', None if d is None else d.key == t.key,
            f"Prob(...)() denotes {d.key if d is not None else got!r}, expected {t.key}")
    q = obs.call(Prob, pfn(), **lim(a))
    raw = decode(obs.I, Num(tm.func('P', (LO,), sign='+'), (), 'float', 'float'), pscale_value(a))
    got = obs.call(q, f(LO), pscale=pscale_value(b, 'n'))
    d = decode(obs.I, got, pscale_value(b, 'n'))
    obs.add('probability', None if d is None else d.key == raw.key,
            f"Prob(callable)(v, pscale={b}) denotes {d.key if d is not None else got!r}, expected {raw.key}")
  return cl


# ------------------------------------------------------------ default life cycle
def default_lifecycle(scale):
  def cl(obs):
    RV = obs.api('RV')
    ps = pscale_value(scale)
    x = obs.call(RV, 'x', vtype=int, vset=[0, 1], **lim(scale))
    for vs in ([0, 1, 2], [4], [1, 3, 5, 7]):
      obs.I.setattr(x, 'vset', list(vs))
      n = len(vs)
      obs.add('probability', obs.attr(x, 'def_prob') is True, 'default flag kept by vset')
      check_cells(obs, 'probability', obs.call(x), ['x'], lambda v: tm.const_t(1) / tm.const_t(n),
                  f"default probability after vset={vs}", pscale=ps, values={'x': vs})
      if n > 1:
        st = obs.meth(x, 'step', vs[0], vs[1])
        check_cells(obs, 'transition', st, ["x'", 'x'], lambda v: tm.const_t(1) / tm.const_t(n),
                    f"default transition after vset={vs}", pscale=ps)
    y = obs.call(RV, 'y', vtype=int, vset=[0, 1], prob=stored(scale, tm.const_t(0.25)), **lim(scale))
    obs.I.setattr(y, 'vset', [0, 1, 2])
    check_cells(obs, 'probability', obs.call(y), ['y'], lambda v: tm.const_t(0.25),
                'specified probability is not defaulted by vset', pscale=ps)
    obs.same('probability', obs.attr(y, 'def_prob'), False, 'default flag of a specified probability')
  return cl


# ------------------------------------------------------------ transitions
def matrix(n, tag='m', sym=False):
  return NArr((n, n), [f(tm.sym(f"{tag}{min(i, j)}{max(i, j)}" if sym else f"{tag}{i}{j}", (), '+'))
                       for i in range(n) for j in range(n)], 'float')


def mat_truth(members, tag='m', sym=False):
  ix = {norm(v): i for i, v in enumerate(sorted(members))}

  def truth(vals):
    i, j = ix[norm(vals["x'"])], ix[norm(vals['x'])]
    return tm.sym(f"{tag}{min(i, j)}{max(i, j)}" if sym else f"{tag}{i}{j}", (), '+')
  return truth


def discrete(obs, name, **kw):
  vtype, vset, members, out = VSETS[name]
  kw = dict(kw)
  if vset is not None:
    kw['vset'] = mkset(vset)
  return obs.call(obs.api('RV'), 'x', vtype=vtype, **kw), members, vtype


def tran_matrix(name, sym=False):
  def cl(obs):
    x, members, vtype = discrete(obs, name)
    n = len(members)
    m = matrix(n, sym=sym)
    obs.freeze('matrix', m)
    obs.meth(x, 'set_tran', m)
    truth = mat_truth(members, sym=sym)
    roles = (["x'"], ['x'])
    st = obs.meth(x, 'step')
    check_cells(obs, 'transition', st, ["x'", 'x'], truth, f"step() over {name}", roles=roles)
    for a in members:
      for b in members:
        check_cells(obs, 'transition', obs.meth(x, 'step', a, b), ["x'", 'x'], truth,
                    f"step({a}, {b})", roles=roles, values={'x': [a], "x'": [b]})
        check_cells(obs, 'transition', obs.meth(x, 'step', (a, b)), ["x'", 'x'], truth,
                    f"step(({a}, {b}))", roles=roles, values={'x': [a], "x'": [b]})
      arr = members[::-1]
      s = obs.meth(x, 'step', a, SArr(arr, vtype.__name__))
      check_cells(obs, 'transition', s, ["x'", 'x'], truth, f"step({a}, array)", roles=roles,
                  values={'x': [a], "x'": arr})
      s = obs.meth(x, 'step', SArr(arr, vtype.__name__), a)
      check_cells(obs, 'transition', s, ["x'", 'x'], truth, f"step(array, {a})", roles=roles,
                  values={'x': arr, "x'": [a]})
    s = obs.meth(x, 'step', SArr(members, vtype.__name__), SArr(arr[:2], vtype.__name__))
    check_cells(obs, 'transition', s, ["x'", 'x'], truth, "step(array, array)", roles=roles)
    obs.unmutated('operand-unchanged')
  return cl


def tran_pair(name):
  """ forward and reverse transition matrices """
  def cl(obs):
    x, members, vtype = discrete(obs, name)
    n = len(members)
    obs.meth(x, 'set_tran', (matrix(n, 'f'), matrix(n, 'r')))
    for rev, tag in ((False, 'f'), (True, 'r')):
      truth = mat_truth(members, tag)
      for a in members[:2]:
        for b in members[:2]:
          check_cells(obs, 'transition', obs.meth(x, 'step', a, b, reverse=rev), ["x'", 'x'], truth,
                      f"step({a}, {b}, reverse={rev})")
      check_cells(obs, 'transition', obs.meth(x, 'step', reverse=rev), ["x'", 'x'], truth,
                  f"step(reverse={rev})")
  return cl


def tran_refuse():
  def cl(obs):
    x, members, vtype = discrete(obs, 'int[0,1,2]')
    obs.raises('refusal', lambda: obs.meth(x, 'set_tran', matrix(2)), None, '2x2 matrix for 3 values')
    obs.raises('refusal', lambda: obs.meth(x, 'set_tran', NArr((2, 3), [0.5] * 6)), None,
               '2x3 matrix for 3 values')
    y = obs.call(obs.api('RV'), 'y', vtype=float, vset=[0., 1.])
    obs.raises('refusal', lambda: obs.meth(y, 'set_tran', matrix(2)), None, 'matrix for floats')
  return cl


def tran_scalar(scale, positions):
  """ uniform transitional of a float variable """
  a, b = positions

  def cl(obs):
    RV = obs.api('RV')
    ends = ('c', 'o')
    x = obs.call(RV, 'x', vset=vset_of(ends), vtype=float, **lim(scale))
    ps = pscale_value(scale)
    dens = tm.ONE / (HI - LO)
    ok = inside(a, ends) and inside(b, ends)
    obs.meth(x, 'set_tran', stored(scale, dens))

    def truth(vals):
      return dens if ok else 0
    st = obs.meth(x, 'step', f(POS[a]), f(POS[b]))
    check_cells(obs, 'transition', st, ["x'", 'x'], truth, f"step({a}, {b})", pscale=ps,
                values={'x': [f(POS[a])], "x'": [f(POS[b])]}, roles=(["x'"], ['x']))
    xs = [f(t) for t in POS.values()]
    by = {norm(f(t)): inside(p, ends) for p, t in POS.items()}

    def truth2(vals):
      return dens if by[norm(vals['x'])] and by[norm(vals["x'"])] else 0
    st = obs.meth(x, 'step', SArr(xs, 'float'), SArr(xs[::-1][:3], 'float'))
    check_cells(obs, 'transition', st, ["x'", 'x'], truth2, 'step(array, array)', pscale=ps,
                values={'x': xs, "x'": xs[::-1][:3]}, roles=(["x'"], ['x']))
  return cl


def tran_callable(scale, multi):
  def fn(tag):
    def g(I, args, kwds):
      def el(s, p):
        return Num(tm.func(tag, (I.lib.to_num(s).t, I.lib.to_num(p).t), sign='+'), (), 'float', 'float')
      if sorted(kwds) != ['x', "x'"] or args:
        raise I.exc('TypeError', f"transitional called with {list(args)} {sorted(kwds)}")
      return I.lib.ndmap(el, kwds["x'"], kwds['x'])
    return AbsFn(tag, g)

  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=vset_of(('c', 'c')), vtype=float, **lim(scale))
    ps = pscale_value(scale)
    obs.meth(x, 'set_tran', (fn('F'), fn('R')) if multi else fn('F'))
    vs = [f(LO), f(MID), f(HI)]
    for rev in (False, True):
      tag = 'R' if rev and multi else 'F'

      def truth(vals):
        lib = obs.I.lib
        raw = tm.func(tag, (lib.to_num(vals["x'"]).t, lib.to_num(vals['x']).t), sign='+')
        return decode(obs.I, Num(raw, (), 'float', 'float'), ps)
      check_cells(obs, 'transition', obs.meth(x, 'step', f(LO), f(HI), reverse=rev), ["x'", 'x'],
                  truth, f"step(lo, hi, reverse={rev})", pscale=ps,
                  values={'x': [f(LO)], "x'": [f(HI)]}, roles=(["x'"], ['x']))
      check_cells(obs, 'transition', obs.meth(x, 'step', f(LO), SArr(vs, 'float'), reverse=rev),
                  ["x'", 'x'], truth, f"step(lo, array, reverse={rev})", pscale=ps,
                  values={'x': [f(LO)], "x'": vs})
      check_cells(obs, 'transition', obs.meth(x, 'step', SArr(vs, 'float'), f(LO), reverse=rev),
                  ["x'", 'x'], truth, f"step(array, lo, reverse={rev})", pscale=ps,
                  values={"x'": [f(LO)], "x": vs})
      check_cells(obs, 'transition', obs.meth(x, 'step', SArr(vs, 'float'), SArr(vs[:2], 'float'),
                                              reverse=rev),
                  ["x'", 'x'], truth, f"step(array, array, reverse={rev})", pscale=ps,
                  values={"x": vs, "x'": vs[:2]})
  return cl


COLS = {0: (0.5, 0.25, 0.25), 1: (0.125, 0.5, 0.375), 2: (0.25, 0.25, 0.5)}
RCOLS = {0: (0.25, 0.5, 0.25), 1: (0.375, 0.375, 0.25), 2: (0.5, 0.125, 0.375)}


def columns(cols):
  return NArr((3, 3), [cols[j][i] for i in range(3) for j in range(3)], 'float')


def sampled_pair(cell):
  """ with a transition for each direction, successors and their probabilities follow the
  one of the direction asked for """
  def cl(obs):
    for rev, cols in ((False, COLS), (True, RCOLS)):
      x, members, vtype = discrete(obs, 'int[5,2,9]')
      obs.meth(x, 'set_tran', (columns(COLS), columns(RCOLS)))
      for j, a in enumerate(members):
        cum = [sum(cols[j][:i]) for i in range(4)]
        u = (cum[cell] + cum[cell + 1]) / 2
        st = obs.meth(x, 'step', a, ASet([u]), reverse=rev)
        check_cells(obs, 'transition', st, ["x'", 'x'], lambda v: tm.const_t(cols[j][cell]),
                    f"step({a}, {{{u}}}, reverse={rev})", values={'x': [a], "x'": [members[cell]]})
        for k, b in enumerate(members):
          st = obs.meth(x, 'step', a, b, reverse=rev)
          check_cells(obs, 'transition', st, ["x'", 'x'], lambda v: tm.const_t(cols[j][k]),
                      f"step({a}, {b}, reverse={rev})", values={'x': [a], "x'": [b]})
  return cl


def tran_sample(cell):
  """ a cumulative probability selects the successor whose interval contains it """
  def cl(obs):
    x, members, vtype = discrete(obs, 'int[5,2,9]')
    cols = {0: (0.5, 0.25, 0.25), 1: (0.125, 0.5, 0.375), 2: (0.25, 0.25, 0.5)}
    m = NArr((3, 3), [cols[j][i] for i in range(3) for j in range(3)], 'float')
    obs.meth(x, 'set_tran', m)
    for j, a in enumerate(members):
      cum = [sum(cols[j][:i]) for i in range(4)]
      u = (cum[cell] + cum[cell + 1]) / 2
      st = obs.meth(x, 'step', a, ASet([u]))
      check_cells(obs, 'transition', st, ["x'", 'x'], lambda v: tm.const_t(cols[j][cell]),
                  f"step({a}, {{{u}}})", values={'x': [a], "x'": [members[cell]]})
  return cl


def tran_sample_callable(kind):
  """ inverse CDF sampling of a callable transitional """
  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=[f(LO), f(HI)], vtype=float)
    obs.meth(x, 'set_tran', AbsFn('tran', lambda I, a, k: I.binop('add', k["x'"], k['x'])))
    log = []

    def cdf(I, args, kwds):
      log.append(('cdf', kwds))
      return I.lib.ndmap(lambda s, p: Num(tm.func('CDF', (I.lib.to_num(s).t, I.lib.to_num(p).t), sign='+'), (), 'float', 'float'), kwds["x'"], kwds['x'])

    def icdf(I, args, kwds):
      log.append(('icdf', kwds))
      return I.lib.ndmap(lambda s, p: Num(tm.func('ICDF', (I.lib.to_num(s).t, I.lib.to_num(p).t)), (), 'float', 'float'), kwds["x'"], kwds['x'])
    obs.meth(x, 'set_tfun', (AbsFn('cdf', cdf), AbsFn('icdf', icdf)))
    st = obs.meth(x, 'step', f(MID), ASet([0.25]))
    want = tm.func('ICDF', (tm.const_t(0.25), MID))
    check_cells(obs, 'transition', st, ["x'", 'x'], lambda v: want + MID, 'step(mid, {0.25})',
                values={'x': [f(MID)], "x'": [f(want)]})
  return cl


def scalar_icdf():
  """ uniform transitional sampled from a cumulative probability """
  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=[f(LO), f(HI)], vtype=float)
    st = obs.meth(x, 'step', f(MID), ASet([0.25]))
    want = LO * tm.const_t(0.75) + HI * tm.const_t(0.25)
    if isinstance(st, Unk):
      obs.add('transition', None, st.why)
      return
    obs.num('transition', st.payload["x'"], want, "successor at cumulative probability 0.25")
    obs.same('transition', st.payload['x'], f(MID), 'predecessor')
  return cl


def delta_step(deltakind):
  """ the default delta moves the successor """
  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=[f(LO), f(HI)], vtype=float)
    d = tm.sym('d', (), '+')
    obs.meth(x, 'set_delta', f(d))
    obs.meth(x, 'set_tran', f(tm.ONE / (HI - LO)))
    st = obs.meth(x, 'step', f(LO))
    if isinstance(st, Unk):
      obs.add('transition', None, st.why)
      return
    obs.num('transition', st.payload["x'"], LO + d, 'successor of lo after a delta d')
    obs.same('transition', st.payload['x'], f(LO), 'predecessor')
    obs.same('transition', obs.attr(st, 'dims').get('x'), None, 'dimension of scalar predecessor')
  return cl


def naming():
  def cl(obs):
    x, members, vtype = discrete(obs, 'int[0,1,2]')
    for args, want in (((), 'x'), ((1,), 'x=1'), ((SArr([0, 1], 'int'),), 'x=[]')):
      obs.same('probability', obs.attr(obs.call(x, *args), 'name'), want, f"name of x{args}")
    obs.meth(x, 'set_tran', matrix(3))
    for args, want in (((), "x'|x"), ((1, 2), "x'=2|x=1"), ((1, SArr([0, 1], 'int')), "x'=[]|x=1")):
      obs.same('transition', obs.attr(obs.meth(x, 'step', *args), 'name'), want, f"name of step{args}")
  return cl


# ------------------------------------------------------------ no transition
def bare(scale, kind):
  """ without a transition, a step denotes one at every predecessor and successor """
  def cl(obs):
    RV = obs.api('RV')
    ps = pscale_value(scale)
    one = lambda v: tm.ONE
    roles = (["x'"], ['x'])
    if kind in ('int', 'bool'):
      vset = [False, True] if kind == 'bool' else [5, 2, 9]
      x = obs.call(RV, 'x', vtype=bool if kind == 'bool' else int, **({} if kind == 'bool' else {'vset': vset}),
                   **lim(scale))
      a, b, arr = vset[0], vset[1], SArr(list(vset), kind)
      items = list(vset)
    else:
      x = obs.call(RV, 'x', vset=[f(LO), f(HI)], vtype=float, **lim(scale))
      a, b, arr = f(LO), f(MID), SArr([f(LO), f(MID), f(HI)], 'float')
      items = list(arr.items)
    for args, va, vb in (((a, b), [a], [b]), (((a, b),), [a], [b]), (([a, b],), [a], [b]),
                         ((a, arr), [a], items), ((arr, b), items, [b]), ((arr, arr), items, items),
                         (({'x': a}, b), [a], [b])):
      obs.freeze('predecessor', args[0])
      st = obs.meth(x, 'step', *args)
      check_cells(obs, 'transition', st, ["x'", 'x'], one, f"step{args} of no transition", pscale=ps, roles=roles,
                  values={'x': va, "x'": vb})
    obs.unmutated('operand-unchanged')
    obs.raises('refusal', lambda: obs.meth(x, 'step', a), None, 'neither transition nor successor')
  return cl


def bare_drawn(kind, tran, number, ufun=False):
  """ the successors of a uniform transition are drawn from the domain """
  def cl(obs):
    RV = obs.api('RV')
    if kind == 'float':
      lo, hi = tm.const_t(2), tm.const_t(8)
      x = obs.call(RV, 'x', vset=[2., 8.], vtype=float, **({'pscale': 0j} if tran == 'log' else {}))
      a = 3.
      p = tm.const_t(0.5)
    else:
      x = obs.call(RV, 'x', vtype=int, vset=[5, 2, 9])
      a = 2
      p = tm.const_t(0.25)
    if ufun:
      obs.meth(x, 'set_ufun', (AbsFn('log', lambda I, args, k: Num(tm.log_t(I.lib.to_num(args[0]).t), (), 'float', 'float')
                                     if not isinstance(args[0], (SArr, NArr)) else
                                     I.lib.ndmap(lambda v: Num(tm.log_t(I.lib.to_num(v).t), (), 'float', 'float'), args[0])),
                               AbsFn('exp', lambda I, args, k: I.lib.ndmap(
                                   lambda v: Num(tm.exp_t(I.lib.to_num(v).t), (), 'float', 'float'), args[0])
                                     if isinstance(args[0], (SArr, NArr)) else
                                     Num(tm.exp_t(I.lib.to_num(args[0]).t), (), 'float', 'float'))))
    if tran:
      obs.meth(x, 'set_tran', stored('log' if tran == 'log' else 'one', p))
    st = obs.meth(x, 'step', a, ASet([number]))
    if isinstance(st, Unk):
      return obs.add('transition', None, st.why)
    s = st.payload["x'"]
    obs.same('transition', st.payload['x'], a, 'predecessor')
    sh = None if isinstance(s, Unk) else obs.I.lib.nd(s) if isinstance(s, (SArr, NArr)) else ((), [s])
    if sh is None:
      return obs.add('transition', None, f"{s!r}")
    n = abs(number) if isinstance(number, int) else 0
    want_shape = (n,) if n else ()
    obs.add('transition', tuple(sh[0]) == want_shape, f"successors of shape {sh[0]} for {number}")
    obs.same('transition', obs.attr(st, 'dims').get("x'"), 0 if n else None, 'dimension of the successors')
    obs.same('transition', obs.attr(st, 'dims').get('x'), None, 'dimension of the predecessor')
    for k, v in enumerate(sh[1]):
      if kind == 'int':
        rs = [picks(v, want) for want in itertools.permutations((5, 2, 9))] if isinstance(v, Num) else \
             [norm(v) in (5, 2, 9)]
        obs.add('transition', any(rs) or (None if None in rs else False), f"successor {v!r}")
        continue
      t = obs.I.lib.numt(v)
      if isinstance(number, float):
        u = tm.const_t(number)
        if ufun:
          obs.add('transition', tm.agree(t, tm.exp_t(tm.log_t(lo) * (tm.ONE - u) + tm.log_t(hi) * u)),
                  f"successor {t.key[:160]}")
        else:
          obs.num('transition', v, lo * (tm.ONE - u) + hi * u, f"successor at {number}")
      elif not ufun:
        if n:
          obs.num('transition', v, spaced(n, ('c', 'c'), lo, hi)[k], f"successor {k} of {n}")
        else:
          obs.add('transition', uniform_draw(t, lo, hi), f"successor {t.key[:160]}")
    check_cells(obs, 'transition', st, ["x'", 'x'], lambda v: p if tran else tm.ONE if not ufun else None, f"step({a}, {{{number}}})",
                roles=(["x'"], ['x']))
  return cl


def drawn_matrix(number, name='int[5,2,9]'):
  """ successors drawn from the column of the predecessor, each with its probability """
  def cl(obs):
    x, members, vtype = discrete(obs, name)
    cols = {0: (0.5, 0.25, 0.25), 1: (0.125, 0.5, 0.375), 2: (0.25, 0.25, 0.5)}
    m = NArr((3, 3), [cols[j][i] for i in range(3) for j in range(3)], 'float')
    obs.meth(x, 'set_tran', m)
    for j, a in enumerate(members):
      before = len([e for e in obs.I.ctx.events if e[0] == 'bin'])
      st = obs.meth(x, 'step', a, ASet([number]))
      if isinstance(st, Unk):
        obs.add('transition', None, st.why)
        continue
      bins = [e[2] for e in obs.I.ctx.events if e[0] == 'bin'][before:]
      got = obs.I.lib.nd(st.payload["x'"])
      if got is None:
        obs.add('transition', None, f"{st.payload!r}")
        continue
      its = [norm(v) for v in got[1]]
      obs.add('transition', len(its) == max(1, number), f"{len(its)} successors for {number}")
      obs.add('transition', all(v in members for v in its), f"successors {its}")
      cum = [sum(cols[j][:i]) for i in range(4)]
      if len(bins) == len(its):
        for v, b in zip(its, bins):
          if v in members:
            i = members.index(v)
            obs.add('transition', list(b) == cum[i:i + 2], f"from {a}, {v} drawn within {b}, expected {cum[i:i+2]}")
      elif number:
        # levels spaced evenly over [0, 1]
        for k, v in enumerate(its):
          u = 0.5 if number == 1 else k / (number - 1)
          obs.add('transition', v in members and cum[members.index(v)] <= u <= cum[members.index(v) + 1],
                  f"from {a}, level {u} selects {v}")
      else:
        obs.add('transition', None, f"{len(bins)} draws for {len(its)} successors")
      check_cells(obs, 'transition', st, ["x'", 'x'],
                  lambda v: tm.const_t(cols[j][members.index(norm(v["x'"]))]) if norm(v["x'"]) in members else None,
                  f"step({a}, {{{number}}})", roles=(["x'"], ['x']))
  return cl


def drawn_callable(number, ends):
  """ successors drawn by the inverse of the conditional cumulative function between its bounds """
  def cl(obs):
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=vset_of(ends), vtype=float)

    def two(tag, sign=None):
      def fn(I, args, kwds):
        if args or sorted(kwds) != ['x', "x'"]:
          raise I.exc('TypeError', f"called with {list(args)} {sorted(kwds)}")
        return I.lib.ndmap(lambda s, p: Num(tm.func(tag, (I.lib.to_num(s).t, I.lib.to_num(p).t), sign=sign),
                                            (), 'float', 'float'), kwds["x'"], kwds['x'])
      return AbsFn(tag, fn)
    incr = lambda I, args, kwds: I.lib.ndmap(
        lambda s: Num(I.lib.to_num(s).t * tm.const_t(2), (), 'float', 'float'), kwds["x'"])
    obs.meth(x, 'set_tran', two('F', '+'))
    obs.meth(x, 'set_tfun', (AbsFn('cdf', incr), two('ICDF')))
    st = obs.meth(x, 'step', f(MID), ASet([number]))
    if isinstance(st, Unk):
      return obs.add('transition', None, st.why)
    got = obs.I.lib.nd(st.payload["x'"]) if isinstance(st.payload["x'"], (SArr, NArr)) else ((), [st.payload["x'"]])
    obs.add('transition', got and len(got[1]) == max(1, abs(number)), f"successors {got}")
    two_ = tm.const_t(2)
    for k, v in enumerate(got[1]):
      t = obs.I.lib.numt(v)
      fs = [a for a in t.atoms() if a.op == 'ICDF'] or [a for a in t.atoms() if 'ICDF' in a.key]
      if not fs:
        obs.add('transition', None if t.opaque else False, f"successor {t.key[:160]} is no inverse")
        continue
      arg = fs[0].args[0]
      if number:
        ok = tm.agree(arg, spaced(number, ends, two_ * LO, two_ * HI)[k])
      else:
        ok = uniform_draw(arg, two_ * LO, two_ * HI)
      obs.add('transition', ok, f"inverse taken at {arg.key[:160]}")
      obs.add('transition', fs[0].args[1].key == MID.key, f"inverse given {fs[0].args[1].key[:80]}")
    check_cells(obs, 'transition', st, ["x'", 'x'],
                lambda v: tm.func('F', (obs.I.lib.to_num(v["x'"]).t, MID), sign='+'), f"step(mid, {{{number}}})",
                roles=(["x'"], ['x']))
  return cl


def tran_refusals2(obs):
  RV = obs.api('RV')
  g = pfn()
  x = obs.call(RV, 'x', vset=[f(LO), f(HI)], vtype=float)
  obs.raises('refusal', lambda: obs.meth(x, 'set_tfun', g), None, 'one transition function')
  x = obs.call(RV, 'x', vset=[f(LO), f(HI)], vtype=float)
  obs.meth(x, 'set_tran', AbsFn('F', lambda I, a, k: I.binop('add', k["x'"], k['x'])))
  obs.raises('refusal', lambda: obs.meth(x, 'step', f(MID), ASet([0])), None, 'draw without tfun')
  obs.meth(x, 'set_tfun', (AbsFn('c', lambda I, a, k: k["x'"]), AbsFn('i', lambda I, a, k: k["x'"])))
  obs.raises('refusal', lambda: obs.meth(x, 'step', SArr([f(LO), f(MID)], 'float'), ASet([0])), None,
             'draw from several predecessors')
  obs.meth(x, 'set_tfun')
  obs.same('refusal', obs.attr(x, 'tfun'), None, 'tfun cleared')
  obs.meth(x, 'set_tran')
  obs.same('refusal', obs.attr(x, 'tran'), None, 'tran cleared')
  obs.raises('refusal', lambda: obs.meth(x, 'step', f(MID)), None, 'no transition left')
  for bad in ([[0.5, 0.5], [0.5, 0.5]], SArr([0.5, 0.5], 'float'), NArr((2, 2, 1), [0.5] * 4, 'float')):
    y = obs.call(RV, 'y', vtype=int, vset=[0, 1])
    obs.raises('refusal', lambda: obs.meth(y, 'set_tran', bad), None, f"transition {bad!r}")
  y = obs.call(RV, 'y', vtype=int, vset=[0, 1])
  obs.meth(y, 'set_tran', 0.5)
  obs.raises('refusal', lambda: obs.meth(y, 'step', 0, ASet([0.25])), None, 'cumulative probability of integers')
  y = obs.call(RV, 'y', vtype=int, vset=[0, 1])
  obs.meth(y, 'set_tran', NArr((2, 2), [0.5, 0.5, 0.5, 0.5], 'float'))
  obs.raises('refusal', lambda: obs.meth(y, 'step', SArr([0, 1], 'int'), ASet([0])), None,
             'draw from several predecessors')
  obs.raises('refusal', lambda: obs.meth(y, 'step', 0, 2), None, 'successor outside the domain')
  obs.raises('refusal', lambda: obs.meth(y, 'step', 3, 1), None, 'predecessor outside the domain')


def uniform_many(scale, pos):
  """ uniform_prob of several values multiplies over them """
  def cl(obs):
    fn = obs.api('uniform_prob', 'probayes.rv_utils')
    p = tm.sym('p', (), '+')
    pr = f(encode(scale, p))
    kw = {} if scale == 'one' else {'pscale': 0j if scale == 'log' else pscale_value(scale)}
    ok = all(inside(q, ('c', 'c')) for q in pos)
    ps = pscale_value(scale)
    for ins in ('vset', 'call'):
      g = [f(LO), f(HI)] if ins == 'vset' else AbsFn('in', lambda I, a, k: I.lib.ndmap(
          lambda v: inside({norm(f(t)): q for q, t in POS.items()}[norm(v)], ('c', 'c')), a[0])
          if isinstance(a[0], (SArr, NArr)) else inside({norm(f(t)): q for q, t in POS.items()}[norm(a[0])], ('c', 'c')))
      got = obs.call(fn, *[f(POS[q]) for q in pos], prob=pr, inside=g, **kw)
      from .table import is_log_zero
      d = decode(obs.I, got, ps)
      if not ok:
        zero = is_log_zero(got) or d is not None and d.const() == 0
        obs.add('probability', zero or (None if d is None else False), f"uniform_prob{pos} by {ins} is {got!r}")
      else:
        obs.add('probability', None if d is None else tm.agree(d, p), f"uniform_prob{pos} by {ins} is {got!r}")
  return cl


def scenarios(tier):
  out = []

  def add(rule, construct, cl, **k):
    out.append(Scenario(rule, construct, cl, **k))
  for ends in ENDS:
    for sc in SCALES:
      for mode in ('scalar', 'array', 'dict'):
        add('probability', f"RV.__call__ uniform {name_of(ends)} pscale={sc} {mode}",
            uniform_float(ends, sc, mode))
  for name in VSETS:
    for sc in SCALES:
      add('probability', f"RV.__call__ uniform {name} pscale={sc}", uniform_discrete(name, sc))
      add('probability', f"RV.__call__ tabulated {name} pscale={sc}", tabulated(name, sc))
  for sc in SCALES:
    for how in ('init', 'set_prob'):
      for b in (0.25, 0.875, 0.5, 'b'):
        add('probability', f"RV.__call__ Bernoulli({b}) by {how} pscale={sc}", bernoulli(sc, how, b))
    add('probability', f"RV.set_prob Bernoulli reset pscale={sc}", bernoulli_reset(sc))
    for mode in ('scalar', 'array'):
      add('probability', f"RV.__call__ callable pscale={sc} {mode}", callable_prob(sc, mode))
    for b in SCALES:
      add('probability', f"Prob.__call__ pscale={sc} to {b}", prob_rescale(sc, b))
    add('probability', f"RV.vset default probability pscale={sc}", default_lifecycle(sc))
    for pos in itertools.product(POS, POS):
      if pos[0] in ('mid', 'hi', 'below') or pos[1] == 'mid':
        add('transition', f"RV.step uniform {pos} pscale={sc}", tran_scalar(sc, pos))
    for multi in (False, True):
      add('transition', f"RV.step callable multi={multi} pscale={sc}", tran_callable(sc, multi))
  add('refusal', 'RV.set_prob incommensurate', incommensurate())
  for name in VSETS:
    if len(VSETS[name][2]) > 1:
      add('transition', f"RV.step matrix {name}", tran_matrix(name))
      add('transition', f"RV.step symmetric matrix {name}", tran_matrix(name, True))
      add('transition', f"RV.step matrix pair {name}", tran_pair(name))
  add('refusal', 'RV.set_tran refusals', tran_refuse())
  for cell in range(3):
    add('transition', f"RV.step matrix sampled in cell {cell}", tran_sample(cell))
    add('transition', f"RV.step matrix pair sampled in cell {cell}", sampled_pair(cell))
  add('transition', 'RV.step callable sampled by inverse CDF', tran_sample_callable(0))
  add('transition', 'RV.step uniform from cumulative probability', scalar_icdf())
  add('transition', 'RV.step by delta', delta_step(0))
  add('probability', 'RV naming', naming())
  for sc in SCALES:
    for kind in ('float', 'int', 'bool'):
      add('transition', f"RV.step without transition {kind} pscale={sc}", bare(sc, kind))
    for pos in (('mid', 'lo'), ('mid', 'above'), ('below', 'mid'), ('mid', 'hi', 'lo'), ('mid', 'mid', 'below')):
      if all(q in POS for q in pos):
        add('probability', f"uniform_prob {pos} pscale={sc}", uniform_many(sc, pos))
  for tran in (None, 'one', 'log'):
    for number in (0, 1, 3, 0.25, 0.5):
      add('transition', f"RV.step drawn {number} transition={tran} float", bare_drawn('float', tran, number))
      if not isinstance(number, float) and tran != 'log':
        add('transition', f"RV.step drawn {number} transition={tran} int", bare_drawn('int', tran, number))
    add('transition', f"RV.step drawn 0.25 transition={tran} transformed", bare_drawn('float', tran, 0.25, True))
  for number in (0, 1, 2, 3, 6):
    add('transition', f"RV.step matrix drawn {number}", drawn_matrix(number))
  for number in (0, 1, 3):
    for ends in ENDS:
      add('transition', f"RV.step callable drawn {number} {name_of(ends)}", drawn_callable(number, ends))
  add('refusal', 'RV.step refusals', tran_refusals2)
  return out
