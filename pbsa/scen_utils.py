""" Helpers of the package: binary codes, counts of boolean permutations, conditional
covariance, value types, linear and random grids, named dictionaries. """
import itertools

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet, AbsExc, Lib, Inst
from .harness import Scenario, norm
from .table import shape_items, check_cells
from .scen_variable import elements, uniform_draw
from .scen_dist import COV, cov, params, schur, check_draw


def num(t, axes=()):
  return Num(t, axes, 'arr' if axes else 'float', 'float')


# ------------------------------------------------------------ binary codes
NUMBERS = (0, 1, 2, 3, 5, 8, 13, 21, 255, 256)


def digits(n, width):
  s = bin(n)[2:]
  s = '0' * (width - len(s)) + s
  return [c == '1' for c in s]


def binary_one(n, width):
  def cl(obs):
    b = obs.call(obs.api('int_to_bin', 'probayes.likelihoods'), n, *((width,) if width else ()))
    s = shape_items(obs.I.lib, b)
    if s is None:
      return obs.add('binary', None, f"{b!r}")
    w = digits(n, width)
    obs.same('binary', list(s[0]), [len(w)], f"shape of the code of {n}")
    obs.same('binary', s[1], w, f"binary code of {n} in {width} digits")
    back = obs.call(obs.api('bin_to_int', 'probayes.likelihoods'), b)
    obs.same('binary', back, n, f"number of the code of {n}")
    back = obs.call(obs.api('bin_to_int', 'probayes.likelihoods'), list(w))
    obs.same('binary', back, n, f"number of the listed code of {n}")
  return cl


def binary_many(ns, width, form):
  def cl(obs):
    arg = list(ns) if form == 'list' else tuple(ns) if form == 'tuple' else SArr(list(ns), 'int')
    obs.freeze('numbers', arg)
    b = obs.call(obs.api('int_to_bin', 'probayes.likelihoods'), arg, *((width,) if width else ()))
    s = shape_items(obs.I.lib, b)
    if s is None:
      return obs.add('binary', None, f"{b!r}")
    w = max(width, len(bin(max(ns))) - 2)
    obs.same('binary', list(s[0]), [len(ns), w], f"shape of the codes of {ns}")
    obs.same('binary', s[1], [d for n in ns for d in digits(n, w)], f"codes of {ns}")
    obs.freeze('codes', b)
    back = obs.call(obs.api('bin_to_int', 'probayes.likelihoods'), b)
    obs.same('binary', back, list(ns), f"numbers of the codes of {ns}")
    obs.unmutated('operand-unchanged')
  return cl


def binary_refuse():
  def cl(obs):
    f = obs.api('int_to_bin', 'probayes.likelihoods')
    g = obs.api('bin_to_int', 'probayes.likelihoods')
    obs.raises('refusal', lambda: obs.call(f, NArr((1, 2), [1, 2], 'int')), None, 'two-dimensional numbers')
    obs.raises('refusal', lambda: obs.call(g, 3), None, 'number for a code')
    obs.raises('refusal', lambda: obs.call(g, NArr((1, 1, 2), [1, 0], 'int')), None,
               'three-dimensional codes')
  return cl


# ------------------------------------------------------------ permutations
ROWS = {
    1: [[1], [0], [1], [1]],
    2: [[0, 1], [1, 1], [0, 1], [0, 0], [0, 1]],
    3: [[0, 1, 1], [1, 1, 0], [0, 1, 1], [0, 0, 1]],
}


def matrix(n):
  rows = ROWS[n]
  return NArr((len(rows), n), [bool(x) for r in rows for x in r], 'bool')


def freq(n, base):
  c = {k: base for k in itertools.product((0, 1), repeat=n)}
  for r in ROWS[n]:
    c[tuple(r)] += 1
  return c


def counts(n, base):
  def cl(obs):
    m = matrix(n)
    obs.freeze('sequences', m)
    r = obs.call(obs.api('bool_perm_freq'), m, **({'base_freq': base} if base else {}))
    s = shape_items(obs.I.lib, r)
    if s is None:
      return obs.add('counts', None, f"{r!r}")
    want = freq(n, base)
    obs.same('counts', list(s[0]), [2] * n, 'shape')
    obs.same('counts', s[1], [want[k] for k in itertools.product((0, 1), repeat=n)],
             f"counts of {n} columns over {base}")
    obs.unmutated('operand-unchanged')
  return cl


def labelled(n, base):
  """ the relative frequencies as joint probability of boolean variables """
  def cl(obs):
    keys = list('xyz'[:n])
    r = obs.call(obs.api('bool_perm_freq'), matrix(n), keys, **({'base_freq': base} if base else {}))
    fn, rel = list(obs.I.iterate(r))
    want = freq(n, base)
    total = sum(want.values())
    s = shape_items(obs.I.lib, rel)
    if s is None:
      obs.add('counts', None, f"{rel!r}")
    else:
      for k, g in zip(itertools.product((0, 1), repeat=n), s[1]):
        obs.num('counts', g, tm.const_t(want[k]) / tm.const_t(total), f"relative frequency of {k}")

    def truth(vals):
      return tm.const_t(want[tuple(int(norm(vals[k])) for k in keys)]) / tm.const_t(total)
    RV, RF = obs.api('RV'), obs.api('RF')
    rf = obs.call(RF, *[obs.call(RV, k, vtype=bool) for k in keys])
    obs.meth(rf, 'set_prob', fn, passdims=True)
    forms = list(itertools.product((None, False, True), repeat=n))
    for form in forms:
      req = {k: x for k, x in zip(keys, form) if x is not None}
      cs = check_cells(obs, 'counts', obs.call(rf, req), keys, truth, f"frequencies given {req}")
      if cs is not None:
        obs.same('counts', len(cs), 2 ** form.count(None), f"combinations given {req}")
  return cl


def counts_refuse():
  def cl(obs):
    f = obs.api('bool_perm_freq')
    obs.raises('refusal', lambda: obs.call(f, SArr([True, False], 'bool')), None, 'one-dimensional')
    obs.raises('refusal', lambda: obs.call(f, NArr((2, 2), [0, 1, 1, 0], 'int')), None, 'integers')
    obs.raises('refusal', lambda: obs.call(f, [[True, False]]), None, 'lists')
    obs.raises('refusal', lambda: obs.call(f, matrix(2), ['x']), None, 'one label for two columns')
    fn, rel = list(obs.I.iterate(obs.call(f, matrix(2), ['x', 'y'])))
    obs.raises('refusal', lambda: obs.call(fn, {'x': True, 'y': False}), None, 'without dimensions')
    dims = {'x': None, 'y': None}
    obs.raises('refusal', lambda: obs.call(fn, {'x': True}, dims={'x': None}), None, 'one key of two')
    obs.raises('refusal', lambda: obs.call(fn, {'x': True, 'z': True}, dims={'x': None, 'z': None}),
               None, 'unknown key')
    obs.raises('refusal', lambda: obs.call(fn, {'x': True, 'y': False}, dims=dims, x=True), None,
               'keywords beside a specification')
  return cl


# ------------------------------------------------------------ conditional covariance
def make_cov(obs, keys, lims=(-8., 8.)):
  mean, covm = params(keys)
  return obs.call(obs.api('CondCov', 'probayes.cond_cov'), mean, covm, [list(lims) for _ in keys])


def conditional(keys, k, n, pdf):
  """ values of one variable given the others follow the conditional normal between
  the limits """
  def cl(obs):
    from .libdist import fn_t
    cc = make_cov(obs, keys)
    given = {j: 0.25 + 0.5 * i for i, j in enumerate(keys)}
    args = [ASet([n]) if j == k else given[j] for j in keys]
    kw = {'cond_pdf': True} if pdf else {}
    r = obs.meth(cc, 'interp', *args, **kw)
    what = f"{k} of {keys} {{{n}}}"
    if isinstance(r, Unk):
      return obs.add('conditional', None, f"{what}: {r.why}")
    vals, dens = list(obs.I.iterate(r)) if pdf else (r, None)
    rest, coef, sd = schur(keys, k)
    from .scen_dist import MEAN
    mean = MEAN[k] + sum(c * (given[j] - MEAN[j]) for c, j in zip(coef, rest))
    if n == 0:
      check_draw(obs, 'conditional', vals, k, keys, given, (-8., 8.), what)
      els = [vals]
    else:
      els = elements(vals)
      if els is None:
        return obs.add('conditional', None, f"{what}: {vals!r}")
      obs.same('conditional', len(els), n, f"{what}: number of values")
      lo, hi = (tm.numeric(fn_t('ndtr', [tm.const_t((l - mean) / sd)])) for l in (-8., 8.))
      if lo is None or hi is None:
        obs.add('conditional', None, what)
      else:
        obs.add('conditional', lo < hi, what)
    if n > 1:
      first, last = (tm.numeric(obs.I.lib.numt(x)) for x in (els[0], els[-1]))
      for g, w in ((first, -8.), (last, 8.)):
        obs.add('conditional', None if g is None else abs(g - w) < 1e-6, f"{what}: end value {g}, limit {w}")
    if n % 2:
      mid = tm.numeric(obs.I.lib.numt(els[n // 2]))
      if mid is not None:
        import statistics
        nd = statistics.NormalDist(mean, sd)
        w = nd.inv_cdf((nd.cdf(-8.) + nd.cdf(8.)) / 2)
        obs.add('conditional', abs(mid - w) < 1e-6, f"{what}: middle value {mid}, expected {w}")
      else:
        obs.add('conditional', None, f"{what}: middle value {els[n // 2]!r}")
    if dens is not None:
      ds = [dens] if n == 0 else elements(dens)
      if ds is None or len(ds) != len(els):
        return obs.add('conditional', None if isinstance(dens, Unk) else False, f"{what}: densities {dens!r}")
      for x, d in zip(els, ds):
        t = obs.I.lib.numt(x)
        want = fn_t('phi', [(t - tm.const_t(mean)) / tm.const_t(sd)]) / tm.const_t(sd)
        g = obs.I.lib.numt(d)
        a, b = tm.numeric(g), tm.numeric(want)
        if a is not None and b is not None:
          obs.add('conditional', abs(a - b) < 1e-9, f"{what}: density {a}, expected {b}")
        else:
          obs.add('conditional', None if g is None else loosely(g, want), f"{what}: density {g.key[:120]}")
  return cl


def loosely(a, b):
  """ equal up to rounding of the coefficients; None when not comparable """
  import re
  num_ = re.compile(r'-?\d+\.?\d*(?:e-?\d+)?(?:/\d+)?')

  def vals(s):
    out = []
    for x in num_.findall(s):
      p, _, q = x.partition('/')
      out.append(float(p) / (float(q) if q else 1.))
    return out
  x, y = vals(a.key), vals(b.key)
  if num_.sub('#', a.key) != num_.sub('#', b.key) or len(x) != len(y):
    return None
  return all(abs(p - q) <= 1e-6 * max(1., abs(q)) for p, q in zip(x, y))


def conditional_refuse():
  def cl(obs):
    cc = make_cov(obs, ['x', 'y'])
    obs.raises('refusal', lambda: obs.meth(cc, 'interp', 0.5, 0.5), None, 'no unknown')
    obs.raises('refusal', lambda: obs.meth(cc, 'interp', ASet([1]), ASet([1])), None, 'two unknowns')
    C = obs.api('CondCov', 'probayes.cond_cov')
    obs.raises('refusal', lambda: obs.call(C, [0.], [[2., 0.], [0., 1.]], [[-1., 1.]]), None,
               'one mean for two variances')
  return cl


def sampler(k, form):
  """ the unknown variable is drawn given the others, by name """
  def cl(obs):
    keys = ['x', 'y', 'z']
    cc = make_cov(obs, keys)
    given = {j: 0.25 + 0.5 * i for i, j in enumerate(keys)}
    f = obs.api('sample_cond_cov', 'probayes.rf_utils')
    vals = dict(given)
    obs.freeze('values', vals)
    if form == 'dict':
      r = obs.call(f, vals, cond_cov=cc, unknown=k)
    elif form == 'kwds':
      r = obs.call(f, cond_cov=cc, unknown=k, **vals)
    else:
      r = obs.call(f, *[ASet([0]) if j == k else given[j] for j in keys], cond_cov=cc)
    obs.unmutated('operand-unchanged')
    check_draw(obs, 'conditional', r, k, keys, given, (-8., 8.), f"{k} unknown by {form}")
  return cl


# ------------------------------------------------------------ types of values
def arr(items, kind):
  return SArr(list(items), kind)


def types():
  """ (function, argument, expected) """
  T, F = True, False
  nd = lambda v: NArr((1, 1), [v], 'int')
  zero_d = lambda: Num(tm.const_t(2), (), 'arr', 'int')
  sym = lambda: None
  return [
      ('isunitset', ASet([1]), T), ('isunitset', ASet([0]), T), ('isunitset', ASet([-2]), T),
      ('isunitset', ASet([.5]), T), ('isunitset', ASet([True]), T), ('isunitset', ASet([1, 2]), F),
      ('isunitset', ASet([]), F), ('isunitset', ASet(['a']), F), ('isunitset', 1, F),
      ('isunitset', [1], F), ('isunitset', (1,), F), ('isunitset', {1: 2}, F), ('isunitset', None, F),
      ('isunitsetint', ASet([1]), T), ('isunitsetint', ASet([0]), T), ('isunitsetint', ASet([-3]), T),
      ('isunitsetint', ASet([.5]), F), ('isunitsetint', ASet([1.]), F), ('isunitsetint', ASet([True]), F),
      ('isunitsetint', ASet([1, 2]), F), ('isunitsetint', 1, F), ('isunitsetint', ASet(['a']), F),
      ('isunitsetfloat', ASet([.5]), T), ('isunitsetfloat', ASet([1.]), T), ('isunitsetfloat', ASet([0.]), T),
      ('isunitsetfloat', ASet([1]), F), ('isunitsetfloat', ASet([True]), F), ('isunitsetfloat', .5, F),
      ('isunitsetfloat', ASet([.5, .6]), F),
      ('isscalar', 1, T), ('isscalar', 1.5, T), ('isscalar', True, T), ('isscalar', 'a', T),
      ('isscalar', None, F), ('isscalar', [1], F), ('isscalar', (1,), F), ('isscalar', ASet([1]), F),
      ('isscalar', {}, F), ('isscalar', arr([1], 'int'), F), ('isscalar', arr([1, 2], 'int'), F),
      ('isscalar', nd(1), F), ('isscalar', 2 + 0j, T),
      ('issingleton', 1, T), ('issingleton', ASet([1]), T), ('issingleton', ASet([.5]), T),
      ('issingleton', ASet([1, 2]), F), ('issingleton', arr([1], 'int'), F), ('issingleton', [1], F),
      ('issingleton', None, F),
      ('isunitary', 1, T), ('isunitary', arr([1], 'int'), T), ('isunitary', nd(1), T),
      ('isunitary', arr([1, 2], 'int'), F), ('isunitary', [1], F), ('isunitary', ASet([1]), F),
      ('isunitary', None, F),
      ('isdimensionless', 1, T), ('isdimensionless', .5, T), ('isdimensionless', ASet([0]), T),
      ('isdimensionless', ASet([1]), F), ('isdimensionless', ASet([-1]), F),
      ('isdimensionless', arr([1, 2], 'int'), F), ('isdimensionless', arr([1], 'int'), F),
      ('isdimensionless', [1], F), ('isdimensionless', None, F), ('isdimensionless', ASet([0, 1]), F),
      ('isfinite', 1, T), ('isfinite', float('inf'), F), ('isfinite', float('-inf'), F),
      ('isfinite', (1, float('inf')), (T, F)), ('isfinite', [float('-inf'), 2.], [F, T]),
      ('isfinite', arr([1., float('inf')], 'float'), [T, F]),
      ('isfinite', ((1,), float('inf')), ((T,), F)), ('isfinite', [[1., float('inf')], 2.], [[T, F], T]),
      ('isfinite', [], []), ('isfinite', (), ()), ('isfinite', (float('-inf'),), (F,)),
  ]


def typing(i):
  fname, arg, want = types()[i]

  def cl(obs):
    r = obs.call(obs.api(fname, 'probayes.vtypes'), arg)
    obs.same('types', r, want, f"{fname}({arg!r})")
  return cl


VT = [
    (bool, bool), (int, int), (float, float), (True, bool), (3, int), (.5, float),
    ([True, False], bool), ([1, 2], int), ([1., 2.], float), ([1, 2.], float), ((1, 2), int),
    ((1., 2.), float), ([(1.,), 2.], float), ([(1,), 2], int), ('set int', int), ('set float', float),
    ('arr float32', float), ('arr float64', float), ('arr int32', int), ('arr int64', int),
    ('item float32', float), ('item int32', int), ('arr bool', bool), ('arr int', int), ('arr float', float), (float('inf'), float),
]


def vtype_of(i):
  src, want = VT[i]

  def cl(obs):
    arg = {'set int': ASet([1, 2]), 'set float': ASet([.5, 2.]), 'arr bool': arr([True, False], 'bool'),
           'arr float32': arr([.5, 2.], 'float32'), 'arr float64': arr([.5, 2.], 'float64'),
           'arr int32': arr([1, 2], 'int32'), 'arr int64': arr([1, 2], 'int64'),
           'item float32': Num(tm.const_t(2), (), 'arr', 'float32'), 'item int32': Num(tm.const_t(2), (), 'arr', 'int32'),
           'arr int': arr([1, 2], 'int'), 'arr float': arr([1., 2.5], 'float')}.get(src, src) \
        if isinstance(src, str) else src
    r = obs.call(obs.api('eval_vtype', 'probayes.vtypes'), arg)
    if isinstance(r, Unk):
      return obs.add('types', None, f"eval_vtype({src!r}): {r.why}")
    obs.add('types', r is want, f"eval_vtype({src!r}) is {r!r}, expected {want.__name__}")
  return cl


RT = [
    (True, int, 1), (1, bool, True), (0, bool, False), (2, float, 2.), (2.75, int, 2), (True, bool, True),
    (3, int, 3), (.5, float, .5), ([True, False], int, [1, 0]), ([1, 0], bool, [True, False]),
    ([1, 2], float, [1., 2.]), ([1.25, 2.75], int, [1, 2]), ([1, 2], int, [1, 2]), (.5, None, .5),
]


def retype(i):
  src, vt, want = RT[i]

  def cl(obs):
    kind = {bool: 'bool', int: 'int', float: 'float'}
    arg = arr(src, kind[type(src[0])]) if isinstance(src, list) else src
    obs.freeze('value', arg)
    r = obs.call(obs.api('revtype', 'probayes.vtypes'), arg, vt)
    obs.same('types', r, want, f"revtype({src}, {vt})")
    if vt is not None and not isinstance(src, list):
      t = obs.call(obs.api('eval_vtype', 'probayes.vtypes'), r)
      obs.add('types', None if isinstance(t, Unk) else t is vt, f"type of revtype({src}, {vt}) is {t!r}")
    obs.unmutated('operand-unchanged')
  return cl


def grid(n, ex0, ex1, sign):
  """ evenly spaced values, excluded ends stepped over; random ones within """
  def cl(obs):
    a, b = tm.sym('a'), tm.sym('b')
    r = obs.call(obs.api('uniform', 'probayes.vtypes'), num(a), num(b), n,
                 *((ex0, ex1) if sign else ()), **({} if sign else {'ex_0': ex0, 'ex_1': ex1}))
    what = f"uniform(a, b, {n}, {ex0}, {ex1})"
    if n:
      els = elements(r)
      if n > 0:
        if els is None:
          return obs.add('grid', None, f"{what}: {r!r}")
        obs.same('grid', len(els), n, f"{what}: number")
        gaps = n - 1 + ex0 + ex1
        for i, g in enumerate(els):
          w = (a + b) / tm.const_t(2) if gaps == 0 else \
              a + (b - a) * tm.const_t(i + ex0) / tm.const_t(gaps)
          obs.num('grid', g, w, f"{what}: value {i}")
        return
      if els is None:
        lib = obs.I.lib
        if isinstance(r, Unk):
          return obs.add('grid', None, f"{what}: {r.why}")
        sh = [lib.numt(q).key for q in lib.shape_of(r)]
        obs.same('grid', sh, [str(-n)], f"{what}: shape")
        if n < -1:
          obs.add('grid', bool(r.t.labels), f"{what}: one draw repeated")
        els = [r]
      else:
        obs.same('grid', len(els), -n, f"{what}: number")
    else:
      sh = obs.I.lib.shape_of(r) if not isinstance(r, Unk) else None
      obs.add('grid', None if sh is None else list(sh) == [], f"{what}: shape {sh}")
      els = [r]
    for e in els:
      t = obs.I.lib.numt(e)
      obs.add('grid', None if t is None else uniform_draw(t, a, b), f"{what}: draw {e!r}")
  return cl


# ------------------------------------------------------------ dictionaries
def named():
  def cl(obs):
    ND = obs.api('NamedDict')
    d = obs.call(ND, 'n', {'b': 1, 'a': 2})
    obs.same('named', obs.attr(d, 'name'), 'n', 'name')
    obs.same('named', list(d.payload.items()), [['b', 1], ['a', 2]], 'entries in order')
    e = obs.call(ND, 'm', c=3)
    obs.same('named', list(e.payload.items()), [['c', 3]], 'entries by keyword')
    obs.same('named', obs.attr(e, 'name'), 'm', 'name')
    obs.same('named', obs.attr(d, 'name'), 'n', 'name after another')
    e = obs.call(ND, 'k')
    obs.same('named', len(e.payload), 0, 'empty')
    obs.I.setattr(e, 'name', 'l')
    obs.same('named', obs.attr(e, 'name'), 'l', 'renamed')
    obs.raises('refusal', lambda: obs.call(ND, 3, {'a': 1}), None, 'number for a name')
    obs.raises('refusal', lambda: obs.I.setattr(d, 'name', None), None, 'no name')
    obs.raises('refusal', lambda: obs.call(ND, {'a': 1}), None, 'dictionary for a name')
  return cl


def transposed(kind):
  """ a sequence of dictionaries read by key """
  def cl(obs):
    f = obs.api('iterdict')
    ds = [{'x': 1, 'y': 'p'}, {'y': 'q', 'x': 2}, {'x': 3, 'y': 'r'}]
    obs.freeze('dictionaries', ds)
    r = obs.call(f, ds if kind == 'list' else tuple(ds))
    if isinstance(r, Unk):
      return obs.add('named', None, r.why)
    p = r.payload if isinstance(r, Inst) else r
    obs.same('named', list(p.keys()), ['x', 'y'], 'keys')
    obs.same('named', p['x'], [1, 2, 3], 'values of x')
    obs.same('named', p['y'], ['p', 'q', 'r'], 'values of y')
    obs.unmutated('operand-unchanged')
    r = obs.call(f, [])
    obs.same('named', list((r.payload if isinstance(r, Inst) else r).keys()), [], 'keys of nothing')
    # entries missing from some
    r = obs.call(f, [{'x': 1}, {'z': 5}, {'x': 2}])
    p = r.payload if isinstance(r, Inst) else r
    obs.same('named', p.get('x'), [1, 2], 'values of x where present')
    obs.same('named', p.get('z'), [5], 'values of z where present')
  return cl


def as_names(form):
  """ arguments keyed by variables are taken by the names of the variables """
  def cl(obs):
    f = obs.api('parse_as_str_dict', 'probayes.variable_utils')
    RV = obs.api('RV')
    x, y = obs.call(RV, 'x', vtype=bool), obs.call(RV, 'y', vtype=bool)

    def see(r, want, what):
      p = r.payload if isinstance(r, Inst) else r
      if not isinstance(p, dict):
        return obs.add('named', None if isinstance(p, Unk) else False, what)
      obs.same('named', [[k, v] for k, v in p.items()], want, what)
    if form == 'plain':
      see(obs.call(f), [], 'nothing')
      see(obs.call(f, a=1, b=2), [['a', 1], ['b', 2]], 'keywords')
      see(obs.call(f, {'b': 1, 'a': 2}), [['b', 1], ['a', 2]], 'dictionary')
      see(obs.call(f, {'b': 1}, {'a': 2}), [['b', 1], ['a', 2]], 'two dictionaries')
      see(obs.call(f, {'b': 1}, a=2), [['b', 1], ['a', 2]], 'dictionary and keyword')
    elif form == 'variables':
      see(obs.call(f, {y: 1, x: 2}), [['y', 1], ['x', 2]], 'by variables')
      see(obs.call(f, {y: 1, 'x': 2}), [['y', 1], ['x', 2]], 'by variable and name')
      see(obs.call(f, {(y, x): 1}), [['y,x', 1]], 'by a pair of variables')
      see(obs.call(f, {('y', x): 1}), [['y,x', 1]], 'by a name and a variable')
      see(obs.call(f, {y: 1}, x=2), [['y', 1], ['x', 2]], 'by variable and keyword')
    elif form == 'remap':
      see(obs.call(f, {'x': 1, 'y': 2}, remap={'x': 'u'}), [['u', 1], ['y', 2]], 'renamed')
      see(obs.call(f, {x: 1, y: 2}, remap={'y': 'u'}), [['x', 1], ['u', 2]], 'variable renamed')
      see(obs.call(f, {(x, y): 1}, remap={'x,y': 'u'}), [['u', 1]], 'pair renamed')
      see(obs.call(f, {'x': 1}, remap={}), [['x', 1]], 'nothing to rename')
    else:
      obs.raises('refusal', lambda: obs.call(f, [1]), None, 'list for a dictionary')
      obs.raises('refusal', lambda: obs.call(f, {'x': 1}, 2), None, 'number for a dictionary')
      obs.raises('refusal', lambda: obs.call(f, {3: 1}), None, 'number for a key')
      obs.raises('refusal', lambda: obs.call(f, {('x', 3): 1}), None, 'number in a key')
  return cl


def icon(form):
  """ an icon stands for its symbol """
  def cl(obs):
    from .interp import SliceV
    Icon = obs.api('Icon')
    if form == 'name':
      i = obs.call(Icon, 'x')
      s = obs.I.getitem(i, SliceV(None, None))
    else:
      s = obs.call(obs.api('Symbol', 'sympy'), 'x')
      i = obs.call(Icon, s)
      obs.add('named', obs.I.getitem(i, SliceV(None, None)) is s, 'the symbol given')
    obs.add('named', obs.attr(i, 'icon') is s, 'the icon')
    obs.same('named', obs.attr(s, 'name'), 'x', 'name of the symbol')
    e = obs.call(obs.api('Expression'), obs.code('2*x + 1', x=s))
    obs.num('named', obs.call(e, {'x': num(tm.sym('v'))}), tm.const_t(2) * tm.sym('v') + tm.ONE,
            'expression of the icon')
    obs.raises('refusal', lambda: obs.call(Icon, 3), None, 'number for an icon')
    obs.raises('refusal', lambda: obs.call(Icon, None), None, 'nothing for an icon')
    obs.raises('refusal', lambda: obs.I.getitem(i, 0), None, 'index of an icon')
    obs.raises('refusal', lambda: obs.I.getitem(i, 'x'), None, 'name as the index of an icon')
  return cl


def scenarios(tier='quick'):
  out = []
  add = lambda rule, name, c, **k: out.append(Scenario(rule, name, c, **k))
  for n in NUMBERS:
    for w in (0, 1, 4, 9):
      add('binary', f"int_to_bin {n} width={w}", binary_one(n, w))
  for ns in ((0,), (5,), (1, 2), (0, 7, 3), (8, 1, 15, 0)):
    for w in (0, 2, 5):
      for form in ('list', 'tuple', 'array'):
        add('binary', f"int_to_bin {ns} width={w} {form}", binary_many(ns, w, form))
  add('refusal', 'int_to_bin refusals', binary_refuse())
  for n in (1, 2, 3):
    for base in (0, 1, 2):
      add('counts', f"bool_perm_freq of {n} base={base}", counts(n, base))
      add('counts', f"bool_perm_freq of {n} base={base} labelled", labelled(n, base))
  add('refusal', 'bool_perm_freq refusals', counts_refuse())
  for keys in (['x', 'y'], ['y', 'x'], ['x', 'y', 'z'], ['z', 'x', 'y']):
    for k in keys:
      for n in (0, 1, 2, 3, 5):
        for pdf in (False, True):
          add('conditional', f"CondCov.interp {k} of {','.join(keys)} {{{n}}} pdf={pdf}",
              conditional(keys, k, n, pdf))
  add('refusal', 'CondCov refusals', conditional_refuse())
  for k in 'xyz':
    for form in ('dict', 'kwds', 'args'):
      add('conditional', f"sample_cond_cov {k} by {form}", sampler(k, form))
  for i, (fname, arg, want) in enumerate(types()):
    add('types', f"{fname} case {i}", typing(i))
  for i in range(len(VT)):
    add('types', f"eval_vtype case {VT[i][0]!r}", vtype_of(i))
  for i in range(len(RT)):
    add('types', f"revtype {RT[i][0]} to {RT[i][1]}", retype(i))
  for n in (1, 2, 3, 4, 0, -1, -3):
    for ex0, ex1 in itertools.product((False, True), repeat=2):
      for sign in (False, True):
        add('grid', f"uniform {n} exclude {ex0},{ex1} {'positional' if sign else 'keywords'}",
            grid(n, ex0, ex1, sign))
  add('named', 'NamedDict', named())
  for k in ('list', 'tuple'):
    add('named', f"iterdict of {k}", transposed(k))
  for form in ('name', 'symbol'):
    add('named', f"Icon by {form}", icon(form))
  for form in ('plain', 'variables', 'remap', 'refused'):
    add('named', f"parse_as_str_dict {form}", as_names(form))
  return out
