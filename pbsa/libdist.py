""" Models of distribution objects: the functions of the stubs in scipy__stats and
sympy__stats, small dense linear algebra, inversion and differentiation of terms. """
from fractions import Fraction

from . import terms as tm
from .terms import Atom, T
from .values import Num, SArr, NArr, Opq, Unk, Inst
from .libsym import SymE, symatom

INVERSES = {'ndtr': 'ndtri', 'ndtri': 'ndtr', 'cauchyc': 'cauchyi', 'cauchyi': 'cauchyc'}
SIGNS = {'phi': '+', 'ndtr': '+', 'cauchyd': '+', 'cauchyc': '+', 'poissond': '+', 'poissonc': '+',
         'poissoni': '+0', 'mvn': '+', 'mvncdf': '+'}
ODD = {'ndtri', 'cauchyi'}


def fn_t(name, ts):
  """ application of a special function to terms """
  t = ts[0]
  if len(ts) == 1:
    inv = INVERSES.get(name)
    if inv and len(t.m) == 1:
      mono, c = t.m[0]
      if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == inv:
        return mono[0][0].args[0]
    key = t.key
    if name in ('ndtr', 'cauchyc'):
      if key == tm.const_t(float('inf')).key:
        return tm.ONE
      if key == tm.const_t(float('-inf')).key:
        return tm.ZERO
      if t.const() == 0:
        return tm.const_t(0.5)
    if name in ('ndtri', 'cauchyi') and t.const() == Fraction(1, 2):
      return tm.ZERO
    if name in ('phi', 'cauchyd') and len(t.m) and t.m[0][1] < 0:
      t = -t       # even functions
  return tm.func(name, (t,) + tuple(ts[1:]), SIGNS.get(name))


for _name in list(SIGNS) + list(INVERSES):
  tm.SPECIAL[_name] = fn_t


class Stack(Opq):
  """ arrays stacked along a new last axis """
  def __init__(self, items):
    self.items = items
    Opq.__init__(self, f"stack({len(items)})", 'numpy.ndarray')


class DistMixin:
  def lib__abs_fn(self, name, *xs):
    if any(isinstance(x, Unk) for x in xs):
      return self.I.unk(name)
    xs = [self.np_array(x) if isinstance(x, (list, tuple)) else x for x in xs]
    if any(isinstance(x, (SArr, NArr)) for x in xs):
      return self.ndmap(lambda *a: self.lib__abs_fn(name, *a), *xs, dtype='float')
    nums = [self.to_num(x) for x in xs]
    if any(n is None for n in nums):
      if any(isinstance(x, (str, dict)) or x is None for x in xs):
        raise self.I.exc('TypeError', 'unsupported operand type for distribution function')
      return self.I.unk(name)
    axed = [n for n in nums if n.axes]
    axes = self.broadcast(*axed) if axed else ()
    return self.fold(Num(fn_t(name, [n.t for n in nums]), axes, 'arr' if axes else 'float', 'float'))

  def lib__abs_sfn(self, name, *xs):
    ts = [self.symt(x) for x in xs]
    if any(t is None for t in ts):
      return self.I.unk(name)
    return SymE(fn_t(name, ts), self.symsof(*xs))

  def lib__abs_key(self, x):
    t = self.symt(x)
    return t.key if t is not None else self.okey(x)

  def lib__abs_unknown(self, why):
    return self.I.unk(why)

  def lib__abs_rand(self, label, size=None, *args):
    if size is not None and self.I.as_int(size) == 1 and not isinstance(size, (tuple, list)):
      size = None     # scipy draws a scalar
    return self.rng(label + ''.join(':' + (a if isinstance(a, str) else self.okey(a)) for a in args), [], size)

  def lib__abs_mvn(self, x, mean, cov):
    return self.mvn('mvn', x, mean, cov)

  def lib__abs_mvncdf(self, x, mean, cov):
    return self.mvn('mvncdf', x, mean, cov)

  def mvn(self, name, x, mean, cov):
    """ uninterpreted in the values, but standardised: it sees the values only
    through their distances from the means """
    I = self.I
    mean = self.np_array(mean) if isinstance(mean, (list, tuple)) else mean
    cov = self.np_array(cov) if isinstance(cov, (list, tuple)) else cov
    if not isinstance(mean, SArr) or not isinstance(cov, NArr) or len(cov.shape) != 2:
      return I.unk('multivariate parameters')
    n = len(mean.items)
    if cov.shape != (n, n):
      raise I.exc('ValueError', 'mean and covariance incommensurate')
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, Stack):
      items = x.items
    elif isinstance(x, SArr):
      items = x.items
      if n == 1 and len(items) != 1:
        return SArr([self.mvn(name, SArr([v]), mean, cov) for v in items], 'float')
    elif isinstance(x, NArr):
      k = x.shape[-1]
      if k != n:
        raise I.exc('ValueError', 'operands could not be broadcast together')
      rows = [SArr(x.items[i:i + k]) for i in range(0, len(x.items), k)]
      vals = [self.mvn(name, r, mean, cov) for r in rows]
      shape = tuple(s for s in x.shape[:-1] if s != 1)     # scipy squeezes
      return self.mk(shape, vals, 'float') if shape else vals[0]
    else:
      return I.unk('multivariate values')
    if len(items) != n:
      raise I.exc('ValueError', 'operands could not be broadcast together')
    nums = [self.to_num(v) for v in items]
    ms = [self.numt(v) for v in mean.items]
    cs = [self.numt(v) for v in cov.items]
    if any(v is None for v in nums + ms + cs):
      return I.unk('multivariate values')
    t = tm.func(name, tuple(v.t - m for v, m in zip(nums, ms)) + tuple(cs), '+')
    axed = [v for v in nums if v.axes]
    axes = self.broadcast(*axed) if axed else ()
    axes = tuple(a for a in axes if a is not None)           # scipy squeezes
    return Num(t, axes, 'arr' if axes else 'float', 'float')

  # ------------------------------------------------------------ arrays
  def np_broadcast_arrays(self, *xs, **k):
    xs = [self.np_array(x) if isinstance(x, (list, tuple)) else x for x in xs]
    if any(isinstance(x, Unk) for x in xs):
      return self.I.unk('broadcast_arrays')
    if any(isinstance(x, (SArr, NArr)) for x in xs):
      ps = [self.nd(x) for x in xs]
      if any(p is None for p in ps):
        return self.I.unk('broadcast_arrays')
      out = self.bshape(*[p[0] for p in ps])
      return tuple(self.mk(out, self.bget(p[0], p[1], out), getattr(x, 'dtype', 'float'))
                   for p, x in zip(ps, xs))
    nums = [self.to_num(x) for x in xs]
    if any(n is None for n in nums):
      return self.I.unk('broadcast_arrays')
    axed = [n for n in nums if n.axes]
    if not axed:
      return tuple(Num(n.t, (), 'arr', n.dtype) for n in nums)
    axes = self.broadcast(*axed)
    return tuple(Num(n.t, axes, 'arr', n.dtype) for n in nums)

  nd_broadcast_arrays = np_broadcast_arrays

  def np_stack(self, xs, axis=0, **k):
    xs = list(self.I.iterate(xs))
    ax = self.I.as_int(axis)
    if any(isinstance(x, Unk) for x in xs) or ax is None or not xs:
      return self.I.unk('stack')
    if all(self.nd(x) is not None for x in xs):
      ps = [self.nd(x) for x in xs]
      sh = ps[0][0]
      if any(p[0] != sh for p in ps):
        raise self.I.exc('ValueError', 'all input arrays must have the same shape')
      if ax % (len(sh) + 1) == len(sh):
        return self.mk(tuple(sh) + (len(xs),), [v for row in zip(*[p[1] for p in ps]) for v in row], 'float')
      if ax == 0:
        return self.mk((len(xs),) + tuple(sh), [v for p in ps for v in p[1]], 'float')
      return self.I.unk('stack axis')
    nums = [self.to_num(x) for x in xs]
    if any(n is None for n in nums):
      return self.I.unk('stack')
    if any(n.axes != nums[0].axes for n in nums):
      raise self.I.exc('ValueError', 'all input arrays must have the same shape')
    if ax == -1 or ax == len(nums[0].axes):
      return Stack(nums)
    return self.I.unk('stack axis')

  def np_delete(self, x, idx, axis=None):
    if isinstance(x, NArr) and axis is not None and len(x.shape) == 2:
      i, ax = self.I.as_int(idx), self.I.as_int(axis)
      if i is None or ax is None:
        return self.I.unk('delete')
      n = x.shape[ax]
      if not -n <= i < n:
        raise self.I.exc('IndexError', f"index {i} is out of bounds for axis {ax} with size {n}")
      i %= n
      r, c = x.shape
      items = [v for j, v in enumerate(x.items) if (j // c if ax % 2 == 0 else j % c) != i]
      shape = (r - 1, c) if ax % 2 == 0 else (r, c - 1)
      return NArr(shape, items, x.dtype)
    if isinstance(x, SArr) and axis in (None, 0, -1):
      i = self.I.as_int(idx)
      ids = [i] if i is not None else [self.I.as_int(v) for v in self.I.iterate(idx)]
      if None in ids:
        return self.I.unk('delete')
      n = len(x.items)
      if any(not -n <= j < n for j in ids):
        raise self.I.exc('IndexError', 'index out of bounds in delete')
      ids = {j % n for j in ids}
      return SArr([v for j, v in enumerate(x.items) if j not in ids], x.dtype)
    return self.I.unk('delete')

  def nd_linalg_inv(self, x):
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if not isinstance(x, NArr) or len(x.shape) != 2 or x.shape[0] != x.shape[1]:
      if isinstance(x, SArr):
        raise self.I.exc('LinAlgError', 'array must be at least two-dimensional')
      return self.I.unk('inverse')
    n = x.shape[0]
    ts = [self.numt(v) for v in x.items]
    if any(t is None for t in ts) or n > 3:
      return self.I.unk('inverse')
    if n == 0:
      return NArr((0, 0), [], 'float')

    def minor(i, j):
      rows = [r for r in range(n) if r != i]
      cols = [c for c in range(n) if c != j]
      return det([[ts[r * n + c] for c in cols] for r in rows])

    def det(m):
      if not m:
        return tm.ONE
      if len(m) == 1:
        return m[0][0]
      if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
      return sum((m[0][j] * det([[r[k] for k in range(3) if k != j] for r in m[1:]]) *
                  tm.const_t((-1) ** j) for j in range(3)), tm.ZERO)
    d = det([ts[i * n:(i + 1) * n] for i in range(n)])
    if d.const() == 0:
      raise self.I.exc('LinAlgError', 'Singular matrix')
    out = []
    for i in range(n):
      for j in range(n):
        out.append(self.scalar(minor(j, i) * tm.const_t((-1) ** (i + j)) / d))
    return NArr((n, n), out, 'float')

  def nd_linalg_cholesky(self, x, **k):
    """ lower triangular root; reads only the lower triangle """
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, SArr):
      raise self.I.exc('LinAlgError', 'array must be at least two-dimensional')
    if not isinstance(x, NArr) or len(x.shape) != 2 or k:
      return self.I.unk('cholesky')
    n = x.shape[0]
    if x.shape[1] != n:
      raise self.I.exc('LinAlgError', 'Last 2 dimensions of the array must be square')
    a = [self.numt(v) for v in x.items]
    if any(t is None for t in a):
      return self.I.unk('cholesky')
    L = [[tm.ZERO] * n for _ in range(n)]
    for i in range(n):
      for j in range(i + 1):
        t = a[i * n + j]
        for m in range(j):
          t = t - L[i][m] * L[j][m]
        if i == j:
          c = t.const()
          if c is not None and c <= 0:
            raise self.I.exc('LinAlgError', 'Matrix is not positive definite')
          r = self.to_num(self.np_sqrt(self.scalar(t)))
          if r is None:
            return self.I.unk('cholesky')
          L[i][j] = r.t
        else:
          L[i][j] = t / L[j][j]
    return NArr((n, n), [self.scalar(L[i][j]) for i in range(n) for j in range(n)], 'float')

  # ------------------------------------------------------------ symbols
  def lib_sympy_Derivative(self, expr, *syms):
    t = self.symt(expr)
    if t is None or len(syms) != 1 or not isinstance(syms[0], SymE):
      return self.I.unk('Derivative')
    name = list(syms[0].syms)[0]
    d = deriv(t, symatom(name).key)
    if d is None:
      return self.I.unk('Derivative')
    syms = {n: s for n, s in self.symsof(expr).items() if any(a.op == 'S:' + n for a in d.atoms())}
    return SymE(d, syms)

  def lib_sympy_diff(self, expr, *syms):
    return self.lib_sympy_Derivative(expr, *syms)

  def lib_sympy_solve(self, eqn, sym, **k):
    t = self.symt(eqn)
    if t is None or not isinstance(sym, SymE):
      return self.I.unk('solve')
    name = list(sym.syms)[0]
    sols = solve_t(t, symatom(name).key)
    if sols is None:
      return self.I.unk('solve')
    allsyms = self.symsof(eqn)
    out = []
    for s in sols:
      out.append(SymE(s, {n: v for n, v in allsyms.items() if any(a.op == 'S:' + n for a in s.atoms())}))
    return out


def has(t, key):
  return any(a.key == key for a in t.atoms())


def deriv(t, key):
  out = tm.ZERO
  for mono, c in t.m:
    for i, (a, e) in enumerate(mono):
      da = datom(a, key)
      if da is None:
        return None
      if not da.m:
        continue
      rest = tm.const_t(c)
      for j, (b, f) in enumerate(mono):
        rest = rest * tm.atom_t(b).power(Fraction(f) - (1 if i == j else 0))
      out = out + rest * tm.const_t(e) * da
  return out


def datom(a, key):
  if a.key == key:
    return tm.ONE
  if not has(tm.atom_t(a), key):
    return tm.ZERO
  ts = [x for x in a.args if isinstance(x, T)]
  if len(ts) != 1:
    return None
  di = deriv(ts[0], key)
  if di is None:
    return None
  if a.op == 'exp':
    return tm.atom_t(a) * di
  if a.op == 'log':
    return di / ts[0]
  if a.op == 'poly':
    return di
  if a.op == 'ndtr':
    return fn_t('phi', [ts[0]]) * di
  return None


def solve_t(t, key):
  """ t = 0 for the atom: isolate a single occurrence and peel functions off it """
  rest, coef, atom, exp = tm.ZERO, None, None, None
  for mono, c in t.m:
    inm = [(a, e) for a, e in mono if has(tm.atom_t(a), key)]
    outm = tm.const_t(c)
    for a, e in mono:
      if (a, e) not in inm:
        outm = outm * tm.atom_t(a).power(Fraction(e))
    if not inm:
      rest = rest + outm
      continue
    if len(inm) != 1:
      return None
    a, e = inm[0]
    if atom is not None and (atom.key != a.key or exp != e):
      return None
    atom, exp = a, Fraction(e)
    coef = outm if coef is None else coef + outm
  if atom is None:
    return []
  val = -rest / coef
  if exp.denominator == 1 and exp.numerator % 2 == 0:
    roots = [val.power(1 / exp), -val.power(1 / exp)]
    if atom.op == 'exp':
      roots = roots[:1]     # over the reals an exponential is positive
  else:
    roots = [val.power(1 / exp)]
  out = []
  for v in roots:
    if atom.key == key:
      out.append(v)
      continue
    ts = [x for x in atom.args if isinstance(x, T)]
    if len(ts) != 1:
      return None
    if atom.op == 'exp':
      w = tm.log_t(v)
    elif atom.op == 'log':
      w = tm.exp_t(v)
    elif atom.op == 'poly':
      w = v
    elif atom.op in INVERSES:
      w = fn_t(INVERSES[atom.op], [v])
    else:
      return None
    sub = solve_t(ts[0] - w, key)
    if sub is None:
      return None
    out += sub
  return out
