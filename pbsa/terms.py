"""Value-numbering domain: real-valued expressions in a canonical form.

A term is a Laurent polynomial over interned atoms, coefficients exact
rationals.  Atoms carry the set of axis labels their value varies along (named
tensor domain) and a sign facet.  The algebra is that of the ideal reals, with
exp/log cancelled against each other: two expressions that are equal by
associativity, commutativity, distributivity, exp/log laws or the order of
nested sums get the same canonical key, however they are written.  No solver is
involved; equality is key equality.
"""
from fractions import Fraction
import math


class Atom:
  __slots__ = ('op', 'args', 'labels', 'sign', 'key', 'opaque', 'integer')
  _pool = {}

  def __new__(cls, op, args=(), labels=frozenset(), sign=None, opaque=False,
              integer=False):
    key = op if not args else op + '(' + ','.join(_k(a) for a in args) + ')'
    key = key + ('[' + ','.join(sorted(labels)) + ']' if labels and not args else '')
    at = cls._pool.get(key)
    if at is not None:
      return at
    at = object.__new__(cls)
    at.op, at.args, at.labels = op, args, frozenset(labels)
    at.sign, at.key, at.integer = sign, key, integer
    at.opaque = opaque or any(getattr(a, 'opaque', False) for a in args)
    cls._pool[key] = at
    return at

  def __repr__(self):
    return self.key

  def __lt__(self, other):
    return self.key < other.key


def _k(a):
  if isinstance(a, (T, Atom)):
    return a.key
  if isinstance(a, (frozenset, set)):
    return '{' + ','.join(sorted(_k(x) for x in a)) + '}'
  if isinstance(a, (tuple, list)):
    return '(' + ','.join(_k(x) for x in a) + ')'
  if isinstance(a, dict):
    return '{' + ','.join(sorted(f"{k}:{_k(v)}" for k, v in a.items())) + '}'
  return str(a)


def frac(x):
  if isinstance(x, Fraction):
    return x
  if isinstance(x, bool):
    return Fraction(int(x))
  if isinstance(x, int):
    return Fraction(x)
  if isinstance(x, float):
    if math.isinf(x) or math.isnan(x):
      return None
    f = Fraction(x)
    if f.denominator > 1000:
      # a quotient of small integers up to rounding stands for that quotient
      g = f.limit_denominator(1000)
      if abs(float(g) - x) <= 4 * math.ulp(x):
        return g
    return f
  return None


_PRIMES = {}


def primes(n):
  """ prime factors of n as (prime, power), None when too big to factor """
  if n not in _PRIMES:
    out, m, p = [], n, 2
    while p * p <= m and p < 5000:
      k = 0
      while m % p == 0:
        m //= p
        k += 1
      if k:
        out.append((p, k))
      p += 1
    if m > 1:
      out.append((m, 1))
    _PRIMES[n] = tuple(out)
  return _PRIMES[n]


class T:
  """ Immutable canonical polynomial: tuple of (mono, coef); mono a tuple of
  (Atom, exponent). """
  __slots__ = ('m', 'key', 'labels', 'opaque')

  def __init__(self, d):
    items = [(mono, c) for mono, c in d.items() if c != 0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    self.m = tuple(items)
    labels = set()
    opaque = False
    parts = []
    for mono, c in self.m:
      for a, _ in mono:
        labels |= a.labels
        opaque = opaque or a.opaque
      parts.append((f"{_cs(c)}*" if c != 1 or not mono else '') + _mkey(mono)
                   if mono else _cs(c))
    self.labels = frozenset(labels)
    self.opaque = opaque
    self.key = '+'.join(parts) if parts else '0'

  def __repr__(self):
    return self.key

  def __eq__(self, o):
    return isinstance(o, T) and self.key == o.key

  def __hash__(self):
    return hash(self.key)

  # -- queries
  def const(self):
    if not self.m:
      return Fraction(0)
    if len(self.m) == 1 and not self.m[0][0]:
      return self.m[0][1]
    return None

  def is_mono(self):
    return len(self.m) == 1

  def atoms(self):
    out = set()
    todo = [self]
    seen = set()
    while todo:
      t = todo.pop()
      if isinstance(t, T):
        for mono, _ in t.m:
          for a, _e in mono:
            todo.append(a)
      elif isinstance(t, Atom):
        if t.key in seen:
          continue
        seen.add(t.key)
        out.add(t)
        for x in t.args:
          todo.append(x)
      elif isinstance(t, (tuple, list, frozenset, set)):
        todo.extend(t)
    return out

  def sign(self):
    """ '+', '-', '0' or None; '+0' when only non-negativity is known """
    if not self.m:
      return '0'
    signs = set()
    for mono, c in self.m:
      s = 1 if c > 0 else -1
      weak = False
      for a, e in mono:
        asign = a.sign
        if asign == '+':
          continue
        if asign == '+0' and e > 0:
          weak = True
          continue
        if isinstance(e, Fraction) and e.denominator == 1 and e.numerator % 2 == 0:
          weak = True
          continue
        if asign == '-' and isinstance(e, Fraction) and e.denominator == 1:
          s = -s
          continue
        return self.nsign()
      signs.add((s, weak))
    pos = any(s > 0 for s, _ in signs)
    neg = any(s < 0 for s, _ in signs)
    if pos and neg:
      return self.cleared_sign() or self.unit_sign() or self.nsign()
    strict = any(not w for _, w in signs)
    if pos:
      return '+' if strict else '+0'
    return '-' if strict else '-0'

  def cleared_sign(self):
    """ the sign after multiplying out the positive denominators """
    den = {}
    for mono, _ in self.m:
      for a, e in mono:
        if a.sign == '+' and e < 0:
          den[a] = min(e, den.get(a, e))
    if not den:
      return None
    t = self * T({tuple(sorted(((a, -e) for a, e in den.items()), key=lambda x: x[0].key)): Fraction(1)})
    return t.sign() if not any(e < 0 for mono, _ in t.m for _, e in mono) else None

  def unit_sign(self):
    """ the sign at the ends of the unit deviates it is linear in """
    unit = [a for mono, _ in self.m for a, e in mono if a.op == 'rand.unit']
    if not unit or any(e != 1 for mono, _ in self.m for a, e in mono if a.op == 'rand.unit'):
      return None
    u = unit[0]
    out = []
    for end in (0, 1):
      d = {}
      for mono, c in self.m:
        rest = tuple(x for x in mono if x[0] != u)
        if len(rest) != len(mono) and not end:
          continue
        d[rest] = d.get(rest, Fraction(0)) + c
      out.append(T(d).sign())
    if all(s in ('+', '+0', '0') for s in out):
      return '+' if out == ['+', '+'] else '+0'
    if all(s in ('-', '-0', '0') for s in out):
      return '-' if out == ['-', '-'] else '-0'
    return None

  def nsign(self):
    v = numeric(self)
    if v is None or abs(v) < 1e-9:
      return None
    return '+' if v > 0 else '-'

  # -- arithmetic
  def __add__(self, o):
    d = dict(self.m)
    for mono, c in o.m:
      d[mono] = d.get(mono, Fraction(0)) + c
    return T(d)

  def __neg__(self):
    return T({mono: -c for mono, c in self.m})

  def __sub__(self, o):
    return self + (-o)

  def __mul__(self, o):
    d = {}
    for m1, c1 in self.m:
      for m2, c2 in o.m:
        mono = _mmul(m1, m2)
        c = c1 * c2
        d[mono] = d.get(mono, Fraction(0)) + c
    out = T(d)
    return _expand_poly_atoms(out)

  def inv(self):
    if not self.m:
      return atom_t(Atom('inv0', (), opaque=True))
    if self.is_mono():
      mono, c = self.m[0]
      return T({tuple((a, -e) for a, e in mono): 1 / c})
    # normalise leading coefficient so that scalar multiples share the atom
    c = self.m[0][1]
    base = T({m: k / c for m, k in self.m})
    a = Atom('poly', (base,), base.labels, base.sign() if base.sign() in ('+', '-') else None)
    return T({((a, Fraction(-1)),): 1 / c})

  def __truediv__(self, o):
    if self.key == o.key and self.m:
      return ONE
    return self * o.inv()

  def power(self, e):
    """ e: Fraction """
    if e == 0:
      return ONE
    if e == 1:
      return self
    if e.denominator == 1 and not self.is_mono():
      n = int(e)
      if 0 < n <= 4:
        out = self
        for _ in range(n - 1):
          out = out * self
        return out
      if -4 <= n < 0:
        return self.power(Fraction(-n)).inv()
    if self.is_mono():
      mono, c = self.m[0]
      if e.denominator == 1:
        return T({tuple((a, x * e) for a, x in mono): c ** int(e)})
      if c == 1:
        return T({tuple((a, x * e) for a, x in mono): c})
      ca = Atom('cpow', (str(c), str(e)), sign='+' if c > 0 else None)
      return T({tuple(sorted([(a, x * e) for a, x in mono] + [(ca, Fraction(1))])):
                Fraction(1)})
    a = Atom('poly', (self,), self.labels, self.sign() if self.sign() in ('+', '-') else None)
    return T({((a, e),): Fraction(1)})


def _cs(c):
  if c.denominator == 1:
    return str(c.numerator)
  if len(str(c)) > 24:
    return repr(float(c))
  return str(c)


def _mkey(mono):
  return '*'.join(a.key if e == 1 else f"{a.key}^{_cs(e) if isinstance(e, Fraction) else e}"
                  for a, e in mono)


def _mmul(m1, m2):
  d = {}
  for a, e in m1:
    d[a] = d.get(a, Fraction(0)) + e
  for a, e in m2:
    d[a] = d.get(a, Fraction(0)) + e
  return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].key))


def _expand_poly_atoms(t):
  """ poly(P)^n with n > 0 integer is expanded """
  for mono, c in t.m:
    for a, e in mono:
      if a.op == 'poly' and e.denominator == 1 and e > 0 and e <= 4:
        rest = T({tuple((b, x) for b, x in mono if b is not a): c})
        others = T({m: k for m, k in t.m if m != mono})
        base = a.args[0]
        acc = rest
        for _ in range(int(e)):
          acc = _rawmul(acc, base)
        return _expand_poly_atoms(acc + others)
  return t


def _rawmul(x, y):
  d = {}
  for m1, c1 in x.m:
    for m2, c2 in y.m:
      mono = _mmul(m1, m2)
      d[mono] = d.get(mono, Fraction(0)) + c1 * c2
  return T(d)


def atom_t(a):
  return T({((a, Fraction(1)),): Fraction(1)})


def const_t(x):
  f = frac(x)
  if f is None:
    if isinstance(x, float) and math.isinf(x):
      a = atom_t(Atom('inf', sign='+'))
      return a if x > 0 else -a
    if isinstance(x, float):
      return atom_t(Atom('nan'))
    raise TypeError(x)
  if f == 0:
    return T({})
  return T({(): f})


ZERO = T({})
ONE = const_t(1)


def sym(name, labels=(), sign=None, integer=False):
  if name == 'e' or sign is not None:
    name += {'+': '~+', '+0': '~0', '-': '~-', None: '~'}.get(sign, sign or '')
  return atom_t(Atom(name, (), frozenset(labels), sign, integer=integer))


def size_t(label):
  return atom_t(Atom('#' + label, (), sign='+', integer=True))


def opaque(name, args=(), labels=()):
  labs = set(labels)
  for a in args:
    if isinstance(a, T):
      labs |= a.labels
  return atom_t(Atom('?' + name, tuple(args), frozenset(labs), opaque=True))


def func(name, args, sign=None, labels=None, integer=False):
  """ Uninterpreted but understood function: congruent in its arguments """
  labs = set()
  if labels is None:
    for a in args:
      if isinstance(a, T):
        labs |= a.labels
  else:
    labs = set(labels)
  at = Atom(name, tuple(args), frozenset(labs), sign, integer=integer)
  return atom_t(at)


def _ndtri(p):
  import statistics
  return statistics.NormalDist().inv_cdf(p)


NUMERIC = {'phi': lambda x: math.exp(-x * x / 2) / math.sqrt(2 * math.pi),
           'ndtr': lambda x: 0.5 * math.erfc(-x / math.sqrt(2)), 'ndtri': _ndtri,
           'cauchyd': lambda x: 1 / (math.pi * (1 + x * x)),
           'cauchyc': lambda x: 0.5 + math.atan(x) / math.pi,
           'cauchyi': lambda p: math.tan(math.pi * (p - 0.5))}


def numeric(t):
  """ Value of a term without symbols, else None """
  out = 0.
  try:
    for mono, c in t.m:
      v = float(c)
      for a, e in mono:
        if a.op == 'logc':
          x = math.log(Fraction(a.args[0]))
        elif a.op == 'e':
          x = math.e
        elif a.op == 'cpow':
          x = float(Fraction(a.args[0])) ** float(Fraction(a.args[1]))
        elif a.op in ('exp', 'log', 'poly') and len(a.args) == 1 and isinstance(a.args[0], T):
          x = numeric(a.args[0])
          if x is None:
            return None
          x = math.exp(x) if a.op == 'exp' else math.log(x) if a.op == 'log' else x
        elif a.op in NUMERIC and len(a.args) == 1 and isinstance(a.args[0], T):
          x = numeric(a.args[0])
          if x is None:
            return None
          x = NUMERIC[a.op](x)
        else:
          return None
        v *= x ** float(e)
      out += v
  except (OverflowError, ValueError, ZeroDivisionError, ArithmeticError):
    return None
  return out


def probe(t, seed):
  """ value of a term with every uninterpreted atom replaced by an arbitrary number """
  import hashlib

  def arb(key, sign, integer=False):
    h = int.from_bytes(hashlib.sha256(f"{seed}|{key}".encode()).digest()[:6], 'big') / 2.0 ** 48
    v = 0.25 + 1.5 * h
    if integer:
      v = float(int(8 * h) + 1)
    return v if sign in ('+', '+0') else -v if sign in ('-', '-0') else v if h * 4096 % 2 < 1 else -v

  def arg(x):
    if isinstance(x, T):
      return f"{ev(x):.8g}"
    if isinstance(x, (tuple, list)):
      return '(' + ','.join(arg(y) for y in x) + ')'
    return _k(x)

  def at(a):
    one = len(a.args) == 1 and isinstance(a.args[0], T)
    if a.op == 'logc':
      return math.log(Fraction(a.args[0]))
    if a.op == 'e':
      return math.e
    if a.op == 'cpow':
      return float(Fraction(a.args[0])) ** float(Fraction(a.args[1]))
    if a.op == 'inf':
      raise ValueError
    if one and a.op in ('exp', 'log', 'poly'):
      x = ev(a.args[0])
      return math.exp(x) if a.op == 'exp' else math.log(x) if a.op == 'log' else x
    if one and a.op in NUMERIC:
      return NUMERIC[a.op](ev(a.args[0]))
    if a.op == 'rand.unit':
      return (arb(a.key, '+') - 0.25) / 1.5
    return arb(a.op + arg(a.args) + ','.join(sorted(a.labels)), a.sign, a.integer)

  def ev(x):
    out = 0.
    for mono, c in x.m:
      v = float(c)
      for a, e in mono:
        v *= at(a) ** float(e)
        if isinstance(v, complex):
          raise ValueError
      out += v
    return out
  try:
    return ev(t)
  except (OverflowError, ValueError, ZeroDivisionError, ArithmeticError):
    return None


def agree(a, b):
  """ True when two terms are identical: the same normal form, or the same value
  wherever probed; None when that cannot be told; False otherwise """
  if a.key == b.key:
    return True
  x, y = numeric(a), numeric(b)
  if x is not None and y is not None:
    return abs(x - y) <= 1e-9 * max(1., abs(y))
  if len(a.key) + len(b.key) < 20000:
    n = 0
    for seed in range(7):
      x, y = probe(a, seed), probe(b, seed)
      if x is None or y is None or max(abs(x), abs(y)) > 1e150:
        continue
      if abs(x - y) > 1e-7 * max(abs(x), abs(y), 1e-12):
        n = -1
        break
      n += 1
    if n >= 2:
      return True
  if a.opaque or b.opaque:
    return None
  return False


def log_t(t):
  c = t.const()
  if c is not None:
    if c == 1:
      return ZERO
    if c > 0:
      out = ZERO
      for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        if n > 10 ** 12:
          out = out + atom_t(Atom('logc', (str(n),))) * const_t(sg)
          continue
        for p, k in primes(n):
          out = out + atom_t(Atom('logc', (str(p),))) * const_t(sg * k)
      return out
    return opaque('log', (t,))
  if t.is_mono():
    mono, c = t.m[0]
    if c <= 0:
      return opaque('log', (t,))
    out = ZERO if c == 1 else log_t(const_t(c))
    for a, e in mono:
      if a.op == 'exp':
        la = a.args[0]
      elif a.op == 'poly':
        la = atom_t(Atom('log', (a.args[0],), a.labels))
      elif a.op == 'e':
        la = ONE
      elif a.op == 'cpow':
        la = log_t(const_t(Fraction(a.args[0]))) * const_t(Fraction(a.args[1]))
      else:
        la = atom_t(Atom('log', (atom_t(a),), a.labels))
      out = out + la * const_t(e)
    return out
  # normalise: log(c*P) = log c + log P with P having leading coefficient 1
  c = t.m[0][1]
  if c > 0 and c != 1:
    base = T({m: k / c for m, k in t.m})
    return log_t(const_t(c)) + atom_t(Atom('log', (base,), base.labels))
  return atom_t(Atom('log', (t,), t.labels))


def exp_t(t):
  out = ONE
  rest = ZERO
  for mono, c in t.m:
    if not mono:
      out = out * T({((Atom('e', sign='+'), c),): Fraction(1)})
    elif len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'log':
      out = out * mono[0][0].args[0].power(c)
    elif len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'logc':
      out = out * const_t(Fraction(mono[0][0].args[0])).power(c)
    else:
      m = T({mono: Fraction(1)})
      out = out * T({((Atom('exp', (m,), m.labels, '+'), c),): Fraction(1)})
  return out


def sum_t(t, label):
  """ Sum over the axis named label """
  if label not in t.labels:
    return t * size_t(label)
  out = ZERO
  for mono, c in t.m:
    inner = tuple((a, e) for a, e in mono if label in a.labels)
    outer = tuple((a, e) for a, e in mono if label not in a.labels)
    if not inner:
      out = out + T({outer: c}) * size_t(label)
      continue
    s = _sum_mono(inner, label)
    out = out + T({outer: c}) * s
  return out


def _sum_mono(inner, label):
  """ Nested sums are merged into one and split into the connected components of
  their factors: a normal form for iterated sums of products. """
  bound = {label}
  factors = []
  for i, (a, e) in enumerate(inner):
    if a.op == 'sum' and e == 1:
      free = set()
      for j, (b, _) in enumerate(inner):
        if j != i:
          free |= b.labels
          if b.op == 'sum':
            free |= b.args[0]
      if not (a.args[0] & free) and not (a.args[0] & bound):
        bound |= a.args[0]
        factors.extend(a.args[1].m[0][0])
        continue
    factors.append((a, e))
  merged = {}
  for a, e in factors:
    merged[a] = merged.get(a, Fraction(0)) + e
  todo = [(a, e) for a, e in merged.items() if e != 0]
  left = set(bound)
  out = ONE
  while todo:
    comp = [todo.pop(0)]
    labs = comp[0][0].labels & bound
    grown = True
    while grown:
      grown = False
      for x in list(todo):
        if x[0].labels & labs:
          comp.append(x)
          todo.remove(x)
          labs |= x[0].labels & bound
          grown = True
    mono = tuple(sorted(comp, key=lambda x: x[0].key))
    left -= labs
    out = out * (_mk_sum(labs, T({mono: Fraction(1)})) if labs else T({mono: Fraction(1)}))
  for l in left:
    out = out * size_t(l)
  return out


def _mk_sum(labels, body):
  sg = body.sign()
  return atom_t(Atom('sum', (frozenset(labels), body), body.labels - frozenset(labels),
                     sg if sg in ('+', '+0') else None))


def prod_t(t, label):
  """ Product over the axis named label """
  return exp_t(sum_t(log_t(t), label))


def subst(t, fn):
  """ Rebuild t replacing atoms: fn(atom) -> T or None (keep) """
  out = ZERO
  for mono, c in t.m:
    acc = const_t(c)
    for a, e in mono:
      r = fn(a)
      if r is None:
        r = _subst_atom(a, fn)
      acc = acc * r.power(e if isinstance(e, Fraction) else Fraction(e))
    out = out + acc
  return out


SPECIAL = {}   # rebuilding of special functions, by name


def _subst_atom(a, fn):
  if not a.args:
    return atom_t(a)
  new = []
  changed = False
  for x in a.args:
    if isinstance(x, T):
      y = subst(x, fn)
      changed = changed or y.key != x.key
      new.append(y)
    else:
      new.append(x)
  if not changed:
    return atom_t(a)
  if a.op == 'exp':
    return exp_t(new[0])
  if a.op == 'log':
    return log_t(new[0])
  if a.op == 'poly':
    return new[0]
  if a.op == 'sum':
    out = new[1]
    for lab in sorted(a.args[0]):
      out = sum_t(out, lab)
    return out
  if a.op in SPECIAL:
    return SPECIAL[a.op](a.op, new)
  labs = set()
  for x in new:
    if isinstance(x, T):
      labs |= x.labels
  return atom_t(Atom(a.op, tuple(new), frozenset(labs), a.sign, a.opaque))
