"""Abstract values of the interpreter (everything else is a native constant)."""
from . import terms as tm


class AbsExc(Exception):
  """ An exception raised by the analysed program. """
  def __init__(self, etype, msg='', site=None, inst=None):
    Exception.__init__(self, f"{etype}: {msg}")
    self.etype, self.msg, self.site, self.inst = etype, msg, site, inst


class Undecided(Exception):
  """ The analysis cannot go on along this path. """


class ReturnEx(Exception):
  def __init__(self, value, node=None):
    self.value, self.node = value, node


class BreakEx(Exception):
  pass


class ContinueEx(Exception):
  pass


class Unk:
  """ Top: any value. """
  def __init__(self, why):
    self.why = why

  def __repr__(self):
    return f"Unk<{self.why}>"


class Lib:
  """ A dotted library object: numpy.sum, collections.namedtuple, ... """
  __slots__ = ('path',)
  pool = {}

  def __new__(cls, path):
    o = cls.pool.get(path)
    if o is None:
      o = object.__new__(cls)
      o.path = path
      cls.pool[path] = o
    return o

  def __repr__(self):
    return f"Lib<{self.path}>"


class DType:
  ALIAS = {'float': 'float64', 'int': 'int64', 'S': 'S0', 'bool': 'bool', 'object': 'object'}

  def __init__(self, name):
    name = name.lstrip('|')
    self.name = self.ALIAS.get(name, name)

  @property
  def family(self):
    n = self.name
    for f in ('uint', 'int', 'float', 'bool', 'complex', 'object', 'S', 'U'):
      if n.startswith(f):
        return f
    return n

  def __eq__(self, o):
    if isinstance(o, DType):
      return self.name == o.name
    if o is float:
      return self.name == 'float64'
    if o is int:
      return self.name == 'int64'
    if o is bool:
      return self.name == 'bool'
    if isinstance(o, str):
      return self.name == self.ALIAS.get(o.lstrip('|'), o.lstrip('|'))
    return False

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return f"dtype({self.name})"


class Num:
  """ Abstract number or array: canonical element term, one axis label (or None
  for a broadcast axis of length one) per dimension. """
  def __init__(self, t, axes=(), kind=None, dtype='float', base=None):
    self.t = t
    self.axes = tuple(axes)
    self.kind = kind or ('arr' if self.axes else 'float')
    self.dtype = dtype
    self.base = base
    self.mask = None     # boolean tensor this is a selection by
    self.cond = None     # (op, T) for boolean tensors
    self.lin = None      # linspace record
    self.guard = False   # bounded away from zero
    self.empty = False

  @property
  def ndim(self):
    return len(self.axes)

  def root(self):
    r = self
    while r.base is not None:
      r = r.base
    return r

  def __repr__(self):
    return f"Num<{self.t.key} axes={self.axes} {self.kind}/{self.dtype}>"


class SArr:
  """ One-dimensional array with explicitly known elements. """
  def __init__(self, items, dtype='float', base=None):
    self.items = list(items)
    self.dtype = dtype
    self.base = base

  def root(self):
    r = self
    while r.base is not None:
      r = r.base
    return r

  def __repr__(self):
    return f"SArr{self.items}"


class NArr:
  """ Array of known shape (two dimensions or more) with explicit elements. """
  def __init__(self, shape, items, dtype='float', base=None):
    self.shape = tuple(shape)
    self.items = list(items)
    self.dtype = dtype
    self.base = base

  def root(self):
    r = self
    while r.base is not None:
      r = r.base
    return r

  def __repr__(self):
    return f"NArr{self.shape}{self.items}"


class Cplx:
  """ Abstract complex scalar. """
  def __init__(self, re, im):
    self.re, self.im = re, im   # T, T

  def __repr__(self):
    return f"Cplx<{self.re.key},{self.im.key}>"


def hkey(v):
  """ Hash key consistent with ==, for sets and dictionary keys """
  if isinstance(v, Num):
    c = v.t.const()
    if c is not None and not v.axes:
      return ('c', c)
    return ('T', v.t.key, v.axes)
  if isinstance(v, bool) or isinstance(v, (int, float)):
    f = tm.frac(v)
    return ('c', f) if f is not None else ('v', repr(v))
  if isinstance(v, Cplx):
    return ('C', v.re.key, v.im.key)
  if isinstance(v, ASet):
    return ('fs', frozenset(v.d))
  if isinstance(v, tuple):
    return ('t',) + tuple(hkey(x) for x in v)
  try:
    hash(v)
    return ('v', v)
  except TypeError:
    return ('id', id(v))


class ASet:
  """ Set whose iteration order is a parameter of the analysis (ASet.order). """
  order = 'fwd'

  def __init__(self, items=(), frozen=False):
    self.d = {}
    self.frozen = frozen
    for x in items:
      self.d.setdefault(hkey(x), x)

  def __iter__(self):
    vals = list(self.d.values())
    # canonical order independent of insertion, then the analysed permutation
    vals.sort(key=lambda v: repr(hkey(v)) if not isinstance(v, Num) else v.t.key)
    if ASet.order == 'rev':
      vals.reverse()
    elif ASet.order == 'rot' and len(vals) > 2:
      vals = vals[1:] + vals[:1]
    return iter(vals)

  def __len__(self):
    return len(self.d)

  def __contains__(self, x):
    return hkey(x) in self.d

  def __eq__(self, o):
    return isinstance(o, ASet) and set(self.d) == set(o.d)

  def __hash__(self):
    return hash(frozenset(self.d))

  def __repr__(self):
    return 'ASet{' + ','.join(sorted(repr(v) for v in self.d.values())) + '}'


class Func:
  def __init__(self, node, module, env, defaults, kwdefaults, qual, cls=None):
    self.node, self.module, self.env = node, module, env
    self.defaults, self.kwdefaults = defaults, kwdefaults
    self.qual, self.cls = qual, cls
    self.attrs = {}
    self.is_gen = None

  @property
  def name(self):
    return getattr(self.node, 'name', '<lambda>')

  def __repr__(self):
    return f"Func<{self.qual}>"


class Bound:
  def __init__(self, fn, self_):
    self.fn, self.self_ = fn, self_

  def __repr__(self):
    return f"Bound<{self.fn}>"


class NMeth:
  """ Native method of a builtin container or abstract value. """
  def __init__(self, obj, name):
    self.obj, self.name = obj, name

  def __repr__(self):
    return f"NMeth<{self.name}>"


class Builtin:
  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return f"Builtin<{self.name}>"


class Prop:
  def __init__(self, fget=None, fset=None, fdel=None):
    self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM:
  def __init__(self, fn):
    self.fn = fn


class ClassM:
  def __init__(self, fn):
    self.fn = fn


class Cls:
  def __init__(self, name, bases, attrs, module):
    self.name, self.bases, self.attrs, self.module = name, bases, attrs, module
    self.mro = c3(self)

  def __repr__(self):
    return f"Cls<{self.name}>"

  def lookup(self, name):
    for c in self.mro:
      if isinstance(c, Cls) and name in c.attrs:
        return c.attrs[name], c
    return None, None

  def native(self):
    for c in self.mro:
      if isinstance(c, type) and c is not object:
        return c
    return None

  def libs(self):
    return [c for c in self.mro if isinstance(c, Lib)]


def c3(cls):
  def mro_of(b):
    if isinstance(b, Cls):
      return list(b.mro)
    return [b] if b is object else [b, object]
  seqs = [mro_of(b) for b in cls.bases] + [list(cls.bases)]
  out = [cls]
  seqs = [s for s in seqs if s]
  while seqs:
    for s in seqs:
      h = s[0]
      if not any(h in x[1:] for x in seqs):
        break
    else:
      h = seqs[0][0]
    out.append(h)
    seqs = [[y for y in x if y is not h] for x in seqs]
    seqs = [s for s in seqs if s]
  return out


class Inst:
  count = 0

  def __init__(self, cls):
    self.cls = cls
    self.attrs = {}
    nat = cls.native()
    self.payload = None
    if nat is not None:
      import collections
      if issubclass(nat, dict):
        self.payload = collections.OrderedDict()
      elif nat in (list,):
        self.payload = []
    Inst.count += 1
    self.n = Inst.count

  def __repr__(self):
    return f"Inst<{self.cls.name}>"


class NTCls:
  def __init__(self, name, fields, defaults=()):
    self.name, self.fields = name, tuple(fields)
    self.defaults = tuple(defaults)

  def __repr__(self):
    return f"NTCls<{self.name}>"


class NT:
  def __init__(self, cls, vals):
    self.cls, self.vals = cls, list(vals)

  def __repr__(self):
    return f"{self.cls.name}({', '.join(f'{f}={v!r}' for f, v in zip(self.cls.fields, self.vals))})"


class AbsFn:
  """ A callable supplied from outside the package, known only by name. """
  def __init__(self, name, fn, attrs=None):
    self.name, self.fn = name, fn
    self.attrs = attrs or {}

  def __repr__(self):
    return f"AbsFn<{self.name}>"


class Partial:
  def __init__(self, fn, args, kwds):
    self.fn, self.args, self.kwds = fn, args, kwds


class Gen:
  """ Generator object: produces abstract values through a native iterator. """
  def __init__(self, it, env=None):
    self.it, self.env = it, env


class Opq:
  """ Opaque library object identified by a term key; attribute access and calls
  give further opaque objects. """
  def __init__(self, key, kind=None):
    self.key, self.kind = key, kind

  def __repr__(self):
    return f"Opq<{self.key}>"

  def __eq__(self, o):
    return isinstance(o, Opq) and o.key == self.key

  def __hash__(self):
    return hash(self.key)


class SuperV:
  def __init__(self, cls, self_):
    self.cls, self.self_ = cls, self_


class Slice:
  pass
