"""Arrays of known shape: numpy's indexing, broadcasting and reductions applied
elementwise to abstract elements (row-major order)."""
import itertools

from . import terms as tm
from .values import Num, SArr, NArr, Unk, DType, NT, Cplx
from .libnp import Models


def size(shape):
  n = 1
  for s in shape:
    n *= s
  return n


def strides(shape):
  out, n = [], 1
  for s in reversed(shape):
    out.append(n)
    n *= s
  return list(reversed(out))


class NdModels(Models):
  # ------------------------------------------------------------ conversion
  def nd(self, v, const=True):
    """ (shape, items, dtype) or None """
    if isinstance(v, NArr):
      return v.shape, v.items, v.dtype
    if isinstance(v, SArr):
      return (len(v.items),), v.items, v.dtype
    if isinstance(v, (bool, int, float)):
      return (), [v], type(v).__name__
    if isinstance(v, Num):
      if not v.axes:
        return (), [self.fold(Num(v.t, (), {'int': 'int', 'bool': 'bool'}.get(v.dtype, 'float'),
                                  v.dtype))], v.dtype
      sh = []
      for l in v.axes:
        c = self.size_of(l).const()
        if c is None:
          return None
        sh.append(int(c))
      labs = set()
      for l in v.axes:
        labs |= set(self.base_labels(l))
      if v.t.labels & labs:
        return None
      x = self.fold(Num(v.t, (), {'int': 'int', 'bool': 'bool'}.get(v.dtype, 'float'), v.dtype))
      return tuple(sh), [x] * size(sh), v.dtype
    if isinstance(v, (list, tuple)):
      if not v:
        return (0,), [], 'float'
      parts = [self.nd(x) for x in v]
      if any(p is None for p in parts) or any(p[0] != parts[0][0] for p in parts):
        return None
      its = [x for p in parts for x in p[1]]
      return (len(v),) + parts[0][0], its, self.infer(its)
    return None

  def mk(self, shape, items, dtype=None, base=None):
    shape = tuple(shape)
    if not shape:
      return items[0]
    dtype = dtype or self.infer(items)
    if len(shape) == 1:
      return SArr(items, dtype, base)
    return NArr(shape, items, dtype, base)

  def view(self, shape, items, dtype, base):
    r = self.mk(shape, items, dtype, base)
    r.items = items
    return r

  def through_view(self, o):
    """ o was written: whatever it is a view of was written too """
    b = o.base
    while b is not None:
      if b.items is not o.items:
        for i in range(len(b.items)):
          b.items[i] = self.I.unk('written through a view')
      b = b.base

  def has_nd(self, *vs):
    for v in vs:
      if isinstance(v, NArr):
        return True
      if isinstance(v, (list, tuple)) and any(isinstance(x, NArr) for x in v):
        return True
    return False

  def is_arr(self, v):
    return isinstance(v, NArr) or super().is_arr(v)

  def bshape(self, *shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
      d = 1
      for s in shapes:
        j = i - (n - len(s))
        if j < 0 or s[j] == 1:
          continue
        if d != 1 and d != s[j]:
          raise self.I.exc('ValueError', f"operands could not be broadcast together: {shapes}")
        d = s[j]
      out.append(d)
    return tuple(out)

  def bget(self, shape, items, out):
    """ items broadcast to shape out """
    if shape == out:
      return items
    off = len(out) - len(shape)
    st = strides(shape)
    res = []
    for ix in itertools.product(*[range(d) for d in out]):
      p = 0
      for j, s in enumerate(shape):
        if s != 1:
          p += ix[off + j] * st[j]
      res.append(items[p])
    return res

  def ndmap(self, f, *vs, dtype=None):
    ps = [self.nd(v) for v in vs]
    if any(p is None for p in ps):
      return self.I.unk('array of known shape with tensor')
    out = self.bshape(*[p[0] for p in ps])
    cols = [self.bget(p[0], p[1], out) for p in ps]
    items = [f(*c) for c in zip(*cols)]
    return self.mk(out, items, dtype)

  # ------------------------------------------------------------ operators
  def arith(self, name, a, b):
    if name == 'matmul' and (isinstance(a, NArr) or isinstance(b, NArr)):
      return self.I.call(self.I.getattr(self.I.load('numpy'), 'dot'), [a, b], {})
    if isinstance(a, NArr) or isinstance(b, NArr):
      return self.ndmap(lambda x, y: self.I.binop(name, x, y), a, b)
    if (isinstance(a, SArr) and isinstance(b, Num) and b.axes) or \
        (isinstance(b, SArr) and isinstance(a, Num) and a.axes):
      if self.nd(a) is not None and self.nd(b) is not None:
        return self.ndmap(lambda x, y: self.I.binop(name, x, y), a, b)
    return super().arith(name, a, b)

  def cmp(self, op, a, b):
    if (isinstance(a, NArr) or isinstance(b, NArr)) and not isinstance(a, (str, type(None))) and \
        not isinstance(b, (str, type(None), Unk)) and not isinstance(a, Unk):
      return self.ndmap(lambda x, y: self.cmp(op, x, y), a, b, dtype='bool')
    if isinstance(a, NArr) or isinstance(b, NArr):
      return self.I.unk('comparison')
    return super().cmp(op, a, b)

  def equal(self, a, b):
    if isinstance(a, NArr) or isinstance(b, NArr):
      return self.cmp('==', a, b)
    return super().equal(a, b)

  def unary(self, opname, v):
    if isinstance(v, NArr):
      f = (lambda x: not self.I.truth(x)) if opname == 'Invert' else \
          (lambda x: self.unary(opname, x))
      return NArr(v.shape, [f(x) for x in v.items], v.dtype)
    return super().unary(opname, v)

  def maxmin(self, name, a, b):
    if self.has_nd(a, b):
      return self.ndmap(lambda x, y: self.maxmin(name, x, y), a, b)
    return super().maxmin(name, a, b)

  def map1(self, x, f, g=None):
    if isinstance(x, NArr):
      return NArr(x.shape, [super(NdModels, self).map1(v, f, g) for v in x.items], x.dtype)
    return super().map1(x, f, g)

  # ------------------------------------------------------------ indexing
  def _plan(self, shape, k):
    """ (result shape, flat positions) of x[k], or Unk """
    from .interp import SliceV
    I = self.I
    ks = list(k) if isinstance(k, tuple) else [k]
    # boolean masks
    if len(ks) == 1 and isinstance(ks[0], (NArr, SArr)) and ks[0].dtype == 'bool':
      m = self.nd(ks[0])
      if m[0] == tuple(shape[:len(m[0])]):
        rest = size(shape[len(m[0]):])
        pos = []
        n = 0
        for i, x in enumerate(m[1]):
          if I.truth(x):
            n += 1
            pos += list(range(i * rest, (i + 1) * rest))
        return (n,) + tuple(shape[len(m[0]):]), pos
      raise I.exc('IndexError', 'boolean index did not match indexed array')
    if any(x is Ellipsis for x in ks):
      i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
      used = len([x for x in ks if x is not None and x is not Ellipsis])
      ks[i:i + 1] = [SliceV(None, None, None)] * (len(shape) - used)
    used = len([x for x in ks if x is not None])
    if used > len(shape):
      raise I.exc('IndexError', 'too many indices for array')
    ks += [SliceV(None, None, None)] * (len(shape) - used)
    spec, d = [], 0
    advshapes = []
    for x in ks:
      if x is None:
        spec.append(('new',))
        continue
      n = shape[d]
      if isinstance(x, SliceV):
        s = x.native(I)
        if s is None:
          return I.unk('symbolic slice')
        spec.append(('sl', list(range(n))[s], d))
      elif isinstance(x, (list, SArr, NArr)):
        if isinstance(x, SArr) and x.dtype == 'bool' or isinstance(x, list) and x and \
            all(isinstance(y, bool) for y in x):
          its = x.items if isinstance(x, SArr) else x
          if len(its) != n:
            raise I.exc('IndexError', 'boolean index did not match')
          x = SArr([i for i, y in enumerate(its) if I.truth(y)], 'int')
        p = self.nd(x)
        if p is None:
          return I.unk('index array')
        its = []
        for y in p[1]:
          i = I.as_int(y)
          if i is None:
            return I.unk('index array of unknown positions')
          if not -n <= i < n:
            raise I.exc('IndexError', f"index {i} is out of bounds for axis {d} with size {n}")
          its.append(i % n)
        spec.append(('adv', its, p[0], d))
        advshapes.append(p[0])
      else:
        i = I.as_int(x)
        if i is None or isinstance(x, bool):
          return I.unk('unknown index of explicit array')
        if not -n <= i < n:
          raise I.exc('IndexError', f"index {i} is out of bounds for axis {d} with size {n}")
        spec.append(('int', i % n, d))
      d += 1
    st = strides(shape)
    if not advshapes:
      out, axes = [], []
      base = 0
      for s in spec:
        if s[0] == 'new':
          out.append(1)
          axes.append([0])
        elif s[0] == 'sl':
          out.append(len(s[1]))
          axes.append([i * st[s[2]] for i in s[1]])
        else:
          base += s[1] * st[s[2]]
      return tuple(out), [base + sum(c) for c in itertools.product(*axes)]
    # integers join the broadcast of the advanced indices
    bs = self.bshape(*advshapes)
    adv = []
    where = []
    for j, s in enumerate(spec):
      if s[0] == 'adv':
        adv.append([i * st[s[3]] for i in self.bget(s[2], s[1], bs)])
        where.append(j)
      elif s[0] == 'int':
        adv.append([s[1] * st[s[2]]] * size(bs))
        where.append(j)
    offs = [sum(c) for c in zip(*adv)]
    contiguous = where == list(range(where[0], where[-1] + 1))
    pre, post = [], []
    for j, s in enumerate(spec):
      if s[0] in ('adv', 'int'):
        continue
      ax = [0] if s[0] == 'new' else [i * st[s[2]] for i in s[1]]
      (pre if contiguous and j < where[0] else post).append(ax)
    out = tuple(len(a) for a in pre) + bs + tuple(len(a) for a in post)
    pos = [sum(p) + o + sum(q) for p in itertools.product(*pre) for o in offs
           for q in itertools.product(*post)]
    return out, pos

  def index(self, o, k):
    if isinstance(o, NArr) or (isinstance(o, SArr) and self._ndkey(k)):
      if isinstance(k, Unk):
        return self.I.unk('index ' + k.why)
      p = self.nd(o)
      r = self._plan(p[0], k)
      if isinstance(r, Unk):
        return r
      return self.mk(r[0], [p[1][i] for i in r[1]], p[2], o if r[0] else None)
    if isinstance(k, NArr) and isinstance(o, Num) and self.nd(o) is not None and o.axes:
      p = self.nd(o)
      return self.index(self.mk(p[0], p[1], p[2]), k)
    return super().index(o, k)

  def _ndkey(self, k):
    if isinstance(k, NArr) or k is None:
      return True
    return isinstance(k, tuple) and len(k) > 1

  def setindex(self, o, k, v):
    if isinstance(o, NArr) or (isinstance(o, SArr) and self._ndkey(k)):
      p = self.nd(o)
      r = self._plan(p[0], k)
      self.mutate(o)
      if isinstance(r, Unk) or isinstance(v, Unk):
        for i in range(len(o.items)):
          o.items[i] = self.I.unk('written at unknown position')
        self.through_view(o)
        return
      q = self.nd(v)
      if q is None:
        for i in r[1]:
          o.items[i] = self.I.unk('written from tensor')
        self.through_view(o)
        return
      sh = q[0]
      while len(sh) > len(r[0]) and sh[0] == 1:
        sh = sh[1:]
      if self.bshape(sh, r[0]) != r[0]:
        raise self.I.exc('ValueError', f"could not broadcast input array from shape {sh} into "
                         f"shape {r[0]}")
      for i, x in zip(r[1], self.bget(sh, q[1], r[0])):
        o.items[i] = self.cast(x, o.dtype)
      self.through_view(o)
      return
    if isinstance(k, NArr) and isinstance(o, Num) and o.axes and self.nd(o) is not None:
      # a constant tensor written through an explicit mask
      self.mutate(o)
      o.t = tm.opaque(self.fresh('masked'), (o.t,))
      return
    return super().setindex(o, k, v)

  # ------------------------------------------------------------ structure
  def shape_of(self, v):
    if isinstance(v, NArr):
      return v.shape
    return super().shape_of(v)

  def num_attr(self, o, name):
    if isinstance(o, NArr):
      if name == 'shape':
        return o.shape
      if name == 'ndim':
        return len(o.shape)
      if name == 'size':
        return len(o.items)
      if name == 'dtype':
        return DType(o.dtype)
      if name == 'T':
        return self.np_transpose(o)
      if name in ('real',):
        return o
      from .values import NMeth
      if name in self.ARR_METHODS:
        return NMeth(o, name)
      raise self.I.exc('AttributeError', f"'numpy.ndarray' object has no attribute '{name}'")
    return super().num_attr(o, name)

  def arr_method(self, o, name, args, kwds):
    if isinstance(o, NArr):
      if name == 'tolist':
        if not o.shape:
          return o.items[0]

        def rec(shape, items):
          if len(shape) == 1:
            return list(items)
          n = size(shape[1:])
          return [rec(shape[1:], items[i * n:(i + 1) * n]) for i in range(shape[0])]
        return rec(o.shape, o.items)
      if name == 'item':
        return o.items[0] if len(o.items) == 1 and not args else self.I.unk('item')
      if name == 'fill':
        self.mutate(o)
        o.items = [args[0]] * len(o.items)
        return None
      if name == 'sort':
        return self.I.unk('sort')
      if name == 'astype':
        return self.astype(o, args[0])
    return super().arr_method(o, name, args, kwds)

  def astype(self, o, dt):
    if isinstance(o, NArr):
      r = super().astype(SArr(o.items, o.dtype), dt)
      return NArr(o.shape, r.items, r.dtype)
    return super().astype(o, dt)

  def reshape(self, o, shape):
    p = self.nd(o) if isinstance(o, (NArr, SArr)) else None
    if p is not None:
      ts = self.norm_shape(shape)
      if ts is None:
        return self.I.unk('reshape to unknown shape')
      cs = [t.const() for t in ts]
      if any(c is None for c in cs):
        return self.I.unk('reshape of explicit array to symbolic shape')
      cs = [int(c) for c in cs]
      n = len(p[1])
      if cs.count(-1) > 1:
        raise self.I.exc('ValueError', 'can only specify one unknown dimension')
      if -1 in cs:
        r = size([c for c in cs if c != -1])
        if not r or n % r:
          raise self.I.exc('ValueError', f"cannot reshape array of size {n} into shape {tuple(cs)}")
        cs[cs.index(-1)] = n // r
      if size(cs) != n:
        raise self.I.exc('ValueError', f"cannot reshape array of size {n} into shape {tuple(cs)}")
      if not cs:
        v = self.to_num(p[1][0])
        return Num(v.t, (), 'arr', p[2]) if v is not None else self.I.unk('reshape')
      return self.view(cs, p[1], p[2], o)
    return super().reshape(o, shape)

  def full(self, shape, v, fam):
    ts = self.norm_shape(shape)
    if ts is not None and len(ts) > 1:
      cs = [t.const() for t in ts]
      if all(c is not None for c in cs) and any(c != 1 for c in cs):
        cs = [int(c) for c in cs]
        return self.mk(cs, [v] * size(cs), fam)
    return super().full(shape, v, fam)

  def like(self, x, v, dtype):
    if isinstance(x, NArr):
      f = self.fam(dtype) or x.dtype
      return NArr(x.shape, [self.conv(v, f)] * len(x.items), f)
    return super().like(x, v, dtype)

  def axlist(self, nd, axis):
    if axis is None:
      return list(range(nd))
    ax = [axis] if self.I.as_int(axis) is not None else list(self.I.iterate(axis))
    out = []
    for a in ax:
      i = self.I.as_int(a)
      if i is None or not -nd <= i < nd:
        raise self.I.exc('AxisError', f"axis {a} is out of bounds for array of dimension {nd}")
      out.append(i % nd)
    return out

  def ndreduce(self, o, axis, keepdims, f, dtype=None):
    shape, items, dt = self.nd(o)
    ax = self.axlist(len(shape), axis)
    keep = [i for i in range(len(shape)) if i not in ax]
    st = strides(shape)
    out = []
    for ix in itertools.product(*[range(shape[i]) for i in keep]):
      base = sum(i * st[k] for i, k in zip(ix, keep))
      vals = [items[base + sum(j * st[a] for j, a in zip(jx, ax))]
              for jx in itertools.product(*[range(shape[a]) for a in ax])]
      out.append(f(vals))
    sh = [shape[i] for i in keep] if not keepdims else \
        [shape[i] if i in keep else 1 for i in range(len(shape))]
    return self.mk(sh, out, dtype or dt)

  # ------------------------------------------------------------ numpy on explicit arrays
  def nd_sum(self, x, axis=None, dtype=None, out=None, keepdims=False, **k):
    return self.ndreduce(x, axis, keepdims, lambda v: self.fold_op('add', v, 0))

  def nd_prod(self, x, axis=None, keepdims=False, **k):
    return self.ndreduce(x, axis, keepdims, lambda v: self.fold_op('mul', v, 1))

  def nd_mean(self, x, axis=None, keepdims=False, **k):
    return self.ndreduce(x, axis, keepdims, lambda v: self.I.binop(
        'truediv', self.fold_op('add', v, 0), len(v)), 'float')

  def nd_max(self, x, axis=None, keepdims=False, **k):
    return self.ndreduce(x, axis, keepdims, lambda v: self.fold_mm('max', v))

  def nd_min(self, x, axis=None, keepdims=False, **k):
    return self.ndreduce(x, axis, keepdims, lambda v: self.fold_mm('min', v))

  nd_amax, nd_amin = nd_max, nd_min

  def fold_op(self, op, vs, unit):
    if not vs:
      return unit
    acc = vs[0]
    for v in vs[1:]:
      acc = self.I.binop(op, acc, v)
    return acc

  def fold_mm(self, name, vs):
    acc = vs[0]
    for v in vs[1:]:
      acc = self.maxmin(name, acc, v)
    return acc

  def nd_all(self, x, axis=None, keepdims=False, **k):
    return self.ndreduce(x, axis, keepdims, lambda v: all(self.I.truth(y) for y in v), 'bool')

  def nd_any(self, x, axis=None, keepdims=False, **k):
    return self.ndreduce(x, axis, keepdims, lambda v: any(self.I.truth(y) for y in v), 'bool')

  def nd_ravel(self, x, **k):
    p = self.nd(x)
    return self.view((len(p[1]),), p[1], p[2], x)

  def nd_reshape(self, x, shape, **k):
    return self.reshape(x, shape)

  def permute_nd(self, x, order):
    shape, items, dt = self.nd(x)
    st = strides(shape)
    sh = [shape[i] for i in order]
    out = [items[sum(i * st[a] for i, a in zip(ix, order))]
           for ix in itertools.product(*[range(d) for d in sh])]
    return self.mk(sh, out, dt, x)

  def nd_transpose(self, x, *axes, **k):
    n = len(self.nd(x)[0])
    if len(axes) == 1 and not self.is_number(axes[0]) and axes[0] is not None:
      axes = tuple(self.I.iterate(axes[0]))
    if not axes or axes == (None,):
      axes = tuple(range(n))[::-1]
    return self.permute_nd(x, [self.I.as_int(a) % n for a in axes])

  def nd_moveaxis(self, x, src, dst):
    n = len(self.nd(x)[0])
    s = self.axlist(n, src)
    d = self.axlist(n, dst)
    order = [i for i in range(n) if i not in s]
    for a, b in sorted(zip(d, s)):
      order.insert(a, b)
    return self.permute_nd(x, order)

  def nd_swapaxes(self, x, a, b):
    n = len(self.nd(x)[0])
    order = list(range(n))
    a, b = self.I.as_int(a) % n, self.I.as_int(b) % n
    order[a], order[b] = order[b], order[a]
    return self.permute_nd(x, order)

  def nd_expand_dims(self, x, axis):
    shape, items, dt = self.nd(x)
    ax = [axis] if self.I.as_int(axis) is not None else list(self.I.iterate(axis))
    n = len(shape) + len(ax)
    ax = [self.I.as_int(a) % n for a in ax]
    it = iter(shape)
    return self.mk([1 if i in ax else next(it) for i in range(n)], items, dt, x)

  def nd_squeeze(self, x, axis=None, **k):
    shape, items, dt = self.nd(x)
    ax = [i for i, s in enumerate(shape) if s == 1] if axis is None else self.axlist(len(shape), axis)
    for a in ax:
      if shape[a] != 1:
        raise self.I.exc('ValueError', 'cannot select an axis to squeeze out')
    return self.mk([s for i, s in enumerate(shape) if i not in ax], items, dt, x)

  def nd_copy(self, x, **k):
    p = self.nd(x)
    return self.mk(p[0], p[1], p[2])

  def nd_array(self, x, dtype=None, copy=True, ndmin=0, **k):
    p = self.nd(x)
    if p is None:
      return self.I.unk('array of arrays')
    f = self.fam(dtype) or p[2]
    return self.mk(p[0], [self.conv(v, f) for v in p[1]], f)

  def nd_asarray(self, x, dtype=None, **k):
    return x if isinstance(x, NArr) and dtype is None else self.nd_array(x, dtype)

  nd_ascontiguousarray = nd_asarray
  nd_asanyarray = nd_asarray

  def nd_isscalar(self, x):
    return False

  def nd_ndim(self, x):
    return len(self.nd(x)[0])

  def nd_size(self, x):
    return len(self.nd(x)[1])

  def nd_shape(self, x):
    return self.nd(x)[0]

  def nd_atleast_1d(self, x):
    return x

  nd_atleast_2d = nd_atleast_1d

  def nd_cumsum(self, x, axis=None, **k):
    shape, items, dt = self.nd(x)
    if axis is None:
      shape, axis = (len(items),), 0
    a = self.axlist(len(shape), axis)[0]
    st = strides(shape)
    out = list(items)
    for i in range(len(items)):
      if (i // st[a]) % shape[a]:
        out[i] = self.I.binop('add', out[i - st[a]], items[i])
    return self.mk(shape, out, dt)

  def nd_dot(self, a, b, **k):
    pa, pb = self.nd(a), self.nd(b)
    if pa is None or pb is None:
      return self.I.unk('dot')
    if not pa[0] or not pb[0]:
      return self.I.binop('mul', a, b)
    if len(pb[0]) > 2:
      return self.I.unk('dot')
    kk = pa[0][-1]
    kb = pb[0][-2] if len(pb[0]) > 1 else pb[0][0]
    if kk != kb:
      raise self.I.exc('ValueError', f"shapes {pa[0]} and {pb[0]} not aligned")
    cols = pb[0][1] if len(pb[0]) > 1 else 1
    out = []
    for i in range(size(pa[0][:-1])):
      for j in range(cols):
        out.append(self.fold_op('add', [self.I.binop('mul', pa[1][i * kk + m], pb[1][m * cols + j])
                                        for m in range(kk)], 0))
    return self.mk(pa[0][:-1] + (pb[0][1:] if len(pb[0]) > 1 else ()), out)

  nd_matmul = nd_dot

  def nd_where(self, c, *ab):
    if len(ab) != 2:
      return self.I.unk('where')
    return self.ndmap(lambda q, x, y: x if self.I.truth(q) else y, c, *ab)

  def nd_isin(self, x, y, invert=False, **k):
    shape, items, dt = self.nd(x) if self.nd(x) else (None, None, None)
    if shape is None:
      return self.I.unk('isin')
    q = self.nd(y)
    if q is None:
      return self.I.unk('isin')
    r = super().np_isin(SArr(items, dt), SArr(q[1], q[2]))
    if not isinstance(r, SArr):
      return r
    return self.mk(shape, [self.I.truth(v) != bool(invert) for v in r.items], 'bool')

  def nd_close2(self, a, b, *x, **k):
    return self.ndmap(lambda p, q: Models.np_isclose(self, p, q), a, b, dtype='bool')

  nd_isclose = nd_close2

  def nd_allclose(self, a, b, *x, **k):
    # decided as one comparison of all elements
    pa, pb = self.nd(a), self.nd(b)
    if pa is None or pb is None:
      return self.I.unk('allclose')
    out = self.bshape(pa[0], pb[0])
    xs, ys = self.bget(pa[0], pa[1], out), self.bget(pb[0], pb[1], out)
    for p, q in zip(xs, ys):
      if isinstance(p, Unk) or isinstance(q, Unk):
        return self.I.unk('allclose')
      r = Models.np_isclose(self, p, q)
      if isinstance(r, Unk):
        return r
      if not self.I.truth(r):
        return False
    return True

  def nd_array_equal(self, a, b, **k):
    pa, pb = self.nd(a), self.nd(b)
    if pa is None or pb is None:
      return self.I.unk('array_equal')
    return pa[0] == pb[0] and all(self.I.eq(x, y) for x, y in zip(pa[1], pb[1]))

  def nd_tril(self, x, k=0, upper=False):
    shape, items, dt = self.nd(x)
    if len(shape) != 2:
      return self.I.unk('tril')
    keep = (lambda i, j: j - i >= k) if upper else (lambda i, j: j - i <= k)
    return self.mk(shape, [items[i * shape[1] + j] if keep(i, j) else 0.
                           for i in range(shape[0]) for j in range(shape[1])], dt)

  def nd_triu(self, x, k=0):
    return self.nd_tril(x, k, True)

  def nd_diagonal(self, x, **k):
    shape, items, dt = self.nd(x)
    return SArr([items[i * shape[1] + i] for i in range(min(shape))], dt)

  nd_diag = nd_diagonal

  def nd_concatenate(self, xs, axis=0, **k):
    ps = [self.nd(x) for x in self.I.iterate(xs)]
    if any(p is None for p in ps):
      return self.I.unk('concatenate')
    if axis is None:
      return SArr([v for p in ps for v in p[1]])
    n = len(ps[0][0])
    a = self.axlist(n, axis)[0]
    for p in ps[1:]:
      if len(p[0]) != n or any(p[0][i] != ps[0][0][i] for i in range(n) if i != a):
        raise self.I.exc('ValueError', 'all the input array dimensions except for the '
                         'concatenation axis must match exactly')
    pre = size(ps[0][0][:a])
    out = []
    for i in range(pre):
      for p in ps:
        m = size(p[0][a:])
        out += p[1][i * m:(i + 1) * m]
    sh = list(ps[0][0])
    sh[a] = sum(p[0][a] for p in ps)
    return self.mk(sh, out)

  def nd_stack(self, xs, axis=0, **k):
    xs = list(self.I.iterate(xs))
    p = self.nd(xs[0])
    if p is None:
      return self.I.unk('stack')
    n = len(p[0]) + 1
    a = self.I.as_int(axis) % n
    return self.nd_concatenate([self.nd_expand_dims(x, a) if self.nd(x)[0] else SArr([x])
                                for x in xs], a)

  def nd_vstack(self, xs):
    out = []
    for x in self.I.iterate(xs):
      p = self.nd(x)
      if p is None:
        return self.I.unk('vstack')
      out.append(x if len(p[0]) > 1 else self.mk((1, len(p[1])), p[1], p[2]))
    return self.nd_concatenate(out, 0)

  def nd_hstack(self, xs):
    xs = list(self.I.iterate(xs))
    p = self.nd(xs[0]) if xs else None
    if p and not len(p[0]):
      xs = [self.np_array([x]) for x in xs]
      p = self.nd(xs[0])
    return self.nd_concatenate(xs, 0 if p and len(p[0]) == 1 else 1)

  def nd_delete(self, x, idx, axis=None):
    shape, items, dt = self.nd(x)
    if axis is None:
      return self.I.unk('delete')
    a = self.axlist(len(shape), axis)[0]
    i = self.I.as_int(idx)
    if i is None:
      return self.I.unk('delete')
    i %= shape[a]
    st = strides(shape)
    sh = list(shape)
    sh[a] -= 1
    return self.mk(sh, [v for j, v in enumerate(items) if (j // st[a]) % shape[a] != i], dt)

  def nd_broadcast_to(self, x, shape, **k):
    p = self.nd(x)
    ts = [int(t.const()) for t in self.norm_shape(shape)]
    return self.mk(ts, self.bget(p[0], p[1], tuple(ts)), p[2], x)

  def nd_logical_and(self, a, b, **k):
    return self.ndmap(lambda x, y: self.I.truth(x) and self.I.truth(y), a, b, dtype='bool')

  def nd_logical_or(self, a, b, **k):
    return self.ndmap(lambda x, y: self.I.truth(x) or self.I.truth(y), a, b, dtype='bool')

  def nd_logical_xor(self, a, b, **k):
    return self.ndmap(lambda x, y: self.I.truth(x) != self.I.truth(y), a, b, dtype='bool')

  def nd_logical_not(self, a, **k):
    return self.ndmap(lambda x: not self.I.truth(x), a, dtype='bool')

  def nd_argmax(self, x, axis=None, **k):
    return self.I.unk('argmax')

  def nd_nonzero(self, x, **k):
    shape, items, dt = self.nd(x)
    st = strides(shape)
    hit = [i for i, v in enumerate(items) if self.I.truth(v)]
    return tuple(SArr([(i // st[a]) % shape[a] for i in hit], 'int') for a in range(len(shape)))

  def nd_tile(self, v, shape):
    return self.I.unk('tile')

  def _elementwise(name):
    def f(self, *a, **k):
      base = getattr(Models, 'np_' + name)
      return self.ndmap(lambda *xs: base(self, *xs), *a)
    return f

  for _n in ('log', 'exp', 'sqrt', 'square', 'abs', 'negative', 'sign', 'isfinite', 'isinf', 'isnan',
             'add', 'subtract', 'multiply', 'divide', 'power', 'mod', 'real', 'maximum', 'minimum',
             'reciprocal', 'floor', 'ceil', 'equal', 'not_equal', 'less', 'greater',
             'less_equal', 'greater_equal', 'sin', 'cos', 'tanh', 'log1p', 'expm1'):
    if hasattr(Models, 'np_' + _n):
      locals()['nd_' + _n] = _elementwise(_n)
  if hasattr(Models, 'np_absolute'):
    nd_absolute = _elementwise('absolute')
  del _n

  # ------------------------------------------------------------ creation
  def np_tile(self, v, shape):
    if isinstance(v, (bool, int, float)) or isinstance(v, Num) and not v.axes:
      ts = self.norm_shape(shape)
      if ts is not None and len(ts) > 1 and all(t.const() is not None for t in ts) and \
          any(t.const() != 1 for t in ts):
        cs = [int(t.const()) for t in ts]
        return self.mk(cs, [v] * size(cs))
    return super().np_tile(v, shape)

  def np_empty(self, shape, dtype=None, **k):
    ts = self.norm_shape(shape)
    if ts is not None and len(ts) > 1 and all(t.const() is not None for t in ts):
      cs = [int(t.const()) for t in ts]
      return self.mk(cs, [self.I.unk('uninitialised')] * size(cs), self.fam(dtype) or 'float')
    return super().np_empty(shape, dtype, **k)

  def np_atleast_1d(self, x):
    if isinstance(x, NArr):
      return x if x.shape else SArr(list(x.items), x.dtype)
    return super().np_atleast_1d(x)

  def np_atleast_2d(self, x):
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, NArr):
      return x
    if isinstance(x, SArr):
      return NArr((1, len(x.items)), x.items, x.dtype, x)
    return super().np_atleast_2d(x)

  def zeros_bytes(self, shape):
    ts = self.norm_shape(shape)
    if ts is None or any(t.const() is None for t in ts):
      return self.I.unk('array of bytes')
    cs = [int(t.const()) for t in ts]
    if any(c < 0 for c in cs):
      raise self.I.exc('ValueError', 'negative dimensions are not allowed')
    return NArr(cs, [0] * size(cs), 'S1')

  def np_array(self, x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, NT) or isinstance(x, (list, tuple)) and any(isinstance(v, NT) for v in x):
      plain = lambda v: [plain(w) for w in v.vals] if isinstance(v, NT) else v
      x = [plain(v) for v in (x.vals if isinstance(x, NT) else x)]
    if isinstance(x, NArr):
      if not x.shape:
        return NArr((), x.items, x.dtype)
      return self.nd_array(x, dtype)
    if isinstance(x, (complex, Cplx)) and dtype is None:
      return NArr((), [x], 'complex128')   # the one array without axes not held as a number
    if isinstance(x, (list, tuple)) and x and \
        all(isinstance(v, (list, tuple, SArr, NArr)) and not isinstance(v, NT) for v in x):
      p = self.nd(x)
      if p is not None and len(p[0]) > 1:
        return self.nd_array(x, dtype)
    return super().np_array(x, dtype, copy, ndmin, **k)

  def np_meshgrid(self, *xs, indexing='xy', **k):
    ps = [self.nd(x) for x in xs]
    if xs and all(p is not None and len(p[0]) <= 1 for p in ps) and \
        any(isinstance(x, SArr) for x in xs):
      ps = [(p[0] or (1,), p[1], p[2]) for p in ps]
      dims = [p[0][0] for p in ps]
      order = list(range(len(ps)))
      if indexing == 'xy' and len(ps) > 1:
        order[0], order[1] = 1, 0
      sh = [dims[i] for i in order]
      out = []
      for j, p in enumerate(ps):
        a = order.index(j)
        out.append(self.mk(sh, [p[1][ix[a]] for ix in itertools.product(*[range(d) for d in sh])],
                           p[2]))
      return out
    return super().np_meshgrid(*xs, indexing=indexing, **k)

  # ------------------------------------------------------------ builtins
  def bi_len(self, v):
    if isinstance(v, NArr):
      return v.shape[0]
    return super().bi_len(v)

  def type_of(self, o):
    if isinstance(o, NArr):
      from .values import Lib
      return Lib('numpy.ndarray')
    return super().type_of(o)

  def snapshot(self, v, depth=0, memo=None):
    if isinstance(v, NArr):
      return ('narr', v.shape) + tuple(self.snapshot(x, depth + 1, memo) for x in v.items)
    return super().snapshot(v, depth, memo)

  def copy_val(self, x, deep, memo=None):
    if isinstance(x, NArr):
      return NArr(x.shape, x.items, x.dtype)
    return super().copy_val(x, deep, memo)


FORCE = {'stack', 'vstack', 'concatenate', 'delete', 'dot', 'where', 'expand_dims', 'isin',
         'diag', 'diagonal', 'tril', 'triu', 'matmul', 'hstack'}


def _wrap(name):
  base = getattr(Models, 'np_' + name, None)
  own = NdModels.__dict__.get('np_' + name)
  ndf = getattr(NdModels, 'nd_' + name, None)

  def f(self, *a, **k):
    if self.has_nd(*a, *k.values()):
      if ndf is None:
        return self.I.unk(f"numpy.{name} of an array of known shape")
      return ndf(self, *a, **k)
    if base is None:
      return ndf(self, *a, **k) if ndf else self.I.unk('numpy.' + name)
    r = base(self, *a, **k)
    if isinstance(r, Unk) and ndf is not None and name in FORCE and \
        any(isinstance(x, SArr) or isinstance(x, (list, tuple)) and
            any(isinstance(y, SArr) for y in x) for x in a):
      return ndf(self, *a, **k)
    return r
  return f if own is None else None


for _name in sorted({n[3:] for n in dir(Models) if n.startswith('np_')} |
                    {n[3:] for n in dir(NdModels) if n.startswith('nd_')}):
  _f = _wrap(_name)
  if _f is not None:
    setattr(NdModels, 'np_' + _name, _f)
