"""Models of Python builtins, containers and the numpy subset the package uses.

Arrays are named tensors: each axis carries the label of the variable it runs
along.  Broadcasting two different labels against each other, or reshaping to
sizes the labels do not have, is a definite shape error.
"""
import collections
import functools
import math
import operator

from . import terms as tm
from .terms import T, Atom
from .values import (AbsExc, Undecided, Unk, Lib, DType, Num, SArr, NArr, Cplx, ASet, Func, Bound,
                     NMeth, Builtin, Prop, StaticM, ClassM, Cls, Inst, NTCls, NT, AbsFn,
                     Partial, Gen, Opq, SuperV, hkey)

TINY = 1e-30
HUGE = 700.
NUMERIC = (bool, int, float)
VIEWS = (type({}.keys()), type({}.values()), type({}.items()),
         type(collections.OrderedDict().keys()), type(collections.OrderedDict().values()),
         type(collections.OrderedDict().items()))

NP_TYPES = {'numpy.ndarray', 'numpy.generic', 'numpy.number', 'numpy.floating',
            'numpy.integer', 'numpy.bool_'}

from .libsym import SymMixin, SYM_ATTRS
from .libdist import DistMixin, SymE


class Deque(list):
  def __init__(self, items=(), maxlen=None):
    list.__init__(self, items)
    self.maxlen = maxlen


class DefaultDict(collections.defaultdict):
  pass


class SymRange:
  """ range(n) with n symbolic """
  def __init__(self, n):
    self.n = n


class Models(DistMixin, SymMixin):
  def __init__(self, I):
    self.I = I

  @property
  def ctx(self):
    return self.I.ctx

  # ------------------------------------------------------------ small tools
  def fresh(self, stem):
    self.ctx.fresh += 1
    return f"{stem}{self.ctx.fresh}"

  def mutate(self, o):
    r = o.root()
    self.ctx.mutated.setdefault(id(r), (r, self.I.site()))
    if o is not r and isinstance(r, Num):
      r.t = tm.opaque('written-through-view', (r.t,))

  def size_of(self, label):
    if label is None:
      return tm.ONE
    if isinstance(label, tuple):
      out = tm.ONE
      for l in label:
        out = out * self.size_of(l)
      return out
    if label in self.ctx.sizes:
      return self.ctx.sizes[label]
    return tm.size_t(label)

  def base_labels(self, label):
    if label is None:
      return ()
    if isinstance(label, tuple):
      return label
    return (label,)

  def label_for(self, t):
    """ Axis label for a dimension of size t (None: length one) """
    c = t.const()
    if c == 1:
      return None
    for lab, s in self.ctx.sizes.items():
      if s.key == t.key:
        return lab
    if t.is_mono() and t.m[0][1] == 1:
      labs = []
      for a, e in t.m[0][0]:
        if a.op.startswith('#') and e == 1:
          labs.append(a.op[1:])
        else:
          labs = None
          break
      if labs and len(labs) == 1:
        return labs[0]
      if labs:
        return tuple(sorted(labs))
    lab = f"<{t.key}>"
    self.ctx.sizes[lab] = t
    return lab

  def numt(self, v):
    """ Scalar term of a number """
    if isinstance(v, Num):
      return v.t
    if isinstance(v, bool):
      return tm.const_t(int(v))
    if isinstance(v, (int, float)):
      return tm.const_t(v)
    return None

  def to_num(self, v):
    if isinstance(v, Num):
      return v
    if isinstance(v, bool):
      return Num(tm.const_t(int(v)), (), 'bool', 'bool')
    if isinstance(v, int):
      return Num(tm.const_t(v), (), 'int', 'int')
    if isinstance(v, float):
      return Num(tm.const_t(v), (), 'float', 'float')
    return None

  def fold(self, n):
    """ Constant scalars become native numbers """
    if isinstance(n, Num) and not n.axes and n.kind != 'arr':
      c = n.t.const()
      if c is not None:
        if n.dtype == 'bool':
          return bool(c)
        if n.dtype == 'int' and c.denominator == 1:
          return int(c)
        return float(c)
    return n

  def scalar(self, t, dtype='float'):
    return self.fold(Num(t, (), {'float': 'float', 'int': 'int', 'bool': 'bool'}[dtype], dtype))

  def is_number(self, v):
    return isinstance(v, (bool, int, float, Num))

  def is_arr(self, v):
    return isinstance(v, SArr) or (isinstance(v, Num) and v.kind == 'arr')

  def tname(self, o):
    t = self.type_of(o)
    if isinstance(t, type):
      return t.__name__
    if isinstance(t, Cls):
      return t.name
    if isinstance(t, Lib):
      return t.path
    return repr(t)

  def type_of(self, o):
    if isinstance(o, Inst):
      return o.cls
    if isinstance(o, Num):
      if o.kind == 'arr':
        return Lib('numpy.ndarray')
      return {'float': float, 'int': int, 'bool': bool}[o.kind]
    if isinstance(o, SArr):
      return Lib('numpy.ndarray')
    if isinstance(o, Cplx):
      return complex
    if isinstance(o, ASet):
      return frozenset if o.frozen else set
    if isinstance(o, (Cls, type, NTCls)):
      return type
    if isinstance(o, Lib):
      if o.path in ('numpy.uint', 'numpy.float64', 'numpy.int64'):
        return type
      return Lib('<lib>')
    if isinstance(o, NT):
      return o.cls
    if isinstance(o, (Func, AbsFn)):
      return Lib('types.FunctionType')
    if isinstance(o, (Bound, Builtin, NMeth)):
      return Lib('types.MethodType')
    if isinstance(o, Partial):
      return Lib('functools.partial')
    if isinstance(o, DType):
      return Lib('numpy.dtype')
    if isinstance(o, Unk):
      return self.I.unk('type of ' + o.why)
    if isinstance(o, Opq):
      return Lib('<opq>' + (o.kind or ''))
    if isinstance(o, Gen):
      return Lib('types.GeneratorType')
    if isinstance(o, Deque):
      return Lib('collections.deque')
    if isinstance(o, DefaultDict):
      return collections.defaultdict
    if o is None:
      return type(None)
    from .interp import SliceV
    if isinstance(o, SliceV):
      return slice
    for t in (bool, int, float, complex, str, list, tuple, dict, range, bytes):
      if type(o) is t:
        return t
    if isinstance(o, collections.OrderedDict):
      return collections.OrderedDict
    if isinstance(o, float):
      return float
    return type(o)

  # -------------------------------------------------------------- isinstance
  def isinstance_(self, o, types):
    if isinstance(types, tuple):
      unk = None
      for t in types:
        r = self.isinstance_(o, t)
        if isinstance(r, Unk):
          unk = r
        elif r:
          return True
      return unk if unk is not None else False
    if isinstance(o, Unk) or isinstance(types, Unk):
      return self.I.unk('isinstance')
    t = types
    if isinstance(t, Lib):
      p = t.path
      if p in NP_TYPES:
        if p == 'numpy.ndarray':
          return self.is_arr(o)
        if isinstance(o, Num) and o.kind != 'arr' or isinstance(o, NUMERIC):
          return False
        return False
      if p == 'collections.deque':
        return isinstance(o, Deque)
      if p in ('types.LambdaType', 'types.FunctionType'):
        return isinstance(o, Func)
      if p == 'types.GeneratorType':
        return isinstance(o, Gen)
      if p == 'collections.abc.Iterable' or p == 'typing.Iterable':
        return isinstance(o, (list, tuple, dict, ASet, str)) or self.is_arr(o)
      if p in ('collections.abc.Mapping',):
        return isinstance(o, dict) or (isinstance(o, Inst) and isinstance(o.payload, dict))
      if p in ('numbers.Number',):
        return self.is_number(o)
      if isinstance(o, Opq):
        if o.kind:
          k = o.kind
          if k == p:
            return True
          if p.startswith('sympy') and k.startswith('sympy'):
            return p.split('.')[-1] in ('Basic',) or k.endswith('.' + p.split('.')[-1]) or \
                (p.split('.')[-1] == 'Expr' and k.split('.')[-1] in ('Symbol', 'Expr', 'Float',
                                                                     'Integer', 'oo'))
          if p.startswith('scipy') != k.startswith('scipy'):
            return False
          if p.startswith('scipy'):
            return k == p
        return False
      if isinstance(o, Inst):
        return any(l.path == p for l in o.cls.libs())
      return False
    if isinstance(t, Cls):
      return isinstance(o, Inst) and t in o.cls.mro
    if isinstance(t, NTCls):
      return isinstance(o, NT) and o.cls is t
    if isinstance(t, type):
      if isinstance(o, Inst):
        nat = o.cls.native()
        return t is object or (nat is not None and issubclass(nat, t))
      if t is object:
        return True
      if t is type:
        return isinstance(o, (type, Cls, NTCls)) or (isinstance(o, Lib) and
                                                     self.type_of(o) is type)
      if t is set:
        return isinstance(o, ASet) and not o.frozen
      if t is frozenset:
        return isinstance(o, ASet) and o.frozen
      if t is slice:
        return self.type_of(o) is slice
      if isinstance(o, Num):
        if o.kind == 'arr':
          return False
        return t is float and o.kind == 'float' or t is int and o.kind in ('int', 'bool') or \
            t is bool and o.kind == 'bool'
      if isinstance(o, Cplx):
        return t is complex
      if isinstance(o, NT):
        return t is tuple
      if isinstance(o, Deque):
        return False
      if isinstance(o, (ASet, SArr, Func, Bound, Cls, Lib, DType, Opq, Partial, AbsFn, Gen)):
        return False
      return isinstance(o, t)
    from .interp import ExcCls, ExcInst, exc_matches
    if isinstance(t, ExcCls):
      return isinstance(o, ExcInst) and exc_matches(o.cls.name, t.name)
    if isinstance(t, DType):
      return False
    raise self.I.exc('TypeError', f"isinstance() arg 2 must be a type: {t!r}")

  # ---------------------------------------------------------------- library
  CONSTS = {'numpy.pi': math.pi, 'numpy.inf': math.inf, 'numpy.nan': math.nan,
            'numpy.e': math.e, 'numpy.newaxis': None, 'math.pi': math.pi, 'math.inf': math.inf,
            'math.nan': math.nan, 'numpy.Inf': math.inf, 'numpy.NaN': math.nan,
            'collections.OrderedDict': collections.OrderedDict,
            'collections.defaultdict': collections.defaultdict,
            'collections.UserDict': dict}
  NOT_IN_NUMPY = {'numpy.scalar', 'numpy.product', 'numpy.int', 'numpy.float', 'numpy.bool',
                  'numpy.Inf', 'numpy.NaN', 'numpy.asscalar', 'numpy.cumproduct',
                  'numpy.alltrue', 'numpy.sometrue', 'numpy.float_', 'numpy.object', 'numpy.str'}

  def const(self, path):
    if path in self.I.p.stub_trees:
      return self.I.load(path)
    if path in ('numpy.bool',):
      return DType('bool')
    if path in self.NOT_IN_NUMPY:
      raise self.I.exc('AttributeError', f"module 'numpy' has no attribute '{path[6:]}'")
    if path in self.CONSTS:
      return self.CONSTS[path]
    if path in ('numpy.bool_', 'numpy.float64', 'numpy.float32', 'numpy.int32', 'numpy.int64',
                'numpy.uint', 'numpy.uint8', 'numpy.uint16', 'numpy.uint32', 'numpy.uint64'):
      return Lib(path)
    if path == 'types.LambdaType':
      return Lib('types.FunctionType')
    if path == 'sympy.oo':
      return Opq('sympy.oo', 'sympy.oo')
    if path == 'warnings.warn':
      return Lib(path)
    return Lib(path)

  def call(self, path, args, kwds):
    if path.startswith('numpy.'):
      name = path[6:].replace('.', '_')
      m = getattr(self, 'np_' + name, None)
      if m is not None:
        for a in list(args) + list(kwds.values()):
          if isinstance(a, Unk):
            if name == 'isscalar' or name == 'array':
              pass
            return self.I.unk(f"{path}({a.why})")
        try:
          return m(*args, **kwds)
        except TypeError as e:
          if 'argument' in str(e) and 'np_' in str(e):
            return self.I.unk(f"{path}: {e}")
          raise
      return self.I.unk('no model of ' + path)
    m = getattr(self, 'lib_' + path.replace('.', '_'), None)
    if m is not None:
      return m(*args, **kwds)
    if path.startswith('sympy') or path.startswith('scipy'):
      return self.opq_new(path, args, kwds)
    return self.I.unk('no model of ' + path)

  def lib_warnings_warn(self, *a, **k):
    self.ctx.events.append(('warn', self.I.site()))
    return None

  def lib_inspect_getgeneratorlocals(self, g):
    if isinstance(g, Gen) and g.env is not None:
      return dict(g.env.vars)
    if isinstance(g, Unk):
      return g
    raise self.I.exc('TypeError', 'not a Python generator')

  def lib_inspect_signature(self, fn):
    drop = 0
    while isinstance(fn, Bound):
      fn, drop = fn.fn, drop + 1
    if isinstance(fn, AbsFn) and 'params' in fn.attrs:
      names = list(fn.attrs['params'])
    elif isinstance(fn, Func):
      a = fn.node.args
      names = [x.arg for x in a.posonlyargs + a.args][drop:]
      names += ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs]
      names += [a.kwarg.arg] if a.kwarg else []
    else:
      return self.I.unk('inspect.signature')
    par = collections.OrderedDict((n, self.I.unk('parameter ' + n)) for n in names)
    return AbsFn('signature', lambda I, a, k: I.unk('signature()'), {'parameters': par})

  def lib_collections_namedtuple(self, name, fields, defaults=None, **k):
    if isinstance(fields, str):
      fields = fields.replace(',', ' ').split()
    return NTCls(name, list(self.I.iterate(fields)),
                 list(self.I.iterate(defaults)) if defaults is not None else ())

  def lib_collections_deque(self, items=(), maxlen=None):
    return Deque(list(self.I.iterate(items)), maxlen)

  def lib_collections_Counter(self, items=()):
    out = collections.OrderedDict()
    for x in self.I.iterate(items):
      k = self.I.dkey(x)
      out[k] = out.get(k, 0) + 1
    return out

  def lib_functools_partial(self, fn, *args, **kwds):
    return Partial(fn, list(args), dict(kwds))

  def lib_functools_reduce(self, fn, seq, *init):
    it = list(self.I.iterate(seq))
    if init:
      acc = init[0]
    else:
      if not it:
        raise self.I.exc('TypeError', 'reduce() of empty iterable')
      acc = it.pop(0)
    for x in it:
      acc = self.I.call(fn, [acc, x], {})
    return acc

  def lib_functools_wraps(self, fn):
    return AbsFn('wraps', lambda I, a, k: a[0])

  def lib_operator_concat(self, a, b):
    return self.arith('add', a, b)

  def lib_operator_add(self, a, b):
    return self.I.binop('add', a, b)

  def lib_operator_mul(self, a, b):
    return self.I.binop('mul', a, b)

  def lib_operator_itemgetter(self, *keys):
    def get(I, a, k):
      r = tuple(I.getitem(a[0], x) for x in keys)
      return r[0] if len(keys) == 1 else r
    return AbsFn('itemgetter', get)

  def lib_operator_attrgetter(self, key):
    return AbsFn('attrgetter', lambda I, a, k: I.getattr(a[0], key))

  def lib_itertools_chain(self, *its):
    return Gen(iter([x for it in its for x in self.I.iterate(it)]))

  def lib_itertools_chain_from_iterable(self, it):
    return Gen(iter([x for y in self.I.iterate(it) for x in self.I.iterate(y)]))

  def lib_itertools_product(self, *its, repeat=1):
    import itertools
    ls = [list(self.I.iterate(it)) for it in its]
    return Gen(iter(list(itertools.product(*ls, repeat=repeat))))

  def lib_itertools_combinations(self, it, r):
    import itertools
    return Gen(iter(list(itertools.combinations(list(self.I.iterate(it)), self.I.as_int(r)))))

  def lib_itertools_permutations(self, it, r=None):
    import itertools
    return Gen(iter(list(itertools.permutations(list(self.I.iterate(it)), r))))

  def lib_itertools_repeat(self, x, n=None):
    import itertools
    return Gen(itertools.repeat(x) if n is None else itertools.repeat(x, self.I.as_int(n)))

  def lib_itertools_accumulate(self, it, func=None, initial=None):
    out = [] if initial is None else [initial]
    for x in self.I.iterate(it):
      out.append(x if not out else self.I.call(func, [out[-1], x], {}) if func is not None
                 else self.I.binop('add', out[-1], x))
    return Gen(iter(out))

  def lib_itertools_takewhile(self, f, it):
    out = []
    for x in self.I.iterate(it):
      if not self.I.truth(self.I.call(f, [x], {})):
        break
      out.append(x)
    return Gen(iter(out))

  def bi_divmod(self, a, b):
    return (self.I.binop('floordiv', a, b), self.I.binop('mod', a, b))

  def np_float64(self, x=0.):
    return self.I.call(float, [x], {})

  def np_exp2(self, x, **k):
    return self.I.binop('pow', 2., x)

  def lib_itertools_zip_longest(self, *its, fillvalue=None):
    import itertools
    return Gen(itertools.zip_longest(*[list(self.I.iterate(it)) for it in its],
                                     fillvalue=fillvalue))

  def lib_itertools_islice(self, it, *a):
    import itertools
    return Gen(itertools.islice(self.I.iterate(it), *a))

  def lib_itertools_count(self, start=0, step=1):
    import itertools
    return Gen(itertools.count(start, step))

  def lib_copy_copy(self, x):
    return self.copy_val(x, False)

  def lib_copy_deepcopy(self, x):
    return self.copy_val(x, True)

  def lib_math_log(self, x):
    return self.np_log(x)

  def lib_math_exp(self, x):
    return self.np_exp(x)

  def lib_math_isclose(self, a, b, **k):
    return self.np_isclose(a, b)

  def lib_math_isinf(self, x):
    return self.np_isinf(x)

  def lib_math_isfinite(self, x):
    return self.np_isfinite(x)

  def lib_math_sqrt(self, x):
    return self.np_sqrt(x)

  def lib_math_prod(self, xs):
    acc = 1
    for x in self.I.iterate(xs):
      acc = self.arith('mul', acc, x)
    return acc

  def copy_val(self, x, deep, memo=None):
    memo = memo if memo is not None else {}
    if id(x) in memo:
      return memo[id(x)]
    r = (lambda v: self.copy_val(v, deep, memo)) if deep else (lambda v: v)
    if isinstance(x, Num):
      out = self.clone(x)
    elif isinstance(x, SArr):
      out = SArr(x.items, x.dtype)
    elif isinstance(x, Deque):
      out = Deque([r(v) for v in x], x.maxlen)
    elif isinstance(x, list):
      out = [r(v) for v in x]
    elif isinstance(x, tuple):
      out = tuple(r(v) for v in x)
    elif isinstance(x, dict):
      out = type(x)() if not isinstance(x, collections.defaultdict) else x.copy()
      for k, v in x.items():
        out[k] = r(v)
    elif isinstance(x, ASet):
      out = ASet([r(v) for v in x.d.values()], x.frozen)
    elif isinstance(x, Inst):
      out = Inst(x.cls)
      memo[id(x)] = out
      for k, v in x.attrs.items():
        out.attrs[k] = r(v)
      if x.payload is not None:
        if isinstance(x.payload, dict):
          for k, v in x.payload.items():
            out.payload[k] = r(v)
        else:
          out.payload.extend(r(v) for v in x.payload)
    elif isinstance(x, NT):
      out = NT(x.cls, [r(v) for v in x.vals])
    else:
      out = x
    memo[id(x)] = out
    return out

  # --------------------------------------------------------- opaque objects
  def okey(self, v):
    if isinstance(v, Num):
      return v.t.key
    if isinstance(v, Opq):
      return v.key
    if isinstance(v, (list, tuple)):
      return '(' + ','.join(self.okey(x) for x in v) + ')'
    if isinstance(v, dict):
      return '{' + ','.join(f"{k}:{self.okey(x)}" for k, x in v.items()) + '}'
    if isinstance(v, Inst):
      return f"{v.cls.name}#{v.n}"
    return repr(v)

  def opq_new(self, path, args, kwds):
    key = f"{path}({','.join([self.okey(a) for a in args] + [f'{k}={self.okey(v)}' for k, v in sorted(kwds.items())])})"
    return Opq(key, path)

  def opq_attr(self, o, name):
    if o.kind == 'sympy.oo' and name in ('dtype',):
      raise self.I.exc('AttributeError', name)
    if isinstance(o, SymE):
      r = self.sym_attr(o, name)
      if r is not None:
        return r
      if name not in SYM_ATTRS and not name.startswith('__'):
        raise self.I.exc('AttributeError', f"'{o.kind}' object has no attribute '{name}'")
    if o.kind == 'scipy.stats.frozen':
      r = self.scipy_attr(o, name)
      if r is not None:
        return r
    h = getattr(self.I, 'opq_attr_hook', None)
    if h is not None:
      r = h(o, name)
      if r is not None:
        return r
    if o.kind in ('sympy.Symbol',) and name == 'name':
      return o.key.split("'")[1] if "'" in o.key else o.key
    if name in ('dtype', '__len__', 'shape', 'ndim'):
      raise self.I.exc('AttributeError', name)
    return self.I.unk(f"{o.key}.{name}")

  def opq_call(self, o, args, kwds):
    return self.I.unk(f"call of {o.key}")

  def opq_item(self, o, k):
    return self.I.unk(f"{o.key}[]")

  def opq_truth(self, o):
    if isinstance(o, SymE) and not o.syms:
      return self.I.truth(Num(o.t, (), 'float'))
    if o.kind == 'sympy.oo' or o.kind == 'sympy.Symbol' or (isinstance(o, SymE) and o.kind == 'sympy.Expr'):
      return True    # a symbolic expression other than a relation has no truth of its own
    return self.ctx.decide(('opq', o.key), taint='truth of ' + o.key)

  def opq_binop(self, name, a, b):
    if isinstance(a, SymE) or isinstance(b, SymE):
      r = self.sym_binop(name, a, b)
      if r is not None:
        return r
    return Opq(f"({self.okey(a)} {name} {self.okey(b)})", 'sympy.Expr')

  def snapshot(self, v, depth=0, memo=None):
    """ Structural digest of an abstract value, to compare before and after """
    memo = memo if memo is not None else {}
    if depth > 12:
      return '...'
    if isinstance(v, Num):
      return ('num', v.t.key, v.axes)
    if isinstance(v, SArr):
      return ('sarr',) + tuple(self.snapshot(x, depth + 1, memo) for x in v.items)
    if isinstance(v, Cplx):
      return ('cplx', v.re.key, v.im.key)
    if isinstance(v, Inst):
      if id(v) in memo:
        return ('ref', memo[id(v)])
      memo[id(v)] = len(memo)
      pay = None
      if v.payload is not None:
        pay = self.snapshot(v.payload, depth + 1, memo)
      return ('inst', v.cls.name, pay,
              tuple((k, self.snapshot(x, depth + 1, memo)) for k, x in sorted(v.attrs.items())))
    if isinstance(v, dict):
      return ('dict',) + tuple((self.snapshot(k, depth + 1, memo),
                                self.snapshot(x, depth + 1, memo)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
      return (type(v).__name__,) + tuple(self.snapshot(x, depth + 1, memo) for x in v)
    if isinstance(v, ASet):
      return ('set', tuple(sorted(repr(k) for k in v.d)))
    if isinstance(v, NT):
      return ('nt', v.cls.name) + tuple(self.snapshot(x, depth + 1, memo) for x in v.vals)
    if isinstance(v, Func):
      return ('func', v.qual, id(v.node))
    if isinstance(v, Bound):
      return ('bound', self.snapshot(v.fn, depth + 1, memo), self.snapshot(v.self_, depth + 1, memo))
    if isinstance(v, Partial):
      return ('partial', self.snapshot(v.fn, depth + 1, memo),
              self.snapshot(v.args, depth + 1, memo), self.snapshot(v.kwds, depth + 1, memo))
    return repr(v)

  # -------------------------------------------------------------- arithmetic
  def clone(self, n):
    out = Num(n.t, n.axes, n.kind, n.dtype)
    out.mask, out.cond, out.lin, out.guard, out.empty = n.mask, n.cond, n.lin, n.guard, n.empty
    return out

  def broadcast(self, *nums):
    nd = max(len(n.axes) for n in nums)
    axes = []
    for i in range(nd):
      lab = None
      for n in nums:
        j = i - (nd - len(n.axes))
        if j < 0:
          continue
        l = n.axes[j]
        if l is None:
          continue
        if lab is None:
          lab = l
        elif lab != l:
          s1, s2 = self.size_of(lab), self.size_of(l)
          if s1.key == s2.key and s1.const() is not None:
            continue
          raise self.I.exc('ValueError', 'operands could not be broadcast together: axis of '
                           f"{self.lname(lab)} against axis of {self.lname(l)}")
      axes.append(lab)
    return tuple(axes)

  @staticmethod
  def lname(l):
    return '*'.join(l) if isinstance(l, tuple) else str(l)

  def elementwise(self, t, nums, dtype='float'):
    axes = self.broadcast(*nums)
    if axes:
      return Num(t, axes, 'arr', dtype)
    return self.scalar(t, dtype)

  def arith(self, name, a, b):
    I = self.I
    # containers
    if isinstance(a, str) and name == 'mod':
      return a
    if isinstance(a, str) and isinstance(b, str) and name == 'add':
      return a + b
    if isinstance(a, (str, list, tuple)) and name == 'mul' and I.as_int(b) is not None:
      return a * I.as_int(b)
    if isinstance(b, (str, list, tuple)) and name == 'mul' and I.as_int(a) is not None:
      return b * I.as_int(a)
    if isinstance(a, (list, tuple)) and name == 'mul' and isinstance(b, Num):
      return I.unk('sequence times symbolic')
    if isinstance(a, list) and isinstance(b, list) and name == 'add':
      return list(a) + list(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and name == 'add':
      return a + b
    if isinstance(a, ASet) or isinstance(b, ASet) or isinstance(a, VIEWS) or isinstance(b, VIEWS):
      if name in ('and_', 'or_', 'sub', 'xor') and \
          all(isinstance(x, (ASet,) + VIEWS) for x in (a, b)):
        sa, sb = [x if isinstance(x, ASet) else ASet(I.iterate(x)) for x in (a, b)]
        return self.set_op(name, sa, sb)
      raise I.exc('TypeError', f"unsupported operand types for {name}: {self.tname(a)}, {self.tname(b)}")
    if isinstance(a, dict) and isinstance(b, dict) and name == 'or_':
      out = type(a)(a)
      out.update(b)
      return out
    if isinstance(a, bool) and isinstance(b, bool) and name in ('and_', 'or_', 'xor'):
      return getattr(operator, name)(a, b)
    native = (bool, int, float, complex)
    if isinstance(a, native) and isinstance(b, native):
      try:
        return getattr(operator, name)(a, b)
      except (ZeroDivisionError, OverflowError, ValueError, TypeError) as e:
        if isinstance(e, ZeroDivisionError):
          self.ctx.events.append(('div', I.site(), False, '0'))
        raise I.exc(type(e).__name__, str(e))
    if isinstance(a, (complex, Cplx)) or isinstance(b, (complex, Cplx)):
      return self.cplx_arith(name, a, b)
    if isinstance(a, (list, tuple)) and self.is_arr(b):
      a = self.np_array(a)
    if isinstance(b, (list, tuple)) and self.is_arr(a):
      b = self.np_array(b)
    if name == 'matmul' and self.is_arr(a) and self.is_arr(b):
      return I.call(I.getattr(I.load('numpy'), 'dot'), [a, b], {})
    if isinstance(a, SArr) or isinstance(b, SArr):
      return self.sarr_map(lambda x, y: I.binop(name, x, y), a, b)
    na, nb = self.to_num(a), self.to_num(b)
    if na is None or nb is None:
      raise I.exc('TypeError', f"unsupported operand types for {name}: {self.tname(a)}, {self.tname(b)}")
    if name in ('and_', 'or_', 'xor'):
      return self.bool_op(name, na, nb)
    return self.num_arith(name, na, nb)

  def set_op(self, name, sa, sb):
    if name == 'and_':
      return ASet([v for k, v in sa.d.items() if k in sb.d], sa.frozen)
    if name == 'or_':
      return ASet(list(sa.d.values()) + list(sb.d.values()), sa.frozen)
    if name == 'sub':
      return ASet([v for k, v in sa.d.items() if k not in sb.d], sa.frozen)
    return ASet([v for k, v in sa.d.items() if k not in sb.d] +
                [v for k, v in sb.d.items() if k not in sa.d], sa.frozen)

  def sarr_map(self, f, a, b):
    if isinstance(a, SArr) and isinstance(b, SArr):
      if len(a.items) == len(b.items):
        return SArr([f(x, y) for x, y in zip(a.items, b.items)])
      if len(b.items) == 1:
        return SArr([f(x, b.items[0]) for x in a.items])
      if len(a.items) == 1:
        return SArr([f(a.items[0], y) for y in b.items])
      raise self.I.exc('ValueError', f"operands could not be broadcast together: lengths "
                       f"{len(a.items)} and {len(b.items)}")
    if isinstance(a, SArr):
      if isinstance(b, Num) and b.axes and any(b.axes):
        return self.I.unk('explicit array with tensor')
      return SArr([f(x, b) for x in a.items])
    if isinstance(a, Num) and a.axes and any(a.axes):
      return self.I.unk('explicit array with tensor')
    return SArr([f(a, y) for y in b.items])

  def cplx_arith(self, name, a, b):
    def parts(x):
      if isinstance(x, Cplx):
        return x.re, x.im
      if isinstance(x, complex):
        return tm.const_t(x.real), tm.const_t(x.imag)
      t = self.numt(x)
      if t is None:
        return None
      if isinstance(x, Num) and x.axes:
        return None
      return t, tm.ZERO
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
      return self.I.unk('complex arithmetic')
    (ar, ai), (br, bi) = pa, pb
    if name == 'add':
      return Cplx(ar + br, ai + bi)
    if name == 'sub':
      return Cplx(ar - br, ai - bi)
    if name == 'mul':
      return Cplx(ar * br - ai * bi, ar * bi + ai * br)
    if name == 'truediv' and bi.const() == 0:
      return Cplx(ar / br, ai / br)
    return self.I.unk('complex ' + name)

  def num_arith(self, name, a, b):
    ta, tb = a.t, b.t
    dt = 'int' if a.dtype in ('int', 'bool') and b.dtype in ('int', 'bool') else 'float'
    inf = any(at.op in ('inf', 'nan') for x in (ta, tb) for at in x.atoms())
    if inf:
      return self.inf_arith(name, a, b)
    if name == 'add':
      t = ta + tb
    elif name == 'sub':
      t = ta - tb
    elif name == 'mul':
      t = ta * tb
    elif name == 'truediv':
      dt = 'float'
      sg = tb.sign()
      self.ctx.events.append(('div', self.I.site(), b.guard or sg in ('+', '-'), tb.key))
      if tb.const() == 0:
        if a.kind != 'arr' and b.kind != 'arr':
          raise self.I.exc('ZeroDivisionError', 'division by zero')
        t = tm.opaque('div0', (ta,))
      else:
        t = ta / tb
    elif name == 'pow':
      c = tb.const()
      if c is not None:
        t = ta.power(c)
      elif ta.const() == 1:
        t = tm.ONE
      else:
        t = tm.exp_t(tm.log_t(ta) * tb) if ta.sign() == '+' else \
            tm.func('pow', (ta, tb))
    elif name in ('floordiv', 'mod'):
      ca, cb = ta.const(), tb.const()
      if ca is not None and cb is not None and cb != 0:
        t = tm.const_t(ca // cb if name == 'floordiv' else ca - cb * (ca // cb))
      else:
        t = tm.func(name, (ta, tb))
    else:
      return self.I.unk('arith ' + name)
    out = self.elementwise(t, (a, b), dt)
    if isinstance(out, Num):
      m = a.mask or b.mask
      if m is not None:
        out.mask = m
    return out

  def inf_arith(self, name, a, b):
    """ arithmetic involving inf/nan: decided only in the plain cases """
    INF = tm.Atom('inf', sign='+')
    def cls(t):
      if t.key == tm.const_t(math.inf).key:
        return 'pinf'
      if t.key == tm.const_t(-math.inf).key:
        return 'ninf'
      if any(at.op in ('inf', 'nan') for at in t.atoms()):
        return 'mix'
      return 'fin'
    ca, cb = cls(a.t), cls(b.t)
    res = None
    if name in ('add', 'sub'):
      if name == 'sub':
        cb = {'pinf': 'ninf', 'ninf': 'pinf'}.get(cb, cb)
      if {ca, cb} <= {'fin', 'pinf'}:
        res = math.inf
      elif {ca, cb} <= {'fin', 'ninf'}:
        res = -math.inf
    if res is None:
      return self.elementwise(tm.func('inf_' + name, (a.t, b.t)), (a, b))
    return self.elementwise(tm.const_t(res), (a, b))

  def bool_op(self, name, a, b):
    if a.dtype != 'bool' or b.dtype != 'bool':
      return self.I.unk('bitwise on numbers')
    if not a.axes and not b.axes:
      x, y = self.I.truth(a), self.I.truth(b)
      return getattr(operator, name)(x, y)
    ka, kb = self.known_bool(a), self.known_bool(b)
    axes = self.broadcast(a, b)
    if name == 'and_':
      if ka is False or kb is False:
        return self.bool_arr(False, axes)
      if ka is True:
        return self.rebroad(b, axes)
      if kb is True:
        return self.rebroad(a, axes)
    if name == 'or_':
      if ka is True or kb is True:
        return self.bool_arr(True, axes)
      if ka is False:
        return self.rebroad(b, axes)
      if kb is False:
        return self.rebroad(a, axes)
    args = sorted([a.t, b.t], key=lambda t: t.key)
    out = Num(tm.func(name, tuple(args)), axes, 'arr', 'bool')
    return out

  def rebroad(self, n, axes):
    out = self.clone(n)
    out.axes = axes
    return out

  def bool_arr(self, v, axes):
    out = Num(tm.const_t(int(v)), axes, 'arr' if axes else 'bool', 'bool')
    return out if axes else bool(v)

  def known_bool(self, n):
    c = n.t.const()
    if c is not None:
      return bool(c)
    if n.cond is not None:
      op, d = n.cond
      s = self.sign_of(d, fork=False)
      if s is not None:
        return self.op_on_sign(op, s)
    return None

  def unary(self, opname, v):
    if isinstance(v, (bool, int, float, complex)):
      if opname == 'USub':
        return -v
      if opname == 'UAdd':
        return +v
      if opname == 'Invert':
        return ~v
    if isinstance(v, Cplx):
      return Cplx(-v.re, -v.im)
    if isinstance(v, SArr):
      return SArr([self.unary(opname, x) if opname != 'Invert' else not self.I.truth(x)
                   for x in v.items], v.dtype)
    if isinstance(v, SymE) and opname == 'USub':
      return SymE(-v.t, v.syms)
    if isinstance(v, Opq):
      return Opq('-' + v.key if not v.key.startswith('-') else v.key[1:], v.kind)
    n = self.to_num(v)
    if n is None:
      raise self.I.exc('TypeError', f"bad operand type for unary {opname}: {self.tname(v)}")
    if opname == 'USub':
      out = self.clone(n)
      out.t, out.cond, out.lin = -n.t, None, None
      return self.fold(out)
    if opname == 'UAdd':
      return n
    if n.dtype == 'bool':
      return self.np_logical_not(n)
    return self.I.unk('invert')

  # -------------------------------------------------------------- comparison
  NEGATE = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
  SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}

  def op_on_sign(self, op, s):
    tab = {'<': {'-'}, '<=': {'-', '0'}, '>': {'+'}, '>=': {'+', '0'}, '==': {'0'},
           '!=': {'-', '+'}}
    return s in tab[op]

  def sign_of(self, d, fork=True):
    """ Sign of a term: '+', '-', '0'; trace is partitioned when undetermined """
    s = d.sign()
    if s in ('+', '-', '0'):
      return s
    # infinities dominate finite parts
    ni = None
    for mono, c in d.m:
      for a, e in mono:
        if a.op == 'inf' and len(mono) == 1 and e == 1:
          ni = '+' if c > 0 else '-'
    if ni is not None and sum(1 for m, c in d.m if any(a.op == 'inf' for a, _ in m)) == 1:
      return ni
    # tiny and huge floating point constants bound the regular range
    c0 = None
    for mono, c in d.m:
      if not mono:
        c0 = c
    if c0 is not None and len(d.m) > 1:
      rest = T({m: c for m, c in d.m if m})
      if abs(c0) < TINY:
        rs = rest.sign()
        if rs in ('+', '-'):
          return rs
        if rs in ('+0',):
          if rest.is_mono() and all(at.op == 'abs' for at, _ in rest.m[0][0]):
            return '+'     # generic values are not within rounding of zero
          d = rest
      elif abs(c0) >= HUGE and not any(a.op.startswith('#') for a in rest.atoms()):
        return '+' if c0 > 0 else '-'
    # size atoms: at least two
    sz = self.size_sign(d)
    if sz is not None:
      return sz
    if d.key in getattr(self.ctx, 'signs', {}):
      return self.ctx.signs[d.key]
    lead = d.m[0][1]
    key = d if lead > 0 else -d
    k = ('sign', key.key)
    if k in self.ctx.assume:
      s = self.ctx.assume[k]
    else:
      if not fork:
        return None
      opts = ('+', '-') if key.sign() not in ('+0',) else ('+', '0')
      s = self.ctx.decide(k, opts, taint=('sign of opaque ' + key.key) if d.opaque else None)
    if lead > 0 or s == '0':
      return s
    return '-' if s == '+' else '+'

  def size_sign(self, d):
    """ sign of terms over axis sizes, each at least two """
    ats = set()
    for mono, c in d.m:
      for a, e in mono:
        if not a.op.startswith('#') or e < 0 or e.denominator != 1:
          return None
        ats.add(a)
    if not ats:
      return None
    lo = tm.subst(d, lambda a: tm.const_t(2) + tm.atom_t(Atom('s' + a.op, (), sign='+0', integer=True))
                  if a in ats else None)
    s = lo.sign()
    if s in ('+', '-'):
      return s
    return None

  def cmp(self, op, a, b):
    I = self.I
    if isinstance(a, Unk) or isinstance(b, Unk):
      return I.unk('comparison')
    if isinstance(a, SArr) or isinstance(b, SArr):
      if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if isinstance(a, SArr) and isinstance(b, SArr) is False:
          return SArr([I.truth(self.cmp(op, x, b)) for x in a.items], 'bool')
        return SArr([I.truth(self.cmp(op, a, y)) for y in b.items], 'bool')
      if isinstance(a, (list, tuple)):
        a = self.np_array(a)
      if isinstance(b, (list, tuple)):
        b = self.np_array(b)
      if isinstance(a, SArr) and isinstance(b, SArr) and len(a.items) != len(b.items) and \
          1 not in (len(a.items), len(b.items)):
        if op == '==':
          raise I.exc('ValueError', 'operands could not be broadcast together')
        raise I.exc('ValueError', 'operands could not be broadcast together')
      r = self.sarr_map(lambda x, y: self.cmp(op, x, y), a, b)
      if isinstance(r, SArr):
        r.dtype = 'bool'
      return r
    if self.is_number(a) and self.is_number(b):
      if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
        return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
                '==': operator.eq, '!=': operator.ne}[op](a, b)
      na, nb = self.to_num(a), self.to_num(b)
      return self.num_cmp(op, na, nb)
    if isinstance(a, (complex, Cplx)) or isinstance(b, (complex, Cplx)):
      if op in ('==', '!='):
        if self.is_number(a) or self.is_number(b) or \
            (isinstance(a, (complex, Cplx)) and isinstance(b, (complex, Cplx))):
          pa, pb = self.parts(a), self.parts(b)
          if pa is None or pb is None:
            return I.unk('complex comparison')
          same = pa[0].key == pb[0].key and pa[1].key == pb[1].key
          return same if op == '==' else not same
        return op == '!='
      raise I.exc('TypeError', 'complex ordering')
    if op in ('==', '!='):
      r = self.equal(a, b)
      if isinstance(r, (Unk, Num, SArr)):
        return r if op == '==' else I.unk('!=')
      return r if op == '==' else not r
    if isinstance(a, ASet) or isinstance(b, ASet):
      sa, sb = set(a.d), set(ASet(I.iterate(b)).d)
      return {'<': sa < sb, '<=': sa <= sb, '>': sa > sb, '>=': sa >= sb}[op]
    if isinstance(a, str) and isinstance(b, str):
      return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
      for x, y in zip(a, b):
        if not I.eq(x, y):
          return self.cmp(op, x, y)
      return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b),
              '>=': len(a) >= len(b)}[op]
    if isinstance(a, SymE) and not a.syms:
      return self.cmp(op, Num(a.t, (), 'float'), b)
    if isinstance(b, SymE) and not b.syms:
      return self.cmp(op, a, Num(b.t, (), 'float'))
    if isinstance(a, Opq) or isinstance(b, Opq):
      oo = {'sympy.oo': math.inf, '-sympy.oo': -math.inf}
      va = oo.get(a.key) if isinstance(a, Opq) else a
      vb = oo.get(b.key) if isinstance(b, Opq) else b
      if va is not None and vb is not None:
        return self.cmp(op, va, vb)
      return I.unk('ordering of opaque')
    raise I.exc('TypeError', f"'{op}' not supported between {self.tname(a)} and {self.tname(b)}")

  def parts(self, x):
    if isinstance(x, Cplx):
      return x.re, x.im
    if isinstance(x, complex):
      return tm.const_t(x.real), tm.const_t(x.imag)
    t = self.numt(x)
    if t is None or (isinstance(x, Num) and x.axes):
      return None
    return t, tm.ZERO

  def equal(self, a, b):
    I = self.I
    if a is b:
      return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
      if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
        return False
      return all(I.eq(x, y) for x, y in zip(a, b))
    if isinstance(a, Inst) and a.payload is not None:
      a = a.payload
    if isinstance(b, Inst) and b.payload is not None:
      b = b.payload
    if isinstance(a, dict) and isinstance(b, dict):
      if set(a) != set(b):
        return False
      return all(I.eq(a[k], b[k]) for k in a)
    if isinstance(a, VIEWS) or isinstance(b, VIEWS):
      if isinstance(a, VIEWS + (ASet,)) and isinstance(b, VIEWS + (ASet,)):
        return set(ASet(I.iterate(a)).d) == set(ASet(I.iterate(b)).d)
      return False
    if isinstance(a, ASet) and isinstance(b, ASet):
      return set(a.d) == set(b.d)
    if isinstance(a, NT) and isinstance(b, (NT, tuple)):
      vb = b.vals if isinstance(b, NT) else list(b)
      return len(a.vals) == len(vb) and all(I.eq(x, y) for x, y in zip(a.vals, vb))
    if isinstance(a, DType) or isinstance(b, DType):
      x, y = (a, b) if isinstance(a, DType) else (b, a)
      if isinstance(y, Lib) and y.path.startswith('numpy.'):
        y = DType(y.path[6:])
      return x == y
    if isinstance(a, Lib) and isinstance(b, Lib):
      return a.path == b.path
    if isinstance(a, Opq) and isinstance(b, Opq):
      return a.key == b.key
    for x, y in ((a, b), (b, a)):
      if isinstance(x, SymE) and not x.syms and self.is_number(y):
        return self.cmp('==', Num(x.t, (), 'float'), y)
    if isinstance(a, Opq) or isinstance(b, Opq):
      o, y = (a, b) if isinstance(a, Opq) else (b, a)
      if o.kind == 'sympy.oo':
        v = {'sympy.oo': math.inf, '-sympy.oo': -math.inf}.get(o.key)
        if v is not None and self.is_number(y):
          r = self.cmp('==', v, y)
          return r
      return False
    if (isinstance(a, Num) and a.kind == 'arr' and a.axes) or \
        (isinstance(b, Num) and b.kind == 'arr' and b.axes):
      n = a if isinstance(a, Num) else b
      if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return self.bool_arr(False, n.axes)
      if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return I.unk('array == sequence')
      return False
    if isinstance(a, Bound) and isinstance(b, Bound):
      return a.fn is b.fn and a.self_ is b.self_
    try:
      if type(a) in (str, int, float, bool, type(None), complex, range) or isinstance(a, type):
        return bool(a == b) if not isinstance(b, (Num, SArr)) else False
      from .interp import SliceV, ExcCls
      if isinstance(a, (SliceV, ExcCls)):
        return a == b
    except Exception:
      return False
    return False

  def num_cmp(self, op, a, b):
    # one orientation: b < a is a > b, constants on the right
    ca, cb = a.t.const() is not None, b.t.const() is not None
    if op in ('<', '<=', '>', '>=') and (ca and not cb or (ca == cb and a.t.key > b.t.key)):
      a, b, op = b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
    d = a.t - b.t
    axes = self.broadcast(a, b)
    arr = bool(axes) or False
    c = d.const()
    if c is not None:
      s = '+' if c > 0 else '-' if c < 0 else '0'
      return self.bool_arr(self.op_on_sign(op, s), axes)
    if any(at.op == 'nan' for at in d.atoms()) and not d.opaque:
      return self.bool_arr(op == '!=', axes)
    if op in ('==', '!='):
      s = d.sign()
      if s in ('+', '-'):
        return self.bool_arr(op == '!=', axes)
      if axes:
        k = a.t if a.t.key <= b.t.key else b.t
        j = b.t if k is a.t else a.t
        out = Num(tm.func('eq', (k, j)), axes, 'arr', 'bool')
        if op == '!=':
          out = self.np_logical_not(out)
        return out
      r = self.scalar_eq(d)
      return r if op == '==' else not r
    out = Num(tm.func('cmp' + op, (d,)), axes, 'arr' if axes else 'bool', 'bool')
    out.cond = (op, d)
    kb = self.known_bool(out)
    if kb is not None:
      r = self.bool_arr(kb, axes)
      if isinstance(r, Num):
        r.cond = None
      return r
    return out

  def scalar_eq(self, d):
    """ Equality of scalars: symbols are generic (distinct unless written equal),
    counts range over {0, 1, many} """
    if len(d.m) <= 2:
      c0 = 0
      at = None
      for mono, c in d.m:
        if not mono:
          c0 = c
        elif len(mono) == 1 and mono[0][1] == 1:
          at, ca = mono[0][0], c
      if at is not None and at.integer and at.sign == '+0':
        want = -c0 / ca
        v = self.ctx.decide(('count', at.key), (1, 0, 'many'))
        return v == want
      if at is not None and at.op == 'pick':
        items = [t.const() for t in at.args[0]]
        if None not in items:
          return self.ctx.decide(('pick', at.key), tuple(dict.fromkeys(items))) == -c0 / ca
    if d.opaque:
      return self.ctx.decide(('eq', d.key), (False, True), taint='equality of opaque ' + d.key)
    return False

  def num_truth(self, n):
    if n.axes and n.kind == 'arr':
      if any(self.size_of(l).const() != 1 for l in n.axes if l is not None) and any(n.axes):
        raise self.I.exc('ValueError', 'truth value of an array is ambiguous')
    c = n.t.const()
    if c is not None:
      return c != 0
    if n.dtype == 'bool':
      if n.cond is not None:
        op, d = n.cond
        at = self.count_atom(d)
        if at is not None:
          return self.count_cmp(op, d, at)
        return self.op_on_sign(op, self.sign_of(d))
      return self.ctx.decide(('bool', n.t.key), taint=n.t.key if n.t.opaque else None)
    s = n.t.sign()
    if s in ('+', '-'):
      return True
    at = self.count_atom(n.t)
    if at is not None:
      return not self.scalar_eq(n.t)
    if n.t.opaque:
      return self.ctx.decide(('nz', n.t.key), taint='truth of ' + n.t.key)
    return True

  def count_atom(self, d):
    at = None
    for mono, c in d.m:
      if not mono:
        continue
      if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].integer and mono[0][0].sign == '+0':
        if at is not None:
          return None
        at = (mono[0][0], c)
      else:
        return None
    return at

  def count_cmp(self, op, d, at):
    a, ca = at
    c0 = 0
    for mono, c in d.m:
      if not mono:
        c0 = c
    v = self.ctx.decide(('count', a.key), (1, 0, 'many'))
    val = 2 if v == 'many' else v
    x = ca * val + c0
    s = '+' if x > 0 else '-' if x < 0 else '0'
    if v == 'many' and s == '0':
      s = '+' if ca > 0 else '-'
    return self.op_on_sign(op, s)

  def any_true(self, r):
    if isinstance(r, SArr):
      return any(self.I.truth(x) for x in r.items) if len(r.items) != 1 else r
    return r

  # ---------------------------------------------------------------- indexing
  def at_atom(self, a, label, idx):
    """ element of a at position idx along label; nested selections commute
    and compose, so they are kept in one normal form """
    base, pairs = a, {}
    while base.op == 'at':
      base, l1, i1 = base.args
      pairs[l1] = self.index_t(i1, label, idx) if label in i1.labels else i1
    if label in base.labels and label not in pairs:
      pairs[label] = idx
    out = base
    for l1 in sorted(pairs):
      i1 = pairs[l1]
      out = Atom('at', (out, l1, i1), (out.labels - {l1}) | i1.labels, a.sign, a.opaque,
                 a.integer)
    return tm.atom_t(out)

  def index_t(self, t, label, idx):
    def fn(a):
      if label not in a.labels:
        return tm.atom_t(a)
      if a.op in ('exp', 'log', 'poly') or (a.op == 'sum' and label not in a.args[0]):
        return None
      return self.at_atom(a, label, idx)
    return tm.subst(t, fn)

  def index(self, o, k):
    I = self.I
    from .interp import SliceV
    if isinstance(o, SArr):
      if isinstance(k, tuple):
        if len(k) == 1:
          k = k[0]
        else:
          return I.unk('multi-index of explicit array')
      if isinstance(k, SliceV):
        s = k.native(I)
        if s is None:
          return I.unk('symbolic slice of explicit array')
        return SArr(o.items[s], o.dtype, o)
      i = I.as_int(k)
      if i is not None and not isinstance(k, bool):
        if -len(o.items) <= i < len(o.items):
          return o.items[i]
        raise I.exc('IndexError', f"index {i} out of bounds {len(o.items)}")
      if isinstance(k, (list, SArr)):
        ks = k if isinstance(k, list) else k.items
        if isinstance(k, SArr) and k.dtype == 'bool' or (ks and all(isinstance(x, bool) for x in ks)):
          if len(ks) != len(o.items):
            raise I.exc('IndexError', 'boolean index length')
          return SArr([x for x, y in zip(o.items, ks) if I.truth(y)], o.dtype)
        out = []
        for x in ks:
          i = I.as_int(x)
          if i is None:
            y = self.index(o, x)
            if isinstance(y, Unk):
              return y
            out.append(y)
            continue
          if not -len(o.items) <= i < len(o.items):
            raise I.exc('IndexError', f"index {i} out of bounds")
          out.append(o.items[i])
        return SArr(out, o.dtype)
      if k is None:
        return I.unk('newaxis on explicit array')
      if isinstance(k, Num) and not k.axes:
        # element selected by an unknown index
        items = [self.numt(x) for x in o.items]
        if all(t is not None for t in items):
          return Num(tm.func('pick', (tuple(items), k.t)), (), 'float', o.dtype)
      return I.unk('index of explicit array')
    if o.kind != 'arr':
      raise I.exc('TypeError', f"'{o.kind}' object is not subscriptable")
    if not o.axes and isinstance(k, (bool, Num)) and (isinstance(k, bool) or k.dtype == 'bool'):
      out = self.clone(o)
      out.empty = not I.truth(k)
      return out
    ks = list(k) if isinstance(k, tuple) else [k]
    # boolean mask over the whole array
    if len(ks) == 1 and isinstance(ks[0], Num) and ks[0].dtype == 'bool' and ks[0].axes:
      return self.mask_select(o, ks[0])
    if any(x is Ellipsis for x in ks):
      i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
      n = len(o.axes) - (len([x for x in ks if x is not None]) - 1)
      ks = ks[:i] + [SliceV(None, None)] * n + ks[i + 1:]
    nidx = len([x for x in ks if x is not None])
    if nidx > len(o.axes):
      raise I.exc('IndexError', f"too many indices: array is {len(o.axes)}-dimensional")
    ks = ks + [SliceV(None, None)] * (len(o.axes) - nidx)
    t = o.t
    axes = []
    src = list(o.axes)
    adv = [x for x in ks if isinstance(x, (list, SArr)) or (isinstance(x, Num) and x.axes)]
    if len(adv) > 1:
      return I.unk('several index arrays')
    view = not adv
    lin = o.lin
    for x in ks:
      if x is None:
        axes.append(None)
        continue
      lab = src.pop(0)
      if isinstance(x, SliceV):
        r = self.slice_axis(t, lab, x, o)
        if r is None:
          return I.unk('slice of axis ' + str(lab))
        t, nl = r
        if x.full() is False and o.lin is not None:
          lin = self.slice_lin(o.lin, x)
        axes.append(nl)
        continue
      lin = None
      if isinstance(x, bool):
        return I.unk('boolean scalar index')
      if isinstance(x, (int,)) or (isinstance(x, Num) and not x.axes):
        it = self.numt(x)
        if isinstance(x, Num) and x.dtype == 'float':
          raise I.exc('IndexError', 'only integers are valid indices')
        if lab is None:
          c = it.const()
          if c is not None and c not in (0, -1):
            raise I.exc('IndexError', 'index out of bounds for axis of size 1')
          continue
        sz = self.size_of(lab).const()
        c = it.const()
        if sz is not None and c is not None and not -sz <= c < sz:
          raise I.exc('IndexError', f"index {c} out of bounds for axis of size {sz}")
        if isinstance(lab, tuple):
          return I.unk('index of flattened axis')
        t = self.index_t(t, lab, it)
        continue
      if isinstance(x, (list, SArr)):
        items = x if isinstance(x, list) else x.items
        if lab is None or isinstance(lab, tuple):
          return I.unk('list index')
        nl = f"{lab}@[{','.join(str(self.okey(v)) for v in items)}]"
        self.ctx.sizes[nl] = tm.const_t(len(items))
        idx = tm.sym('idx:' + nl, (nl,), integer=True)
        t = self.index_t(t, lab, idx)
        axes.append(nl)
        continue
      if isinstance(x, Num):
        if x.dtype == 'bool':
          if lab is None or isinstance(lab, tuple) or len(x.axes) != 1:
            return I.unk('mask on axis')
          nz = self.np_nonzero(x)[0]
          t = self.index_t(t, lab, nz.t)
          axes.append(nz.axes[0])
          continue
        if lab is None:
          axes.extend(x.axes)
          continue
        if isinstance(lab, tuple):
          return I.unk('gather on flattened axis')
        t = self.index_t(t, lab, x.t)
        axes.extend(x.axes)
        continue
      if isinstance(x, (float, str)):
        raise I.exc('IndexError', 'only integers, slices and arrays are valid indices')
      return I.unk('index ' + repr(x))
    if not axes:
      return Num(t, (), {'float': 'float', 'int': 'int', 'bool': 'bool'}.get(o.dtype, 'float'),
                 o.dtype)
    out = Num(t, tuple(axes), 'arr', o.dtype, o if view else None)
    out.lin = lin
    return out

  def slice_lin(self, lin, x):
    v0, v1, n, front, back = lin
    i = self.I.as_int(x.start) if x.start is not None else 0
    j = self.I.as_int(x.stop) if x.stop is not None else 0
    if i is None or j is None or i < 0 or j > 0 or x.step not in (None, 1):
      return None
    return (v0, v1, n, front + i, back - j)

  def slice_axis(self, t, lab, x, o):
    """ (term, new label) of slicing one axis """
    I = self.I
    if x.full():
      return t, lab
    size = self.size_of(lab)
    if x.step not in (None, 1):
      if I.as_int(x.step) == -1 and x.start is None and x.stop is None and lab is not None \
          and not isinstance(lab, tuple):
        idx = size - tm.ONE - tm.sym('idx:' + lab, (lab,), integer=True)
        return self.index_t(t, lab, idx), lab
      return None
    st = self.numt(x.start) if x.start is not None else tm.ZERO
    en = self.numt(x.stop) if x.stop is not None else size
    if st is None or en is None:
      return None
    if st.const() == 0 and en.key == size.key:
      return t, lab
    if st.const() is not None and st.const() < 0:
      st = size + st
    if en.const() is not None and en.const() < 0:
      en = size + en
    n = en - st
    if isinstance(lab, tuple):
      return None
    if lab is None:
      c = n.const()
      if c == 0 or (en.const() is not None and en.const() <= 0):
        nl = '<empty>'
        self.ctx.sizes[nl] = tm.ZERO
        return t, nl
      return t, lab
    c = n.const()
    if c is not None and c <= 0:
      nl = f"{lab}<empty>"
      self.ctx.sizes[nl] = tm.ZERO
      return t, nl
    nl = f"{lab}[{st.key}:{en.key}]"
    self.ctx.sizes[nl] = n
    idx = st + tm.sym('idx:' + nl, (nl,), integer=True)
    return self.index_t(t, lab, idx), nl

  def mask_select(self, o, m):
    kb = self.known_bool(m)
    out = self.clone(o)
    if kb is True:
      return out
    out.mask = m
    if kb is False:
      out.empty = True
    return out

  def setindex(self, o, k, v):
    I = self.I
    from .interp import SliceV
    if isinstance(o, SArr):
      self.mutate(o)
      if isinstance(k, tuple) and len(k) == 1:
        k = k[0]
      i = I.as_int(k)
      if i is not None:
        if not -len(o.items) <= i < len(o.items):
          raise I.exc('IndexError', f"index {i} out of bounds for explicit array")
        o.items[i] = self.cast(v, o.dtype)
        return
      if isinstance(k, SliceV):
        s = k.native(I)
        if s is not None:
          idxs = list(range(len(o.items)))[s]
          vals = list(I.iterate(v)) if isinstance(v, (list, tuple, SArr)) else [v] * len(idxs)
          for j, x in zip(idxs, vals):
            o.items[j] = x
          return
      if isinstance(k, (list, SArr)):
        ks = k if isinstance(k, list) else k.items
        if (isinstance(k, SArr) and k.dtype == 'bool') or (ks and isinstance(ks[0], bool)):
          idxs = [j for j, x in enumerate(ks) if I.truth(x)]
        else:
          idxs = [I.as_int(x) for x in ks]
        if None not in idxs:
          vals = list(I.iterate(v)) if isinstance(v, (list, tuple, SArr)) else [v] * len(idxs)
          if len(vals) != len(idxs):
            raise I.exc('ValueError', 'shape mismatch in assignment')
          for j, x in zip(idxs, vals):
            o.items[j] = x
          return
      o.items = [I.unk('element after unknown assignment') for _ in o.items]
      return
    if o.kind != 'arr':
      raise I.exc('TypeError', 'scalar does not support item assignment')
    self.mutate(o)
    if isinstance(k, tuple) and len(k) == 1:
      k = k[0]
    if not o.axes and isinstance(k, (bool, Num)) and (isinstance(k, bool) or k.dtype == 'bool'):
      if I.truth(k):
        tv = self.numt(v)
        o.t = tv if tv is not None else tm.opaque('masked-assign', (o.t,))
      return
    if isinstance(k, Num) and k.dtype == 'bool' and k.axes:
      kb = self.known_bool(k)
      if kb is False:
        return
      nv = self.to_num(v) if not isinstance(v, (list, tuple, SArr)) else None
      if nv is None:
        o.t = tm.opaque('masked-assign', (o.t,))
        return
      if nv.empty:
        return
      if kb is True:
        o.t = nv.t
        return
      o.t = self.where_t(k, nv.t, o.t)
      return
    if (isinstance(k, SliceV) and k.full()) or k is Ellipsis:
      nv = self.to_num(v)
      if nv is not None:
        self.broadcast(o, nv)
        o.t = nv.t
        return
    args = [o.t]
    for x in (k if isinstance(k, tuple) else (k,)):
      tt = self.numt(x)
      args.append(tt if tt is not None else tm.opaque('k'))
    tv = self.numt(v)
    o.t = tm.opaque('setitem', tuple(args) + ((tv,) if tv is not None else ()),
                    [l for l in o.axes if isinstance(l, str)])

  def cast(self, v, dtype):
    if dtype == 'int' and isinstance(v, float) and not math.isinf(v):
      return int(v)
    if dtype == 'bool' and isinstance(v, (int, float)):
      return bool(v)
    return v

  def where_t(self, mask, a, b):
    if a.key == b.key:
      return a
    return tm.func('where', (mask.t, a, b))

  def accumulate(self, o, k, op, rhs):
    h = getattr(self.I, 'accumulate_hook', None)
    return h(self, o, k, op, rhs) if h is not None else False

  # ------------------------------------------------------------------ arrays
  def shape_of(self, v):
    if isinstance(v, SArr):
      return (len(v.items),)
    return tuple(self.scalar(self.size_of(l), 'int') for l in v.axes)

  def num_attr(self, o, name):
    I = self.I
    if isinstance(o, DType):
      if name == 'name':
        return o.name
      if name in ('type',):
        return {'float': float, 'int': int, 'bool': bool}.get(o.family, Lib('numpy.' + o.name))
      if name == 'kind':
        return {'float': 'f', 'int': 'i', 'uint': 'u', 'bool': 'b', 'object': 'O'}.get(o.family, 'S')
      return I.unk('dtype.' + name)
    if isinstance(o, Cplx):
      if name == 'real':
        return self.scalar(o.re)
      if name == 'imag':
        return self.scalar(o.im)
      if name == 'conjugate':
        return NMeth(o, name)
      raise I.exc('AttributeError', f"'complex' object has no attribute '{name}'")
    arr = isinstance(o, SArr) or o.kind == 'arr'
    if not arr and name in ('real',):
      return o
    if not arr and name in ('imag',):
      return 0.
    if not arr and name not in ('dtype', 'item', 'tolist', 'ndim', 'shape', 'size', 'sum', 'max',
                                'min', 'astype', 'reshape', 'ravel', 'copy', 'is_integer'):
      raise I.exc('AttributeError', f"'{o.kind}' object has no attribute '{name}'")
    if name == 'shape':
      return self.shape_of(o)
    if name == 'ndim':
      return 1 if isinstance(o, SArr) else len(o.axes)
    if name == 'size':
      if isinstance(o, SArr):
        return len(o.items)
      t = tm.ONE
      for l in o.axes:
        t = t * self.size_of(l)
      return self.scalar(t, 'int')
    if name == 'dtype':
      if not arr:
        if o.kind in ('int', 'bool', 'float') and not getattr(o, 'np', False):
          raise I.exc('AttributeError', f"'{o.kind}' object has no attribute 'dtype'")
      return DType({'float': 'float64', 'int': 'int64', 'bool': 'bool'}.get(o.dtype, o.dtype))
    if name == 'T':
      if isinstance(o, SArr):
        return o
      return Num(o.t, tuple(reversed(o.axes)), 'arr', o.dtype, o)
    if name == 'real':
      return self.np_real(o)
    if name == 'imag' and isinstance(o, SArr):
      return self.np_imag(o)
    if name == 'flat':
      return self.np_ravel(o)
    if name in self.ARR_METHODS:
      return NMeth(o, name)
    raise I.exc('AttributeError', f"'numpy.ndarray' object has no attribute '{name}'")

  ARR_METHODS = {'reshape', 'sum', 'max', 'min', 'ravel', 'flatten', 'tolist', 'astype', 'copy',
                 'item', 'all', 'any', 'mean', 'prod', 'transpose', 'squeeze', 'dot', 'argmax',
                 'argmin', 'cumsum', 'sort', 'fill', 'argsort', 'nonzero', 'swapaxes', 'std',
                 'clip', 'repeat', 'var', 'round', 'take', 'conj', 'is_integer', 'view'}

  def arr_method(self, o, name, args, kwds):
    I = self.I
    if name == 'reshape':
      shape = args[0] if len(args) == 1 and not self.is_number(args[0]) else \
          (tuple(args) if args else kwds.get('shape'))
      if len(args) == 1 and self.is_number(args[0]):
        shape = (args[0],)
      return self.reshape(o, shape)
    if name in ('ravel', 'flatten'):
      r = self.np_ravel(o)
      if name == 'flatten' and isinstance(r, Num):
        r.base = None
      return r
    if name == 'copy':
      return self.np_copy(o)
    if name == 'tolist':
      if isinstance(o, SArr):
        return list(o.items)
      if not o.axes:
        return self.fold(Num(o.t, (), {'int': 'int', 'bool': 'bool'}.get(o.dtype, 'float'), o.dtype))
      return I.unk('tolist of tensor')
    if name == 'item':
      if isinstance(o, SArr):
        if len(o.items) == 1 and not args:
          return o.items[0]
        return self.index(o, args[0]) if args else I.unk('item')
      if not args and all(l is None for l in o.axes):
        return self.fold(Num(o.t, (), {'int': 'int', 'bool': 'bool'}.get(o.dtype, 'float'), o.dtype))
      return I.unk('item')
    if name == 'astype':
      return self.astype(o, args[0])
    if name == 'is_integer':
      return I.unk('is_integer')
    if name == 'fill':
      if isinstance(o, Num):
        self.mutate(o)
        o.t = self.numt(args[0])
      else:
        self.mutate(o)
        o.items = [args[0]] * len(o.items)
      return None
    if name == 'sort':
      self.mutate(o)
      if isinstance(o, Num):
        o.t = tm.func('sort', (o.t,), labels=o.t.labels)
      else:
        o.items = [I.unk('sorted')] * len(o.items)
      return None
    m = getattr(self, 'np_' + name, None)
    if m is None:
      return I.unk('array method ' + name)
    return m(o, *args, **kwds)

  def astype(self, o, dt):
    d = dt if isinstance(dt, DType) else DType({float: 'float', int: 'int', bool: 'bool',
                                                object: 'object'}.get(dt, dt) if not isinstance(dt, Lib) else dt.path[6:])
    fam = {'uint': 'int'}.get(d.family, d.family)
    if isinstance(o, SArr):
      return SArr([self.conv(x, fam) for x in o.items], fam)
    out = self.clone(o)
    if fam == 'int' and o.dtype == 'float' and o.t.const() is None:
      out.t = tm.func('trunc', (o.t,), integer=True)
    out.dtype = fam
    out.cond = None if fam != 'bool' else out.cond
    return out

  def conv(self, x, fam):
    if isinstance(x, (bool, int, float)):
      if fam == 'float':
        return float(x)
      if fam == 'int' and not (isinstance(x, float) and (math.isinf(x) or math.isnan(x))):
        return int(x)
      if fam == 'bool':
        return bool(x)
      return x
    if isinstance(x, str) and fam in ('int', 'float'):
      try:
        return (int if fam == 'int' else float)(x)
      except ValueError as e:
        raise self.I.exc('ValueError', str(e))
    if isinstance(x, Num):
      n = self.clone(x)
      if fam == 'int' and x.dtype == 'float':
        n.t = tm.func('trunc', (x.t,), integer=True)
      n.dtype = fam if fam in ('float', 'int', 'bool') else x.dtype
      if n.kind != 'arr':
        n.kind = n.dtype
      return n
    if isinstance(x, Opq) and x.kind == 'sympy.oo' and fam == 'float':
      return {'sympy.oo': math.inf, '-sympy.oo': -math.inf}.get(x.key, x)
    return x

  def norm_shape(self, shape):
    if isinstance(shape, (int, Num)) and not isinstance(shape, bool):
      shape = (shape,)
    if isinstance(shape, SArr):
      shape = shape.items
    out = []
    for s in self.I.iterate(shape):
      t = self.numt(s)
      if t is None:
        if s is None:
          raise self.I.exc('TypeError', "'NoneType' object cannot be interpreted as an integer")
        return None
      out.append(t)
    return out

  def axes_from_shape(self, shape):
    ts = self.norm_shape(shape)
    if ts is None:
      return None
    return tuple(self.label_for(t) for t in ts)

  def reshape(self, o, shape):
    I = self.I
    ts = self.norm_shape(shape)
    if ts is None:
      return I.unk('reshape to unknown shape')
    if isinstance(o, SArr):
      n = len(o.items)
      cs = [t.const() for t in ts]
      if len(ts) == 1 and (cs[0] == n or cs[0] == -1):
        return SArr(o.items, o.dtype, o)
      if all(c is not None for c in cs):
        p = 1
        for c in cs:
          p *= c
        if p != n and -1 not in cs:
          raise I.exc('ValueError', f"cannot reshape array of size {n}")
      if n == 1:
        v = self.to_num(o.items[0])
        if v is not None:
          return Num(v.t, tuple(None for _ in ts), 'arr', o.dtype)
      return I.unk('reshape of explicit array')
    labs = [l for l in o.axes if l is not None]
    flat = []
    for l in labs:
      flat.extend(self.base_labels(l))
    rest = list(flat)
    axes = []
    neg = None
    for i, t in enumerate(ts):
      c = t.const()
      if c == 1:
        axes.append(None)
        continue
      if c == -1:
        if neg is not None:
          raise I.exc('ValueError', 'can only specify one unknown dimension')
        neg = i
        axes.append('?')
        continue
      # consume labels in row-major order until the size is reached
      axes.append(t)
    # resolve explicit sizes from the left up to -1 and from the right down to it
    def consume(seq, ts_, rev):
      got = {}
      for i in seq:
        t = axes[i]
        if t is None:
          continue
        acc, size = [], tm.ONE
        while rest and size.key != t.key:
          l = rest.pop(-1 if rev else 0)
          acc.append(l)
          size = size * self.size_of(l)
          if len(acc) > len(flat):
            break
        if size.key != t.key:
          raise I.exc('ValueError', 'cannot reshape array with axes '
                      f"({', '.join(self.lname(l) for l in o.axes if l is not None)}) "
                      f"into shape ({', '.join(x.key for x in ts)})")
        if rev:
          acc.reverse()
        got[i] = acc[0] if len(acc) == 1 else tuple(acc) if acc else None
      return got
    res = {}
    if neg is None:
      res.update(consume(range(len(axes)), ts, False))
      if rest:
        raise I.exc('ValueError', 'cannot reshape array with axes '
                    f"({', '.join(self.lname(l) for l in o.axes if l is not None)}) into shape "
                    f"({', '.join(x.key for x in ts)})")
    else:
      res.update(consume(range(neg), ts, False))
      res.update(consume(range(len(axes) - 1, neg, -1), ts, True))
      res[neg] = None if not rest else rest[0] if len(rest) == 1 else tuple(rest)
    final = tuple(res.get(i) if axes[i] is not None else None for i in range(len(axes)))
    out = Num(o.t, final, 'arr', o.dtype, o)
    out.cond, out.lin = o.cond, o.lin
    return out

  def iter_num(self, v):
    if not v.axes:
      raise self.I.exc('TypeError', f"'{self.tname(v)}' object is not iterable")
    c = self.size_of(v.axes[0]).const()
    if c is None:
      raise Undecided(f"iteration along axis {v.axes[0]} at {self.I.site()}")
    return iter([self.index(v, i) for i in range(int(c))])

  # ---- reductions
  def axis_list(self, o, axis):
    n = len(o.axes)
    if axis is None:
      return list(range(n))
    if isinstance(axis, (list, tuple, ASet)):
      out = []
      for x in self.I.iterate(axis):
        i = self.I.as_int(x)
        if i is None:
          if x is None:
            raise self.I.exc('TypeError', 'axis None in tuple')
          return None
        if not -n <= i < n:
          raise self.I.exc('AxisError', f"axis {i} is out of bounds for array of dimension {n}")
        i %= n
        if i in out:
          raise self.I.exc('ValueError', 'duplicate value in axis')
        out.append(i)
      if isinstance(axis, (list, ASet)):
        raise self.I.exc('TypeError', "axis must be an integer or tuple")
      return out
    i = self.I.as_int(axis)
    if i is None:
      return None
    if not -n <= i < n:
      raise self.I.exc('AxisError', f"axis {i} is out of bounds for array of dimension {n}")
    return [i % n]

  def reduce(self, o, axis, keepdims, f, dtype=None, emptyname='reduce'):
    ax = self.axis_list(o, axis)
    if ax is None:
      return self.I.unk('reduction over unknown axis')
    t = o.t
    for i in ax:
      for lab in self.base_labels(o.axes[i]):
        t = f(t, lab)
    if keepdims:
      axes = tuple(None if i in ax else l for i, l in enumerate(o.axes))
    else:
      axes = tuple(l for i, l in enumerate(o.axes) if i not in ax)
    dtype = dtype or o.dtype
    if not axes:
      return self.scalar(t, dtype)
    return Num(t, axes, 'arr', dtype)

  def as_tensor(self, x):
    """ list/tuple/explicit/scalar -> something reducible """
    if isinstance(x, (list, tuple)):
      return self.np_array(x)
    if isinstance(x, Gen) or isinstance(x, VIEWS):
      return SArr(list(self.I.iterate(x)))
    return x

  def np_sum(self, x, axis=None, dtype=None, out=None, keepdims=False, **k):
    x = self.as_tensor(x)
    if isinstance(x, SArr):
      if self.I.as_int(axis) not in (None, 0, -1):
        raise self.I.exc('AxisError', 'axis out of bounds')
      acc = 0
      for v in x.items:
        if isinstance(v, bool):
          v = int(v)
        acc = self.I.binop('add', acc, v)
      return acc
    n = self.to_num(x)
    if n is None:
      return x if isinstance(x, Unk) else self.I.unk('sum')
    kd = self.I.truth(keepdims)
    if n.dtype == 'bool' and n.axes:
      c = self.known_bool(n)
      if c is None:
        ax = self.axis_list(n, axis)
        if ax is not None and len(ax) == len(n.axes):
          return Num(tm.func('count', (n.t,), '+0', labels=(), integer=True), (), 'int', 'int')
    if n.mask is not None:
      return self.I.unk('sum of masked selection')
    return self.reduce(n, axis, kd, tm.sum_t, 'int' if n.dtype in ('bool', 'int') else 'float')

  def np_prod(self, x, axis=None, keepdims=False, **k):
    x = self.as_tensor(x)
    if isinstance(x, SArr):
      acc = 1
      for v in x.items:
        acc = self.I.binop('mul', acc, v)
      return acc
    n = self.to_num(x)
    if n is None:
      return self.I.unk('prod')
    return self.reduce(n, axis, self.I.truth(keepdims), tm.prod_t)

  def np_mean(self, x, axis=None, keepdims=False, **k):
    x = self.as_tensor(x)
    if isinstance(x, SArr):
      return self.arith('truediv', self.np_sum(x), len(x.items))
    n = self.to_num(x)
    if n is None:
      return self.I.unk('mean')
    return self.reduce(n, axis, self.I.truth(keepdims),
                       lambda t, l: tm.sum_t(t, l) / self.size_of(l), 'float')

  def extremum(self, name, x, axis, keepdims):
    x = self.as_tensor(x)
    if isinstance(x, SArr):
      if not x.items:
        raise self.I.exc('ValueError', f"zero-size array to reduction {name}")
      acc = x.items[0]
      for v in x.items[1:]:
        acc = self.maxmin(name, acc, v)
      return acc
    n = self.to_num(x)
    if n is None:
      return self.I.unk(name)
    def f(t, lab):
      if lab not in t.labels:
        return t
      return tm.func('a' + name, (t, lab), t.sign() if t.sign() in ('+', '-') else None,
                     labels=t.labels - {lab})
    return self.reduce(n, axis, self.I.truth(keepdims), f)

  def np_max(self, x, axis=None, keepdims=False, **k):
    return self.extremum('max', x, axis, keepdims)

  def np_min(self, x, axis=None, keepdims=False, **k):
    return self.extremum('min', x, axis, keepdims)

  np_amax = np_max
  np_amin = np_min
  np_nanmax = np_max
  np_nanmin = np_min

  def maxmin(self, name, a, b):
    """ binary max/min """
    I = self.I
    if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
      return (max if name == 'max' else min)(a, b)
    if isinstance(a, SArr) or isinstance(b, SArr):
      return self.sarr_map(lambda x, y: self.maxmin(name, x, y), a, b)
    na, nb = self.to_num(a), self.to_num(b)
    if na is None or nb is None:
      if isinstance(a, Unk) or isinstance(b, Unk):
        return I.unk(name)
      if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return self.maxmin(name, self.np_array(a) if isinstance(a, (list, tuple)) else a,
                           self.np_array(b) if isinstance(b, (list, tuple)) else b)
      return I.unk(name)
    dt = 'int' if na.dtype == nb.dtype == 'int' else 'float'
    # guard against zero
    for x, y in ((na, nb), (nb, na)):
      c = x.t.const()
      if c is not None and 0 < c < TINY and name == 'max':
        cy = y.t.const()
        if cy is not None and cy <= 0:
          return self.elementwise(x.t, (na, nb), dt)
        out = self.elementwise(y.t, (na, nb), dt)
        if isinstance(out, Num):
          out.guard = True
        return out
    d = na.t - nb.t
    s = self.sign_of(d, fork=False)
    if s is None and d.sign() in ('+0', '-0'):
      s = d.sign()[0]
    if s is not None:
      first = (s in ('+', '0')) == (name == 'max')
      return self.elementwise((na if first else nb).t, (na, nb), dt)
    ts = []
    for t in (na.t, nb.t):
      if t.is_mono() and len(t.m[0][0]) == 1 and t.m[0][1] == 1 and t.m[0][0][0][1] == 1 and \
          t.m[0][0][0][0].op == name:
        ts.extend(t.m[0][0][0][0].args)
      else:
        ts.append(t)
    uniq = {}
    for t in ts:
      uniq[t.key] = t
    cs = [t for t in uniq.values() if t.const() is not None]
    if len(cs) > 1:
      keep = (max if name == 'max' else min)(cs, key=lambda t: t.const())
      uniq = {k: t for k, t in uniq.items() if t.const() is None or t is keep}
    args = tuple(sorted(uniq.values(), key=lambda t: t.key))
    signs = [t.sign() for t in args]
    sg = None
    if name == 'max' and any(x == '+' for x in signs):
      sg = '+'
    elif all(x == '+' for x in signs):
      sg = '+'
    elif all(x in ('+', '+0', '0') for x in signs) or \
        (name == 'max' and any(x in ('+0', '0') for x in signs)):
      sg = '+0'
    return self.elementwise(tm.func(name, args, sg), (na, nb), dt)

  def np_maximum(self, a, b, **k):
    return self.maxmin('max', a, b)

  def np_minimum(self, a, b, **k):
    return self.maxmin('min', a, b)

  np_fmax, np_fmin = np_maximum, np_minimum

  def np_clip(self, x, lo=None, hi=None, a_min=None, a_max=None, **k):
    lo = lo if lo is not None else a_min
    hi = hi if hi is not None else a_max
    if lo is not None:
      x = self.maxmin('max', x, lo)
    if hi is not None:
      x = self.maxmin('min', x, hi)
    return x

  # ---- elementwise functions
  def map1(self, x, f, g=None):
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, SArr):
      return SArr([self.map1(v, f) for v in x.items], 'float')
    n = self.to_num(x)
    if n is None:
      if isinstance(x, Inst):
        raise self.I.exc('TypeError', f"ufunc not supported for {x.cls.name}")
      return self.I.unk('elementwise function of ' + self.tname(x))
    r = f(n)
    if isinstance(r, T):
      out = Num(r, n.axes, n.kind if n.kind == 'arr' else 'float', 'float')
      out.mask, out.empty = n.mask, n.empty
      if n.kind == 'arr' and not n.axes:
        out.kind = 'float'
      return self.fold(out)
    return r

  def np_log(self, x, **k):
    def f(n):
      c = n.t.const()
      s = n.t.sign()
      guarded = n.guard or s == '+' or n.mask is not None or n.empty
      self.ctx.events.append(('log', self.I.site(), guarded, n.t.key))
      if c is not None:
        if c > 0:
          if c.denominator < 10000 and c.numerator < 10 ** 7:
            return tm.log_t(n.t)
          return tm.const_t(math.log(c))
        if c == 0:
          return tm.const_t(-math.inf)
        return tm.const_t(math.nan)
      return tm.log_t(n.t)
    if isinstance(x, (complex, Cplx)):
      return self.I.unk('complex log')
    if isinstance(x, SArr) or self.is_number(x) or isinstance(x, (list, tuple)):
      return self.map1(x, f)
    return self.I.unk('log of ' + self.tname(x))

  def np_exp(self, x, **k):
    def f(n):
      c = n.t.const()
      if c is not None:
        try:
          return tm.const_t(math.exp(c))
        except OverflowError:
          return tm.const_t(math.inf)
      if n.t.key == tm.const_t(-math.inf).key:
        return tm.ZERO
      if n.t.key == tm.const_t(math.inf).key:
        return n.t
      return tm.exp_t(n.t)
    return self.map1(x, f)

  def np_sqrt(self, x, **k):
    from fractions import Fraction
    def f(n):
      c = n.t.const()
      if c is not None and c >= 0:
        return tm.const_t(math.sqrt(c))
      return n.t.power(Fraction(1, 2))
    return self.map1(x, f)

  def np_square(self, x, **k):
    return self.arith('mul', x, x)

  def np_abs(self, x, **k):
    if isinstance(x, (complex,)):
      return abs(x)
    if isinstance(x, Cplx):
      if x.im.const() == 0:
        x = self.scalar(x.re)
      else:
        return self.I.unk('abs complex')
    if isinstance(x, NUMERIC):
      return abs(x)
    def f(n):
      s = n.t.sign()
      if s in ('+', '+0', '0'):
        return n.t
      if s in ('-', '-0'):
        return -n.t
      lead = n.t.m[0][1]
      t = n.t if lead > 0 else -n.t
      return tm.func('abs', (t,), '+0')
    return self.map1(x, f)

  np_absolute = np_abs
  np_fabs = np_abs

  def np_negative(self, x, **k):
    return self.unary('USub', x)

  def np_reciprocal(self, x, **k):
    return self.arith('truediv', 1., x)

  def ufunc1(name):
    def f(self, x, **k):
      return self.map1(x, lambda n: tm.func(name, (n.t,)))
    return f
  np_floor = ufunc1('floor')
  np_ceil = ufunc1('ceil')
  np_round = ufunc1('round')
  np_rint = ufunc1('rint')
  np_sin = ufunc1('sin')
  np_cos = ufunc1('cos')
  np_tanh = ufunc1('tanh')
  np_log2 = ufunc1('log2')
  np_log10 = ufunc1('log10')
  np_log1p = lambda self, x, **k: self.np_log(self.arith('add', 1., x))
  np_expm1 = lambda self, x, **k: self.arith('sub', self.np_exp(x), 1.)

  def np_sign(self, x, **k):
    n = self.to_num(x)
    if n is not None and not n.axes:
      return {'+': 1., '-': -1., '0': 0.}[self.sign_of(n.t)]
    return self.map1(x, lambda n: tm.func('sign', (n.t,)))

  def np_add(self, a, b, **k):
    return self.I.binop('add', a, b)

  def np_subtract(self, a, b, **k):
    return self.I.binop('sub', a, b)

  def np_multiply(self, a, b, **k):
    return self.I.binop('mul', a, b)

  def np_divide(self, a, b, **k):
    return self.I.binop('truediv', a, b)

  np_true_divide = np_divide

  def np_power(self, a, b, **k):
    return self.I.binop('pow', a, b)

  def np_mod(self, a, b, **k):
    return self.I.binop('mod', a, b)

  def np_logaddexp(self, a, b, **k):
    return self.np_log(self.arith('add', self.np_exp(a), self.np_exp(b)))

  def cmpf(op):
    def f(self, a, b, **k):
      return self.cmp(op, a, b)
    return f
  np_less = cmpf('<')
  np_less_equal = cmpf('<=')
  np_greater = cmpf('>')
  np_greater_equal = cmpf('>=')
  np_equal = cmpf('==')
  np_not_equal = cmpf('!=')

  def as_bool(self, x):
    if isinstance(x, (bool, int, float)):
      return bool(x)
    if isinstance(x, (list, tuple)):
      return SArr([self.as_bool(v) for v in x], 'bool')
    return x

  def np_logical_and(self, a, b, **k):
    return self.bool2('and_', a, b)

  def np_logical_or(self, a, b, **k):
    return self.bool2('or_', a, b)

  def np_logical_xor(self, a, b, **k):
    return self.bool2('xor', a, b)

  def bool2(self, op, a, b):
    a, b = self.as_bool(a), self.as_bool(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
      r = self.sarr_map(lambda x, y: self.bool2(op, x, y), a, b)
      if isinstance(r, SArr):
        r.dtype = 'bool'
      return r
    if isinstance(a, bool) and isinstance(b, bool):
      return getattr(operator, op)(a, b)
    na, nb = self.to_num(a), self.to_num(b)
    if na is None or nb is None:
      return self.I.unk('logical op')
    return self.bool_op(op, na, nb)

  def np_logical_not(self, a, **k):
    a = self.as_bool(a)
    if isinstance(a, bool):
      return not a
    if isinstance(a, SArr):
      return SArr([not self.I.truth(x) for x in a.items], 'bool')
    n = self.to_num(a)
    if n is None:
      return self.I.unk('not')
    kb = self.known_bool(n)
    if kb is not None:
      return self.bool_arr(not kb, n.axes)
    if not n.axes:
      return not self.I.truth(n)
    if n.cond is not None:
      op, d = n.cond
      out = Num(tm.func('cmp' + self.NEGATE[op], (d,)), n.axes, 'arr', 'bool')
      out.cond = (self.NEGATE[op], d)
      return out
    at = n.t.m[0][0][0][0] if n.t.is_mono() and len(n.t.m[0][0]) == 1 else None
    if at is not None and at.op == 'not':
      return Num(at.args[0], n.axes, 'arr', 'bool')
    return Num(tm.func('not', (n.t,)), n.axes, 'arr', 'bool')

  np_invert = np_logical_not

  def quant(self, which, x, axis=None):
    if isinstance(x, (bool, int, float)):
      return bool(x)
    if isinstance(x, (list, tuple, Gen)):
      x = SArr(list(self.I.iterate(x)))
    if isinstance(x, SArr):
      f = any if which == 'any' else all
      return f(self.I.truth(v) for v in x.items)
    n = self.to_num(x)
    if n is None:
      return self.I.truth(x)
    if not n.axes:
      return self.I.truth(n)
    kb = self.known_bool(n)
    if kb is not None:
      return kb
    if n.dtype != 'bool' and n.t.sign() in ('+', '-'):
      return True
    if axis is not None:
      return self.I.unk(which + ' along axis')
    if all(l is None for l in n.axes):
      return self.I.truth(Num(n.t, (), 'bool', 'bool')) if n.cond is None else \
          self.op_on_sign(n.cond[0], self.sign_of(n.cond[1]))
    if which == 'all':
      ng = self.np_logical_not(n)
      k1, k2 = ('bool', f"any({ng.t.key})"), True
      return not self.ctx.decide(('any', ng.t.key), (True, False),
                                 taint=n.t.key if n.t.opaque else None) \
          if False else self.decide_quant('all', n)
    return self.decide_quant('any', n)

  def decide_quant(self, which, n):
    t = n.t
    taint = t.key if t.opaque else None
    return self.ctx.decide((which, t.key), (True, False), taint=taint)

  def np_all(self, x, axis=None, **k):
    return self.quant('all', x, axis)

  def np_any(self, x, axis=None, **k):
    return self.quant('any', x, axis)

  def np_allclose(self, a, b, *x, **k):
    return self.close('allclose', a, b)

  def np_isclose(self, a, b, *x, **k):
    return self.close('isclose', a, b)

  def np_array_equal(self, a, b, **k):
    return self.close('array_equal', a, b)

  def close(self, name, a, b):
    if isinstance(a, (list, tuple)):
      a = self.np_array(a)
    if isinstance(b, (list, tuple)):
      b = self.np_array(b)
    if isinstance(a, SArr) and isinstance(b, SArr):
      if len(a.items) != len(b.items):
        raise self.I.exc('ValueError', 'operands could not be broadcast together')
      return all(self.close(name, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
      return math.isclose(a, b, rel_tol=1e-5, abs_tol=1e-8)
    na, nb = self.to_num(a), self.to_num(b)
    if na is None or nb is None:
      return self.I.unk(name)
    self.broadcast(na, nb)
    if na.t.key == nb.t.key:
      return True
    if not na.axes and not nb.axes:
      return self.scalar_eq(na.t - nb.t)
    return self.ctx.decide((name, (na.t - nb.t).key), (True, False))

  def np_isfinite(self, x, **k):
    return self.finite(x, True)

  def np_isinf(self, x, **k):
    r = self.finite(x, True)
    return self.np_logical_not(r)

  def np_isnan(self, x, **k):
    if isinstance(x, float):
      return math.isnan(x)
    if isinstance(x, int):
      return False
    n = self.to_num(x)
    if n is None:
      return self.I.unk('isnan')
    return self.bool_arr(any(a.op == 'nan' for a in n.t.atoms()), n.axes)

  def finite(self, x, v):
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, SArr):
      return SArr([self.finite(y, v) for y in x.items], 'bool')
    if isinstance(x, (int, float)):
      return math.isfinite(x)
    if isinstance(x, Opq):
      raise self.I.exc('TypeError', 'ufunc isfinite not supported for input types')
    n = self.to_num(x)
    if n is None:
      return self.I.unk('isfinite')
    inf = any(a.op in ('inf', 'nan') for a in n.t.atoms())
    return self.bool_arr(not inf, n.axes)

  def np_real(self, x):
    if isinstance(x, complex):
      return x.real
    if isinstance(x, Cplx):
      return self.scalar(x.re)
    if isinstance(x, SArr):
      return SArr([self.np_real(v) for v in x.items], 'float' if x.dtype == 'complex' else x.dtype)
    if isinstance(x, (list, tuple)):
      return self.np_real(self.np_array(x))
    return x

  def np_imag(self, x):
    if isinstance(x, complex):
      return x.imag
    if isinstance(x, Cplx):
      return self.scalar(x.im)
    if isinstance(x, SArr):
      return SArr([self.np_imag(v) for v in x.items], 'float' if x.dtype == 'complex' else x.dtype)
    if isinstance(x, (list, tuple)):
      return self.np_imag(self.np_array(x))
    return 0.

  def np_real_if_close(self, x, tol=100):
    items = x.items if isinstance(x, SArr) else [x]
    ims = []
    for v in items:
      if isinstance(v, Cplx):
        ims.append(tm.numeric(v.im))
      else:
        ims.append(v.imag if isinstance(v, complex) else 0.)
    if any(v is None for v in ims):
      return self.I.unk('closeness to the reals')
    return self.np_real(x) if all(v == 0 for v in ims) else x

  def np_iscomplex(self, x):
    return isinstance(x, (complex, Cplx))

  np_iscomplexobj = np_iscomplex

  def np_where(self, c, *ab):
    if not ab:
      return self.np_nonzero(c)
    a, b = ab
    if isinstance(c, SArr):
      a = a if isinstance(a, SArr) else SArr([a] * len(c.items))
      b = b if isinstance(b, SArr) else SArr([b] * len(c.items))
      return SArr([x if self.I.truth(q) else y for q, x, y in zip(c.items, a.items, b.items)])
    n = self.to_num(c)
    if n is None:
      return self.I.unk('where')
    na, nb = self.to_num(a), self.to_num(b)
    if na is None or nb is None:
      return self.I.unk('where')
    axes = self.broadcast(n, na, nb)
    kb = self.known_bool(n)
    if kb is None and not n.axes:
      kb = self.I.truth(n)
    if kb is not None:
      t = na.t if kb else nb.t
    else:
      t = self.where_t(n, na.t, nb.t)
    if axes:
      return Num(t, axes, 'arr', 'float')
    return self.scalar(t)

  # ---- construction
  def fam(self, dtype):
    if dtype is None:
      return None
    if dtype in (float, int, bool, object) and isinstance(dtype, type):
      return {float: 'float', int: 'int', bool: 'bool', object: 'object'}[dtype]
    if isinstance(dtype, str):
      dtype = DType(dtype)
    if isinstance(dtype, Lib):
      dtype = DType(dtype.path.split('.')[-1])
    if isinstance(dtype, DType):
      return {'uint': 'int'}.get(dtype.family, dtype.family)
    return 'float'

  def np_dtype(self, x):
    if isinstance(x, str):
      return DType(x)
    if isinstance(x, type):
      return DType(x.__name__)
    if isinstance(x, DType):
      return x
    if isinstance(x, Lib):
      return DType(x.path.split('.')[-1].rstrip('_'))
    return self.I.unk('dtype')

  def np_array(self, x, dtype=None, copy=True, ndmin=0, **k):
    fam = self.fam(dtype)
    if isinstance(x, (Gen, ) + VIEWS):
      return self.I.unk('array of iterator')
    if isinstance(x, (list, tuple, range)) or isinstance(x, Deque):
      items = list(x)
      if items and all(isinstance(v, (list, tuple)) for v in items):
        if all(len(v) == 1 for v in items):
          return self.I.unk('column array')
        return self.I.unk('nested array')
      if items and any(isinstance(v, (list, tuple, SArr)) or (isinstance(v, Num) and v.axes)
                       for v in items):
        if len(items) == 1 and isinstance(items[0], Num):
          n = items[0]
          return Num(n.t, (None,) + n.axes, 'arr', n.dtype)
        return self.I.unk('array of arrays')
      if any(isinstance(v, Unk) for v in items):
        pass
      if fam is None:
        fam = self.infer(items)
      return SArr([self.conv(v, fam) for v in items], fam)
    if isinstance(x, SArr):
      f = fam or x.dtype
      return SArr([self.conv(v, f) for v in x.items], f)
    if isinstance(x, Num):
      out = self.clone(x)
      if fam and fam != out.dtype:
        out = self.astype(out, {'float': float, 'int': int, 'bool': bool}.get(fam, object))
      out.kind = 'arr'
      return out
    if isinstance(x, NUMERIC):
      n = self.to_num(x)
      out = Num(n.t, (), 'arr', fam or n.dtype)
      if ndmin:
        return SArr([x])
      return out
    if isinstance(x, NT):
      return self.np_array(list(x.vals), dtype)
    if isinstance(x, Inst) and isinstance(x.payload, list):
      return self.np_array(x.payload, dtype)
    if isinstance(x, Inst) and x.cls.lookup('__array__')[0] is not None:
      return self.np_array(self.I.call(self.I.getattr(x, '__array__'), [], {}), dtype)
    if isinstance(x, Opq) and fam == 'float' and x.kind == 'sympy.oo':
      return Num(tm.const_t(math.inf if not x.key.startswith('-') else -math.inf), (), 'arr')
    if isinstance(x, (ASet, dict, str)) or x is None:
      return Opq(f"array({self.okey(x)})", 'numpy.object_array')
    return self.I.unk('array of ' + self.tname(x))

  def np_asarray(self, x, dtype=None, **k):
    if isinstance(x, (Num, SArr)) and self.is_arr(x) and dtype is None:
      return x
    return self.np_array(x, dtype)

  np_ascontiguousarray = np_asarray
  np_asanyarray = np_asarray

  def infer(self, items):
    fams = set()
    for v in items:
      if isinstance(v, bool):
        fams.add('bool')
      elif isinstance(v, int):
        fams.add('int')
      elif isinstance(v, float):
        fams.add('float')
      elif isinstance(v, Num):
        fams.add(v.dtype)
      elif isinstance(v, Opq) or v is None:
        fams.add('object')
      elif isinstance(v, str):
        fams.add('U')
      else:
        fams.add('object')
    for f in ('object', 'U', 'float', 'int', 'bool'):
      if f in fams:
        return f
    return 'float'

  def full(self, shape, v, fam):
    ts = self.norm_shape(shape)
    if ts is None:
      return self.I.unk('full')
    if len(ts) == 1 and ts[0].const() is not None:
      return SArr([v] * max(0, int(ts[0].const())), fam)
    axes = tuple(self.label_for(t) for t in ts)
    return Num(self.numt(v), axes, 'arr', fam)

  def np_ones(self, shape, dtype=None, **k):
    f = self.fam(dtype) or 'float'
    return self.full(shape, self.conv(1, f), f)

  def np_zeros(self, shape, dtype=None, **k):
    f = self.fam(dtype) or 'float'
    if f == 'S':
      return self.zeros_bytes(shape)
    return self.full(shape, self.conv(0, f), f)

  def np_full(self, shape, v, dtype=None, **k):
    n = self.to_num(v)
    return self.full(shape, v, self.fam(dtype) or (n.dtype if n else 'float'))

  def np_empty(self, shape, dtype=None, **k):
    ts = self.norm_shape(shape)
    if ts is None:
      return self.I.unk('empty')
    if len(ts) == 1 and ts[0].const() is not None:
      return SArr([self.I.unk('uninitialised')] * int(ts[0].const()), self.fam(dtype) or 'float')
    axes = tuple(self.label_for(t) for t in ts)
    return Num(tm.opaque(self.fresh('empty')), axes, 'arr', self.fam(dtype) or 'float')

  def like(self, x, v, dtype):
    if isinstance(x, SArr):
      return SArr([v] * len(x.items), self.fam(dtype) or x.dtype)
    n = self.to_num(x)
    if n is None:
      return self.np_full(len(x), v) if isinstance(x, (list, tuple)) else self.I.unk('like')
    return Num(self.numt(v), n.axes, 'arr', self.fam(dtype) or n.dtype)

  def np_eye(self, n, M=None, k=0, dtype=None, **kw):
    n, k = self.I.as_int(n), self.I.as_int(k)
    m = n if M is None else self.I.as_int(M)
    if n is None or m is None or k is None:
      return self.I.unk('eye')
    f = self.fam(dtype) or 'float'
    return NArr((n, m), [self.conv(int(j - i == k), f) for i in range(n) for j in range(m)], f)

  def np_identity(self, n, dtype=None, **kw):
    return self.np_eye(n, dtype=dtype)

  def np_zeros_like(self, x, dtype=None, **k):
    return self.like(x, 0, dtype)

  def np_ones_like(self, x, dtype=None, **k):
    return self.like(x, 1, dtype)

  def np_full_like(self, x, v, dtype=None, **k):
    return self.like(x, v, dtype)

  def np_empty_like(self, x, dtype=None, **k):
    return self.like(x, 0, dtype)

  def np_tile(self, v, shape):
    n = self.to_num(v)
    if n is None or n.axes:
      return self.I.unk('tile')
    ts = self.norm_shape(shape)
    if ts is None:
      return self.I.unk('tile')
    if len(ts) == 1 and ts[0].const() is not None:
      return SArr([v] * int(ts[0].const()))
    return Num(n.t, tuple(self.label_for(t) for t in ts), 'arr', 'float')

  def np_copy(self, x, **k):
    if isinstance(x, SArr):
      return SArr(x.items, x.dtype)
    if isinstance(x, Num):
      out = self.clone(x)
      out.kind = 'arr'
      return out
    return self.np_array(x)

  def np_isscalar(self, x):
    if isinstance(x, (bool, int, float, complex, str, bytes)):
      return True
    if isinstance(x, Cplx):
      return True
    if isinstance(x, Num):
      return x.kind != 'arr'
    if isinstance(x, Unk):
      return self.I.unk('isscalar')
    return False

  def np_ndim(self, x):
    if isinstance(x, SArr):
      return 1
    if isinstance(x, Num):
      return len(x.axes)
    if isinstance(x, (list, tuple)):
      return 1
    return 0

  def np_size(self, x):
    if isinstance(x, (list, tuple)):
      return len(x)
    if isinstance(x, (Num, SArr)):
      return self.num_attr(x, 'size') if self.is_arr(x) else 1
    return 1

  def np_shape(self, x):
    if self.is_arr(x):
      return self.shape_of(x)
    if isinstance(x, (list, tuple)):
      return (len(x),)
    return ()

  def np_ravel(self, x, **k):
    if isinstance(x, (list, tuple)):
      a = self.np_array(x)
      if isinstance(a, Unk):
        # list of scalars and one-element arrays
        return self.np_concatenate([self.np_ravel(v) for v in x]) if len(x) else SArr([])
      return a
    if isinstance(x, SArr):
      return SArr(x.items, x.dtype, x)
    n = self.to_num(x)
    if n is None:
      return self.I.unk('ravel')
    labs = []
    for l in n.axes:
      labs.extend(self.base_labels(l))
    if not labs:
      c = n.t.const()
      return SArr([self.fold(Num(n.t, (), {'int': 'int', 'bool': 'bool'}.get(n.dtype, 'float'),
                                 n.dtype))], n.dtype)
    lab = labs[0] if len(labs) == 1 else tuple(labs)
    out = Num(n.t, (lab,), 'arr', n.dtype, n)
    out.cond, out.lin, out.mask, out.empty = n.cond, n.lin, n.mask, n.empty
    return out

  def np_reshape(self, x, shape, **k):
    if isinstance(x, (list, tuple)):
      x = self.I.call(self.I.getattr(self.I.load('numpy'), 'array'), [x], {})
    return self.reshape(x, shape)

  def np_moveaxis(self, x, src, dst):
    if isinstance(x, SArr):
      return x
    n = len(x.axes)
    def lst(v):
      if isinstance(v, (list, tuple, SArr)):
        return [self.I.as_int(i) for i in self.I.iterate(v)]
      return [self.I.as_int(v)]
    s, d = lst(src), lst(dst)
    for v, w in ((s, src), (d, dst)):
      if None in v:
        if any(q is None for q in self.I.iterate(w)):
          raise self.I.exc('TypeError', 'axis None in moveaxis')
        return self.I.unk('moveaxis')
      for i in v:
        if not -n <= i < n:
          raise self.I.exc('AxisError', f"axis {i} is out of bounds for array of dimension {n}")
    s, d = [i % n for i in s], [i % n for i in d]
    if len(s) != len(d):
      raise self.I.exc('ValueError', 'source and destination must have the same number')
    if len(set(s)) != len(s) or len(set(d)) != len(d):
      raise self.I.exc('ValueError', 'repeated axis in moveaxis')
    order = [i for i in range(n) if i not in s]
    for di, si in sorted(zip(d, s)):
      order.insert(di, si)
    return self.permute(x, order)

  def permute(self, x, order):
    out = Num(x.t, tuple(x.axes[i] for i in order), x.kind, x.dtype, x)
    out.cond = x.cond
    return out

  def np_transpose(self, x, *axes, **k):
    axes = k.get('axes', axes)
    if len(axes) == 1 and isinstance(axes[0], (list, tuple)):
      axes = axes[0]
    if isinstance(x, SArr):
      return x
    if not axes or axes[0] is None:
      return self.permute(x, list(range(len(x.axes)))[::-1])
    order = [self.I.as_int(i) for i in axes]
    if sorted(i % len(x.axes) for i in order) != list(range(len(x.axes))):
      raise self.I.exc('ValueError', "axes don't match array")
    return self.permute(x, [i % len(x.axes) for i in order])

  def np_swapaxes(self, x, a, b):
    n = len(x.axes)
    a, b = self.I.as_int(a), self.I.as_int(b)
    if not (-n <= a < n and -n <= b < n):
      raise self.I.exc('AxisError', 'swapaxes')
    o = list(range(n))
    o[a % n], o[b % n] = o[b % n], o[a % n]
    return self.permute(x, o)

  def np_expand_dims(self, x, axis):
    if isinstance(x, SArr):
      return self.I.unk('expand_dims')
    ax = axis if isinstance(axis, (list, tuple)) else [axis]
    n = len(x.axes) + len(ax)
    pos = sorted(self.I.as_int(i) % n for i in ax)
    axes = list(x.axes)
    for i in pos:
      axes.insert(i, None)
    out = Num(x.t, tuple(axes), 'arr', x.dtype, x)
    out.cond = x.cond
    return out

  def np_squeeze(self, x, axis=None):
    if not isinstance(x, Num):
      return x
    if axis is None:
      axes = tuple(l for l in x.axes if l is not None)
    else:
      ax = self.axis_list(x, axis)
      for i in ax:
        if x.axes[i] is not None:
          raise self.I.exc('ValueError', 'cannot squeeze axis of size other than one')
      axes = tuple(l for i, l in enumerate(x.axes) if i not in ax)
    return Num(x.t, axes, 'arr', x.dtype, x)

  def np_atleast_1d(self, x):
    if isinstance(x, (list, tuple)):
      return self.np_array(x)
    if isinstance(x, SArr):
      return x
    n = self.to_num(x)
    if n is None:
      return SArr([x], 'object')
    if n.axes:
      return n
    return SArr([x if not isinstance(x, Num) else self.fold(Num(n.t, (), {'int': 'int', 'bool': 'bool'}.get(n.dtype, 'float'), n.dtype))], n.dtype)

  def np_atleast_2d(self, x):
    n = x if isinstance(x, Num) else self.to_num(x)
    if n is None:
      return self.I.unk('atleast_2d')
    axes = n.axes
    while len(axes) < 2:
      axes = (None,) + axes
    return Num(n.t, axes, 'arr', n.dtype, n)

  def np_broadcast_to(self, x, shape, **k):
    axes = self.axes_from_shape(shape)
    n = self.to_num(x)
    if n is None or axes is None:
      return self.I.unk('broadcast_to')
    b = self.broadcast(n, Num(tm.ONE, axes, 'arr'))
    return Num(n.t, b, 'arr', n.dtype)

  def np_cumsum(self, x, axis=None, **k):
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, SArr):
      out, acc = [], 0
      for v in x.items:
        acc = self.I.binop('add', acc, int(v) if isinstance(v, bool) else v)
        out.append(acc)
      return SArr(out, 'int' if x.dtype in ('bool', 'int') else x.dtype)
    if len(x.axes) != 1 or x.axes[0] is None:
      return self.I.unk('cumsum of tensor')
    return Num(tm.func('cumsum', (x.t, str(x.axes[0])), x.t.sign(), labels=x.t.labels), x.axes,
               'arr', 'float')

  def np_cumprod(self, x, **k):
    return self.I.unk('cumprod')

  def np_diff(self, x, **k):
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, SArr):
      return SArr([self.I.binop('sub', b, a) for a, b in zip(x.items, x.items[1:])], x.dtype)
    if isinstance(x, Num) and len(x.axes) == 1:
      lab = x.axes[0]
      nl = f"diff({lab})"
      self.ctx.sizes[nl] = self.size_of(lab) - tm.ONE
      return Num(tm.func('diff', (x.t,), labels={nl}), (nl,), 'arr', x.dtype)
    return self.I.unk('diff')

  def np_argsort(self, x, **k):
    if isinstance(x, Num) and len(x.axes) == 1:
      return Num(tm.func('argsort', (x.t,), '+0', labels=x.t.labels), x.axes, 'arr', 'int')
    if isinstance(x, SArr) and all(isinstance(v, NUMERIC) for v in x.items):
      return SArr(sorted(range(len(x.items)), key=lambda i: x.items[i]), 'int')
    return self.I.unk('argsort')

  def np_sort(self, x, **k):
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, Num) and len(x.axes) == 1:
      idx = self.np_argsort(x)
      return self.index(x, idx)
    if isinstance(x, SArr):
      if all(isinstance(v, NUMERIC) for v in x.items):
        return SArr(sorted(x.items), x.dtype)
      items = list(x.items)
      # insertion by the order domain
      out = []
      for v in items:
        i = 0
        while i < len(out) and not self.I.truth(self.cmp('<', v, out[i])):
          i += 1
        out.insert(i, v)
      return SArr(out, x.dtype)
    return self.I.unk('sort')

  def np_unique(self, x, **k):
    if k:
      return self.I.unk('unique with options')
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(x, SArr) and all(isinstance(v, NUMERIC) for v in x.items):
      return SArr(sorted(set(x.items)), x.dtype)
    if isinstance(x, Num) and len(x.axes) == 1:
      nl = f"unique({x.t.key})"
      self.ctx.sizes[nl] = tm.func('nunique', (x.t,), '+0', labels=(), integer=True)
      return Num(tm.func('unique', (x.t,), labels={nl}), (nl,), 'arr', x.dtype)
    return self.I.unk('unique')

  def np_nonzero(self, x, **k):
    if isinstance(x, SArr):
      return (SArr([i for i, v in enumerate(x.items) if self.I.truth(v)], 'int'),)
    n = self.to_num(x)
    if n is None or len(n.axes) != 1:
      return self.I.unk('nonzero')
    nl = f"nz({n.t.key})"
    cnt = tm.func('count', (n.t,), '+0', labels=(), integer=True)
    self.ctx.sizes[nl] = cnt
    return (Num(tm.func('nonzero', (n.t,), '+0', labels={nl}, integer=True), (nl,), 'arr', 'int'),)

  def np_flatnonzero(self, x):
    return self.np_nonzero(self.np_ravel(x))[0]

  def np_argwhere(self, x):
    return self.I.unk('argwhere')

  def np_count_nonzero(self, x, **k):
    return self.np_sum(x)

  def np_argmax(self, x, axis=None, **k):
    return self.arg('argmax', x, axis)

  def np_argmin(self, x, axis=None, **k):
    return self.arg('argmin', x, axis)

  def arg(self, name, x, axis):
    if isinstance(x, Num) and x.axes and axis is None:
      return Num(tm.func(name, (x.t, ','.join(self.lname(l) for l in x.axes if l)), '+0', labels=(),
                         integer=True), (), 'int', 'int')
    return self.I.unk(name)

  def np_digitize(self, x, bins, right=False, **k):
    n = self.to_num(x) if not isinstance(x, (SArr, list, tuple)) else x
    tb = self.numt(bins)
    if tb is None:
      if isinstance(bins, SArr) and all(self.numt(v) is not None for v in bins.items):
        tb = tm.func('explicit', tuple(self.numt(v) for v in bins.items))
      else:
        return self.I.unk('digitize')
    r = 'digitize_r' if self.I.truth(right) else 'digitize'
    if isinstance(bins, SArr):
      bs = [tm.numeric(self.numt(v)) for v in bins.items]

      def count(v):
        c = tm.numeric(self.numt(v))
        return None if c is None else len([b for b in bs if (b < c if r[-2:] == '_r' else b <= c)])
      if None not in bs and bs == sorted(bs):
        vs = n.items if isinstance(n, SArr) else None if isinstance(n, (list, tuple)) or n is None \
            or n.axes else [n]
        cs = [count(v) if self.numt(v) is not None else None for v in vs] if vs else [None]
        if vs and len(vs) <= 4:
          cs = [self.bin_of(v, bs, r[-2:] == '_r') if c is None else c for v, c in zip(vs, cs)]
        if None not in cs:
          return SArr(cs, 'int') if isinstance(n, SArr) else cs[0]
    f = lambda v: tm.func(r, (self.numt(v), tb), '+0', labels=self.numt(v).labels, integer=True)
    if isinstance(n, (list, tuple)):
      n = self.np_array(n)
    if isinstance(n, SArr):
      return SArr([Num(f(v), (), 'int', 'int') for v in n.items], 'int')
    if n is None:
      return self.I.unk('digitize')
    if not n.axes:
      return Num(f(n), (), 'int', 'int')
    return Num(f(n), n.axes, 'arr', 'int')

  def bin_of(self, v, bs, right):
    """ bin of a draw from an interval: one partition for each bin it can fall in """
    t = self.numt(v)
    if t is None:
      return None
    a, b, u = 0., None, None
    for mon, c in t.m:
      if not mon:
        a = float(c)
      elif len(mon) == 1 and mon[0][1] == 1 and mon[0][0].op == 'rand.unit':
        b, u = float(c), mon[0][0]
      else:
        return None
    if not b or b < 0:
      return None
    edges = [float('-inf')] + list(bs) + [float('inf')]
    opts = tuple(i for i in range(len(bs) + 1) if edges[i] < a + b and edges[i + 1] > a and edges[i] < edges[i + 1])
    if not opts:
      return None
    i = self.ctx.decide(('bin', u.key, tuple(bs)), opts)
    self.ctx.events.append(('bin', u.key, (max(0., (edges[i] - a) / b), min(1., (edges[i + 1] - a) / b)), None,
                            self.I.site()))
    return i

  def np_searchsorted(self, bins, x, side='left', **k):
    return self.np_digitize(x, bins, right=(side == 'left'))

  def np_interp(self, x, xp, fp, **k):
    ps = [self.nd(v) for v in (xp, fp)]
    px = self.nd(x)
    if all(p is not None and len(p[0]) == 1 for p in ps) and not k and \
        (px is None or px[0] == ()):
      xs = [tm.numeric(self.numt(v)) if self.numt(v) is not None else None for v in ps[0][1]]
      at = self.numt(x)
      c = tm.numeric(at) if at is not None else None
      fs = [self.numt(v) for v in ps[1][1]]
      if len(xs) != len(fs):
        raise self.I.exc('ValueError', 'fp and xp are not of the same length.')
      if c is not None and None not in xs and None not in fs and xs and xs == sorted(xs):
        if c <= xs[0]:
          return Num(fs[0], (), 'float', 'float')
        if c >= xs[-1]:
          return Num(fs[-1], (), 'float', 'float')
        i = max(j for j in range(len(xs)) if xs[j] <= c)
        x0, x1 = self.numt(ps[0][1][i]), self.numt(ps[0][1][i + 1])
        return Num(fs[i] + (at - x0) * (fs[i + 1] - fs[i]) / (x1 - x0), (), 'float', 'float')
    ts = []
    for v in (x, xp, fp):
      t = self.numt(v)
      if t is None:
        return self.I.unk('interp')
      ts.append(t)
    nx = self.to_num(x)
    return self.elementwise(tm.func('interp', tuple(ts), labels=ts[0].labels), (nx,))

  def np_unravel_index(self, i, shape, **k):
    ts = self.norm_shape(shape)
    ti = self.numt(i)
    if ts is None or ti is None:
      return self.I.unk('unravel_index')
    if len(ts) == 1:
      return (Num(ti, (), 'int', 'int'),)
    c, cs = ti.const(), [t.const() for t in ts]
    if c is not None and None not in cs:
      c, out = int(c), []
      for n in reversed([int(n) for n in cs]):
        out.insert(0, c % n)
        c //= n
      if c:
        raise self.I.exc('ValueError', 'index is out of bounds for array with that size')
      return tuple(out)
    return tuple(Num(tm.func('unravel', (ti, tuple(t.key for t in ts), j), '+0', integer=True),
                     (), 'int', 'int') for j in range(len(ts)))

  def np_concatenate(self, xs, axis=0, **k):
    xs = list(self.I.iterate(xs))
    xs = [self.np_array(x) if isinstance(x, (list, tuple)) else x for x in xs]
    if all(isinstance(x, SArr) for x in xs):
      out = []
      for x in xs:
        out.extend(x.items)
      return SArr(out, self.infer(out))
    if any(not isinstance(x, (Num, SArr)) for x in xs):
      return self.I.unk('concatenate')
    if len(xs) == 1:
      return self.np_copy(xs[0])
    nums = [x for x in xs if isinstance(x, Num)]
    if len(nums) != len(xs):
      return self.I.unk('concatenate mixed')
    i = self.I.as_int(axis)
    nd = len(nums[0].axes)
    if any(len(x.axes) != nd for x in nums) or i is None:
      raise self.I.exc('ValueError', 'all the input array dimensions must match')
    if not -nd <= i < nd:
      raise self.I.exc('AxisError', 'axis out of bounds in concatenate')
    i %= nd
    labs = [x.axes[i] for x in nums]
    for x in nums[1:]:
      for j in range(nd):
        if j != i and x.axes[j] != nums[0].axes[j]:
          raise self.I.exc('ValueError', 'all the input array dimensions except for the '
                           f"concatenation axis must match: {x.axes[j]} against {nums[0].axes[j]}")
    nl = 'cat(' + '+'.join(str(l) for l in labs) + ')'
    size = tm.ZERO
    for l in labs:
      size = size + self.size_of(l)
    self.ctx.sizes[nl] = size
    other = set()
    for x in nums:
      other |= x.t.labels
    for l in labs:
      other -= set(self.base_labels(l))
    t = tm.func('cat', tuple(x.t for x in nums) + (','.join(str(l) for l in labs),), labels=other | {nl})
    return Num(t, nums[0].axes[:i] + (nl,) + nums[0].axes[i + 1:], 'arr', nums[0].dtype)

  def np_hstack(self, xs):
    xs = list(self.I.iterate(xs))
    if xs and all(isinstance(x, (bool, int, float)) for x in xs):
      return self.np_array(xs)
    return self.np_concatenate(xs, axis=-1)

  def np_append(self, a, b, **k):
    return self.np_concatenate([self.np_ravel(a), self.np_ravel(b)])

  def np_vstack(self, xs):
    xs = list(self.I.iterate(xs))
    xs = [self.np_array(x) if isinstance(x, (list, tuple)) else x for x in xs]
    if xs and all(isinstance(x, SArr) for x in xs):
      if any(len(x.items) != len(xs[0].items) for x in xs):
        raise self.I.exc('ValueError', 'all the input array dimensions except for the concatenation axis must match')
      return self.np_array([list(x.items) for x in xs], xs[0].dtype)
    return self.I.unk('vstack')

  def np_binary_repr(self, num, width=None):
    i = self.I.as_int(num)
    if i is None or width is not None:
      return self.I.unk('binary representation of an unknown integer')
    return ('-' if i < 0 else '') + format(abs(i), 'b')

  def np_meshgrid(self, *xs, indexing='xy', **k):
    nums = [self.np_ravel(x) for x in xs]
    if any(not isinstance(n, Num) for n in nums):
      return self.I.unk('meshgrid')
    axes = [n.axes[0] for n in nums]
    if indexing == 'xy' and len(axes) > 1:
      axes[0], axes[1] = axes[1], axes[0]
    return [Num(n.t, tuple(axes), 'arr', n.dtype) for n in nums]

  def np_in1d(self, x, y, **k):
    return self.np_isin(self.np_ravel(x), y, **k)

  def np_isin(self, x, y, assume_unique=False, invert=False, **k):
    if self.I.truth(invert):
      return self.np_logical_not(self.np_isin(x, y, assume_unique))
    if isinstance(x, (list, tuple)):
      x = self.np_array(x)
    if isinstance(y, ASet):   # numpy takes a set for a single object
      y = ['<set>']
    if isinstance(x, SArr) and isinstance(y, (list, tuple, SArr)):
      ys = y.items if isinstance(y, SArr) else list(y)
      out = [any(self.I.truth(self.cmp('==', v, w)) for w in ys) for v in x.items]
      if self.I.truth(assume_unique) and len(ys) >= 10 * len(x.items) ** 0.145:
        # numpy sorts and compares neighbours: repeated values pass for members
        vals = [self.I.as_int(v) for v in x.items + ys]
        if None in vals or max(vals) - min(vals) > 6 * len(vals):
          for i, v in enumerate(x.items):
            if any(self.I.truth(self.cmp('==', v, w)) for w in x.items[i + 1:]):
              out[i] = True
      return SArr(out, 'bool')
    n = self.to_num(x)
    if n is None:
      return self.I.unk('isin')
    if isinstance(y, SArr):
      y = y.items
    ys = list(self.I.iterate(y)) if isinstance(y, (list, tuple, ASet)) else None
    if ys is None:
      ty = self.numt(y)
      if ty is None:
        return self.I.unk('isin')
      t = tm.func('isin', (n.t, ty), labels=n.t.labels)
    else:
      ts = [self.numt(v) for v in ys]
      if None in ts:
        return self.I.unk('isin')
      if not n.axes:
        return any(self.I.truth(self.cmp('==', x, v)) for v in ys)
      t = tm.func('isin', (n.t, tuple(sorted(q.key for q in ts))), labels=n.t.labels)
    if n.axes:
      return Num(t, n.axes, 'arr', 'bool')
    return Num(t, (), 'bool', 'bool')

  def np_linspace(self, a, b, n=50, endpoint=True, **k):
    n = k.get('num', n)
    ta, tb, tn = self.numt(a), self.numt(b), self.numt(n)
    if None in (ta, tb, tn):
      return self.I.unk('linspace')
    lab = f"lin({ta.key};{tb.key};{tn.key})"
    ep = self.I.truth(endpoint)
    c = tn.const()
    if c is not None and c.denominator == 1 and c <= 16:
      c = int(c)
      if c < 0:
        raise self.I.exc('ValueError', f"Number of samples, {c}, must be non-negative.")
      den = (c - 1 if ep else c) or 1
      return SArr([Num(ta + (tb - ta) * tm.const_t(tm.Fraction(i, den)), (), 'float', 'float')
                   for i in range(c)], 'float')
    self.ctx.sizes[lab] = tn
    out = Num(tm.func('linspace' if ep else 'linspace_open', (ta, tb, tn), labels={lab}), (lab,),
              'arr', 'float')
    out.lin = (ta, tb, tn, 0, 0 if ep else -1) if ep else (ta, tb, tn + tm.ONE, 0, 1)
    return out

  def np_arange(self, *a, dtype=None, **k):
    ints = [self.I.as_int(x) for x in a]
    if all(i is not None for i in ints):
      return SArr(list(range(*ints)), 'int')
    if len(a) == 1:
      t = self.numt(a[0])
      if t is not None:
        lab = self.label_for(t)
        if lab is None:
          return SArr([0], 'int')
        if isinstance(lab, tuple):
          return self.I.unk('arange')
        return Num(tm.sym('idx:' + lab, (lab,), '+0', integer=True), (lab,), 'arr', 'int')
    ts = [self.numt(x) for x in a]
    if None in ts:
      return self.I.unk('arange')
    if len(ts) == 2:
      n = ts[1] - ts[0]
      lab = f"<{n.key}>"
      self.ctx.sizes[lab] = n
      out = Num(tm.func('arange', tuple(ts), labels={lab}), (lab,), 'arr', 'int')
      out.lin = ('arange', ts[0], ts[1], 0, 0)
      return out
    return self.I.unk('arange')

  def np_dot(self, a, b, **k):
    if isinstance(a, Num) and isinstance(b, Num) and len(a.axes) == 1 and len(b.axes) == 1:
      return self.np_sum(self.arith('mul', a, b))
    return self.I.unk('dot')

  def np_outer(self, a, b):
    a, b = self.np_ravel(a), self.np_ravel(b)
    if isinstance(a, Num) and isinstance(b, Num):
      return self.arith('mul', self.index(a, (self.full_slice(), None)),
                        self.index(b, (None, self.full_slice())))
    return self.I.unk('outer')

  def full_slice(self):
    from .interp import SliceV
    return SliceV(None, None)

  def np_repeat(self, *a, **k):
    return self.I.unk('repeat')

  def np_take(self, x, idx, axis=None, **k):
    if axis is None:
      return self.index(self.np_ravel(x), idx)
    i = self.I.as_int(axis)
    ks = [self.full_slice()] * len(x.axes)
    ks[i] = idx
    return self.index(x, tuple(ks))

  def np_errstate(self, **k):
    return self.I.unk('errstate')

  # ---- randomness
  def rng(self, name, args, size):
    ts = [self.numt(x) for x in args]
    if any(t is None for t in ts):
      sar = [x for x in args if isinstance(x, SArr)]
      if sar and size is None:
        n = len(sar[0].items)
        return SArr([self.rng(name, [x.items[i] if isinstance(x, SArr) else x for x in args], None)
                     for i in range(n)])
      self.ctx.events.append(('rng', name, None, None, self.I.site()))
      return self.I.unk('random ' + name)
    self.ctx.fresh += 1
    tag = f"rnd{self.ctx.fresh}"
    self.ctx.events.append(('rng', name, tuple(t.key for t in ts),
                            None if size is None else self.okey(size), self.I.site()))
    axes = ()
    if size is not None:
      m = size[0] if isinstance(size, tuple) and len(size) == 1 else size
      m = self.I.as_int(m) if not isinstance(m, tuple) else None
      if m is not None and 0 < m <= 6 and name == 'uniform':
        return SArr([self.rng(name, args, None) for _ in range(m)], 'float')
      axes = self.axes_from_shape(size)
      if axes is None:
        return self.I.unk('random size')
    labs = set()
    for l in axes:
      labs |= set(self.base_labels(l))
    intg = name in ('randint', 'permutation')
    nums = [x for x in args if isinstance(x, Num) and x.axes]
    if nums and size is None:
      axes = self.broadcast(*nums)
      for n_ in nums:
        labs |= n_.t.labels
    sg = None
    if labs:
      tag += '[' + ','.join(sorted(labs)) + ']'
    if name == 'uniform' and len(ts) == 2:
      # affine image of a unit deviate, so that every way of scaling it agrees
      u = tm.atom_t(Atom('rand.unit', (tag,), frozenset(labs), '+0'))
      t = ts[0] + (ts[1] - ts[0]) * u
      if axes:
        return Num(t, axes, 'arr', 'float')
      return Num(t, (), 'float', 'float')
    t = tm.atom_t(Atom('rand.' + name, tuple(ts) + (tag,), frozenset(labs), sg, integer=intg))
    if axes:
      return Num(t, axes, 'arr', 'int' if intg else 'float')
    return Num(t, (), 'int' if intg else 'float', 'int' if intg else 'float')

  def np_random_uniform(self, low=0., high=1., size=None):
    return self.rng('uniform', [low, high], size)

  def np_random_rand(self, *shape):
    return self.rng('uniform', [0., 1.], shape if shape else None)

  def np_random_random(self, size=None):
    return self.rng('uniform', [0., 1.], size)

  def np_random_normal(self, loc=0., scale=1., size=None):
    return self.rng('normal', [loc, scale], size)

  def np_random_randn(self, *shape):
    return self.rng('normal', [0., 1.], shape if shape else None)

  def np_random_randint(self, low, high=None, size=None, **k):
    if high is None:
      low, high = 0, low
    return self.rng('randint', [low, high], size)

  def np_random_permutation(self, n):
    i = self.I.as_int(n)
    self.ctx.events.append(('rng', 'permutation', None, None, self.I.site()))
    if i is not None:
      self.ctx.fresh += 1
      if i <= 1:
        return SArr(list(range(i)), 'int')
      return SArr([Num(tm.sym(f"perm{self.ctx.fresh}_{j}", integer=True), (), 'int', 'int')
                   for j in range(i)], 'int')
    return self.I.unk('permutation')

  # -------------------------------------------------------------- containers
  def has_method(self, o, name):
    if isinstance(o, (Num, SArr)):
      return name in self.ARR_METHODS
    if isinstance(o, ASet):
      return hasattr(frozenset if o.frozen else set, name)
    if isinstance(o, Gen):
      return name in ('__next__', '__iter__', 'send', 'close')
    if isinstance(o, (dict, list, tuple, str, int, float, complex, range, bytes)) or o is None:
      if isinstance(o, (int, float)) and not isinstance(o, bool) and name in ('item', 'tolist'):
        return False
      if isinstance(o, Deque) and name in ('appendleft', 'popleft', 'rotate', 'extendleft', 'maxlen'):
        return True
      return hasattr(type(o), name)
    if isinstance(o, VIEWS):
      return name in ('isdisjoint', '__len__', '__iter__', '__contains__')
    return False

  def native_init(self, inst, args, kwds):
    if isinstance(inst.payload, dict):
      self.dict_update(inst.payload, args, kwds)
    elif isinstance(inst.payload, list):
      if args:
        inst.payload.extend(self.I.iterate(args[0]))

  def dict_update(self, d, args, kwds):
    if len(args) > 1:
      raise self.I.exc('TypeError', 'update expected at most 1 argument')
    if args:
      x = args[0]
      src = x.payload if isinstance(x, Inst) and isinstance(x.payload, dict) else x
      if isinstance(src, dict):
        for k, v in list(src.items()):
          d[k] = v
      elif isinstance(src, Unk):
        raise Undecided('dict from unknown')
      else:
        for kv in self.I.iterate(src):
          try:
            k, v = list(self.I.iterate(kv))
          except (ValueError, AbsExc):
            raise self.I.exc('ValueError', 'dictionary update sequence element has wrong length')
          d[self.I.dkey(k)] = v
    for k, v in kwds.items():
      d[k] = v

  def construct(self, typ, args, kwds):
    I = self.I
    if typ in (dict, collections.OrderedDict):
      d = typ()
      self.dict_update(d, args, kwds)
      return d
    if typ is collections.defaultdict:
      d = DefaultDict()
      d.factory = args[0] if args else None
      self.dict_update(d, args[1:], kwds)
      return d
    if typ is list:
      return list(I.iterate(args[0])) if args else []
    if typ is tuple:
      if not args:
        return ()
      return tuple(I.iterate(args[0]))
    if typ is set:
      return ASet(self.hashables(args[0])) if args else ASet()
    if typ is frozenset:
      return ASet(self.hashables(args[0]), True) if args else ASet((), True)
    if typ is str:
      return I.to_str(args[0]) if args else ''
    if typ is type:
      return self.type_of(args[0]) if len(args) == 1 else I.unk('type()')
    if typ is bool:
      return I.truth(args[0]) if args else False
    if typ is int:
      return self.to_int(args[0]) if args else 0
    if typ is float:
      return self.to_float(args[0]) if args else 0.
    if typ is complex:
      return self.to_complex(*args, **kwds)
    if typ is range:
      ints = [I.as_int(x) for x in args]
      if None in ints:
        if all(self.is_number(x) for x in args):
          if len(args) == 1 and any(isinstance(x, float) for x in args):
            raise I.exc('TypeError', "'float' object cannot be interpreted as an integer")
          hook = getattr(I, 'range_hook', None)
          if hook is not None:
            return hook(args)
          return Unk(f"symbolic range({', '.join(self.okey(a) for a in args)}) @ {I.site()}")
        if any(isinstance(x, Unk) for x in args):
          return I.unk('range')
        raise I.exc('TypeError', 'range() argument must be an integer')
      return range(*ints)
    if typ is slice:
      from .interp import SliceV
      if len(args) == 1:
        return SliceV(None, args[0])
      return SliceV(*args)
    if typ is object:
      return Opq(f"object#{id(args)}")
    return I.unk('construct ' + typ.__name__)

  def hashables(self, x):
    for v in self.I.iterate(x):
      if isinstance(v, (list, dict, SArr)) or (isinstance(v, Num) and v.kind == 'arr' and v.axes):
        raise self.I.exc('TypeError', f"unhashable type: {self.tname(v)}")
      yield v

  def to_int(self, v):
    I = self.I
    if isinstance(v, (bool, int, float)):
      try:
        return int(v)
      except (OverflowError, ValueError) as e:
        raise I.exc(type(e).__name__, str(e))
    if isinstance(v, str):
      try:
        return int(v)
      except ValueError as e:
        raise I.exc('ValueError', str(e))
    if isinstance(v, SArr):
      if len(v.items) == 1:
        return self.to_int(v.items[0])
      raise I.exc('TypeError', 'only length-1 arrays can be converted to Python scalars')
    if isinstance(v, Num):
      if v.axes:
        size = tm.ONE
        for l in v.axes:
          size = size * self.size_of(l)
        c = size.const()
        if c == 1:
          return Num(v.t, (), 'int', 'int')
        at = self.count_atom(size)
        if at is not None:
          if self.scalar_eq(size - tm.ONE):
            t = v.t
            for l in v.axes:
              if isinstance(l, str):
                t = self.index_t(t, l, tm.ZERO)
            return Num(t, (), 'int', 'int')
        raise I.exc('TypeError', 'only length-1 arrays can be converted to Python scalars')
      if v.dtype in ('int', 'bool'):
        return self.fold(Num(v.t, (), 'int', 'int'))
      c = v.t.const()
      if c is not None:
        return int(c)
      return Num(tm.func('trunc', (v.t,), v.t.sign() if v.t.sign() == '+0' else None, integer=True),
                 (), 'int', 'int')
    if isinstance(v, Unk):
      return I.unk('int')
    if isinstance(v, (complex, Cplx)):
      raise I.exc('TypeError', "can't convert complex to int")
    if isinstance(v, Opq):
      return I.unk('int of ' + v.key)
    raise I.exc('TypeError', f"int() argument: {self.tname(v)}")

  def to_float(self, v):
    I = self.I
    if isinstance(v, (bool, int, float)):
      return float(v)
    if isinstance(v, str):
      try:
        return float(v)
      except ValueError as e:
        raise I.exc('ValueError', str(e))
    if isinstance(v, (SArr, NArr)):
      if len(v.items) == 1:
        return self.to_float(v.items[0])
      raise I.exc('TypeError', 'only length-1 arrays can be converted')
    if isinstance(v, Num):
      if any(l is not None for l in v.axes):
        raise I.exc('TypeError', 'only length-1 arrays can be converted to Python scalars')
      out = self.fold(Num(v.t, (), 'float', 'float'))
      if isinstance(out, Num):
        out.guard = v.guard
      return out
    if isinstance(v, Unk):
      return I.unk('float')
    if isinstance(v, (complex, Cplx)):
      raise I.exc('TypeError', "can't convert complex to float")
    if isinstance(v, Opq):
      if v.kind == 'sympy.oo':
        return {'sympy.oo': math.inf, '-sympy.oo': -math.inf}.get(v.key, I.unk('float'))
      if isinstance(v, SymE):
        if v.syms:
          raise I.exc('TypeError', 'Cannot convert expression to float')
        return self.fold(Num(v.t, (), 'float', 'float'))
      return I.unk('float of ' + v.key)
    raise I.exc('TypeError', f"float() argument: {self.tname(v)}")

  def to_complex(self, re=0., im=0., real=None, imag=None):
    re = real if real is not None else re
    im = imag if imag is not None else im
    if isinstance(re, (complex, Cplx)):
      return re
    a, b = self.numt(re), self.numt(im)
    if a is None or b is None:
      return self.I.unk('complex')
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
      return complex(float(ca), float(cb))
    return Cplx(a, b)

  # ----------------------------------------------------------------- methods
  def method(self, o, name, args, kwds, native=False):
    I = self.I
    if isinstance(o, Inst) and o.payload is not None:
      if name == '__getitem__':
        kk = I.dkey(args[0])
        if kk not in o.payload:
          raise I.exc('KeyError', I.to_str(args[0]))
        return o.payload[kk]
      if name == '__setitem__':
        o.payload[I.dkey(args[0])] = args[1]
        return None
      o = o.payload
    if isinstance(o, Inst):
      if name == '__setattr__':
        o.attrs[args[0]] = args[1]
        return None
      if name in ('__repr__', '__str__'):
        return f"<{o.cls.name}>"
      if name == '__hash__':
        return id(o)
    if isinstance(o, (Num, SArr, NArr)):
      return self.arr_method(o, name, args, kwds)
    if isinstance(o, ASet):
      return self.set_method(o, name, args, kwds)
    if isinstance(o, dict):
      return self.dict_method(o, name, args, kwds)
    if isinstance(o, list):
      return self.list_method(o, name, args, kwds)
    if isinstance(o, str):
      return self.str_method(o, name, args, kwds)
    if isinstance(o, (tuple, range)):
      if name == 'index':
        for i, x in enumerate(o):
          if I.eq(x, args[0]):
            return i
        raise I.exc('ValueError', 'tuple.index(x): x not in tuple')
      if name == 'count':
        return sum(1 for x in o if I.eq(x, args[0]))
      if name == '__len__':
        return len(o)
    if isinstance(o, NT):
      if name == '_asdict':
        return dict(zip(o.cls.fields, o.vals))
      if name == '_replace':
        vals = list(o.vals)
        for k, v in kwds.items():
          if k not in o.cls.fields:
            raise I.exc('ValueError', f"unexpected field {k}")
          vals[o.cls.fields.index(k)] = v
        return NT(o.cls, vals)
      if name == 'index':
        for i, x in enumerate(o.vals):
          if I.eq(x, args[0]):
            return i
        raise I.exc('ValueError', 'index')
    if isinstance(o, NTCls) and name == '_make':
      return I.call(o, list(I.iterate(args[0])), {})
    if isinstance(o, Gen):
      if name == '__next__':
        return self.builtin('next', [o], {})
      return o
    if isinstance(o, VIEWS):
      if name == '__len__':
        return len(o)
      if name == 'isdisjoint':
        return not any(I.truth(I.contains(o, x)) for x in I.iterate(args[0]))
    if isinstance(o, (int, float, complex)):
      if name in ('is_integer', 'conjugate', 'bit_length'):
        return getattr(o, name)()
    if isinstance(o, Cplx) and name == 'conjugate':
      return Cplx(o.re, -o.im)
    return I.unk(f"method {self.tname(o)}.{name}")

  def dict_method(self, d, name, args, kwds):
    I = self.I
    if name in ('keys', 'values', 'items'):
      return getattr(d, name)()
    if name == 'get':
      k = I.dkey(args[0])
      if k in d:
        return d[k]
      return args[1] if len(args) > 1 else None
    if name == 'pop':
      k = I.dkey(args[0])
      if k in d:
        return d.pop(k)
      if len(args) > 1:
        return args[1]
      if 'default' in kwds:
        return kwds['default']
      raise I.exc('KeyError', I.to_str(args[0]))
    if name == 'update' or name == '__init__':
      self.dict_update(d, args, kwds)
      return None
    if name == 'copy':
      return self.copy_val(d, False)
    if name == 'setdefault':
      k = I.dkey(args[0])
      if k not in d:
        d[k] = args[1] if len(args) > 1 else None
      return d[k]
    if name == 'clear':
      d.clear()
      return None
    if name == 'popitem':
      if not d:
        raise I.exc('KeyError', 'popitem')
      last = args[0] if args else kwds.get('last', True)
      return d.popitem(last) if isinstance(d, collections.OrderedDict) else d.popitem()
    if name == 'move_to_end':
      d.move_to_end(I.dkey(args[0]), kwds.get('last', args[1] if len(args) > 1 else True))
      return None
    if name == '__len__':
      return len(d)
    if name == '__contains__':
      return I.dkey(args[0]) in d
    if name == '__getitem__':
      return I.getitem(d, args[0])
    if name == '__setitem__':
      d[I.dkey(args[0])] = args[1]
      return None
    if name == '__iter__':
      return Gen(I.iterate(d))
    if name == '__delitem__':
      I.delitem(d, args[0])
      return None
    if name == 'fromkeys':
      v = args[1] if len(args) > 1 else None
      out = type(d)()
      for k in I.iterate(args[0]):
        out[I.dkey(k)] = v
      return out
    if name == '__repr__':
      return I.to_str(d)
    if name == '__eq__':
      return self.equal(d, args[0])
    return I.unk('dict.' + name)

  def list_method(self, l, name, args, kwds):
    I = self.I
    if name == 'append':
      l.append(args[0])
      if isinstance(l, Deque) and l.maxlen is not None and len(l) > l.maxlen:
        l.pop(0)
      return None
    if name == 'extend':
      l.extend(list(I.iterate(args[0])))
      return None
    if name == 'insert':
      l.insert(I.as_int(args[0]), args[1])
      return None
    if name == 'pop':
      i = I.as_int(args[0]) if args else -1
      if not l or not -len(l) <= i < len(l):
        raise I.exc('IndexError', 'pop from empty list')
      return l.pop(i)
    if name == 'popleft':
      if not l:
        raise I.exc('IndexError', 'pop from an empty deque')
      return l.pop(0)
    if name == 'appendleft':
      l.insert(0, args[0])
      return None
    if name == 'remove':
      for i, x in enumerate(l):
        if I.eq(x, args[0]):
          l.pop(i)
          return None
      raise I.exc('ValueError', 'list.remove(x): x not in list')
    if name == 'index':
      for i, x in enumerate(l):
        if x is args[0] or I.eq(x, args[0]):
          return i
      raise I.exc('ValueError', 'x is not in list')
    if name == 'count':
      return sum(1 for x in l if I.eq(x, args[0]))
    if name == 'reverse':
      l.reverse()
      return None
    if name == 'copy':
      return list(l)
    if name == 'clear':
      l.clear()
      return None
    if name == 'sort':
      r = self.builtin('sorted', [list(l)], kwds)
      l[:] = r
      return None
    if name == '__len__':
      return len(l)
    if name == '__iter__':
      return Gen(iter(l))
    if name == 'maxlen':
      return l.maxlen
    return I.unk('list.' + name)

  def set_method(self, s, name, args, kwds):
    I = self.I
    coll = lambda: [x if isinstance(x, ASet) else ASet(I.iterate(x)) for x in args]
    if name == 'add':
      v = args[0]
      if isinstance(v, (list, dict)):
        raise I.exc('TypeError', 'unhashable type')
      s.d.setdefault(hkey(v), v)
      return None
    if name == 'update':
      for c in coll():
        for k, v in c.d.items():
          s.d.setdefault(k, v)
      return None
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
      op = {'union': 'or_', 'intersection': 'and_', 'difference': 'sub',
            'symmetric_difference': 'xor'}[name]
      out = ASet(s.d.values(), s.frozen)
      for c in coll():
        out = self.set_op(op, out, c)
      return out
    if name in ('intersection_update', 'difference_update'):
      op = {'intersection_update': 'and_', 'difference_update': 'sub'}[name]
      for c in coll():
        s.d = self.set_op(op, s, c).d
      return None
    if name == 'issubset':
      return set(s.d) <= set(coll()[0].d)
    if name == 'issuperset':
      return set(s.d) >= set(coll()[0].d)
    if name == 'isdisjoint':
      return not (set(s.d) & set(coll()[0].d))
    if name == 'copy':
      return ASet(s.d.values(), s.frozen)
    if name == 'discard':
      s.d.pop(hkey(args[0]), None)
      return None
    if name == 'remove':
      if hkey(args[0]) not in s.d:
        raise I.exc('KeyError', I.to_str(args[0]))
      s.d.pop(hkey(args[0]))
      return None
    if name == 'pop':
      if not s.d:
        raise I.exc('KeyError', 'pop from an empty set')
      v = next(iter(s))
      s.d.pop(hkey(v))
      return v
    if name == 'clear':
      s.d.clear()
      return None
    if name == '__len__':
      return len(s)
    if name == '__contains__':
      return args[0] in s
    return I.unk('set.' + name)

  def str_method(self, s, name, args, kwds):
    I = self.I
    if name == 'format':
      out = s
      import string
      res = []
      auto = 0
      try:
        for lit, field, spec, conv in string.Formatter().parse(s):
          res.append(lit)
          if field is None:
            continue
          if field == '':
            if auto >= len(args):
              raise I.exc('IndexError', 'Replacement index out of range for format')
            v = args[auto]
            auto += 1
          elif field.isdigit():
            if int(field) >= len(args):
              raise I.exc('IndexError', 'Replacement index out of range for format')
            v = args[int(field)]
          else:
            f = field.split('.')[0].split('[')[0]
            if f not in kwds:
              raise I.exc('KeyError', f)
            v = kwds[f]
          res.append(I.to_str(v))
      except ValueError as e:
        raise I.exc('ValueError', str(e))
      return ''.join(res)
    if name == 'join':
      parts = []
      for x in I.iterate(args[0]):
        if not isinstance(x, str):
          if isinstance(x, Unk):
            return I.unk('join')
          raise I.exc('TypeError', 'sequence item: expected str instance')
        parts.append(x)
      return s.join(parts)
    nargs = []
    for a in args:
      if isinstance(a, (str, int, type(None), tuple, bool)) or name in ('translate', 'maketrans'):
        nargs.append(a)
      elif isinstance(a, Unk):
        return I.unk('str.' + name)
      else:
        raise I.exc('TypeError', f"str.{name} argument {self.tname(a)}")
    try:
      return getattr(s, name)(*nargs, **{k: v for k, v in kwds.items()})
    except (ValueError, TypeError) as e:
      raise I.exc(type(e).__name__, str(e))

  # ---------------------------------------------------------------- builtins
  def builtin(self, name, args, kwds):
    m = getattr(self, 'bi_' + name, None)
    if m is None:
      return self.I.unk('builtin ' + name)
    return m(*args, **kwds)

  def bi_noop(self, *a, **k):
    return None

  def bi_object_new(self, cls, *a, **k):
    return Inst(cls)

  def bi_print(self, *a, **k):
    return None

  def bi_len(self, v):
    I = self.I
    if isinstance(v, Inst):
      f, _ = v.cls.lookup('__len__')
      if f is not None:
        return I.call(Bound(f, v), [], {})
      if v.payload is not None:
        return len(v.payload)
      if v.cls.libs():
        return I.unk('len of library instance')
      raise I.exc('TypeError', f"object of type '{v.cls.name}' has no len()")
    if isinstance(v, (list, tuple, dict, str, range, ASet)) or isinstance(v, VIEWS):
      return len(v)
    if isinstance(v, SArr):
      return len(v.items)
    if isinstance(v, NT):
      return len(v.vals)
    if isinstance(v, Num):
      if v.kind != 'arr' or not v.axes:
        raise I.exc('TypeError', 'len() of unsized object')
      return self.scalar(self.size_of(v.axes[0]), 'int')
    if isinstance(v, Unk):
      return I.unk('len of ' + v.why)
    if isinstance(v, Opq):
      return I.unk('len of ' + v.key)
    raise I.exc('TypeError', f"object of type '{self.tname(v)}' has no len()")

  def bi_isinstance(self, o, t):
    return self.isinstance_(o, t)

  def bi_issubclass(self, a, b):
    bs = b if isinstance(b, tuple) else (b,)
    for x in bs:
      if isinstance(a, Cls):
        if x in a.mro:
          return True
        nat = a.native()
        if isinstance(x, type) and nat is not None and issubclass(nat, x):
          return True
      elif isinstance(a, type) and isinstance(x, type):
        if issubclass(a, x):
          return True
      elif a is x:
        return True
    return False

  def bi_hasattr(self, o, name):
    if isinstance(o, Unk):
      return self.I.unk('hasattr')
    try:
      v = self.I.getattr_(o, name)
    except AbsExc as e:
      if e.etype == 'AttributeError':
        return False
      raise
    if isinstance(v, Unk):
      return self.I.unk(f"hasattr {name}")
    return True

  def bi_getattr(self, o, name, *d):
    return self.I.getattr(o, name, *d) if d else self.I.getattr(o, name)

  def bi_setattr(self, o, name, v):
    self.I.setattr(o, name, v)

  def bi_delattr(self, o, name):
    if isinstance(o, Inst):
      o.attrs.pop(name, None)

  def bi_callable(self, o):
    if isinstance(o, (Func, Bound, Cls, Builtin, NMeth, AbsFn, Partial, type, NTCls)):
      return True
    if isinstance(o, Inst):
      return o.cls.lookup('__call__')[0] is not None
    if isinstance(o, Unk):
      return self.I.unk('callable')
    if isinstance(o, Lib):
      return True
    if isinstance(o, Opq):
      if o.kind and (o.kind.startswith('scipy.stats')):
        return False
      return False
    return callable(o) and getattr(o, '_pbsa', False)

  def bi_enumerate(self, it, start=0):
    I = self.I
    return Gen(((i, v) for i, v in enumerate(I.iterate(it), start)))

  def bi_zip(self, *its, **k):
    return Gen(zip(*[self.I.iterate(x) for x in its]))

  def bi_map(self, f, *its):
    I = self.I
    return Gen((I.call(f, list(a), {}) for a in zip(*[I.iterate(x) for x in its])))

  def bi_filter(self, f, it):
    I = self.I
    return Gen((v for v in I.iterate(it)
                if I.truth(v if f is None else I.call(f, [v], {}))))

  def bi_sorted(self, it, key=None, reverse=False):
    I = self.I
    items = list(I.iterate(it))
    keys = [I.call(key, [x], {}) if key is not None else x for x in items]
    if all(isinstance(k, (int, float)) for k in keys) or all(isinstance(k, str) for k in keys):
      idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=I.truth(reverse))
      return [items[i] for i in idx]
    out, ok = [], []
    for x, k in zip(items, keys):
      i = 0
      while i < len(out) and not I.truth(self.cmp('<', k, ok[i])):
        i += 1
      out.insert(i, x)
      ok.insert(i, k)
    if I.truth(reverse):
      out.reverse()
    return out

  def bi_reversed(self, it):
    return Gen(iter(list(self.I.iterate(it))[::-1]))

  def ext(self, name, args, kwds):
    I = self.I
    if len(args) == 1:
      seq = list(I.iterate(args[0]))
    else:
      seq = list(args)
    if not seq:
      if 'default' in kwds:
        return kwds['default']
      raise I.exc('ValueError', f"{name}() arg is an empty sequence")
    key = kwds.get('key')
    if key is not None:
      best, bk = seq[0], I.call(key, [seq[0]], {})
      for x in seq[1:]:
        kx = I.call(key, [x], {})
        if I.truth(self.cmp('>' if name == 'max' else '<', kx, bk)):
          best, bk = x, kx
      return best
    acc = seq[0]
    for x in seq[1:]:
      if isinstance(acc, str) or isinstance(x, str):
        if not (isinstance(acc, str) and isinstance(x, str)):
          raise I.exc('TypeError', 'unorderable')
        acc = (max if name == 'max' else min)(acc, x)
        continue
      if x is None or acc is None:
        raise I.exc('TypeError', f"'<' not supported between instances of {self.tname(acc)} and {self.tname(x)}")
      for v in (acc, x):
        if (isinstance(v, Num) and v.kind == 'arr' and any(l is not None for l in v.axes)) or \
            isinstance(v, SArr) and len(v.items) > 1:
          raise I.exc('ValueError', 'truth value of an array is ambiguous')
      acc = self.maxmin(name, acc, x)
    return acc

  def bi_min(self, *args, **k):
    return self.ext('min', args, k)

  def bi_max(self, *args, **k):
    return self.ext('max', args, k)

  def bi_sum(self, it, start=0):
    I = self.I
    if isinstance(it, Num):
      return self.np_sum(it, axis=0)
    acc = start
    for x in I.iterate(it):
      acc = I.binop('add', acc, x)
    return acc

  def bi_any(self, it):
    I = self.I
    if isinstance(it, Num):
      return self.np_any(it)
    for x in I.iterate(it):
      if I.truth(x):
        return True
    return False

  def bi_all(self, it):
    I = self.I
    if isinstance(it, Num):
      return self.np_all(it)
    for x in I.iterate(it):
      if not I.truth(x):
        return False
    return True

  def bi_abs(self, x):
    return self.np_abs(x)

  def bi_round(self, x, n=None):
    if isinstance(x, (int, float)):
      return round(x, n) if n is not None else round(x)
    return self.np_round(x)

  def bi_pow(self, a, b):
    return self.I.binop('pow', a, b)

  def bi_repr(self, x):
    return self.I.to_str(x)

  def bi_format(self, x, *a):
    return self.I.to_str(x)

  def bi_iter(self, x):
    if isinstance(x, Gen):
      return x
    return Gen(self.I.iterate(x))

  def bi_next(self, g, *d):
    if isinstance(g, Gen):
      try:
        return next(g.it)
      except StopIteration:
        if d:
          return d[0]
        raise self.I.exc('StopIteration', '')
    if isinstance(g, Inst):
      f, _ = g.cls.lookup('__next__')
      if f is not None:
        return self.I.call(Bound(f, g), [], {})
    if isinstance(g, Unk):
      return self.I.unk('next')
    raise self.I.exc('TypeError', f"'{self.tname(g)}' object is not an iterator")

  def bi_super(self, cls, obj):
    return SuperV(cls, obj)

  def bi_property(self, fget=None, fset=None, fdel=None):
    return Prop(fget, fset, fdel)

  def bi_staticmethod(self, f):
    return StaticM(f)

  def bi_classmethod(self, f):
    return ClassM(f)

  def bi_dir(self, o=None):
    if isinstance(o, Opq):
      return []
    return []

  def bi_id(self, o):
    return id(o)

  def bi_hash(self, o):
    if isinstance(o, (str, int, tuple)):
      return hash(hkey(o))
    return id(o)

  def bi_vars(self, o):
    return o.attrs if isinstance(o, Inst) else self.I.unk('vars')

  def bi_ord(self, c):
    return ord(c)

  def bi_chr(self, c):
    return chr(c)

  def npscalar_attr(self, o, name):
    return self.I.unk('np scalar attr')
