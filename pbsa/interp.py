"""Trace-partitioned abstract interpreter for the package's Python source.

The package is parsed, never imported or run.  Containers of statically known
shape and constants are tracked exactly (constant propagation); numbers and
arrays are canonical terms (terms.py); conditions the domains cannot decide
partition the trace, each side being analysed with the assumption recorded.
"""
import ast
import collections
import functools
import operator
import os
import threading

from . import terms as tm
from .terms import T
from .values import (AbsExc, Undecided, ReturnEx, BreakEx, ContinueEx, Unk, Lib,
                     DType, Num, SArr, NArr, Cplx, ASet, Func, Bound, NMeth, Builtin,
                     Prop, StaticM, ClassM, Cls, Inst, NTCls, NT, AbsFn, Partial,
                     Gen, Opq, SuperV, hkey)

HERE = os.path.dirname(os.path.abspath(__file__))

NATIVE_EXC = (KeyError, IndexError, ValueError, TypeError, AttributeError,
              ZeroDivisionError, StopIteration, RuntimeError, OverflowError,
              NotImplementedError, AssertionError, NameError)


class Program:
  """ Parsed sources of one tree. """
  def __init__(self, root, package='probayes'):
    self.root, self.package = root, package
    self.trees, self.files = {}, {}
    base = os.path.join(root, package)
    for dirpath, dirs, files in os.walk(base):
      dirs[:] = [d for d in dirs if d != '__pycache__']
      for f in sorted(files):
        if not f.endswith('.py'):
          continue
        path = os.path.join(dirpath, f)
        rel = os.path.relpath(path, root)
        mod = rel[:-3].replace(os.sep, '.')
        if mod.endswith('.__init__'):
          mod = mod[:-9]
        with open(path, 'rb') as fh:
          src = fh.read()
        self.trees[mod] = ast.parse(src, filename=rel)
        self.files[mod] = rel
    stubs = os.path.join(HERE, 'stubs')
    self.stub_trees = {}
    if os.path.isdir(stubs):
      for f in sorted(os.listdir(stubs)):
        if f.endswith('.py'):
          with open(os.path.join(stubs, f)) as fh:
            self.stub_trees[f[:-3].replace('__', '.')] = ast.parse(fh.read(), f)
    self._locals = {}
    self._isgen = {}

  def local_names(self, node):
    k = id(node)
    if k not in self._locals:
      self._locals[k] = _collect_locals(node)
    return self._locals[k]

  def is_gen(self, node):
    k = id(node)
    if k not in self._isgen:
      self._isgen[k] = _has_yield(node)
    return self._isgen[k]


def _has_yield(fn):
  if isinstance(fn, ast.Lambda):
    return False
  todo = list(fn.body)
  while todo:
    n = todo.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    todo.extend(ast.iter_child_nodes(n))
  return False


def _collect_locals(fn):
  names, globs = set(), set()
  a = fn.args
  for x in a.posonlyargs + a.args + a.kwonlyargs:
    names.add(x.arg)
  for x in (a.vararg, a.kwarg):
    if x:
      names.add(x.arg)
  if isinstance(fn, ast.Lambda):
    return names, globs
  todo = list(fn.body)
  while todo:
    n = todo.pop()
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
      names.add(n.name)
      continue
    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                      ast.GeneratorExp)):
      for c in ast.walk(n):
        if isinstance(c, ast.NamedExpr):
          names.add(c.target.id)
      continue
    if isinstance(n, (ast.Global, ast.Nonlocal)):
      globs.update(n.names)
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      names.add(n.id)
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      for al in n.names:
        names.add((al.asname or al.name).split('.')[0])
    if isinstance(n, ast.ExceptHandler) and n.name:
      names.add(n.name)
    if isinstance(n, ast.MatchAs) and n.name:
      names.add(n.name)
    todo.extend(ast.iter_child_nodes(n))
  return names - globs, globs


class Env:
  __slots__ = ('vars', 'parent', 'module', 'locals', 'globs', 'cls', 'fn')

  def __init__(self, parent, module, locals_=None, globs=(), cls=None, fn=None):
    self.vars = {}
    self.parent, self.module = parent, module
    self.locals, self.globs = locals_, globs
    self.cls, self.fn = cls, fn


class ModuleV:
  def __init__(self, name):
    self.name = name
    self.vars = {}

  def __repr__(self):
    return f"Module<{self.name}>"


class Ctx:
  """ One abstract trace. """
  def __init__(self, prescribed=()):
    self.prescribed = list(prescribed)
    self.taken = []          # (key, value, options)
    self.assume = {}
    self.tainted = []        # reasons decisions were taken on unknown values
    self.mutated = {}        # id(root) -> (root, site)
    self.events = []
    self.sizes = {}          # axis label -> T
    self.fresh = 0
    self.steps = 0

  def decide(self, key, options=(True, False), taint=None):
    if key in self.assume:
      return self.assume[key]
    i = len(self.taken)
    if i < len(self.prescribed):
      v = self.prescribed[i]
    else:
      v = options[0]
    self.taken.append((key, v, options))
    self.assume[key] = v
    if taint:
      self.tainted.append(taint)
    return v


BUILTIN_TYPES = {'int': int, 'float': float, 'bool': bool, 'str': str, 'complex': complex,
                 'list': list, 'tuple': tuple, 'dict': dict, 'set': set,
                 'frozenset': frozenset, 'object': object, 'type': type, 'range': range,
                 'slice': slice, 'bytes': bytes}
BUILTIN_FUNCS = {'len', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'callable',
                 'enumerate', 'zip', 'map', 'filter', 'sorted', 'reversed', 'min', 'max',
                 'sum', 'any', 'all', 'abs', 'print', 'repr', 'iter', 'next', 'super',
                 'property', 'staticmethod', 'classmethod', 'dir', 'id', 'hash', 'round',
                 'vars', 'delattr', 'pow', 'divmod', 'ord', 'chr', 'input', 'open', 'format',
                 'globals', 'locals'}
EXC_NAMES = {'Exception', 'BaseException', 'ValueError', 'TypeError', 'KeyError', 'IndexError',
             'AttributeError', 'NotImplementedError', 'AssertionError', 'RuntimeError',
             'ImportError', 'StopIteration', 'ZeroDivisionError', 'NameError', 'LookupError',
             'ArithmeticError', 'Warning', 'UserWarning', 'DeprecationWarning', 'OSError',
             'FileNotFoundError', 'RecursionError', 'OverflowError', 'UnboundLocalError',
             'FloatingPointError', 'RuntimeWarning'}
EXC_PARENTS = {'KeyError': 'LookupError', 'IndexError': 'LookupError',
               'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
               'FloatingPointError': 'ArithmeticError',
               'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
               'UnboundLocalError': 'NameError', 'FileNotFoundError': 'OSError'}


class ExcCls:
  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, ExcCls) and o.name == self.name

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return f"<class {self.name}>"


class ExcInst:
  def __init__(self, cls, args):
    self.cls, self.args = cls, args


def exc_matches(etype, name):
  if name in ('Exception', 'BaseException'):
    return True
  while etype:
    if etype == name:
      return True
    etype = EXC_PARENTS.get(etype)
  return False


class Interp:
  MAX_STEPS = 60000
  MAX_DEPTH = 80

  def __init__(self, program, ctx=None):
    self.p = program
    self.ctx = ctx or Ctx()
    self.modules = {}
    self.stack = []
    self.node = None
    self.funcs = set()
    self.lines = set()
    from . import libnd
    self.lib = libnd.NdModels(self)
    self.yielders = {}

  # ------------------------------------------------------------ bookkeeping
  def site(self):
    if not self.stack:
      return '<entry>'
    q, f, ln = self.stack[-1]
    return f"{f}:{ln} in {q}"

  def trace(self):
    return [f"{f}:{ln} in {q}" for q, f, ln in self.stack]

  def exc(self, etype, msg=''):
    return AbsExc(etype, msg, self.site())

  def unk(self, why):
    return Unk(f"{why} @ {self.site()}")

  # ---------------------------------------------------------------- modules
  def load(self, name):
    if name in self.modules:
      return self.modules[name]
    tree = self.p.trees.get(name)
    stub = False
    if tree is None:
      tree = self.p.stub_trees.get(name)
      stub = True
    if tree is None:
      return Lib(name)
    mod = ModuleV(name)
    self.modules[name] = mod
    fname = self.p.files.get(name, 'stub:' + name)
    env = Env(None, mod)
    env.vars = mod.vars
    mod.vars['__name__'] = name
    mod.vars['__file__'] = fname
    self.stack.append((name, fname, 0))
    try:
      for st in tree.body:
        if stub is False and isinstance(st, ast.If) and _is_main_guard(st.test):
          continue
        self.exec_stmt(st, env)
    finally:
      self.stack.pop()
    return mod

  def import_name(self, modname, name):
    mod = self.load(modname)
    if isinstance(mod, ModuleV):
      if name in mod.vars:
        return mod.vars[name]
      sub = modname + '.' + name
      if sub in self.p.trees or sub in self.p.stub_trees:
        return self.load(sub)
      if modname in self.p.stub_trees:
        return Lib(modname + '.' + name)
      raise self.exc('ImportError', f"cannot import {name} from {modname}")
    return self.lib.const(modname + '.' + name)

  # ------------------------------------------------------------- statements
  def exec_block(self, stmts, env):
    for st in stmts:
      self.exec_stmt(st, env)

  def exec_stmt(self, st, env):
    self.ctx.steps += 1
    if self.ctx.steps > self.MAX_STEPS:
      raise Undecided('step bound exceeded')
    if self.stack:
      q, f, _ = self.stack[-1]
      self.stack[-1] = (q, f, st.lineno)
      self.lines.add((f, st.lineno))
    m = getattr(self, 'st_' + type(st).__name__, None)
    if m is None:
      raise Undecided(f"unsupported statement {type(st).__name__} at {self.site()}")
    m(st, env)

  def st_Expr(self, st, env):
    if isinstance(st.value, ast.Constant):
      return
    self.eval(st.value, env)

  def st_Pass(self, st, env):
    pass

  def st_Import(self, st, env):
    for al in st.names:
      mod = self.load(al.name)
      if al.asname:
        self.bind(al.asname, mod, env)
      else:
        top = al.name.split('.')[0]
        self.bind(top, self.load(top), env)

  def st_ImportFrom(self, st, env):
    modname = st.module or ''
    if st.level:
      pkg = env.module.name
      parts = pkg.split('.')
      if pkg not in ('probayes',):
        parts = parts[:-st.level] if st.level <= len(parts) else []
      modname = '.'.join(parts + ([st.module] if st.module else []))
    for al in st.names:
      if al.name == '*':
        mod = self.load(modname)
        if isinstance(mod, ModuleV):
          for k, v in list(mod.vars.items()):
            if not k.startswith('_'):
              self.bind(k, v, env)
        continue
      self.bind(al.asname or al.name, self.import_name(modname, al.name), env)

  def st_FunctionDef(self, st, env):
    fn = self.make_func(st, env)
    for dec in reversed(st.decorator_list):
      d = self.eval(dec, env)
      fn = self.decorate(d, fn)
    self.bind(st.name, fn, env)

  def decorate(self, d, fn):
    if isinstance(d, Builtin):
      if d.name == 'property':
        return Prop(fn)
      if d.name == 'staticmethod':
        return StaticM(fn)
      if d.name == 'classmethod':
        return ClassM(fn)
    return self.call(d, [fn], {})

  def make_func(self, node, env):
    a = node.args
    defaults = [self.eval(d, env) for d in a.defaults]
    kwd = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults)
           if d is not None}
    cls = env.cls
    name = getattr(node, 'name', '<lambda>')
    qual = env.module.name + '.' + (cls['__qual__'] + '.' if isinstance(cls, dict) else '') + name
    f = Func(node, env.module, env, defaults, kwd, qual, cls)
    f.is_gen = self.p.is_gen(node)
    return f

  def st_ClassDef(self, st, env):
    bases = [self.eval(b, env) for b in st.bases]
    cenv = Env(env, env.module)
    cell = {'__qual__': st.name, '__cls__': None}
    cenv.cls = cell
    self.exec_block(st.body, cenv)
    attrs = dict(cenv.vars)
    mangled = {}
    for k, v in attrs.items():
      mangled[self.mangle(k, st.name)] = v
    cls = Cls(st.name, bases or [object], mangled, env.module.name)
    cell['__cls__'] = cls
    out = cls
    for dec in reversed(st.decorator_list):
      out = self.call(self.eval(dec, env), [out], {})
    self.bind(st.name, out, env)

  @staticmethod
  def mangle(name, clsname):
    if name.startswith('__') and not name.endswith('__') and clsname:
      return '_' + clsname.lstrip('_') + name
    return name

  def st_Return(self, st, env):
    raise ReturnEx(self.eval(st.value, env) if st.value else None, st)

  def st_Delete(self, st, env):
    for t in st.targets:
      if isinstance(t, ast.Name):
        env.vars.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, env)
        k = self.eval(t.slice, env)
        self.delitem(o, k)
      elif isinstance(t, ast.Attribute):
        o = self.eval(t.value, env)
        if isinstance(o, Inst):
          o.attrs.pop(self.mangle(t.attr, self.cur_cls(env)), None)

  def st_Assign(self, st, env):
    v = self.eval(st.value, env)
    for t in st.targets:
      self.assign(t, v, env)

  def st_AnnAssign(self, st, env):
    if st.value is not None:
      self.assign(st.target, self.eval(st.value, env), env)

  def st_AugAssign(self, st, env):
    t = st.target
    if isinstance(t, ast.Name):
      cur = self.lookup(t.id, env)
      rhs = self.eval(st.value, env)
      new = self.inplace(st.op, cur, rhs)
      self.bind(t.id, new, env)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, env)
      cur = self.getattr(o, self.mangle(t.attr, self.cur_cls(env)))
      rhs = self.eval(st.value, env)
      self.setattr(o, self.mangle(t.attr, self.cur_cls(env)), self.inplace(st.op, cur, rhs))
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env)
      k = self.eval(t.slice, env)
      cur = self.getitem(o, k)
      rhs = self.eval(st.value, env)
      if isinstance(o, Num) and isinstance(cur, Num):
        new = self.binop(st.op, cur, rhs)
        new_o = self.lib.accumulate(o, k, st.op, rhs)
        if new_o:
          return
        self.setitem(o, k, new)
      else:
        self.setitem(o, k, self.inplace(st.op, cur, rhs))

  def inplace(self, op, cur, rhs):
    if isinstance(cur, Inst) and not isinstance(cur.payload, (list, dict)):
      m = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'BitAnd': '__iand__',
           'BitOr': '__ior__'}.get(type(op).__name__)
      if m:
        f, _ = cur.cls.lookup(m)
        if f is not None:
          return self.call(Bound(f, cur), [rhs], {})
    if isinstance(cur, list) and isinstance(op, ast.Add):
      cur.extend(self.iterate(rhs))
      return cur
    if isinstance(cur, ASet):
      if isinstance(op, ast.BitOr):
        for x in self.iterate(rhs):
          cur.d.setdefault(hkey(x), x)
        return cur
    if isinstance(cur, dict) and isinstance(op, ast.BitOr):
      cur.update(self.as_dict(rhs))
      return cur
    if isinstance(cur, Num) and cur.kind == 'arr' and cur.axes:
      new = self.binop(op, cur, rhs)
      if isinstance(new, Num):
        self.lib.mutate(cur)
        cur.t, cur.lin = new.t, None
        if cur.axes != new.axes:
          raise self.exc('ValueError', f"in-place broadcast {cur.axes} {new.axes}")
        return cur
      return new
    if isinstance(cur, (SArr, NArr)):
      new = self.binop(op, cur, rhs)
      if isinstance(new, (SArr, NArr)):
        self.lib.mutate(cur)
        if self.lib.shape_of(new) != self.lib.shape_of(cur):
          raise self.exc('ValueError', 'non-broadcastable output operand')
        cur.items[:] = new.items
        self.lib.through_view(cur)
        return cur
      return new
    return self.binop(op, cur, rhs)

  def st_If(self, st, env):
    if self.truth(self.eval(st.test, env)):
      self.exec_block(st.body, env)
    else:
      self.exec_block(st.orelse, env)

  def st_While(self, st, env):
    n = 0
    while True:
      n += 1
      if n > 400:
        raise Undecided(f"loop bound exceeded at {self.site()}")
      if not self.truth(self.eval(st.test, env)):
        self.exec_block(st.orelse, env)
        return
      try:
        self.exec_block(st.body, env)
      except BreakEx:
        return
      except ContinueEx:
        continue

  def st_For(self, st, env):
    it = self.eval(st.iter, env)
    for v in self.iterate(it):
      self.assign(st.target, v, env)
      try:
        self.exec_block(st.body, env)
      except BreakEx:
        return
      except ContinueEx:
        continue
    self.exec_block(st.orelse, env)

  def st_Break(self, st, env):
    raise BreakEx()

  def st_Continue(self, st, env):
    raise ContinueEx()

  def st_Assert(self, st, env):
    if not self.truth(self.eval(st.test, env)):
      raise self.exc('AssertionError', ast.unparse(st.test)[:80])

  def st_Raise(self, st, env):
    if st.exc is None:
      cur = getattr(self, 'cur_exc', None)
      raise cur if cur else self.exc('RuntimeError', 'no active exception')
    v = self.eval(st.exc, env)
    if isinstance(v, ExcCls):
      raise self.exc(v.name)
    if isinstance(v, ExcInst):
      e = self.exc(v.cls.name, str(v.args[0]) if v.args else '')
      raise e
    if isinstance(v, Cls):
      raise self.exc(v.name)
    if isinstance(v, Inst):
      raise self.exc(v.cls.name)
    raise self.exc('Exception', repr(v))

  def st_Try(self, st, env):
    try:
      try:
        self.exec_block(st.body, env)
      except AbsExc as e:
        depth = len(self.stack)
        for h in st.handlers:
          names = self.handler_names(h, env)
          if names is None or any(exc_matches(e.etype, n) for n in names):
            if h.name:
              self.bind(h.name, ExcInst(ExcCls(e.etype), [e.msg]), env)
            old = getattr(self, 'cur_exc', None)
            self.cur_exc = e
            try:
              self.exec_block(h.body, env)
            finally:
              self.cur_exc = old
            break
        else:
          raise
      else:
        self.exec_block(st.orelse, env)
    finally:
      if st.finalbody:
        self.exec_block(st.finalbody, env)

  def handler_names(self, h, env):
    if h.type is None:
      return None
    v = self.eval(h.type, env)
    vs = v if isinstance(v, tuple) else (v,)
    out = []
    for x in vs:
      if isinstance(x, ExcCls):
        out.append(x.name)
      elif isinstance(x, Cls):
        out.append(x.name)
      elif isinstance(x, Lib):
        out.append(x.path.split('.')[-1])
    return out

  def st_With(self, st, env):
    managers = []
    for item in st.items:
      v = self.eval(item.context_expr, env)
      if isinstance(v, Inst) and v.cls.lookup('__enter__')[0] is not None:
        r = self.call(self.getattr(v, '__enter__'), [], {})
      else:
        r = v
      if item.optional_vars is not None:
        self.assign(item.optional_vars, r, env)
      if isinstance(v, Inst) and v.cls.lookup('__exit__')[0] is not None:
        managers.append(v)
    try:
      self.exec_block(st.body, env)
    finally:
      for v in reversed(managers):
        self.call(self.getattr(v, '__exit__'), [None, None, None], {})

  def st_Global(self, st, env):
    pass

  def st_Nonlocal(self, st, env):
    pass

  # ------------------------------------------------------------ assignment
  def bind(self, name, v, env):
    if env.globs and name in env.globs:
      e = env.parent
      while e is not None:
        if name in e.vars:
          e.vars[name] = v
          return
        e = e.parent
      env.module.vars[name] = v
      return
    env.vars[name] = v

  def cur_cls(self, env):
    e = env
    while e is not None:
      if isinstance(e.cls, dict):
        return e.cls['__qual__']
      e = e.parent
    return None

  def assign(self, t, v, env):
    if isinstance(t, ast.Name):
      self.bind(t.id, v, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
      star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
      if isinstance(v, Unk):
        for x in t.elts:
          self.assign(x.value if isinstance(x, ast.Starred) else x, self.unk(v.why), env)
        return
      vals = list(self.iterate(v))
      if star:
        i = star[0]
        k = len(t.elts) - i - 1
        if len(vals) < len(t.elts) - 1:
          raise self.exc('ValueError', 'not enough values to unpack')
        for x, y in zip(t.elts[:i], vals[:i]):
          self.assign(x, y, env)
        self.assign(t.elts[i].value, vals[i:len(vals) - k], env)
        for x, y in zip(t.elts[i + 1:], vals[len(vals) - k:]):
          self.assign(x, y, env)
        return
      if len(vals) != len(t.elts):
        raise self.exc('ValueError', f"cannot unpack {len(vals)} values into {len(t.elts)}")
      for x, y in zip(t.elts, vals):
        self.assign(x, y, env)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, env)
      self.setattr(o, self.mangle(t.attr, self.cur_cls(env)), v)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env)
      k = self.eval(t.slice, env)
      self.setitem(o, k, v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, list(self.iterate(v)), env)
    else:
      raise Undecided('assign target')

  # ------------------------------------------------------------ expressions
  def lookup(self, name, env):
    e = env
    first = True
    while e is not None:
      if name in e.vars and (first or not isinstance(e.cls, dict) or e.fn is not None
                             or e is env):
        return e.vars[name]
      if first and e.locals is not None and name in e.locals:
        raise self.exc('UnboundLocalError', name)
      first = False
      e = e.parent
    if name in env.module.vars:
      return env.module.vars[name]
    if name in BUILTIN_TYPES:
      return BUILTIN_TYPES[name]
    if name in BUILTIN_FUNCS:
      return Builtin(name)
    if name in EXC_NAMES:
      return ExcCls(name)
    if name == 'NotImplemented':
      return Lib('NotImplemented')
    if name == 'Ellipsis':
      return Ellipsis
    if name == '__debug__':
      return True
    raise self.exc('NameError', name)

  def eval(self, node, env):
    m = getattr(self, 'ev_' + type(node).__name__, None)
    if m is None:
      raise Undecided(f"unsupported expression {type(node).__name__}")
    return m(node, env)

  def ev_Constant(self, n, env):
    return n.value

  def ev_Name(self, n, env):
    return self.lookup(n.id, env)

  def ev_NamedExpr(self, n, env):
    v = self.eval(n.value, env)
    e = env
    while e.locals is None and e.parent is not None and e.fn == 'comp':
      e = e.parent
    self.bind(n.target.id, v, e)
    return v

  def ev_Tuple(self, n, env):
    return tuple(self.elts(n.elts, env))

  def ev_List(self, n, env):
    return self.elts(n.elts, env)

  def ev_Set(self, n, env):
    return ASet(self.elts(n.elts, env))

  def elts(self, elts, env):
    out = []
    for e in elts:
      if isinstance(e, ast.Starred):
        out.extend(self.iterate(self.eval(e.value, env)))
      else:
        out.append(self.eval(e, env))
    return out

  def ev_Dict(self, n, env):
    d = {}
    for k, v in zip(n.keys, n.values):
      if k is None:
        d.update(self.as_dict(self.eval(v, env)))
      else:
        kk = self.eval(k, env)
        d[self.dkey(kk)] = self.eval(v, env)
    return d

  def dkey(self, k):
    if isinstance(k, (list, dict)) or (isinstance(k, ASet) and not k.frozen) or \
        isinstance(k, (SArr, NArr)) or (isinstance(k, Num) and k.kind == 'arr' and k.axes):
      raise self.exc('TypeError', f"unhashable {k!r}")
    if isinstance(k, Num):
      c = k.t.const()
      if c is not None:
        return int(c) if c.denominator == 1 else float(c)
      return NumKey(k)
    return k

  def ev_Attribute(self, n, env):
    o = self.eval(n.value, env)
    return self.getattr(o, self.mangle(n.attr, self.cur_cls(env)))

  def ev_Subscript(self, n, env):
    o = self.eval(n.value, env)
    k = self.eval(n.slice, env)
    return self.getitem(o, k)

  def ev_Slice(self, n, env):
    f = lambda x: self.eval(x, env) if x is not None else None
    return SliceV(f(n.lower), f(n.upper), f(n.step))

  def ev_Starred(self, n, env):
    return self.eval(n.value, env)

  def ev_UnaryOp(self, n, env):
    v = self.eval(n.operand, env)
    if isinstance(n.op, ast.Not):
      return not self.truth(v)
    return self.unary(n.op, v)

  def ev_BinOp(self, n, env):
    a = self.eval(n.left, env)
    b = self.eval(n.right, env)
    return self.binop(n.op, a, b)

  def ev_BoolOp(self, n, env):
    v = None
    for i, x in enumerate(n.values):
      v = self.eval(x, env)
      if i == len(n.values) - 1:
        return v
      t = self.truth(v)
      if isinstance(n.op, ast.And) and not t:
        return v
      if isinstance(n.op, ast.Or) and t:
        return v
    return v

  def ev_Compare(self, n, env):
    left = self.eval(n.left, env)
    res = True
    for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
      right = self.eval(c, env)
      res = self.compare(op, left, right)
      if i < len(n.ops) - 1:
        if not self.truth(res):
          return res
      left = right
    return res

  def ev_IfExp(self, n, env):
    if self.truth(self.eval(n.test, env)):
      return self.eval(n.body, env)
    return self.eval(n.orelse, env)

  def ev_Lambda(self, n, env):
    return self.make_func(n, env)

  def ev_JoinedStr(self, n, env):
    out = []
    for v in n.values:
      if isinstance(v, ast.Constant):
        out.append(str(v.value))
      else:
        out.append(self.to_str(self.eval(v.value, env)))
    return ''.join(out)

  def ev_FormattedValue(self, n, env):
    return self.to_str(self.eval(n.value, env))

  def comp(self, gens, env, emit):
    def rec(i, e):
      if i == len(gens):
        emit(e)
        return
      g = gens[i]
      it = self.eval(g.iter, e)
      for v in self.iterate(it):
        self.ctx.steps += 1
        if self.ctx.steps > self.MAX_STEPS:
          raise Undecided('step bound exceeded')
        self.assign(g.target, v, e)
        ok = True
        for c in g.ifs:
          if not self.truth(self.eval(c, e)):
            ok = False
            break
        if ok:
          rec(i + 1, e)
    e = Env(env, env.module, None, (), None, 'comp')
    rec(0, e)

  def ev_ListComp(self, n, env):
    out = []
    self.comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
    return out

  def ev_GeneratorExp(self, n, env):
    return Gen(iter(self.ev_ListComp(n, env)))

  def ev_SetComp(self, n, env):
    return ASet(self.ev_ListComp(n, env))

  def ev_DictComp(self, n, env):
    d = {}
    def emit(e):
      k = self.dkey(self.eval(n.key, e))
      d[k] = self.eval(n.value, e)
    self.comp(n.generators, env, emit)
    return d

  def ev_Call(self, n, env):
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
      f = self.lookup('super', env)
      if isinstance(f, Builtin):
        return self.zero_super(env)
    if isinstance(n.func, ast.Name) and n.func.id == 'locals' and not n.args:
      return dict(env.vars)
    fn = self.eval(n.func, env)
    args, kwds = [], {}
    for a in n.args:
      if isinstance(a, ast.Starred):
        v = self.eval(a.value, env)
        if isinstance(v, Unk):
          return self.unk('call with unknown *args')
        args.extend(self.iterate(v))
      else:
        args.append(self.eval(a, env))
    for k in n.keywords:
      if k.arg is None:
        v = self.eval(k.value, env)
        if isinstance(v, Unk):
          return self.unk('call with unknown **kwds')
        for kk, vv in self.as_dict(v).items():
          if kk in kwds:
            raise self.exc('TypeError', f"multiple values for keyword {kk}")
          kwds[kk] = vv
      else:
        kwds[k.arg] = self.eval(k.value, env)
    return self.call(fn, args, kwds)

  def zero_super(self, env):
    e = env
    while e is not None:
      if isinstance(e.fn, Func) and isinstance(e.fn.cls, dict):
        cls = e.fn.cls['__cls__']
        first = e.fn.node.args.args[0].arg if e.fn.node.args.args else None
        return SuperV(cls, e.vars[first])
      e = e.parent
    raise self.exc('RuntimeError', 'super(): no arguments')

  def ev_Yield(self, n, env):
    v = self.eval(n.value, env) if n.value else None
    y = self.yielders.get(threading.get_ident())
    if y is None:
      raise Undecided('yield outside generator')
    return y(v)

  def ev_YieldFrom(self, n, env):
    it = self.eval(n.value, env)
    y = self.yielders.get(threading.get_ident())
    for v in self.iterate(it):
      y(v)
    return None

  def ev_Await(self, n, env):
    raise Undecided('await')

  # --------------------------------------------------------------- calling
  def call(self, fn, args, kwds):
    if isinstance(fn, Func):
      return self.call_func(fn, args, kwds)
    if isinstance(fn, Bound):
      return self.call(fn.fn, [fn.self_] + list(args), kwds)
    if isinstance(fn, Cls):
      return self.instantiate(fn, args, kwds)
    if isinstance(fn, NMeth):
      return self.lib.method(fn.obj, fn.name, args, kwds)
    if isinstance(fn, Builtin):
      return self.lib.builtin(fn.name, args, kwds)
    if isinstance(fn, type):
      return self.lib.construct(fn, args, kwds)
    if isinstance(fn, Lib):
      return self.lib.call(fn.path, args, kwds)
    if isinstance(fn, NTCls):
      vals = list(args)
      if len(vals) > len(fn.fields):
        raise self.exc('TypeError', f"{fn.name}: too many arguments")
      kw = dict(kwds)
      for i, f in enumerate(fn.fields[len(vals):], len(vals)):
        if f in kw:
          vals.append(kw.pop(f))
        else:
          k = i - (len(fn.fields) - len(fn.defaults))
          if k >= 0:
            vals.append(fn.defaults[k])
          else:
            raise self.exc('TypeError', f"{fn.name}: missing argument {f}")
      if kw:
        raise self.exc('TypeError', f"{fn.name}: unexpected keywords {sorted(kw)}")
      return NT(fn, vals)
    if isinstance(fn, AbsFn):
      return fn.fn(self, args, kwds)
    if isinstance(fn, Partial):
      k = dict(fn.kwds)
      k.update(kwds)
      return self.call(fn.fn, list(fn.args) + list(args), k)
    if isinstance(fn, ExcCls):
      return ExcInst(fn, args)
    if isinstance(fn, Inst):
      f, _ = fn.cls.lookup('__call__')
      if f is not None:
        return self.call(Bound(f, fn), args, kwds)
      raise self.exc('TypeError', f"{fn.cls.name} object is not callable")
    if isinstance(fn, StaticM):
      return self.call(fn.fn, args, kwds)
    if isinstance(fn, Unk):
      return self.unk('call of ' + fn.why)
    if isinstance(fn, Opq):
      return self.lib.opq_call(fn, args, kwds)
    if isinstance(fn, Prop):
      raise self.exc('TypeError', 'property object is not callable')
    if callable(fn) and getattr(fn, '_pbsa', False):
      return fn(self, args, kwds)
    raise self.exc('TypeError', f"object {fn!r} is not callable")

  def call_func(self, fn, args, kwds):
    if len(self.stack) > self.MAX_DEPTH:
      raise self.exc('RecursionError', 'maximum recursion depth exceeded')
    node = fn.node
    locs, globs = self.p.local_names(node)
    env = Env(fn.env, fn.module, locs, globs, None, fn)
    self.bind_args(fn, args, kwds, env)
    fname = self.p.files.get(fn.module.name, 'stub:' + fn.module.name)
    self.funcs.add(fn.qual)
    if fn.is_gen:
      return Gen(self.run_gen(fn, env, fname), env)
    self.stack.append((fn.qual, fname, node.lineno))
    try:
      if isinstance(node, ast.Lambda):
        return self.eval(node.body, env)
      try:
        self.exec_block(node.body, env)
      except ReturnEx as r:
        self.last_return = (fn.qual, fname, r.node.lineno)
        return r.value
      return None
    except RecursionError:
      raise Undecided('analyser recursion')
    finally:
      self.stack.pop()

  def run_gen(self, fn, env, fname):
    """ Generator bodies run in a coroutine thread with strict hand-over. """
    state = {'val': None, 'exc': None, 'done': False}
    go, back = threading.Semaphore(0), threading.Semaphore(0)

    def yielder(v):
      state['val'] = v
      sv = self.stack.pop()
      back.release()
      go.acquire()
      if state.get('kill'):
        raise GeneratorExit()
      self.stack.append(sv)
      return None

    def body():
      go.acquire()
      if state.get('kill'):
        return
      self.yielders[threading.get_ident()] = yielder
      self.stack.append((fn.qual, fname, fn.node.lineno))
      pushed = True
      try:
        try:
          self.exec_block(fn.node.body, env)
        except ReturnEx:
          pass
        self.stack.pop()
      except GeneratorExit:
        pass
      except BaseException as e:   # handed to the consumer
        if self.stack:
          self.stack.pop()
        state['exc'] = e
      finally:
        state['done'] = True
        self.yielders.pop(threading.get_ident(), None)
        back.release()

    th = threading.Thread(target=body, daemon=True)
    th.start()
    try:
      while True:
        go.release()
        back.acquire()
        if state['exc'] is not None:
          raise state['exc']
        if state['done']:
          return
        yield state['val']
    finally:
      if not state['done']:
        state['kill'] = True
        go.release()

  def bind_args(self, fn, args, kwds, env):
    a = fn.node.args
    params = [x.arg for x in a.posonlyargs + a.args]
    args = list(args)
    kwds = dict(kwds)
    name = fn.qual
    vals = {}
    for i, p in enumerate(params):
      if i < len(args):
        if p in kwds and i >= len(a.posonlyargs):
          raise self.exc('TypeError', f"{name}() got multiple values for {p}")
        vals[p] = args[i]
      elif p in kwds:
        vals[p] = kwds.pop(p)
      else:
        k = i - (len(params) - len(fn.defaults))
        if k < 0:
          raise self.exc('TypeError', f"{name}() missing argument {p}")
        vals[p] = fn.defaults[k]
    rest = args[len(params):]
    if a.vararg:
      vals[a.vararg.arg] = tuple(rest)
    elif rest:
      raise self.exc('TypeError', f"{name}() takes {len(params)} positional arguments")
    for k in a.kwonlyargs:
      if k.arg in kwds:
        vals[k.arg] = kwds.pop(k.arg)
      elif k.arg in fn.kwdefaults:
        vals[k.arg] = fn.kwdefaults[k.arg]
      else:
        raise self.exc('TypeError', f"{name}() missing keyword {k.arg}")
    if a.kwarg:
      vals[a.kwarg.arg] = kwds
    elif kwds:
      raise self.exc('TypeError', f"{name}() unexpected keyword {sorted(kwds)[0]}")
    env.vars.update(vals)

  def instantiate(self, cls, args, kwds):
    new, owner = cls.lookup('__new__')
    if new is not None:
      f = new.fn if isinstance(new, StaticM) else new
      obj = self.call(f, [cls] + list(args), kwds)
      if not (isinstance(obj, Inst) and cls in obj.cls.mro):
        return obj
    else:
      obj = Inst(cls)
    init, owner = cls.lookup('__init__')
    if init is not None:
      self.call(Bound(init, obj), args, kwds)
    elif obj.payload is not None:
      self.lib.native_init(obj, args, kwds)
    elif args or kwds:
      if not cls.libs():
        raise self.exc('TypeError', f"{cls.name}() takes no arguments")
    return obj

  # ------------------------------------------------------------ attributes
  def getattr(self, o, name, default=AbsExc):
    try:
      return self.getattr_(o, name)
    except AbsExc as e:
      if default is not AbsExc and e.etype == 'AttributeError':
        return default
      raise

  def getattr_(self, o, name):
    if isinstance(o, Inst):
      v, owner = o.cls.lookup(name)
      if isinstance(v, Prop):
        if v.fget is None:
          raise self.exc('AttributeError', f"unreadable attribute {name}")
        return self.call(v.fget, [o], {})
      if name in o.attrs:
        return o.attrs[name]
      if owner is not None:
        if isinstance(v, Func):
          return Bound(v, o)
        if isinstance(v, StaticM):
          return v.fn
        if isinstance(v, ClassM):
          return Bound(v.fn, o.cls)
        return v
      if name == '__class__':
        return o.cls
      if name == '__dict__':
        return o.attrs
      if o.payload is not None and self.lib.has_method(o.payload, name):
        return NMeth(o, name)
      ga, _ = o.cls.lookup('__getattr__')
      if ga is not None:
        return self.call(Bound(ga, o), [name], {})
      libs = o.cls.libs()
      if libs and o.cls.lookup('_closed')[1] is None:
        return self.unk(f"{libs[0].path}.{name}")
      if name in ('__init__',):
        return Builtin('noop')
      if name in ('__repr__', '__str__', '__hash__', '__setattr__', '__getattribute__'):
        return NMeth(o, name)
      raise self.exc('AttributeError', f"'{o.cls.name}' object has no attribute '{name}'")
    if isinstance(o, Cls):
      v, owner = o.lookup(name)
      if owner is not None:
        if isinstance(v, StaticM):
          return v.fn
        if isinstance(v, ClassM):
          return Bound(v.fn, o)
        return v
      if name == '__name__':
        return o.name
      if name == '__mro__':
        return tuple(o.mro)
      nat = o.native()
      if nat is not None and hasattr(nat, name):
        return NativeUnbound(nat, name)
      if o.libs():
        return self.unk(f"{o.libs()[0].path}.{name}")
      if name == '__init__':
        return Builtin('noop')
      raise self.exc('AttributeError', f"class '{o.name}' has no attribute '{name}'")
    if isinstance(o, SuperV):
      return self.super_attr(o, name)
    if isinstance(o, ModuleV):
      if name in o.vars:
        return o.vars[name]
      sub = o.name + '.' + name
      if sub in self.p.trees or sub in self.p.stub_trees:
        return self.load(sub)
      if o.name in self.p.stub_trees:
        return Lib(sub)
      raise self.exc('AttributeError', f"module {o.name} has no attribute {name}")
    if isinstance(o, Lib):
      return self.lib.const(o.path + '.' + name)
    if isinstance(o, Prop):
      if name in ('fget', 'fset', 'fdel'):
        return getattr(o, name)
      if name in ('setter', 'getter', 'deleter'):
        return PropDec(o, name)
    if isinstance(o, NT):
      if name in o.cls.fields:
        return o.vals[o.cls.fields.index(name)]
      if name == '_fields':
        return o.cls.fields
      if name in ('_asdict', '_replace', 'index', 'count'):
        return NMeth(o, name)
      if name == '__class__':
        return o.cls
      raise self.exc('AttributeError', f"'{o.cls.name}' has no field '{name}'")
    if isinstance(o, NTCls):
      if name == '_fields':
        return o.fields
      if name == '__name__':
        return o.name
      if name == '_make':
        return NMeth(o, '_make')
      raise self.exc('AttributeError', f"namedtuple {o.name} has no attribute '{name}'")
    if isinstance(o, Unk):
      return self.unk(o.why + '.' + name)
    if isinstance(o, (Num, SArr, NArr, Cplx, DType)):
      return self.lib.num_attr(o, name)
    if isinstance(o, Func):
      if name == '__name__':
        return o.name
      if name == '__code__':
        return FuncCode(o)
      if name == '__doc__':
        return None
      if name in o.attrs:
        return o.attrs[name]
      if name == '__call__':
        return o
      if name == '__module__':
        return o.module.name
      raise self.exc('AttributeError', f"function has no attribute '{name}'")
    if isinstance(o, FuncCode):
      a = o.fn.node.args
      names = [x.arg for x in a.posonlyargs + a.args]
      if name == 'co_argcount':
        return len(names)
      if name == 'co_varnames':
        return tuple(names)
      if name == 'co_kwonlyargcount':
        return len(a.kwonlyargs)
      if name == 'co_posonlyargcount':
        return len(a.posonlyargs)
      if name == 'co_flags':
        return 3 | (4 if a.vararg else 0) | (8 if a.kwarg else 0)
      return self.unk('__code__.' + name)
    if isinstance(o, Bound):
      if name == '__self__':
        return o.self_
      if name == '__func__':
        return o.fn
      return self.getattr_(o.fn, name)
    if isinstance(o, AbsFn):
      if name in o.attrs:
        return o.attrs[name]
      if name == '__name__':
        return o.name
      if name == '__code__':
        if 'code' in o.attrs:
          return o.attrs['code']
        raise self.exc('AttributeError', f"'{o.name}' has no attribute '__code__'")
      raise self.exc('AttributeError', f"'{o.name}' has no attribute '{name}'")
    if isinstance(o, Partial):
      if name in ('func', 'args', 'keywords'):
        return {'func': o.fn, 'args': tuple(o.args), 'keywords': o.kwds}[name]
      raise self.exc('AttributeError', f"partial has no attribute '{name}'")
    if isinstance(o, (ExcInst,)):
      if name == 'args':
        return tuple(o.args)
    if isinstance(o, ExcCls) and name == '__name__':
      return o.name
    if isinstance(o, Opq):
      return self.lib.opq_attr(o, name)
    if isinstance(o, SliceV):
      if name in ('start', 'stop', 'step'):
        return getattr(o, name)
    if isinstance(o, type):
      if name == '__name__':
        return o.__name__
      if hasattr(o, name):
        return NativeUnbound(o, name)
      raise self.exc('AttributeError', f"type {o.__name__} has no attribute '{name}'")
    if isinstance(o, complex) and name in ('real', 'imag'):
      return getattr(o, name)
    if isinstance(o, (int, float)) and name in ('real', 'imag'):
      return getattr(o, name)
    if name == '__class__':
      return self.lib.type_of(o)
    if isinstance(o, (int, float)) and name in ('dtype', 'item', 'tolist', 'shape', 'size', 'ndim'):
      # numpy scalars and python numbers share one representation here
      if isinstance(o, NpScalar):
        return self.lib.npscalar_attr(o, name)
    if self.lib.has_method(o, name):
      return NMeth(o, name)
    raise self.exc('AttributeError', f"'{self.lib.tname(o)}' object has no attribute '{name}'")

  def super_attr(self, sv, name):
    o = sv.self_
    cls = o.cls if isinstance(o, Inst) else o
    mro = cls.mro
    i = mro.index(sv.cls) if sv.cls in mro else -1
    for c in mro[i + 1:]:
      if isinstance(c, Cls) and name in c.attrs:
        v = c.attrs[name]
        if isinstance(v, Prop):
          return self.call(v.fget, [o], {})
        if isinstance(v, Func):
          return Bound(v, o)
        if isinstance(v, StaticM):
          return v.fn
        if isinstance(v, ClassM):
          return Bound(v.fn, cls)
        return v
      if isinstance(c, type) and c is not object:
        if hasattr(c, name):
          return NMethN(o, name)
      if isinstance(c, Lib):
        return self.unk(f"super {c.path}.{name}")
    if name == '__init__':
      return Builtin('noop')
    if name == '__new__':
      return Builtin('object_new')
    if name in ('__repr__', '__hash__', '__setattr__'):
      return NMethN(o, name)
    if name in ('__eq__', '__ne__'):
      def ident(I, args, kwds):
        if args[0] is o:
          return name == '__eq__'
        return Lib('NotImplemented')
      return AbsFn('object.' + name, ident)
    raise self.exc('AttributeError', f"'super' object has no attribute '{name}'")

  def setattr(self, o, name, v):
    if isinstance(o, Inst):
      c, owner = o.cls.lookup(name)
      if isinstance(c, Prop):
        if c.fset is None:
          raise self.exc('AttributeError', f"can't set attribute {name}")
        self.call(c.fset, [o, v], {})
        return
      sa, sown = o.cls.lookup('__setattr__')
      o.attrs[name] = v
      return
    if isinstance(o, Cls):
      o.attrs[name] = v
      return
    if isinstance(o, ModuleV):
      o.vars[name] = v
      return
    if isinstance(o, Func):
      o.attrs[name] = v
      return
    if isinstance(o, Unk):
      return
    if isinstance(o, Num) and name == 'shape':
      self.lib.mutate(o)
      r = self.lib.reshape(o, v)
      o.axes = r.axes
      return
    if isinstance(o, NT):
      raise self.exc('AttributeError', "can't set attribute of namedtuple")
    raise self.exc('AttributeError', f"cannot set {name} on {self.lib.tname(o)}")

  # -------------------------------------------------------------- subscripts
  def getitem(self, o, k):
    if isinstance(o, Unk) or isinstance(k, Unk):
      return self.unk('subscript')
    if isinstance(o, Inst):
      f, _ = o.cls.lookup('__getitem__')
      if f is not None:
        return self.call(Bound(f, o), [self.unslice(k)], {})
      if o.payload is not None:
        o = o.payload
      else:
        if o.cls.libs():
          return self.unk('subscript of library instance')
        raise self.exc('TypeError', f"'{o.cls.name}' object is not subscriptable")
    if isinstance(o, dict):
      kk = self.dkey(k)
      if kk in o:
        return o[kk]
      if isinstance(o, collections.defaultdict):
        v = self.call(o.factory, [], {})
        o[kk] = v
        return v
      raise self.exc('KeyError', self.to_str(k))
    if isinstance(o, (list, tuple, str, range)):
      if isinstance(k, SliceV):
        s = k.native(self)
        if s is None:
          return self.unk('slice with unknown bounds')
        return o[s]
      i = self.as_int(k)
      if i is None:
        if isinstance(k, Num) and not k.axes:
          return self.unk('list index unknown')
        raise self.exc('TypeError', f"bad index {k!r} for {self.lib.tname(o)}")
      if -len(o) <= i < len(o):
        return o[i]
      raise self.exc('IndexError', f"index {i} out of range {len(o)}")
    if isinstance(o, (Num, SArr, NArr)):
      return self.lib.index(o, k)
    if isinstance(o, NT):
      if isinstance(k, SliceV):
        return tuple(o.vals[k.native(self)])
      i = self.as_int(k)
      if i is None:
        return self.unk('namedtuple index')
      if -len(o.vals) <= i < len(o.vals):
        return o.vals[i]
      raise self.exc('IndexError', str(i))
    if isinstance(o, Lib):
      return Opq(f"{o.path}[{k!r}]")
    if isinstance(o, Opq):
      return self.lib.opq_item(o, k)
    if isinstance(o, Cls) or isinstance(o, type):
      return o
    raise self.exc('TypeError', f"'{self.lib.tname(o)}' object is not subscriptable")

  def unslice(self, k):
    return k

  def setitem(self, o, k, v):
    if isinstance(o, Unk):
      return
    if isinstance(o, Inst):
      f, _ = o.cls.lookup('__setitem__')
      if f is not None:
        self.call(Bound(f, o), [k, v], {})
        return
      if o.payload is not None:
        o = o.payload
      else:
        if o.cls.libs():
          return
        raise self.exc('TypeError', f"'{o.cls.name}' does not support item assignment")
    if isinstance(o, dict):
      if isinstance(k, Unk):
        raise Undecided('unknown dictionary key')
      o[self.dkey(k)] = v
      return
    if isinstance(o, list):
      if isinstance(k, SliceV):
        o[k.native(self)] = list(self.iterate(v))
        return
      i = self.as_int(k)
      if i is None:
        raise Undecided('unknown list index')
      if -len(o) <= i < len(o):
        o[i] = v
        return
      raise self.exc('IndexError', f"assignment index {i} out of range {len(o)}")
    if isinstance(o, (Num, SArr, NArr)):
      self.lib.setindex(o, k, v)
      return
    if isinstance(o, Opq):
      self.ctx.events.append(('opq_setitem', o.key, k, v, self.site()))
      return
    raise self.exc('TypeError', f"'{self.lib.tname(o)}' object does not support item assignment")

  def delitem(self, o, k):
    if isinstance(o, Inst):
      o = o.payload
    if isinstance(o, dict):
      kk = self.dkey(k)
      if kk not in o:
        raise self.exc('KeyError', self.to_str(k))
      del o[kk]
    elif isinstance(o, list):
      if isinstance(k, SliceV):
        del o[k.native(self)]
        return
      i = self.as_int(k)
      if i is None or not -len(o) <= i < len(o):
        raise self.exc('IndexError', 'del')
      del o[i]
    else:
      raise Undecided('del item')

  def as_int(self, k):
    if isinstance(k, bool):
      return int(k)
    if isinstance(k, int):
      return k
    if isinstance(k, Num) and not k.axes:
      c = k.t.const()
      if c is not None and c.denominator == 1 and k.dtype in ('int', 'bool'):
        return int(c)
    return None

  # --------------------------------------------------------------- iterate
  def iterate(self, v):
    if isinstance(v, (list, tuple, str, range)):
      return self._live(v) if isinstance(v, list) else iter(v)
    if isinstance(v, ASet):
      return iter(v)
    if isinstance(v, dict):
      return self._dictiter(v)
    if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()),
                      type(collections.OrderedDict().keys()),
                      type(collections.OrderedDict().values()),
                      type(collections.OrderedDict().items()))):
      return self._viewiter(v)
    if isinstance(v, Gen):
      return v.it
    if isinstance(v, NT):
      return iter(list(v.vals))
    if isinstance(v, SArr):
      return iter(list(v.items))
    if isinstance(v, NArr):
      return iter([self.lib.index(v, i) for i in range(v.shape[0])])
    if isinstance(v, Inst):
      f, _ = v.cls.lookup('__iter__')
      if f is not None:
        return self.iterate(self.call(Bound(f, v), [], {}))
      if v.payload is not None:
        return self.iterate(v.payload)
      nx, _ = v.cls.lookup('__next__')
      if nx is not None:
        return self._nextiter(v, nx)
      if v.cls.libs():
        raise Undecided(f"iteration over library instance at {self.site()}")
      gi, _ = v.cls.lookup('__getitem__')
      if gi is not None:
        raise Undecided('iteration through __getitem__')
      raise self.exc('TypeError', f"'{v.cls.name}' object is not iterable")
    if isinstance(v, Num):
      return self.lib.iter_num(v)
    if isinstance(v, Unk):
      raise Undecided(f"iteration over unknown {v.why}")
    if isinstance(v, Opq):
      raise Undecided(f"iteration over opaque {v.key}")
    if hasattr(v, '__next__') and not isinstance(v, (Func,)):
      return v
    raise self.exc('TypeError', f"'{self.lib.tname(v)}' object is not iterable")

  def _nextiter(self, v, nx):
    while True:
      try:
        x = self.call(Bound(nx, v), [], {})
      except AbsExc as e:
        if e.etype == 'StopIteration':
          return
        raise
      yield x

  def _live(self, lst):
    i = 0
    while i < len(lst):
      yield lst[i]
      i += 1
      if i > 5000:
        raise Undecided('unbounded list iteration')

  def _unkey(self, k):
    return k.num if isinstance(k, NumKey) else k

  def _dictiter(self, d):
    n = len(d)
    for k in list(d.keys()):
      yield self._unkey(k)
      if len(d) != n:
        raise self.exc('RuntimeError', 'dictionary changed size during iteration')

  def _viewiter(self, v):
    n = len(v)
    for x in list(v):
      if isinstance(x, NumKey):
        x = x.num
      elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], NumKey):
        x = (x[0].num, x[1])
      yield x
      if len(v) != n:
        raise self.exc('RuntimeError', 'dictionary changed size during iteration')

  def as_dict(self, v):
    if isinstance(v, dict):
      return v
    if isinstance(v, Inst) and isinstance(v.payload, dict):
      return v.payload
    if isinstance(v, Unk):
      raise Undecided('unknown mapping')
    try:
      out = {}
      for kv in self.iterate(v):
        k, x = list(self.iterate(kv))
        out[self.dkey(k)] = x
      return out
    except ValueError:
      raise self.exc('TypeError', 'not a mapping')

  # ----------------------------------------------------------------- truth
  def truth(self, v):
    if v is None:
      return False
    if isinstance(v, (bool, int, float, complex, str, list, tuple, dict, range)):
      return bool(v)
    if isinstance(v, ASet):
      return len(v) > 0
    if isinstance(v, Inst):
      f, _ = v.cls.lookup('__bool__')
      if f is not None:
        return self.truth(self.call(Bound(f, v), [], {}))
      f, _ = v.cls.lookup('__len__')
      if f is not None:
        return self.truth(self.call(Bound(f, v), [], {}))
      if v.payload is not None:
        return bool(v.payload)
      return True
    if isinstance(v, (Func, Bound, Cls, Lib, AbsFn, Partial, NMeth, Builtin, type, ModuleV,
                      Prop, NTCls, Gen, DType, ExcInst, ExcCls)):
      return True
    if isinstance(v, NT):
      return True
    if isinstance(v, Num):
      return self.lib.num_truth(v)
    if isinstance(v, (SArr, NArr)):
      if len(v.items) == 1:
        return self.truth(v.items[0])
      if not v.items:
        return False
      raise self.exc('ValueError', 'truth value of an array is ambiguous')
    if isinstance(v, Cplx):
      if v.re.const() == 0 and v.im.const() == 0:
        return False
      return True
    if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
      return len(v) > 0
    if isinstance(v, Unk):
      return self.ctx.decide(('unk', v.why), taint=v.why)
    if isinstance(v, Opq):
      return self.lib.opq_truth(v)
    return True

  # -------------------------------------------------------------- operators
  OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
         ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.BitAnd: 'and_',
         ast.BitOr: 'or_', ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift',
         ast.MatMult: 'matmul'}
  DUNDER = {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__', 'truediv': '__truediv__',
            'floordiv': '__floordiv__', 'mod': '__mod__', 'pow': '__pow__', 'and_': '__and__',
            'or_': '__or__', 'xor': '__xor__', 'lshift': '__lshift__', 'rshift': '__rshift__',
            'matmul': '__matmul__'}

  def binop(self, op, a, b):
    name = op if isinstance(op, str) else self.OPN[type(op)]
    d = self.DUNDER[name]
    rd = '__r' + d[2:]
    if isinstance(a, Inst):
      f, _ = a.cls.lookup(d)
      if f is not None:
        return self.call(Bound(f, a), [b], {})
    if isinstance(b, Inst):
      f, _ = b.cls.lookup(rd)
      if f is not None:
        return self.call(Bound(f, b), [a], {})
    if isinstance(a, Unk) or isinstance(b, Unk):
      return self.unk('operator on ' + (a.why if isinstance(a, Unk) else b.why))
    if isinstance(a, Opq) or isinstance(b, Opq):
      return self.lib.opq_binop(name, a, b)
    if isinstance(a, Inst) and a.payload is None and not a.cls.libs():
      raise self.exc('TypeError', f"unsupported operand {name} for {a.cls.name}")
    if isinstance(b, Inst) and b.payload is None and not b.cls.libs():
      raise self.exc('TypeError', f"unsupported operand {name} for {b.cls.name}")
    return self.lib.arith(name, a, b)

  def unary(self, op, v):
    if isinstance(v, Unk):
      return self.unk('unary on ' + v.why)
    if isinstance(v, Inst):
      m = {ast.USub: '__neg__', ast.Invert: '__invert__', ast.UAdd: '__pos__'}[type(op)]
      f, _ = v.cls.lookup(m)
      if f is not None:
        return self.call(Bound(f, v), [], {})
      raise self.exc('TypeError', f"bad operand type for unary {m}")
    return self.lib.unary(type(op).__name__, v)

  CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
         ast.GtE: '>='}

  def compare(self, op, a, b):
    if isinstance(op, ast.Is):
      return self.is_same(a, b)
    if isinstance(op, ast.IsNot):
      r = self.is_same(a, b)
      return not r if isinstance(r, bool) else not self.truth(r)
    if isinstance(op, ast.In):
      return self.contains(b, a)
    if isinstance(op, ast.NotIn):
      return not self.truth(self.contains(b, a))
    return self.cmp(self.CMP[type(op)], a, b)

  def is_same(self, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
      return self.unk('identity')
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
      return a is b
    if isinstance(a, (int, str, float, type, Lib, Cls, complex)):
      if isinstance(a, Lib) and isinstance(b, Lib):
        return a.path == b.path
      return type(a) == type(b) and a == b
    return a is b

  def cmp(self, sym, a, b):
    if isinstance(a, Inst):
      m = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__',
           '>=': '__ge__'}[sym]
      f, _ = a.cls.lookup(m)
      if f is not None:
        r = self.call(Bound(f, a), [b], {})
        if not (isinstance(r, Lib) and r.path == 'NotImplemented'):
          return r
        if sym in ('==', '!='):
          if isinstance(b, Inst) and b is not a:
            g, _ = b.cls.lookup(m)
            if g is not None and g is not f:
              r = self.call(Bound(g, b), [a], {})
              if not (isinstance(r, Lib) and r.path == 'NotImplemented'):
                return r
          return (a is b) == (sym == '==')
        raise self.exc('TypeError', f"'{sym}' not supported")
    return self.lib.cmp(sym, a, b)

  def eq(self, a, b):
    return self.truth(self.cmp('==', a, b))

  def contains(self, c, x):
    if isinstance(c, Unk) or isinstance(x, Unk):
      return self.unk('membership')
    if isinstance(c, Inst):
      f, _ = c.cls.lookup('__contains__')
      if f is not None:
        return self.truth(self.call(Bound(f, c), [x], {}))
      if c.payload is not None:
        c = c.payload
      else:
        return self.contains(list(self.iterate(c)), x)
    if isinstance(c, str):
      if not isinstance(x, str):
        raise self.exc('TypeError', "'in <string>' requires string")
      return x in c
    if isinstance(c, ASet):
      if x in c:
        return True
      if isinstance(x, (Num, Cplx)):
        return any(self.eq(y, x) for y in c)
      return False
    if isinstance(c, dict):
      return self.dkey(x) in c
    if isinstance(c, (type({}.keys()),)):
      return self.dkey(x) in c
    if isinstance(c, range):
      i = self.as_int(x)
      if i is not None:
        return i in c
    for y in self.iterate(c):
      if y is x or self.truth(self.lib.any_true(self.cmp('==', y, x))):
        return True
    return False

  # --------------------------------------------------------------- strings
  def to_str(self, v):
    if isinstance(v, str):
      return v
    if isinstance(v, (bool, int, float, complex, type(None))):
      return str(v)
    if isinstance(v, Inst):
      for m in ('__str__', '__repr__'):
        f, _ = v.cls.lookup(m)
        if f is not None:
          try:
            r = self.call(Bound(f, v), [], {})
          except AbsExc as e:
            raise
          if isinstance(r, str):
            return r
      return f"<{v.cls.name}>"
    if isinstance(v, Num):
      return '\u27e8' + _san(v.t.key) + '\u27e9'
    if isinstance(v, Cplx):
      return '\u27e8' + _san(v.re.key) + 'j\u27e9'
    if isinstance(v, (list, tuple, ASet)):
      o, c = {'list': '[]', 'tuple': '()', 'ASet': '{}'}[type(v).__name__]
      return o + ', '.join(self.to_str(x) for x in v) + c
    if isinstance(v, dict):
      return '{' + ', '.join(f"{self.to_str(k)}: {self.to_str(x)}" for k, x in v.items()) + '}'
    if isinstance(v, Opq) and v.kind == 'sympy.Symbol' and hasattr(v, 'syms'):
      return list(v.syms)[0]
    return f"<{_san(repr(v))}>"


def _san(s):
  import hashlib
  if len(s) <= 12 and s.replace('_', '').replace('#', '').isalnum():
    return s
  return hashlib.sha1(s.encode()).hexdigest()[:10]


def _is_main_guard(test):
  return isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and \
      test.left.id == '__name__'


class NumKey:
  """ Abstract number used as dictionary key """
  def __init__(self, num):
    self.num = num
    self.k = hkey(num)

  def __eq__(self, o):
    return isinstance(o, NumKey) and o.k == self.k

  def __hash__(self):
    return hash(self.k)


class NpScalar(float):
  pass


class SliceV:
  def __init__(self, start, stop, step=None):
    self.start, self.stop, self.step = start, stop, step

  def native(self, I):
    out = []
    for x in (self.start, self.stop, self.step):
      if x is None:
        out.append(None)
      else:
        i = I.as_int(x)
        if i is None:
          return None
        out.append(i)
    return slice(*out)

  def full(self):
    return self.start is None and self.stop is None and self.step in (None, 1)

  def __eq__(self, o):
    return isinstance(o, SliceV) and (self.start, self.stop, self.step) == \
        (o.start, o.stop, o.step)

  def __hash__(self):
    return hash(('slice', self.start, self.stop, self.step))

  def __repr__(self):
    return f"slice({self.start!r},{self.stop!r},{self.step!r})"


class PropDec:
  _pbsa = True

  def __init__(self, prop, which):
    self.prop, self.which = prop, which

  def __call__(self, I, args, kwds):
    p = Prop(self.prop.fget, self.prop.fset, self.prop.fdel)
    setattr(p, {'setter': 'fset', 'getter': 'fget', 'deleter': 'fdel'}[self.which], args[0])
    return p


class FuncCode:
  def __init__(self, fn):
    self.fn = fn


class NativeUnbound:
  """ dict.update, OrderedDict.__init__, str.join taken from the class """
  _pbsa = True

  def __init__(self, typ, name):
    self.typ, self.name = typ, name

  def __call__(self, I, args, kwds):
    if self.name == 'fromkeys' and issubclass(self.typ, dict):
      out = self.typ() if self.typ is not dict else {}
      for k in I.iterate(args[0]):
        out[I.dkey(k)] = args[1] if len(args) > 1 else None
      return out
    if self.name == 'maketrans' and self.typ is str and all(isinstance(a, str) for a in args):
      return str.maketrans(*args)
    if self.name == '__new__':
      return Inst(args[0]) if isinstance(args[0], Cls) else I.unk('__new__')
    o = args[0]
    if self.name == '__init__' and isinstance(o, Inst):
      I.lib.native_init(o, args[1:], kwds)
      return None
    if self.name == 'union' and self.typ in (set, frozenset):
      return I.lib.method(o, 'union', list(args[1:]), kwds)
    return I.lib.method(o, self.name, list(args[1:]), kwds, native=True)


class NMethN:
  """ super().method resolved to the builtin base """
  _pbsa = True

  def __init__(self, o, name):
    self.o, self.name = o, name

  def __call__(self, I, args, kwds):
    if self.name == '__init__':
      I.lib.native_init(self.o, args, kwds)
      return None
    if self.name == '__repr__':
      return f"<{self.o.cls.name}>"
    if self.name == '__hash__':
      return id(self.o)
    return I.lib.method(self.o, self.name, list(args), kwds, native=True)


# ------------------------------------------------------------------- driver
class Outcome:
  def __init__(self, kind, value, ctx, interp, exc=None):
    self.kind, self.value, self.ctx, self.I = kind, value, ctx, interp
    self.exc = exc
    self.decisions = [(k, v) for k, v, _ in ctx.taken]
    self.tainted = list(ctx.tainted)
    self.ret = getattr(interp, 'last_return', None)

  def __repr__(self):
    return f"Outcome<{self.kind} {self.exc or self.value!r} {self.decisions}>"


def explore(program, client, max_paths=64, setup=None):
  """ Analyse client(interp) along every partition of its undecided conditions.

  client: function of the interpreter returning the value to judge.
  """
  todo = [[]]
  out = []
  n = 0
  while todo:
    if n >= max_paths:
      out.append(Outcome('undecided', None, ctx, I, Undecided('partition bound exceeded')))
      break
    pre = todo.pop()
    ctx = Ctx(pre)
    I = Interp(program, ctx)
    n += 1
    try:
      v = client(I)
      o = Outcome('ok', v, ctx, I)
    except AbsExc as e:
      o = Outcome('raise', None, ctx, I, e)
    except Undecided as e:
      o = Outcome('undecided', None, ctx, I, e)
    except RecursionError:
      o = Outcome('undecided', None, ctx, I, Undecided('recursion'))
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, ZeroDivisionError) as e:
      o = Outcome('internal', None, ctx, I, e)
    out.append(o)
    for i in range(len(pre), len(ctx.taken)):
      key, v, opts = ctx.taken[i]
      base = [x[1] for x in ctx.taken[:i]]
      for alt in opts:
        if alt != v:
          todo.append(base + [alt])
  return out
