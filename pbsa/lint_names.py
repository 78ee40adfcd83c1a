""" Resolution of every name, attribute and call of the package, over the syntax trees.

Four rules, all judged on definite failures only:
  name       a name loaded is bound in its scope, an enclosing one, the module or the builtins,
             and a local is bound on at least one path to each of its uses
  import     what is imported from the package exists there; what is taken from an installed
             library's namespace is exported there
  attribute  an attribute read through the instance is defined somewhere in the family of its
             class; an attribute read through anything else is defined by some class known
  call       the arguments of a call whose callee is in the package bind to its parameters
"""
import ast, builtins, collections, functools, glob, os, re, symtable, sys

from .harness import Obligation

BUILT = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__builtins__', '__spec__',
                              '__loader__', '__package__', '__class__', '__module__', '__qualname__', '__dict__'}
DYNAMIC = ('setattr', '__dict__', 'globals', 'locals', 'exec', 'eval', 'vars')


class Mod:
  def __init__(self, name, path):
    self.name, self.path = name, path
    self.text = open(path).read()
    self.tree = ast.parse(self.text, path)
    self.table = symtable.symtable(self.text, path, 'exec')
    self.top = collections.OrderedDict()      # name -> list of binding nodes
    self.star = False
    self._bind(self.tree.body)

  def _bind(self, body):
    for st in body:
      if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        self.top.setdefault(st.name, []).append(st)
      elif isinstance(st, (ast.Import, ast.ImportFrom)):
        for a in st.names:
          if a.name == '*':
            self.star = True
          nm = a.asname or a.name.split('.')[0]
          self.top.setdefault(nm, []).append((st, a))
      else:
        for n in ast.walk(st):
          if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.top.setdefault(n.id, []).append(n)
          elif isinstance(n, ast.Global):
            pass
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
          sub = getattr(st, f, None)
          for x in sub or []:
            self._bind(x.body if isinstance(x, ast.ExceptHandler) else [x])
    for n in ast.walk(self.tree):
      if isinstance(n, ast.Global):
        for g in n.names:
          self.top.setdefault(g, []).append(n)


class Cls:
  def __init__(self, mod, node):
    self.mod, self.node, self.name = mod, node, node.name
    self.methods, self.attrs, self.stores = {}, set(), set()
    self.opaque = self.wild = False
    for st in node.body:
      if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self.methods.setdefault(st.name, []).append(st)
      else:
        for n in ast.walk(st):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            self.attrs.add(n.id)
          elif isinstance(n, ast.ClassDef):
            self.attrs.add(n.name)
    for n in ast.walk(node):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
        self.stores.add(n.attr)
    if '__getattr__' in self.methods or '__getattribute__' in self.methods:
      self.wild = True
    for n in ast.walk(node):
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
        # attributes named after the members of another object, or by names made up here
        if len(n.args) > 1 and isinstance(n.args[1], ast.Name) and not self.opaque and \
            any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'dir' for c in ast.walk(node)):
          self.opaque = True
        else:
          self.wild = True
      elif isinstance(n, ast.Attribute) and n.attr in ('__dict__', '__setattr__'):
        self.wild = True
      elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('vars', 'exec'):
        self.wild = True


class Package:
  def __init__(self, root):
    self.root = root
    self.mods = {}
    base = os.path.join(root, 'probayes')
    for p in sorted(glob.glob(base + '/**/*.py', recursive=True)):
      rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
      if rel.endswith('.__init__'):
        rel = rel[:-9]
      self.mods[rel] = Mod(rel, p)
    self.classes = {}
    for m in self.mods.values():
      for n, b in m.top.items():
        if isinstance(b[-1], ast.ClassDef) and len(b) == 1:
          self.classes[(m.name, n)] = Cls(m, b[-1])
    self._mro = {}
    self.subs = collections.defaultdict(set)
    for k, c in self.classes.items():
      for d in self.mro(c):
        if isinstance(d, Cls):
          self.subs[d].add(c)

  def resolve(self, mod, name, depth=0):
    """ the definition a top-level name of a module denotes: node, Cls, ('external', ...) or None """
    b = mod.top.get(name)
    if not b or len(b) != 1 or depth > 8:
      return None
    b = b[0]
    if isinstance(b, ast.ClassDef):
      return self.classes.get((mod.name, name))
    if isinstance(b, ast.FunctionDef):
      return b if not b.decorator_list else None
    if isinstance(b, tuple):
      st, a = b
      if isinstance(st, ast.ImportFrom) and st.module and st.level == 0:
        if st.module in self.mods:
          src = self.mods[st.module]
          if a.name in src.top:
            return self.resolve(src, a.name, depth + 1)
          sub = st.module + '.' + a.name
          return self.mods.get(sub)
        return ('external', st.module + '.' + a.name)
      if isinstance(st, ast.Import):
        return ('external', a.name if a.asname else a.name.split('.')[0])
    if isinstance(b, ast.Name):
      for st in mod.tree.body:
        if isinstance(st, ast.Assign) and any(t is b for t in st.targets):
          v = st.value
          if isinstance(v, ast.Name):
            return self.resolve(mod, v.id, depth + 1)
          if isinstance(v, ast.Attribute):
            return self.dotted(mod, v, depth + 1)
    return None

  def dotted(self, mod, node, depth=0):
    parts = []
    while isinstance(node, ast.Attribute):
      parts.append(node.attr)
      node = node.value
    if not isinstance(node, ast.Name):
      return None
    r = self.resolve(mod, node.id, depth)
    if isinstance(r, tuple) and r[0] == 'external':
      return ('external', '.'.join([r[1]] + parts[::-1]))
    if isinstance(r, Mod) and len(parts) == 1:
      return self.resolve(r, parts[0], depth + 1)
    return None

  def mro(self, c):
    if c in self._mro:
      return self._mro[c]
    bases = []
    for b in c.node.bases:
      r = self.resolve(c.mod, b.id) if isinstance(b, ast.Name) else self.dotted(c.mod, b)
      if r is None and isinstance(b, ast.Name) and b.id == 'object':
        continue
      bases.append(r if isinstance(r, Cls) else ('ext', r[1] if isinstance(r, tuple) else '?'))
    seqs = [list(self.mro(b)) if isinstance(b, Cls) else [b] for b in bases] + [list(bases)]
    out = [c]
    while any(seqs):
      seqs = [s for s in seqs if s]
      for s in seqs:
        h = s[0]
        if not any(h in t[1:] for t in seqs):
          break
      else:
        out += [('ext', '?')]
        break
      out.append(h)
      seqs = [[x for x in s if x != h] if s[0] == h else s for s in seqs]
    self._mro[c] = out
    return out

  def lookup(self, c, name, after=None):
    """ ('method', Cls, node) | ('attr', Cls) | ('ext', base) | None """
    seq = self.mro(c)
    if after is not None:
      if after not in seq:
        return ('ext', '?')
      seq = seq[seq.index(after) + 1:]
    for d in seq:
      if isinstance(d, tuple):
        return d
      if name in d.methods:
        return ('method', d, d.methods[name][-1])
      if name in d.attrs:
        return ('attr', d)
    return None


# ------------------------------------------------------------- libraries
def site_dirs():
  out = sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
  return out + [p for p in sys.path if p.endswith('site-packages') and os.path.isdir(p)]


@functools.lru_cache(None)
def words(*pats):
  out = set()
  for d in site_dirs():
    hit = False
    for p in pats:
      for f in glob.glob(os.path.join(d, p)):
        try:
          out |= set(re.findall(r'[A-Za-z_]\w*', open(f, errors='replace').read()))
          hit = True
        except OSError:
          pass
    if hit:
      break
  return out


LIBS = {   # namespace -> files in which every exported name is spelt
    'numpy': ('numpy/__init__.pyi', 'numpy/__init__.py'),
    'numpy.random': ('numpy/random/__init__.pyi', 'numpy/random/__init__.py'),
    'numpy.linalg': ('numpy/linalg/__init__.pyi', 'numpy/linalg/__init__.py'),
    'sympy': ('sympy/__init__.py',),
    'sympy.stats': ('sympy/stats/__init__.py',),
    'scipy.stats': ('scipy/stats/__init__.py',),
    'h5py': ('h5py/__init__.py',),
    'networkx': ('networkx/__init__.py', 'networkx/classes/*.py'),
}
OBJECTS = ('numpy/__init__.pyi', 'sympy/core/*.py', 'sympy/stats/*.py', 'sympy/utilities/*.py',
           'sympy/series/*.py', 'sympy/functions/elementary/*.py', 'sympy/matrices/*.py',
           'sympy/concrete/*.py', 'sympy/integrals/*.py', 'sympy/sets/*.py', 'sympy/__init__.py',
           'networkx/classes/*.py', 'networkx/*.py', 'networkx/algorithms/*.py', 'networkx/algorithms/*/*.py',
           'networkx/drawing/*.py',
           'scipy/stats/*.py', 'h5py/_hl/*.py', 'scipy/*.py', 'h5py/*.py')


def std_attrs():
  import array, datetime, doctest, inspect, io, itertools, json, math, operator, types, warnings
  import decimal, enum, fractions, numbers, random, string, time, logging, pathlib, copy, contextlib
  import statistics, bisect, heapq, dataclasses, typing, abc, weakref, threading
  out = set()
  for o in (str, bytes, int, float, complex, bool, list, tuple, dict, set, frozenset, slice, range, type, object,
            property, Exception, OSError, UnicodeError, collections.OrderedDict, collections.deque,
            collections.Counter, collections.defaultdict, collections.namedtuple('n', 'a'), types, inspect,
            functools, itertools, math, operator, collections, warnings, json, io, os, os.path, sys, re, datetime,
            (lambda: 0), functools.partial(max), types.ModuleType, (x for x in ()), builtins, memoryview,
            inspect.Signature, inspect.Parameter, inspect.FullArgSpec, decimal, enum, fractions, numbers, random,
            string, time, logging, pathlib.Path, pathlib, copy, contextlib, statistics, bisect, heapq, dataclasses,
            typing, abc, weakref, threading, io.StringIO, doctest, staticmethod, classmethod, super, types.MethodType,
            types.CodeType, types.FrameType, logging.Logger):
    out |= set(dir(o))
  return out | {'fget', '__wrapped__', 'register', 'cache_clear', 'cache_info'}


# ------------------------------------------------------------- the rules
class Lint:
  def __init__(self, root):
    self.P = Package(root)
    self.out = []
    self.n = collections.Counter()
    self.mangled = set()
    self.fams = {}
    self.universe = std_attrs() | words(*OBJECTS)
    self.have_libs = bool(words('numpy/__init__.pyi'))
    for m in self.P.mods.values():
      self.universe |= set(m.top)
      for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
          self.universe.add(n.attr)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
          self.universe.add(n.name)
        elif isinstance(n, ast.ClassDef):
          pass
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
          self.universe |= set(re.findall(r'[A-Za-z_]\w*', n.value)) if len(n.value) < 200 else set()
    for c in self.P.classes.values():
      self.universe |= c.attrs
      for a in c.attrs | c.stores | set(c.methods):
        if a.startswith('__') and not a.endswith('__'):
          self.mangled.add('_' + c.name.lstrip('_') + a)
    self.universe |= self.mangled
    self.libs = {k: words(*v) for k, v in LIBS.items()}

  def add(self, rule, ok, where, detail, node, mod):
    self.n[rule, mod.name] += 1
    if not ok:
      rel = os.path.relpath(mod.path, self.P.root)
      self.out.append(Obligation(rule, 'fail', where, detail, f"{rel}:{getattr(node, 'lineno', 0)}"))

  # -- names
  def names(self, m):
    def walk(tab, outer):
      for s in tab.get_symbols():
        if not s.is_referenced() or tab.get_type() == 'annotation':
          continue
        nm = s.get_name()
        if s.is_global():
          ok = nm in m.top or nm in BUILT or m.star
          self.add('name', ok, f"{m.name}.{tab.get_name()}", f"name {nm!r} is bound nowhere",
                   None if ok else self.find(m, tab, nm), m)
        elif tab.get_type() == 'module':
          ok = nm in m.top or nm in BUILT or m.star or s.is_assigned() or s.is_imported()
          self.add('name', ok, m.name, f"name {nm!r} is bound nowhere", None if ok else self.find(m, tab, nm), m)
        else:
          self.n['name', m.name] += 1
      for c in tab.get_children():
        walk(c, tab)
    walk(m.table, None)

  def find(self, m, tab, nm):
    best = None
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Name) and n.id == nm and n.lineno >= tab.get_lineno():
        if best is None or n.lineno < best.lineno:
          best = n
    return best

  def functions(self, m):
    if not hasattr(m, 'fns'):
      m.fns = self._functions(m)
    return m.fns

  def _functions(self, m):
    """ (qualified name, node, class or None) of every function, nested ones included """
    out = []

    def go(body, pre, cls):
      for st in body:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
          out.append((pre + st.name, st, cls))
          go(st.body, pre + st.name + '.', cls)
        elif isinstance(st, ast.ClassDef):
          go(st.body, pre + st.name + '.', self.P.classes.get((m.name, st.name)))
        else:
          for f in ('body', 'orelse', 'finalbody', 'handlers'):
            for x in getattr(st, f, None) or []:
              if isinstance(x, ast.ExceptHandler):
                go(x.body, pre, cls)
              elif isinstance(x, ast.stmt):
                go([x], pre, cls)
    go(m.tree.body, m.name + '.', None)
    return out

  def unbound(self, m, q, fn):
    """ a local read where no path has bound it (a may-be-bound analysis) """
    a = fn.args
    params = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    loc, free = set(), set()
    stack = list(fn.body)
    while stack:
      n = stack.pop()
      if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        loc.add(n.name)
        stack += n.decorator_list
        continue
      if isinstance(n, ast.Lambda):
        continue
      if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        for w in ast.walk(n):
          if isinstance(w, ast.NamedExpr):
            loc.add(w.target.id)
        continue
      if isinstance(n, (ast.Global, ast.Nonlocal)):
        free |= set(n.names)
      if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        loc.add(n.id)
      if isinstance(n, (ast.Import, ast.ImportFrom)):
        loc |= {(x.asname or x.name.split('.')[0]) for x in n.names}
      if isinstance(n, ast.ExceptHandler) and n.name:
        loc.add(n.name)
      if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
        loc.add(n.name)
      if isinstance(n, ast.MatchMapping) and n.rest:
        loc.add(n.rest)
      stack += list(ast.iter_child_nodes(n))
    loc -= free
    loc |= params

    def uses(e, have):
      """ loads of an expression in order, binding walrus targets """
      for n in ast.walk(e):
        if isinstance(n, ast.NamedExpr):
          have.add(n.target.id)
      skip = set()
      for n in ast.walk(e):
        if isinstance(n, ast.Lambda):
          skip |= set(map(id, ast.walk(n.body)))
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
          own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
          for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in own:
              skip.add(id(x))
      for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and id(n) not in skip:
          self.add('name', n.id in have, q, f"local {n.id!r} is read where no path has bound it", n, m)

    def targets(t, have):
      for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          have.add(n.id)

    DEAD = None

    def seq(body, have, brk, cont):
      for st in body:
        if have is DEAD:
          return DEAD
        have = step(st, have, brk, cont)
      return have

    def join(*hs):
      hs = [h for h in hs if h is not DEAD]
      return set().union(*hs) if hs else DEAD

    def step(st, have, brk, cont):
      have = set(have)
      if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        have.add(st.name)
        return have
      if isinstance(st, (ast.Import, ast.ImportFrom)):
        return have | {(x.asname or x.name.split('.')[0]) for x in st.names}
      if isinstance(st, (ast.Return, ast.Raise)):
        for e in ast.iter_child_nodes(st):
          uses(e, have)
        return DEAD
      if isinstance(st, ast.Break):
        brk.append(have)
        return DEAD
      if isinstance(st, ast.Continue):
        cont.append(have)
        return DEAD
      if isinstance(st, ast.If):
        uses(st.test, have)
        a = seq(st.body, have, brk, cont)
        b = seq(st.orelse, have, brk, cont)
        return join(a, b)
      if isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
        b2, c2 = [], []
        if isinstance(st, ast.While):
          uses(st.test, have)
          inner = set(have)
        else:
          uses(st.iter, have)
          inner = set(have)
          targets(st.target, inner)
        # whatever the body binds may be bound on a later turn
        for n in ast.walk(ast.Module(st.body, [])):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            inner.add(n.id)
          elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            inner.add(n.name)
          elif isinstance(n, (ast.Import, ast.ImportFrom)):
            inner |= {(x.asname or x.name.split('.')[0]) for x in n.names}
          elif isinstance(n, ast.ExceptHandler) and n.name:
            inner.add(n.name)
        # only the first turn without later bindings can be definite: be lenient and take `inner`
        end = seq(st.body, inner, b2, c2)
        out = join(have, end, *c2)
        out = seq(st.orelse, out, brk, cont)
        return join(out, *b2)
      if isinstance(st, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
        mid = set(have)
        for n in ast.walk(ast.Module(st.body, [])):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            mid.add(n.id)
          elif isinstance(n, (ast.Import, ast.ImportFrom)):
            mid |= {(x.asname or x.name.split('.')[0]) for x in n.names}
        a = seq(st.body, have, brk, cont)
        if a is not DEAD:
          a = seq(st.orelse, a, brk, cont)
        outs = [a]
        for h in st.handlers:
          hv = set(mid)
          if h.type is not None:
            uses(h.type, hv)
          if h.name:
            hv.add(h.name)
          outs.append(seq(h.body, hv, brk, cont))
        o = join(*outs)
        if st.finalbody:
          f = seq(st.finalbody, o if o is not DEAD else mid, brk, cont)
          return f if o is not DEAD else DEAD
        return o
      if isinstance(st, (ast.With, ast.AsyncWith)):
        for it in st.items:
          uses(it.context_expr, have)
          if it.optional_vars is not None:
            targets(it.optional_vars, have)
        return seq(st.body, have, brk, cont)
      if isinstance(st, ast.Delete):
        return have
      if isinstance(st, ast.Match):
        return have | loc
      if isinstance(st, ast.AugAssign):
        uses(st.value, have)
        if isinstance(st.target, ast.Name):
          if st.target.id in loc:
            self.add('name', st.target.id in have, q,
                     f"local {st.target.id!r} is augmented where no path has bound it", st, m)
          have.add(st.target.id)
        else:
          uses(st.target, have)
        return have
      # assignments and expressions
      for e in ast.iter_child_nodes(st):
        if isinstance(e, ast.expr):
          uses(e, have)
      for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          have.add(n.id)
      return have
    seq(fn.body, set(params), [], [])

  # -- imports
  def imports(self, m):
    for n in ast.walk(m.tree):
      if isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
        if n.module.split('.')[0] == 'probayes':
          src = self.P.mods.get(n.module)
          self.add('import', src is not None, m.name, f"module {n.module} does not exist", n, m)
          for a in n.names if src else ():
            ok = a.name == '*' or a.name in src.top or n.module + '.' + a.name in self.P.mods or src.star or \
                a.name in BUILT
            self.add('import', ok, m.name, f"{n.module} has no {a.name!r}", n, m)
        elif n.module in self.libs and self.libs[n.module]:
          for a in n.names:
            self.add('import', a.name in self.libs[n.module], m.name, f"{n.module} has no {a.name!r}", n, m)
      elif isinstance(n, ast.Import):
        for a in n.names:
          if a.name.split('.')[0] == 'probayes':
            self.add('import', a.name in self.P.mods, m.name, f"module {a.name} does not exist", n, m)
      elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        parts, x = [n.attr], n.value
        while isinstance(x, ast.Attribute):
          parts.append(x.attr)
          x = x.value
        if isinstance(x, ast.Name) and not self.shadowed(m, x):
          r = self.P.resolve(m, x.id)
          if isinstance(r, Mod) and len(parts) == 1:
            self.add('import', n.attr in r.top or r.star or r.name + '.' + n.attr in self.P.mods, m.name,
                     f"{r.name} has no {n.attr!r}", n, m)
          elif isinstance(r, tuple) and r[0] == 'external':
            ns = '.'.join([r[1]] + parts[:0:-1])
            if ns == 'collections':
              self.add('import', hasattr(collections, n.attr), m.name, f"{ns} has no {n.attr!r}", n, m)
            elif self.libs.get(ns):
              self.add('import', n.attr in self.libs[ns], m.name, f"{ns} has no {n.attr!r}", n, m)

  def shadowed(self, m, name):
    """ whether some function binds the name locally """
    if not hasattr(m, 'locals'):
      m.locals = set()
      for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
          m.locals |= {x.arg for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
          m.locals |= {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        if isinstance(n, ast.FunctionDef):
          for w in ast.walk(n):
            if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store):
              m.locals.add(w.id)
            elif isinstance(w, (ast.Import, ast.ImportFrom)):
              m.locals |= {(x.asname or x.name.split('.')[0]) for x in w.names}
            elif isinstance(w, ast.FunctionDef) and w is not n:
              m.locals.add(w.name)
    return name.id in m.locals

  # -- attributes
  def family(self, c):
    if c not in self.fams:
      self.fams[c] = self._family(c)
    return self.fams[c]

  def _family(self, c):
    fam, opaque, wild, ext = set(), False, False, set()
    for d in self.P.subs[c] | {c}:
      for e in self.P.mro(d):
        if isinstance(e, tuple):
          ext.add(e[1])
        else:
          opaque |= e.opaque
          wild |= e.wild
          fam |= set(e.methods) | e.attrs | e.stores
    for x in ext:
      if x.startswith('collections.'):
        fam |= set(dir(getattr(collections, x.split('.')[1], object)))
      elif x.startswith('networkx'):
        w = words('networkx/classes/*.py')
        wild |= not w
        fam |= w
      elif x != 'object':
        return set(), True
    if wild:
      return set(), True
    if opaque:        # members taken over from sympy objects
      fam |= words('sympy/core/*.py', 'sympy/stats/*.py')
      opaque = not words('sympy/core/*.py')
    return fam | self.mangled | set(dir(object)) | {'__dict__', '__name__', '__mro__', '__bases__'}, opaque

  def attributes(self, m):
    for q, fn, cls in self.functions(m):
      self.made(m, q, fn)
      if cls is None or fn not in cls.methods.get(fn.name, ()):
        continue
      if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.decorator_list):
        continue
      if not fn.args.args:
        continue
      me = fn.args.args[0].arg
      fam, opaque = self.family(cls)
      for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me \
            and isinstance(n.ctx, ast.Load):
          a = n.attr
          mangled = a.startswith('__') and not a.endswith('__')
          if mangled:
            self.add('attribute', opaque or a in cls.attrs | cls.stores | set(cls.methods), q,
                     f"private attribute {a!r} is set nowhere in class {cls.name}", n, m)
          else:
            self.add('attribute', opaque or a in fam, q,
                     f"attribute {a!r} is defined nowhere in the family of class {cls.name}", n, m)
    if not self.have_libs:
      return
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        self.add('attribute', n.attr in self.universe or n.attr.startswith('__'), m.name,
                 f"attribute {n.attr!r} is defined by no class known", n, m)

  def made(self, m, q, fn):
    """ attributes of a local which is only ever an instance of one class of the package """
    stores = collections.defaultdict(list)
    for n in ast.walk(fn):
      if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        stores[n.id].append(n)
    a = fn.args
    params = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    for st in ast.walk(fn):
      if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
          and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name):
        v = st.targets[0].id
        if v in params or len(stores[v]) != 1:
          continue
        c = self.P.resolve(m, st.value.func.id)
        if not isinstance(c, Cls) or st.value.func.id in stores or st.value.func.id in params:
          continue
        if self.P.lookup(c, '__new__') not in (None,) and self.P.lookup(c, '__new__')[0] != 'ext':
          continue
        fam, opaque = self.family(c)
        for n in ast.walk(fn):
          if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == v and \
              isinstance(n.ctx, ast.Load):
            self.add('attribute', opaque or n.attr in fam, q,
                     f"attribute {n.attr!r} is defined nowhere in the family of class {c.name}", n, m)

  # -- calls
  def bind(self, fn, call, bound):
    """ why the arguments cannot bind, or None """
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    npos_only = len(a.posonlyargs)
    req = set(pos[:len(pos) - len(a.defaults)])
    kwo = {x.arg for x in a.kwonlyargs}
    kreq = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    if bound:
      if not pos:
        return None if a.vararg else 'takes no arguments'
      req.discard(pos[0])
      pos = pos[1:]
      npos_only = max(0, npos_only - 1)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [x for x in call.args if not isinstance(x, ast.Starred)]
    if len(given) > len(pos) and not a.vararg:
      return f"takes {len(pos)} positional arguments, {len(given)} given"
    filled = set(pos[:len(given)]) if not star else set()
    for k in call.keywords:
      if k.arg is None:
        continue
      if k.arg in filled and not star:
        return f"argument {k.arg!r} given twice"
      if k.arg not in pos[npos_only:] and k.arg not in kwo and not a.kwarg:
        return f"has no argument {k.arg!r}"
      filled.add(k.arg)
    if not star and not dstar:
      miss = (req | kreq) - filled
      if miss:
        return f"argument {sorted(miss)[0]!r} missing"
    elif not dstar and kreq - filled:
      return f"argument {sorted(kreq - filled)[0]!r} missing"
    return None

  def calls(self, m):
    fns = self.functions(m)
    owner = {}
    tops = {}
    for q, fn, cls in fns:
      for n in ast.walk(fn):
        owner[id(n)] = (q, fn, cls)
        if cls is not None and fn in cls.methods.get(fn.name, ()):
          tops[id(n)] = fn
    for n in ast.walk(m.tree):
      if not isinstance(n, ast.Call):
        continue
      q, fn, cls = owner.get(id(n), (m.name, None, None))
      f = n.func
      if isinstance(f, ast.Name):
        if self.shadowed(m, f):
          continue
        r = self.P.resolve(m, f.id)
        if isinstance(r, Cls):
          k = self.P.lookup(r, '__new__')
          if k is not None and k[0] != 'ext':
            continue
          k = self.P.lookup(r, '__init__')
          if k is not None and k[0] == 'method':
            why = self.bind(k[2], n, True)
            self.add('call', why is None, q, f"{r.name}(...): {why}", n, m)
        elif isinstance(r, ast.FunctionDef):
          why = self.bind(r, n, False)
          self.add('call', why is None, q, f"{r.name}(...): {why}", n, m)
      elif isinstance(f, ast.Attribute):
        v = f.value
        if cls is None or fn is None:
          continue
        top = tops.get(id(n))
        if top is None or not top.args.args:
          continue
        deco = [d.id for d in top.decorator_list if isinstance(d, ast.Name)]
        if 'staticmethod' in deco or 'classmethod' in deco:
          continue
        me = top.args.args[0].arg
        sup = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and not v.args
        if not sup and not (isinstance(v, ast.Name) and v.id == me):
          continue
        if any(isinstance(w, ast.Name) and w.id == me and isinstance(w.ctx, ast.Store) for w in ast.walk(top)):
          continue
        for d in sorted(self.P.subs[cls] | {cls}, key=lambda c: c.name):
          k = self.P.lookup(d, top.name)
          if d is not cls and not (k and k[0] == 'method' and k[1] is cls):
            continue        # overridden: this body may never run on such an instance
          if any(f.attr in e.stores for e in self.P.mro(d) if isinstance(e, Cls)):
            continue
          k = self.P.lookup(d, f.attr, cls if sup else None)
          if k is None:
            if sup:
              self.add('call', f.attr in dir(object), q, f"no base of {cls.name} has {f.attr!r}", n, m)
            continue
          if k[0] != 'method':
            continue
          dec = [x.id for x in k[2].decorator_list if isinstance(x, ast.Name)]
          if k[2].decorator_list and dec != ['staticmethod'] and dec != ['classmethod']:
            continue
          why = self.bind(k[2], n, dec != ['staticmethod'])
          self.add('call', why is None, q, f"{'super()' if sup else d.name}.{f.attr}(...): {why}", n, m)

  def run(self):
    for m in self.P.mods.values():
      self.names(m)
      self.imports(m)
      self.attributes(m)
      for q, fn, cls in self.functions(m):
        self.unbound(m, q, fn)
      self.calls(m)


def resolution(root):
  L = Lint(root)
  L.run()
  nf = sum(len(L.functions(m)) for m in L.P.mods.values())
  total, bad = collections.Counter(), collections.Counter()
  for (r, m), c in L.n.items():
    total[r] += c
  info = {'modules': len(L.P.mods), 'functions': nf, 'classes': len(L.P.classes),
          'uses_resolved': dict(total), 'failures': len(L.out)}
  out, seen = [], set()
  for o in L.out:
    bad[o.rule, o.site.split(':')[0]] += 1
    k = (o.rule, o.construct, o.detail)
    if k not in seen:
      seen.add(k)
      out.append(o)
  for (r, m), c in sorted(L.n.items()):
    rel = os.path.relpath(L.P.mods[m].path, root)
    out.append(Obligation(r, 'hold', m, f"{c - bad[r, rel]} uses of {rel} resolved", rel))
  return info, out
