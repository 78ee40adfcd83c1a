""" Sources of chance and process-wide effects, over the syntax trees.

Three rules, judged on definite sites only:
  chance     every draw goes through the one generator the caller can seed (numpy's), which nothing in the
             package seeds, replaces or restores: no other generator, no fixed seed handed to a library
  settings   no process-wide setting (floating-point errors, print options, warning filters, recursion limit,
             environment, working directory, import path, members of imported libraries) is changed and left so
  files      files, processes and connections are opened on no target the package itself makes up
"""
import ast, collections, os

from .harness import Obligation
from .lint_names import Package

STDLIB_CHANCE = ('random', 'secrets')
CHANCE = ('os.urandom', 'os.getrandom', 'uuid.uuid1', 'uuid.uuid4')
GENERATORS = ('RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'PCG64DXSM', 'MT19937',
              'Philox', 'SFC64')
RESEED = ('seed', 'set_state', 'set_bit_generator')
SETTINGS = ('numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'numpy.set_printoptions',
            'numpy.set_string_function', 'os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.environ.update',
            'os.environ.pop', 'os.environ.setdefault', 'os.environ.clear', 'sys.setrecursionlimit',
            'sys.path.append', 'sys.path.insert', 'sys.path.extend', 'sys.setswitchinterval',
            'sys.settrace', 'sys.setprofile', 'locale.setlocale', 'signal.signal', 'gc.disable', 'gc.collect',
            'gc.set_threshold', 'atexit.register', 'logging.basicConfig', 'logging.disable', 'faulthandler.enable',
            'threading.Thread', 'decimal.setcontext', 'sympy.init_printing', 'scipy.special.seterr')
FILTERS = ('warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings')
OPENERS = ('open', 'io.open', 'os.open', 'h5py.File', 'numpy.save', 'numpy.savez', 'numpy.savetxt', 'numpy.load',
           'numpy.loadtxt', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir', 'os.mkdir',
           'os.makedirs', 'os.system', 'shutil.rmtree', 'shutil.copy', 'shutil.move', 'subprocess.run',
           'subprocess.Popen', 'subprocess.call', 'subprocess.check_output', 'subprocess.check_call',
           'tempfile.mkstemp', 'tempfile.mkdtemp', 'tempfile.NamedTemporaryFile', 'socket.socket',
           'socket.create_connection', 'urllib.request.urlopen')


class Lint:
  def __init__(self, root):
    self.P = Package(root)
    self.root = root
    self.n = collections.Counter()
    self.out = []

  def target(self, mod, local, node):
    """ the dotted name of the library object an expression denotes, or None """
    parts = []
    while isinstance(node, ast.Attribute):
      parts.append(node.attr)
      node = node.value
    if isinstance(node, ast.Name):
      if node.id in local:
        return '.'.join([local[node.id]] + parts[::-1]) if local[node.id] else None
      r = self.P.resolve(mod, node.id)
      if isinstance(r, tuple) and r[0] == 'external':
        full = '.'.join([r[1]] + parts[::-1])
        return full
      if r is None and not parts and node.id == 'open' and node.id not in mod.top:
        return 'open'
    return None

  def fail(self, rule, mod, fn, node, detail):
    rel = os.path.relpath(mod.path, self.root)
    self.out.append(Obligation(rule, 'fail', f"{mod.name}.{fn}", detail, f"{rel}:{node.lineno} in {fn}"))

  def locals_of(self, node):
    """ names a function binds -> the library it imports under the name, or None """
    loc = {}
    if isinstance(node, ast.Module):
      return loc
    for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs + \
        [x for x in (node.args.vararg, node.args.kwarg) if x]:
      loc[a.arg] = None
    for st in ast.walk(node):
      if isinstance(st, ast.Import):
        for a in st.names:
          loc[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
      elif isinstance(st, ast.ImportFrom) and st.module and not st.level:
        for a in st.names:
          loc[a.asname or a.name] = st.module + '.' + a.name
      elif isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store):
        loc.setdefault(st.id, None)
    return loc

  def constant(self, node, local, depth=0):
    """ an expression no run-time value enters """
    if isinstance(node, ast.Constant):
      return True
    if isinstance(node, (ast.BinOp, ast.UnaryOp, ast.Tuple, ast.List, ast.JoinedStr, ast.FormattedValue)):
      return all(self.constant(c, local) for c in ast.iter_child_nodes(node) if isinstance(c, ast.expr))
    return False

  def run(self):
    for mod in self.P.mods.values():
      stack = [(mod.tree, '<module>', {}, frozenset())]
      while stack:
        top, fn, local, guard = stack.pop()
        for node in ast.iter_child_nodes(top):
          f, l, g = fn, local, guard
          if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            nm = getattr(node, 'name', 'lambda')
            f = nm if fn == '<module>' else f"{fn}.{nm}"
            l = dict(local)
            l.update(self.locals_of(node))
            g = frozenset()
            if any(isinstance(t, ast.Try) and t.finalbody for t in ast.walk(node)):
              g = g | {'restored'}
          elif isinstance(node, ast.ClassDef):
            f = node.name if fn == '<module>' else f"{fn}.{node.name}"
          elif isinstance(node, ast.With):
            for it in node.items:
              e = it.context_expr.func if isinstance(it.context_expr, ast.Call) else it.context_expr
              if self.target(mod, local, e) == 'warnings.catch_warnings':
                g = guard | {'filters'}
          elif isinstance(node, ast.If) and isinstance(node.test, ast.Compare) and \
              isinstance(node.test.left, ast.Name) and node.test.left.id == '__name__':
            continue
          if isinstance(node, ast.Call):
            self.call(mod, f, l, g, node)
          elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)):
            self.store(mod, f, l, g, node)
          elif isinstance(node, (ast.Name, ast.Attribute)) and isinstance(getattr(node, 'ctx', None), ast.Load):
            self.read(mod, f, l, node)
          stack.append((node, f, l, g))

  def read(self, mod, fn, local, node):
    t = self.target(mod, local, node)
    if t is None:
      return
    if t.startswith('numpy.random.') or t.split('.')[0] in STDLIB_CHANCE or t in CHANCE:
      self.n['chance', mod.name] += 1
    head = t.split('.')
    if (head[0] in STDLIB_CHANCE and len(head) > 1) or t in CHANCE:
      self.fail('chance', mod, fn, node, f"{t} draws from a generator the caller of the package does not seed")

  def call(self, mod, fn, local, guard, node):
    t = self.target(mod, local, node.func)
    for k in node.keywords:
      if k.arg in ('random_state', 'seed') and isinstance(k.value, ast.Constant) and k.value.value is not None:
        self.n['chance', mod.name] += 1
        self.fail('chance', mod, fn, node, f"the fixed seed {k.arg}={k.value.value!r} makes every draw the same")
    if t is None:
      return
    head = t.split('.')
    if t.startswith('numpy.random.') and len(head) == 3:
      if head[2] in RESEED:
        self.fail('chance', mod, fn, node, f"{t} replaces the state of the generator the caller seeded")
      elif head[2] in GENERATORS:
        args = list(node.args) + [k.value for k in node.keywords]
        if all(self.constant(a, local) for a in args):
          self.fail('chance', mod, fn, node, f"{t} makes a generator apart from the one the caller seeded")
    if t in SETTINGS or t in FILTERS:
      self.n['settings', mod.name] += 1
      if t in FILTERS and 'filters' in guard or 'restored' in guard:
        return
      if t == 'threading.Thread' or t == 'gc.collect':
        return
      self.fail('settings', mod, fn, node, f"{t} changes a setting of the whole process and leaves it so")
    if t in OPENERS:
      self.n['files', mod.name] += 1
      if not node.args and not node.keywords or any(self.constant(a, local) for a in node.args[:1]):
        self.fail('files', mod, fn, node, f"{t} acts on a target no caller asked for")

  def store(self, mod, fn, local, guard, node):
    for tg in node.targets if isinstance(node, (ast.Assign, ast.Delete)) else [node.target]:
      for x in tg.elts if isinstance(tg, (ast.Tuple, ast.List)) else [tg]:
        base = x.value if isinstance(x, (ast.Attribute, ast.Subscript)) else None
        if base is None:
          continue
        t = self.target(mod, local, base)
        if t is None or t.split('.')[0] == 'probayes':
          continue
        self.n['settings', mod.name] += 1
        if 'restored' in guard:
          continue
        what = t + ('.' + x.attr if isinstance(x, ast.Attribute) else '[...]')
        self.fail('settings', mod, fn, node, f"{what} of an imported library is overwritten for the whole process")


def effects(root):
  L = Lint(root)
  L.run()
  out = list(L.out)
  rel = {m.name: os.path.relpath(m.path, root) for m in L.P.mods.values()}
  bad = collections.Counter((o.rule, o.construct.rsplit('.', 1)[0]) for o in out)
  for name in sorted(L.P.mods):
    for r in ('chance', 'settings', 'files'):
      if not any(o.rule == r and o.site.startswith(rel[name]) for o in out):
        out.append(Obligation(r, 'hold', name, f"{L.n[r, name]} sites of {rel[name]} judged", rel[name]))
  return {'modules': len(L.P.mods), 'sites': {f"{r} {m}": c for (r, m), c in sorted(L.n.items())}}, out
