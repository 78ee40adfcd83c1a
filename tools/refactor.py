#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, to confirm that the checks stay quiet.

  refactor.py KIND OUTDIR     writes OUTDIR/probayes with one kind of rewrite applied everywhere ('all': the lot)
A development aid: no registered check uses it.
"""
import ast, copy, os, sys, shutil
SRC = '/repo'
N = [0]


def fresh(base='_t'):
  N[0] += 1
  return f"{base}{N[0]}"


def name(i, ctx=None):
  return ast.Name(i, ctx or ast.Load())


def body_map(tree, f):
  """ f(statement) -> list of statements, bottom up, function bodies only """
  def do(sts, inside):
    out = []
    for st in sts:
      inn = inside or isinstance(st, (ast.FunctionDef,))
      for fld in ('body', 'orelse', 'finalbody'):
        if getattr(st, fld, None) and isinstance(getattr(st, fld), list):
          setattr(st, fld, do(getattr(st, fld), inn))
      for h in getattr(st, 'handlers', []) or []:
        h.body = do(h.body, inn)
      out += f(st) if inside else [st]
    return out
  tree.body = do(tree.body, False)
  return tree


def isdoc(st):
  return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)


def k_return(tree):
  def f(st):
    if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
      n = fresh()
      return [ast.Assign([name(n, ast.Store())], st.value), ast.Return(name(n))]
    return [st]
  return body_map(tree, f)


def k_ifswap(tree):
  def f(st):
    if isinstance(st, ast.If) and st.orelse:
      st.test, st.body, st.orelse = ast.UnaryOp(ast.Not(), st.test), st.orelse, st.body
    return [st]
  return body_map(tree, f)


def k_assert(tree):
  def f(st):
    if isinstance(st, ast.Assert):
      exc = ast.Call(name('AssertionError'), [st.msg] if st.msg else [], [])
      return [ast.If(ast.UnaryOp(ast.Not(), st.test), [ast.Raise(exc, None)], [])]
    return [st]
  return body_map(tree, f)


def k_ternary(tree):
  def f(st):
    if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp):
      v = st.value
      return [ast.If(v.test, [ast.Assign(copy.deepcopy(st.targets), v.body)],
                     [ast.Assign(copy.deepcopy(st.targets), v.orelse)])]
    if isinstance(st, ast.Return) and isinstance(st.value, ast.IfExp):
      v = st.value
      return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
    return [st]
  return body_map(tree, f)


class _Ren(ast.NodeTransformer):
  def __init__(self, m):
    self.m = m

  def visit_Name(self, n):
    if n.id in self.m:
      n.id = self.m[n.id]
    return n


def k_comp(tree):
  """ list and dict comprehensions that are assigned or returned become loops """
  def loop(comp, target):
    comp = copy.deepcopy(comp)
    m = {}
    for g in comp.generators:
      for n in ast.walk(g.target):
        if isinstance(n, ast.Name):
          m[n.id] = fresh('_c')
    g0 = comp.generators[0]
    it0 = copy.deepcopy(g0.iter)
    _Ren(m).visit(comp)
    g0.iter = it0
    if isinstance(comp, ast.DictComp):
      inner = [ast.Assign([ast.Subscript(name(target), comp.key, ast.Store())], comp.value)]
    else:
      inner = [ast.Expr(ast.Call(ast.Attribute(name(target), 'append', ast.Load()), [comp.elt], []))]
    for g in reversed(comp.generators):
      for c in reversed(g.ifs):
        inner = [ast.If(c, inner, [])]
      inner = [ast.For(g.target, g.iter, inner, [])]
    return inner

  def has_lambda(c):
    return any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)) and x is not c
               for x in ast.walk(c))

  def f(st):
    v = getattr(st, 'value', None)
    if isinstance(st, (ast.Assign, ast.Return)) and isinstance(v, (ast.ListComp, ast.DictComp)) and not has_lambda(v):
      t = fresh('_l')
      init = ast.Assign([name(t, ast.Store())], ast.Dict([], []) if isinstance(v, ast.DictComp) else ast.List([], ast.Load()))
      st.value = name(t)
      return [init] + loop(v, t) + [st]
    return [st]
  return body_map(tree, f)


def k_andnest(tree):
  def f(st):
    if isinstance(st, ast.If) and not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And):
      b = st.body
      for t in reversed(st.test.values):
        b = [ast.If(t, b, [])]
      return b
    return [st]
  return body_map(tree, f)


def k_items(tree):
  def f(st):
    if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Attribute) and \
       st.iter.func.attr == 'items' and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2 and \
       isinstance(st.iter.func.value, (ast.Name, ast.Attribute)):
      src = st.iter.func.value
      k, v = st.target.elts
      if not isinstance(k, ast.Name):
        return [st]
      st.iter = ast.Call(ast.Attribute(src, 'keys', ast.Load()), [], [])
      st.target = k
      st.body = [ast.Assign([v], ast.Subscript(copy.deepcopy(src), name(k.id), ast.Load()))] + st.body
    return [st]
  return body_map(tree, f)


def k_flip(tree):
  FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

  class V(ast.NodeTransformer):
    def visit_Compare(self, n):
      self.generic_visit(n)
      if len(n.ops) == 1 and type(n.ops[0]) in FL:
        return ast.Compare(n.comparators[0], [FL[type(n.ops[0])]()], [n.left])
      if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
        return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
      if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
        return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
      return n
  return V().visit(tree)


def k_commute(tree):
  """ numeric-looking products and sums with their operands exchanged """
  def numeric(n):
    return not any(isinstance(x, (ast.Constant,)) and isinstance(x.value, str) or
                   isinstance(x, (ast.List, ast.Tuple, ast.ListComp)) for x in ast.walk(n))

  class V(ast.NodeTransformer):
    def visit_BinOp(self, n):
      self.generic_visit(n)
      if isinstance(n.op, ast.Mult) and numeric(n):
        if any(isinstance(x, ast.Name) and x.id in ('self', 'cls') or isinstance(x, ast.Call) for x in (n.left, n.right)):
          return n
        return ast.BinOp(n.right, n.op, n.left)
      return n
  return V().visit(tree)


def k_noop(tree):
  for fn in ast.walk(tree):
    if isinstance(fn, ast.FunctionDef):
      i = 1 if isdoc(fn.body[0]) else 0
      fn.body.insert(i, ast.Expr(ast.Constant(None)))
      fn.body.insert(i, ast.Assign([name('_unused', ast.Store())], ast.Constant(0)))
  return tree


def k_impl(tree):
  """ every plain method and function delegates to a helper holding its body """
  def split(fn, cls):
    a = fn.args
    if fn.decorator_list or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
      return [fn]
    if cls and fn.name.startswith('__'):
      return [fn]
    if cls and not a.args:
      return [fn]
    if a.posonlyargs:
      return [fn]
    h = copy.deepcopy(fn)
    h.name = f"_impl_{(cls or '').lower()}_{fn.name}"
    pos = [name(x.arg) for x in a.args]
    if cls:
      pos = pos[1:]
      func = ast.Attribute(name(a.args[0].arg), h.name, ast.Load())
    else:
      func = name(h.name)
    if a.vararg:
      pos.append(ast.Starred(name(a.vararg.arg), ast.Load()))
    kws = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
    if a.kwarg:
      kws.append(ast.keyword(None, name(a.kwarg.arg)))
    d = fn.body[:1] if isdoc(fn.body[0]) else []
    fn.body = d + [ast.Return(ast.Call(func, pos, kws))]
    return [h, fn]

  out = []
  for st in tree.body:
    if isinstance(st, ast.FunctionDef):
      out += split(st, None)
    elif isinstance(st, ast.ClassDef):
      b = []
      for m in st.body:
        b += split(m, st.name) if isinstance(m, ast.FunctionDef) else [m]
      st.body = b
      out.append(st)
    else:
      out.append(st)
  tree.body = out
  return tree


def k_rename(tree):
  for fn in ast.walk(tree):
    if not isinstance(fn, ast.FunctionDef):
      continue
    if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and x is not fn for x in ast.walk(fn)):
      continue
    params = {x.arg for x in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for x in (fn.args.vararg, fn.args.kwarg):
      if x:
        params.add(x.arg)
    local = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'eval', 'exec')
           for x in ast.walk(fn)):
      continue
    m = {n: n + '_val' for n in local}
    for b in fn.body:
      _Ren(m).visit(b)
  return tree


def k_args(tree):
  """ non-trivial first arguments of calls named first """
  def f(st):
    if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and isinstance(st.value, ast.Call) and st.value.args and \
       isinstance(st.value.args[0], (ast.Call, ast.BinOp, ast.Subscript)) and \
       isinstance(st.value.func, (ast.Name, ast.Attribute)) and not (
           isinstance(st.value.func, ast.Name) and st.value.func.id == 'super'):
      func = st.value.func
      if isinstance(func, ast.Attribute) and not isinstance(func.value, ast.Name):
        return [st]
      t = fresh('_a')
      pre = ast.Assign([name(t, ast.Store())], st.value.args[0])
      st.value.args[0] = name(t)
      return [pre, st]
    return [st]
  return body_map(tree, f)


def k_early(tree):
  """ if c: ...return; rest  ->  if c: ...return  else: rest """
  def do(sts):
    for i, st in enumerate(sts):
      for fld in ('body', 'orelse', 'finalbody'):
        if getattr(st, fld, None) and isinstance(getattr(st, fld), list) and not isinstance(st, ast.ClassDef):
          setattr(st, fld, do(getattr(st, fld)))
    for i, st in enumerate(sts):
      if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise)) and sts[i + 1:]:
        st.orelse = do(sts[i + 1:])
        return sts[:i + 1]
    return sts
  for fn in ast.walk(tree):
    if isinstance(fn, ast.FunctionDef):
      fn.body = do(fn.body)
  return tree


def k_enum(tree):
  def f(st):
    if isinstance(st, ast.For) and not (isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name)
                                        and st.iter.func.id in ('enumerate', 'range')):
      t = fresh('_i')
      st.target = ast.Tuple([name(t, ast.Store()), st.target], ast.Store())
      st.iter = ast.Call(name('enumerate'), [st.iter], [])
    elif isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and \
        st.iter.func.id == 'enumerate' and len(st.iter.args) == 1 and isinstance(st.target, ast.Tuple) and \
        isinstance(st.target.elts[0], ast.Name):
      k = st.target.elts[0].id
      s = fresh('_s')
      pre = ast.Assign([name(s, ast.Store())], ast.Call(name('list'), [st.iter.args[0]], []))
      st.iter = ast.Call(name('range'), [ast.Call(name('len'), [name(s)], [])], [])
      v = st.target.elts[1]
      st.target = name(k, ast.Store())
      st.body = [ast.Assign([v], ast.Subscript(name(s), name(k), ast.Load()))] + st.body
      return [pre, st]
    return [st]
  return body_map(tree, f)


def k_fstring(tree):
  class V(ast.NodeTransformer):
    def visit_Call(self, n):
      self.generic_visit(n)
      if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and \
         isinstance(n.func.value.value, str) and not n.keywords and n.func.value.value.count('{}') == len(n.args) and \
         n.func.value.value.count('{') == len(n.args) and not any(isinstance(a, ast.Starred) for a in n.args):
        parts = n.func.value.value.split('{}')
        vals = []
        for i, p in enumerate(parts):
          if p:
            vals.append(ast.Constant(p))
          if i < len(n.args):
            vals.append(ast.FormattedValue(n.args[i], -1, None))
        return ast.JoinedStr(vals)
      return n
  return V().visit(tree)


def k_lambda(tree):
  def f(st):
    if isinstance(st, ast.Assign) and isinstance(st.value, ast.Lambda) and len(st.targets) == 1 and \
       isinstance(st.targets[0], ast.Attribute):
      n = fresh('_f')
      d = ast.FunctionDef(n, st.value.args, [ast.Return(st.value.body)], [], None)
      d.type_params = []
      st.value = name(n)
      return [d, st]
    return [st]
  return body_map(tree, f)


def k_elif(tree):
  """ a chain's else branches kept behind a flag-free nested if (ast.unparse prints elif as such anyway): test named """
  def f(st):
    if isinstance(st, ast.If) and not isinstance(st.test, (ast.Name, ast.Constant)):
      n = fresh('_q')
      pre = ast.Assign([name(n, ast.Store())], st.test)
      st.test = name(n)
      return [pre, st]
    return [st]
  return body_map(tree, f)


def k_aug(tree):
  class V(ast.NodeTransformer):
    def visit_Assign(self, st):
      return st

    def visit_AugAssign(self, st):
      # only counters and strings: name += constant
      if isinstance(st.target, ast.Name) and isinstance(st.value, ast.Constant):
        return ast.Assign([name(st.target.id, ast.Store())], ast.BinOp(name(st.target.id), st.op, st.value))
      return st
  return V().visit(tree)


def k_genlist(tree):
  """ any([..]) -> any(..);  all([..]) -> all(..);  [f(x) for x in y] inside calls to list(map(lambda ..)) """
  class V(ast.NodeTransformer):
    def visit_Call(self, n):
      self.generic_visit(n)
      if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all', 'tuple', 'set', 'sum', 'max', 'min', 'sorted') and \
         len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
        n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
      return n
  return V().visit(tree)


def k_map(tree):
  class V(ast.NodeTransformer):
    def visit_ListComp(self, n):
      self.generic_visit(n)
      g = n.generators
      if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name):
        a = ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None, [])
        return ast.Call(name('list'), [ast.Call(name('map'), [ast.Lambda(a, n.elt), g[0].iter], [])], [])
      return n
  return V().visit(tree)


def k_npmeth(tree):
  """ np.ravel(x) -> np.reshape(x, -1), np.copy(x) -> np.array(x), np.sum(x, axis=..) unchanged """
  class V(ast.NodeTransformer):
    def visit_Call(self, n):
      self.generic_visit(n)
      if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np':
        a = n.func.attr
        if a == 'ravel' and len(n.args) == 1:
          n.func.attr = 'reshape'
          n.args.append(ast.Constant(-1))
        elif a == 'copy' and len(n.args) == 1:
          n.func.attr = 'array'
        elif a == 'absolute':
          n.func.attr = 'abs'
        elif a == 'logical_and' and len(n.args) == 2 and not n.keywords:
          return ast.BinOp(n.args[0], ast.BitAnd(), n.args[1])
        elif a == 'logical_not' and len(n.args) == 1:
          return ast.UnaryOp(ast.Invert(), n.args[0])
        elif a == 'concatenate' and len(n.args) == 1 and not n.keywords:
          n.keywords = [ast.keyword('axis', ast.Constant(0))]
        elif a == 'maximum' and len(n.args) == 2:
          n.args = n.args[::-1]
      return n
  return V().visit(tree)


def k_while(tree):
  def f(st):
    if isinstance(st, ast.For) and not st.orelse and isinstance(st.target, (ast.Name, ast.Tuple)) and not any(
            isinstance(x, ast.Continue) for x in ast.walk(st)):
      s, i = fresh('_s'), fresh('_i')
      pre = [ast.Assign([name(s, ast.Store())], ast.Call(name('list'), [st.iter], [])),
             ast.Assign([name(i, ast.Store())], ast.Constant(0))]
      w = ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [name(s)], [])]),
                    [ast.Assign([st.target], ast.Subscript(name(s), name(i), ast.Load())),
                     ast.Assign([name(i, ast.Store())], ast.BinOp(name(i), ast.Add(), ast.Constant(1)))] + st.body, [])
      return pre + [w]
    return [st]
  return body_map(tree, f)


KINDS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('k_')}


def main():
  kind, out = sys.argv[1:3]
  dst = os.path.join(out, 'probayes')
  if os.path.exists(dst):
    shutil.rmtree(dst)
  os.makedirs(out, exist_ok=True)
  shutil.copytree(os.path.join(SRC, 'probayes'), dst)
  for f in sorted(os.listdir(dst)):
    if not f.endswith('.py'):
      continue
    p = os.path.join(dst, f)
    t = ast.parse(open(p).read())
    ks = list(KINDS) if kind == 'all' else kind.split(',')
    for k in ks:
      t = KINDS[k](t)
    ast.fix_missing_locations(t)
    open(p, 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
  main()
