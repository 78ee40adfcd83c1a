""" Composition of variables, fields and dependences. """
from .values import Unk, Inst
from .harness import Scenario
from .scen_field import and_, or_


class Sh:
  """ what a composition ought to be """
  def __init__(self, cls, leafs, roots=(), edges=(), stems=()):
    self.cls = cls
    self.leafs, self.roots = list(leafs), list(roots)
    self.edges = set(edges)
    self.stems = list(stems)

  @property
  def keys(self):
    return self.leafs + self.roots

  @property
  def isdep(self):
    return self.cls in ('Dependence', 'SD', 'SP')


VARS = {'Variable': False, 'RV': True}
STOCH = {'Variable': False, 'RV': True, 'Field': False, 'RF': True, 'Dependence': False, 'SD': True,
         'SP': True}


def cross(leafs, roots):
  return {(r, l) for r in roots for l in leafs}


def expect(op, a, b):
  """ the composition of two operands without common variables; None when refused """
  st = STOCH[a.cls] or STOCH[b.cls]
  F, D = ('RF', 'SD') if st else ('Field', 'Dependence')
  if op == '&':
    if a.isdep and b.isdep:
      return Sh(D, b.leafs + a.leafs, b.roots + a.roots, a.edges | b.edges)
    if a.isdep or b.isdep:
      leafs, roots = a.leafs + b.leafs, a.roots + b.roots
      return Sh(D, leafs, roots, cross(leafs, roots))
    return Sh(F, a.leafs + b.leafs)
  if a.isdep or b.isdep:
    return None
  return Sh(D, a.leafs, b.leafs, cross(a.leafs, b.leafs))


def trees(names):
  """ every bracketing of the names with every operator """
  if len(names) == 1:
    return [names[0]]
  out = []
  for i in range(1, len(names)):
    for l in trees(names[:i]):
      for r in trees(names[i:]):
        out += [(op, l, r) for op in '&|']
  return out


def text(t):
  return t if isinstance(t, str) else f"({text(t[1])}{t[0]}{text(t[2])})"


def names_of(obs, v):
  """ names of a list of variables """
  if isinstance(v, Unk):
    return v
  return [obs.attr(x, 'name') for x in obs.I.iterate(v)]


def clsname(v):
  return v.cls.name if isinstance(v, Inst) else str(type(v))


def check_shape(obs, x, want, what, order=True):
  """ everything a composition tells about itself """
  R = 'graph'
  if isinstance(x, Unk):
    return obs.add(R, None, f"{what}: {x.why}")

  def put(v):
    if isinstance(v, Unk):
      return v
    v = list(v)
    return v if order else sorted(v)
  ks = want.keys if order else sorted(want.keys + want.stems)
  obs.same(R, clsname(x), want.cls, f"{what}: class")
  obs.same(R, bool(obs.attr(x, 'is_stochastic')), STOCH[want.cls], f"{what}: is_stochastic")
  obs.same(R, put(obs.attr(x, 'keylist')), ks, f"{what}: keys")
  obs.same(R, put(names_of(obs, obs.attr(x, 'varlist'))), ks, f"{what}: variables")
  obs.same(R, put(names_of(obs, obs.attr(x, 'nodes'))), ks, f"{what}: vertices")
  vs = obs.attr(x, 'vars')
  obs.same(R, {k: obs.attr(v, 'name') for k, v in vs.items()}, {k: k for k in vs}, f"{what}: names")
  obs.same(R, sorted(str(k) for k in obs.I.iterate(obs.attr(x, 'keyset'))), sorted(ks), f"{what}: key set")
  n = len(want.keys) + len(want.stems)
  obs.same(R, obs.attr(x, 'nvars'), n, f"{what}: number of variables")
  obs.same(R, obs.attr(x, 'unitvar'), n == 1, f"{what}: unitvar")
  obs.same(R, obs.meth(x, '__len__'), n, f"{what}: length")
  leafs = obs.attr(x, 'leafs')
  obs.same(R, put(obs.attr(leafs, 'keylist')), want.leafs if order else sorted(want.leafs),
           f"{what}: leafs")
  roots = obs.attr(x, 'roots')
  obs.same(R, None if roots is None else put(obs.attr(roots, 'keylist')),
           (want.roots if order else sorted(want.roots)) or None, f"{what}: roots")
  obs.same(R, sorted((a, b) for a, b in edge_names(obs, x)), sorted(want.edges), f"{what}: edges")
  name, ident = ','.join(obs.attr(leafs, 'keylist')), '_and_'.join(obs.attr(leafs, 'keylist'))
  if roots is not None:
    name += '|' + ','.join(obs.attr(roots, 'keylist'))
    ident += '_with_' + '_and_'.join(obs.attr(roots, 'keylist'))
  obs.same(R, obs.attr(x, 'name'), name, f"{what}: name")
  obs.same(R, obs.attr(x, 'id'), ident, f"{what}: id")
  D = obs.attr(x, 'Delta')
  pick = leafs if roots is None else roots
  obs.same(R, list(D.fields), list(obs.attr(pick, 'keylist')), f"{what}: Delta fields")
  if want.isdep:
    obs.same(R, clsname(leafs), 'RF' if STOCH[want.cls] else 'Field', f"{what}: class of leafs")
    sub = obs.attr(x, 'subfields')
    obs.same(R, sorted(sub), ['leafs', 'roots'] if roots is not None else ['leafs'], f"{what}: subfields")
    obs.same(R, sub['leafs'] is leafs and (roots is None or sub['roots'] is roots), True,
             f"{what}: subfields are the leafs and roots")
    pr = obs.attr(x, 'preds')
    parents = sorted({a for a, b in want.edges if b in want.leafs})
    obs.same(R, None if pr is None else sorted(obs.attr(pr, 'keylist')), parents or None,
             f"{what}: predecessors of leafs")


def edge_names(obs, x):
  out = []
  for e in obs.I.iterate(obs.attr(x, 'edges')):
    a, b = list(obs.I.iterate(e))[:2]
    out.append((obs.attr(a, 'name'), obs.attr(b, 'name')))
  return out


def make(obs, k, cls):
  if cls == 'RV':
    return obs.call(obs.api('RV'), k, vtype=bool, prob=0.5)
  return obs.call(obs.api('Variable'), k, vtype=bool)


def compose(tree, kinds):
  """ build the tree from its variables, checking every intermediate """
  def cl(obs):
    objs = {k: make(obs, k, c) for k, c in kinds.items()}

    def build(t):
      if isinstance(t, str):
        return objs[t], Sh(kinds[t], [t])
      a, wa = build(t[1])
      b, wb = build(t[2])
      if a is None or b is None:
        return None, None
      want = expect(t[0], wa, wb)
      obs.freeze(text(t[1]), a)
      obs.freeze(text(t[2]), b)
      op = and_ if t[0] == '&' else or_
      if want is None:
        obs.raises('refusal', lambda: op(obs, a, b), None, text(t))
        obs.unmutated('operand-unchanged')
        return None, None
      x = op(obs, a, b)
      dd = wa.isdep and wb.isdep and t[0] == '&'
      check_shape(obs, x, want, text(t), order=not dd)
      obs.unmutated('operand-unchanged')
      return x, want
    obs.add('graph', True, f"composition {text(tree)}")
    build(tree)
  return cl


def chain(kind, how, n):
  """ dependences in series and in parallel """
  def cl(obs):
    V, D = ('RV', 'SD') if kind else ('Variable', 'Dependence')
    ks = 'abcd'[:n + 1]
    o = {k: make(obs, k, V) for k in ks}
    if how.startswith('serial'):
      pairs = [(ks[i], ks[i + 1]) for i in range(n)]
    else:
      pairs = [(ks[0], ks[i + 1]) for i in range(n)]
    deps = [or_(obs, o[a], o[b]) for a, b in pairs]
    edges = {(b, a) for a, b in pairs}
    for (a, b), d in zip(pairs, deps):
      obs.freeze(f"{a}|{b}", d)
    if how == 'serial reversed':
      x = obs.call(obs.api(D), *deps[::-1])
    elif how == 'serial &':
      x = deps[-1]
      for d in deps[-2::-1]:
        x = and_(obs, x, d)
    elif how == 'parallel &':
      x = deps[0]
      for d in deps[1:]:
        x = and_(obs, x, d)
    else:
      x = obs.call(obs.api(D), *deps)
    stems = list(ks[1:-1]) if how.startswith('serial') else []
    leafs = ['a']
    roots = [ks[-1]] if how.startswith('serial') else list(ks[1:])
    want = Sh(D, leafs, roots, edges, stems)
    R = 'graph'
    if isinstance(x, Unk):
      return obs.add(R, None, x.why)
    what = f"{how} {n}"
    obs.same(R, clsname(x), D, f"{what}: class")
    obs.same(R, sorted(obs.attr(x, 'keylist')), sorted(ks), f"{what}: keys")
    obs.same(R, sorted(edge_names(obs, x)), sorted(edges), f"{what}: edges")
    obs.same(R, sorted(obs.attr(obs.attr(x, 'leafs'), 'keylist')), leafs, f"{what}: leafs")
    obs.same(R, sorted(obs.attr(obs.attr(x, 'roots'), 'keylist')), sorted(roots), f"{what}: roots")
    arch = obs.attr(x, 'arch')
    got = [obs.attr(v, 'name') for v in arch] if isinstance(arch, (list, tuple)) else arch
    if how in ('serial', 'serial &') and n == 2:
      obs.same(R, isinstance(arch, list), True, f"{what}: architecture in series")
      obs.same(R, got, [f"{a}|{b}" for a, b in pairs[::-1]], f"{what}: order of the series")
    if how.startswith('parallel') and n == 2:
      obs.same(R, isinstance(arch, tuple), True, f"{what}: architecture in parallel")
      obs.same(R, sorted(got), sorted(f"{a}|{b}" for a, b in pairs), f"{what}: parts in parallel")
    if how == 'serial reversed':
      obs.same(R, sorted(obs.attr(x, 'stems')), stems, f"{what}: stems")
      pr = obs.attr(x, 'preds')
      obs.same(R, None if pr is None else list(obs.attr(pr, 'keylist')), ['b'], f"{what}: predecessors")
    obs.unmutated('operand-unchanged')
  return cl


def overlap(kind, parts, how):
  """ dependences with variables in common make the graph of all of their edges """
  def cl(obs):
    V, D = ('RV', 'SD') if kind else ('Variable', 'Dependence')
    ks = sorted({k for l, r in parts for k in l + r})
    o = {k: make(obs, k, V) for k in ks}
    deps, edges = [], set()
    for l, r in parts:
      a, b = o[l[0]], o[r[0]]
      for k in l[1:]:
        a = and_(obs, a, o[k])
      for k in r[1:]:
        b = and_(obs, b, o[k])
      deps.append(or_(obs, a, b))
      edges |= cross(l, r)
      obs.freeze(f"{l}|{r}", deps[-1])
    if how == '&':
      x = deps[0]
      for d in deps[1:]:
        x = and_(obs, x, d)
    else:
      x = obs.call(obs.api(D), *deps)
    pa, ch = {a for a, b in edges}, {b for a, b in edges}
    want = Sh(D, sorted(ch - pa), sorted(pa - ch), edges, sorted(pa & ch))
    check_shape(obs, x, want, ' & '.join(f"({l}|{r})" for l, r in parts), order=False)
    obs.unmutated('operand-unchanged')
  return cl


def construct(cls, groups):
  """ constructors of dependences from variables and fields """
  def cl(obs):
    st = STOCH[cls]
    V, F = ('RV', 'RF') if st else ('Variable', 'Field')
    args, flat = [], []
    for g in groups:
      vs = [make(obs, k, V) for k in g]
      args.append(vs[0] if len(vs) == 1 else obs.call(obs.api(F), *vs))
      flat.append(list(g))
    for i, a in enumerate(args):
      obs.freeze(f"argument {i}", a)
    x = obs.call(obs.api(cls), *args)
    if cls in ('Field', 'RF'):
      want = Sh(cls, sum(flat, []))
    elif len(groups) == 1:
      want = Sh(cls, flat[0])
    else:
      leafs = sum(flat[:-1], [])
      want = Sh(cls, leafs, flat[-1], cross(leafs, flat[-1]))
    check_shape(obs, x, want, f"{cls}({'; '.join(groups)})")
    obs.unmutated('operand-unchanged')
  return cl


def field_forms(cls):
  """ every way of giving a field its variables """
  def cl(obs):
    st = STOCH[cls]
    V = 'RV' if st else 'Variable'
    F = obs.api(cls)
    a, b, c = (make(obs, k, V) for k in 'abc')
    R = 'graph'
    w = Sh(cls, 'ab')
    check_shape(obs, obs.call(F, a, b), w, 'variables')
    check_shape(obs, obs.call(F, [a, b]), w, 'list')
    check_shape(obs, obs.call(F, (a, b)), w, 'tuple')
    check_shape(obs, obs.call(F, obs.call(F, a, b)), w, 'field')
    fld = obs.call(F, a, b)
    obs.meth(fld, 'add_var', c)
    check_shape(obs, fld, Sh(cls, 'abc'), 'after add_var')
    for form, v in (('list', [b, c]), ('tuple', (b, c)), ('dict', {'b': b, 'c': c}),
                    ('field', obs.call(F, b, c))):
      fld = obs.call(F, a)
      obs.freeze(form, v)
      obs.meth(fld, 'add_var', v)
      check_shape(obs, fld, Sh(cls, 'abc'), f"after add_var of a {form}")
      obs.unmutated('operand-unchanged')
    obs.raises('refusal', lambda: obs.meth(fld, 'add_var', b), None, 'add_var of a member')
    obs.raises('refusal', lambda: obs.meth(fld, 'add_var', [make(obs, 'd', V), b]), None,
               'add_var including a member')
    obs.raises('refusal', lambda: obs.meth(fld, 'add_var', 'z'), None, 'add_var of a string')
    obs.raises('refusal', lambda: obs.call(F, 3), None, 'field of a number')
    obs.raises('refusal', lambda: and_(obs, fld, 3), None, 'field & number')
    obs.raises('refusal', lambda: or_(obs, fld, 'x'), None, 'field | string')
    obs.raises('refusal', lambda: and_(obs, a, None), None, 'variable & None')
    obs.raises('refusal', lambda: or_(obs, a, 2.), None, 'variable | number')
    for m in ('add_node', 'add_edge', 'remove_node', 'add_edges_from'):
      obs.raises('refusal', lambda: obs.meth(fld, m, a), None, m)
    if not st:
      obs.raises('refusal', lambda: obs.call(F, make(obs, 'r', 'RV')), None, 'RV in a Field')
    fld = obs.call(F, a, b, c)
    for i, (k, v) in enumerate(zip('abc', (a, b, c))):
      obs.same(R, obs.meth(fld, '__getitem__', i) is v, True, f"field[{i}]")
      obs.same(R, obs.meth(fld, '__getitem__', k) is v, True, f"field['{k}']")
    obs.same(R, obs.meth(fld, '__getitem__', 'z'), None, "field['z']")
    if st:
      obs.same(R, obs.meth(fld, 'eval_dist_name'), 'a,b,c', 'name without values')
      obs.same(R, obs.meth(fld, 'eval_dist_name', {'b': True}), 'a,b=True,c', 'name with a value')
      obs.same('name', obs.meth(fld, 'eval_dist_name', {'b': True}, "'"), "a',b'=True,c'", 'name with a suffix')
      obs.same('name', obs.meth(fld, 'eval_dist_name', {'c,b': (True, False)}), 'a,b=False,c=True',
               'name by a joint key')
      obs.same('name', obs.meth(fld, 'eval_dist_name', {'c,b': [True, False]}, "'"), "a',b'=False,c'=True",
               'name by a joint key with a suffix')
    obs.same(R, bool(obs.meth(fld, '__bool__')), True, 'truth')
    if cls == 'Field':
      for form, v in (('names', ['c', 'a']), ('tuple of names', ('c', 'a')), ('variables', [c, a]),
                      ('mixed', [c, 'a']), ('fields', [obs.call(F, c, a)]), ('field', obs.call(F, c, a))):
        check_shape(obs, obs.meth(fld, 'subfield', v), Sh(cls, 'ca'), f"subfield of {form}")
      check_shape(obs, obs.meth(fld, 'subfield', 'b'), Sh(cls, 'b'), 'subfield of a name')
      check_shape(obs, obs.meth(fld, 'subfield', b), Sh(cls, 'b'), 'subfield of a variable')
      obs.raises('refusal', lambda: obs.meth(fld, 'subfield', 'z'), None, 'subfield of a stranger')
      obs.raises('refusal', lambda: obs.meth(fld, 'subfield', 3), None, 'subfield of a number')
      same = obs.call(F, c, b, a)
      less = obs.call(F, b, a)
      for m, x, y, w in (('__eq__', fld, same, True), ('__eq__', fld, less, False),
                         ('__eq__', less, fld, False), ('__ne__', less, fld, True),
                         ('__ne__', fld, same, False), ('__ne__', fld, less, True)):
        obs.same(R, bool(obs.meth(x, m, y)), w,
                 f"{m} of {'same' if y is same else 'fewer' if y is less else 'more'} variables")
  return cl


def dep_forms(cls):
  def cl(obs):
    st = STOCH[cls]
    V, F = ('RV', 'RF') if st else ('Variable', 'Field')
    a, b, c = (make(obs, k, V) for k in 'abc')
    D = obs.api(cls)
    x = obs.call(D, obs.call(obs.api(F), a, b), c)
    R = 'graph'
    leafs, roots = obs.attr(x, 'leafs'), obs.attr(x, 'roots')
    obs.same(R, obs.meth(x, 'leafs_roots', 'leafs') is leafs, True, "leafs_roots('leafs')")
    obs.same(R, obs.meth(x, 'leafs_roots', 'roots') is roots, True, "leafs_roots('roots')")
    obs.same(R, obs.meth(x, 'leafs_roots', roots) is roots, True, 'leafs_roots(roots)')
    obs.raises('refusal', lambda: obs.meth(x, 'leafs_roots', 'stems'), None, "leafs_roots('stems')")
    for k, v in zip('abc', (a, b, c)):
      obs.same(R, obs.meth(x, '__getitem__', k) is v, True, f"dependence['{k}']")
    if st:
      obs.same('name', obs.meth(x, 'eval_dist_name', {'a,b': (True, False)}), 'a=True,b=False|c', 'name by a joint key')
      obs.same('name', obs.meth(x, 'eval_dist_name', {'c,a': [False, True], 'b': True}), 'a=True,b=True|c=False',
               'name by a joint key')
      obs.same('name', obs.meth(a, 'eval_dist_name', None), 'a', 'name of a variable')
      obs.same('name', obs.meth(a, 'eval_dist_name', None, "'"), "a'", 'name of a variable with a suffix')
      obs.same('name', obs.meth(a, 'eval_dist_name', True), 'a=True', 'name of a variable with its value')
      obs.same('name', obs.meth(a, 'eval_dist_name', False, "'"), "a'=False",
               'name of a variable with its value and a suffix')
    if st:
      obs.same(R, obs.meth(x, 'eval_dist_name', {'b': True, 'c': False}), 'a,b=True|c=False', 'name with values')
      obs.same(R, obs.meth(x, 'eval_dist_name', None), 'a,b|c', 'name without values')
    for m in ('add_var', 'set_vars'):
      obs.raises('refusal', lambda: obs.meth(x, m, a), None, m)
    obs.raises('refusal', lambda: obs.call(D, 3), None, 'dependence of a number')
    obs.raises('refusal', lambda: obs.call(D, or_(obs, a, b), c), None, 'dependence beside a variable')
    obs.raises('refusal', lambda: or_(obs, or_(obs, a, b), or_(obs, b, c)), None,
               'dependences both with roots')
    # the choice of roots or leafs for proposals
    obs.same(R, list(obs.attr(x, 'Delta').fields), ['c'], 'default Delta')
    obs.meth(x, 'set_prop_obj', leafs)
    obs.same(R, list(obs.attr(x, 'Delta').fields), ['a', 'b'], 'Delta of leafs')
    obs.same(R, obs.attr(x, 'prop_obj') is leafs, True, 'proposal object')
    obs.meth(x, 'set_prop_obj', roots)
    obs.same(R, list(obs.attr(x, 'Delta').fields), ['c'], 'Delta of roots')
  return cl


def scenarios(tier):
  out = []

  def add(rule, construct_, cl, **k):
    out.append(Scenario(rule, construct_, cl, **k))
  deep = 5 if tier == 'thorough' else 4
  for n in range(2, deep + 1):
    names = 'abcde'[:n]
    for t in trees(list(names)):
      for m in (('Variable',) * n, ('RV',) * n):
        add('graph', f"{text(t)} of {','.join(m)}", compose(t, dict(zip(names, m))))
  for kind in (False, True):
    for how in ('serial', 'serial &', 'serial reversed', 'parallel', 'parallel &'):
      for n in (2, 3):
        add('graph', f"{'SD' if kind else 'Dependence'} in {how} {n}", chain(kind, how, n))
    for parts in ((('a', 'c'), ('b', 'c')), (('a', 'c'), ('b', 'cd')), (('a', 'cd'), ('b', 'de')),
                  (('ab', 'c'), ('d', 'c')), (('ab', 'c'), ('a', 'd')), (('a', 'c'), ('ab', 'd')),
                  (('a', 'bc'), ('a', 'cd')), (('a', 'd'), ('b', 'd'), ('c', 'd')),
                  (('a', 'c'), ('b', 'd'))):
      for how in ('&', 'args'):
        add('graph', f"{'SD' if kind else 'Dependence'} {how} overlapping {parts}", overlap(kind, parts, how))
  for cls in ('Field', 'RF', 'Dependence', 'SD', 'SP'):
    for groups in (('a',), ('ab',), ('a', 'b'), ('ab', 'c'), ('a', 'bc'), ('ab', 'cd'), ('a', 'b', 'c'),
                   ('ab', 'c', 'd'), ('a', 'b', 'cd')):
      if cls in ('Field', 'RF') and any(len(g) > 1 for g in groups) and len(groups) > 1:
        continue
      add('graph', f"{cls}({'; '.join(groups)})", construct(cls, groups))
  for cls in ('Field', 'RF'):
    add('graph', f"{cls} variables", field_forms(cls))
  for cls in ('Dependence', 'SD', 'SP'):
    add('graph', f"{cls} interface", dep_forms(cls))
  return out
