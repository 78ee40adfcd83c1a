""" Functionals and conditional functions: which function is called with which values. """
import itertools

from . import terms as tm
from .values import Num, SArr, Unk, AbsExc, ASet, Inst
from .interp import SliceV
from .harness import Scenario
from .scen_expression import fn, got, v, VAL, apply_order

OUT = ('a', 'b')
INP = ('x', 'y')


def graphs(obs, kind, loop=False):
  """ output and input graphs with their vertices """
  if kind == 'symbols':
    Symbol = obs.api('Symbol', 'sympy')
    Graph = obs.api('Graph', 'networkx')
    vs = {k: obs.call(Symbol, k) for k in OUT + INP}
    gs = []
    for names in (OUT, INP):
      g = obs.call(Graph)
      for k in names:
        obs.meth(g, 'add_node', vs[k])
      gs.append(g)
    sym = vs
  else:
    Var = obs.api('Variable' if kind == 'variables' else 'RV')
    vs = {k: obs.call(Var, k, vtype=float) for k in OUT + INP}
    gs = [obs.meth(vs[n[0]], '__and__', vs[n[1]]) for n in (OUT, INP)]
    sym = {k: obs.I.getitem(x, SliceV(None, None)) for k, x in vs.items()}
  return gs, vs, sym


EXPRS = {
    'x-2*y': (('x', 'y'), lambda x, y: x - tm.const_t(2) * y),
    'y-2*x': (('x', 'y'), lambda x, y: y - tm.const_t(2) * x),
    'x*y+1': (('x', 'y'), lambda x, y: x * y + tm.ONE),
    '3*x': (('x',), lambda x, y: tm.const_t(3) * x),
    'y**2': (('y',), lambda x, y: y * y),
}


def pick(obs, f, how, key, vs):
  ix = {'name': key, 'vertex': vs[key], 'tuple': (key,), 'set': ASet([key])}[how]
  return obs.I.getitem(f, ix)


def iconic(kind, ta, tb, order):
  """ each output is its own expression of the inputs it depends on """
  def cl(obs):
    gs, vs, sym = graphs(obs, kind)
    f = obs.call(obs.api('Functional'), gs[0], gs[1])
    obs.same('functional', obs.meth(f, '__len__'), 0, 'length before')
    texts = {'a': ta, 'b': tb}
    for n, key in enumerate(order):
      spec = vs[key] if n % 2 else key
      obs.meth(f, 'add_func', spec, obs.code(texts[key], **sym))
      obs.same('functional', obs.meth(f, '__len__'), n + 1, 'number of dependences')
    obs.same('functional', obs.attr(f, 'isiconic'), True, 'iconic')
    for key in OUT:
      names, want = EXPRS[texts[key]]
      w = want(VAL['x'], VAL['y'])
      for how in ('name', 'vertex', 'tuple', 'set'):
        what = f"{key} = {texts[key]} by {how}"
        obs.num('functional', obs.call(pick(obs, f, how, key, vs), {'x': v('x'), 'y': v('y')}), w, what)
      what = f"{key} = {texts[key]}"
      obs.num('functional', obs.call(pick(obs, f, 'name', key, vs), {'y': v('y'), 'x': v('x')}), w,
              what + ' given y first')
      obs.num('functional', obs.call(pick(obs, f, 'name', key, vs), x=v('x'), y=v('y')), w,
              what + ' by keywords')
      obs.num('functional', obs.call(pick(obs, f, 'name', key, vs), {n: v(n) for n in names}), w,
              what + ' given only its inputs')
      if len(names) == 1:
        obs.num('functional', obs.call(pick(obs, f, 'name', key, vs), v(names[0])), w,
                what + ' by position')
    deps = obs.attr(f, 'deps')
    obs.same('functional', sorted(sorted(k) for k in keysets(obs, deps)), [['a'], ['b']], 'outputs')
    for key in OUT:
      obs.same('functional', sorted(dep_of(obs, deps, key)), sorted(EXPRS[texts[key]][0]),
               f"inputs of {key}")
  return cl


def members(s):
  return list(s.d.values()) if isinstance(s, ASet) else list(s)


def keysets(obs, deps):
  return [members(k) for k in deps.keys()]


def dep_of(obs, deps, *keys):
  for k, x in deps.items():
    if sorted(members(k)) == sorted(keys):
      return members(x)
  return []


SPECS = {
    'a from x': ({'a': 'x'}, ('a',), ('x',)),
    'b from y': ({'b': 'y'}, ('b',), ('y',)),
    'a from y': ({'a': 'y'}, ('a',), ('y',)),
    'a,b from x,y': ({'a': 'x', 'b': 'y'}, ('a', 'b'), ('x', 'y')),
    'b,a from x,y': ({'b': 'x', 'a': 'y'}, ('b', 'a'), ('x', 'y')),
}


def callable_func(kind, names, by, extra):
  """ functions of the client are called with exactly the inputs they depend on """
  def cl(obs):
    gs, vs, sym = graphs(obs, kind)
    f = obs.call(obs.api('Functional'), gs[0], gs[1])
    for i, s in enumerate(names):
      spec, out, inp = SPECS[s]
      d = {vs[k]: vs[x] for k, x in spec.items()} if by == 'vertex' else dict(spec)
      obs.meth(f, 'add_func', d, fn(f"f{i}"), **({'q': v('q')} if extra else {}))
    obs.same('functional', obs.attr(f, 'isiconic'), False, 'iconic')
    for i, s in enumerate(names):
      spec, out, inp = SPECS[s]
      for key in itertools.permutations(out):
        kw = {k: v(k) for k in inp}
        if extra:
          kw['q'] = v('q')
        for n, ix in enumerate((','.join(key), tuple(key), ASet(list(key)),
                                tuple(vs[k] for k in key))):
          e = obs.I.getitem(f, ix)
          got(obs, 'functional', obs.call(e, {'x': v('x'), 'y': v('y')}), f"f{i}", [], kw,
              f"{s} by {n} {key}")
        got(obs, 'functional', obs.call(e, x=v('x'), y=v('y')), f"f{i}", [], kw, f"{s} by keywords")
      obs.same('functional', sorted(dep_of(obs, obs.attr(f, 'deps'), *out)), sorted(inp), f"inputs of {s}")
  return cl


def stored_defaults(kind):
  """ arguments and keywords of the functional are passed to each function """
  def cl(obs):
    gs, vs, sym = graphs(obs, kind)
    f = obs.call(obs.api('Functional'), gs[0], gs[1], q=v('q'))
    obs.meth(f, 'add_func', {'a': 'x'}, fn('f0'))
    obs.meth(f, 'add_func', {'b': 'y'}, fn('f1'))
    for key, name, inp in (('a', 'f0', 'x'), ('b', 'f1', 'y')):
      got(obs, 'functional', obs.call(obs.I.getitem(f, key), x=v('x'), y=v('y')), name, [],
          {inp: v(inp), 'q': v('q')}, f"{key} with default keywords")
  return cl


def ordered(kind, s, order):
  """ an order given with the function is kept """
  def cl(obs):
    gs, vs, sym = graphs(obs, kind)
    f = obs.call(obs.api('Functional'), gs[0], gs[1])
    spec, out, inp = SPECS[s]
    obs.meth(f, 'add_func', dict(spec), fn('f0'), order=dict(order))
    e = obs.I.getitem(f, ','.join(out))
    a, k = apply_order(order, (), {x: v(x) for x in INP})
    got(obs, 'functional', obs.call(e, {'x': v('x'), 'y': v('y')}), 'f0', a, k, f"{s} in the order {order}")
    got(obs, 'functional', obs.call(e, y=v('y'), x=v('x')), 'f0', a, k, f"{s} in the order {order} by keywords")
  return cl


def self_input():
  """ without an input graph the outputs depend on one another """
  def cl(obs):
    gs, vs, sym = graphs(obs, 'variables')
    f = obs.call(obs.api('Functional'), gs[1])
    obs.meth(f, 'add_func', 'x', obs.code('2*y + 1', **sym))
    obs.num('functional', obs.call(obs.I.getitem(f, 'x'), {'y': v('y')}),
            tm.const_t(2) * VAL['y'] + tm.ONE, 'x from y')
    obs.same('functional', sorted(dep_of(obs, obs.attr(f, 'deps'), 'x')), ['y'], 'inputs of x')
  return cl


def refused(kind):
  def cl(obs):
    F = obs.api('Functional')

    def fresh():
      gs, vs, sym = graphs(obs, kind)
      return obs.call(F, gs[0], gs[1]), vs, sym
    f, vs, sym = fresh()
    obs.meth(f, 'add_func', 'a', obs.code('x - y', **sym))
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', 'a', obs.code('x + y', **sym)), None,
               'output with a dependence already')
    obs.num('functional', obs.call(obs.I.getitem(f, 'a'), {'x': v('x'), 'y': v('y')}),
            VAL['x'] - VAL['y'], 'dependence kept after the refusal')
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', {'b': 'y'}, fn()), None,
               'function beside expressions')
    f, vs, sym = fresh()
    obs.meth(f, 'add_func', {'a': 'x'}, fn())
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', 'b', obs.code('x + y', **sym)), None,
               'expression beside functions')
    f, vs, sym = fresh()
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', {'z': 'x'}, fn()), None, 'unknown output')
    f, vs, sym = fresh()
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', {'a': 'z'}, fn()), None, 'unknown input')
    for spec in ({'a': 'x', 'b': 'z'}, {'a': 'x', 'z': 'y'}, {'a,z': 'x'}, {'a': 'x,z'}, {'a': 'x', 'b': 'a'}):
      f, vs, sym = fresh()
      obs.raises('refusal', lambda: obs.meth(f, 'add_func', dict(spec), fn()), None, f"partly unknown {spec}")
    f, vs, sym = fresh()
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', {'x': 'a'}, fn()), None,
               'input as output of itself')
    f, vs, sym = fresh()
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', 'a,b', obs.code('x + y', **sym)), None,
               'two outputs of one expression')
    f, vs, sym = fresh()
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', 'a', obs.code('b + 1', **sym)), None,
               'expression of an output')
    f, vs, sym = fresh()
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', 'a', fn()), None, 'function without inputs')
    obs.raises('refusal', lambda: obs.call(F, [vs['a']], [vs['x']]), None, 'lists for graphs')
    for what, a, k in (('an argument', (v('q'),), {}), ('a keyword', (), {'w': v('q')})):
      f, vs, sym = fresh()
      obs.raises('refusal', lambda: obs.meth(f, 'add_func', 'a', obs.code('x - y', **sym), *a, **k), None,
                 f"expression with {what}")
    f, vs, sym = fresh()
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', 'z', obs.code('x + y', **sym)), None,
               'expression of an unknown output')
    obs.raises('refusal', lambda: obs.meth(f, 'add_func', 'x', obs.code('x + y', **sym)), None,
               'expression of an input')
    f, vs, sym = fresh()
    for k in (('q',), ('x',), ('a', 'b')):
      obs.raises('refusal', lambda: obs.I.getitem(f, k), None, f"partial of {k} before any is added")
    obs.meth(f, 'add_func', 'a', obs.code('x - y', **sym))
    for k in (('b',), ('x',), ('a', 'b')):
      obs.raises('refusal', lambda: obs.I.getitem(f, k), None, f"partial of {k}")
  return cl


def properties(kind):
  """ what a functional says of itself """
  def cl(obs):
    gs, vs, sym = graphs(obs, kind)
    F = obs.api('Functional')
    f = obs.call(F, gs[0], gs[1])
    truth = lambda: obs.I.truth(f)
    obs.same('functional', truth(), False, 'truth before')
    obs.same('functional', obs.attr(f, 'ndeps'), 0, 'dependences before')
    for n, key in enumerate(OUT):
      obs.meth(f, 'add_func', key, obs.code('x - 2*y' if n else 'x*y', **sym))
      obs.same('functional', truth(), True, f"truth with {n + 1}")
      obs.same('functional', obs.attr(f, 'ndeps'), n + 1, f"dependences of {n + 1}")
      obs.same('functional', len(obs.attr(f, 'partials')), n + 1, f"partials of {n + 1}")
      obs.same('functional', len(obs.attr(f, 'funcs')), n + 1, f"functions of {n + 1}")
      if kind != 'symbols':    # a variable stands for its expression; one of probability for itself
        x = obs.I.getitem(vs[key], SliceV(None, None))
        want = (VAL['x'] - tm.const_t(2) * VAL['y'] if n else VAL['x'] * VAL['y'])
        e = obs.call(obs.api('Expression'), x)
        if kind == 'variables':
          obs.num('functional', obs.call(e, {'x': v('x'), 'y': v('y')}), want, f"expression of {key}")
        else:
          obs.num('functional', obs.call(e, {key: v('x')}), VAL['x'], f"symbol of {key}")
    for n, (g, names) in enumerate(zip(gs, (OUT, INP))):
      obs.same('functional', obs.attr(f, ('out', 'inp')[n]) is g, True, f"graph {n}")
      obs.same('functional', sorted(members(obs.attr(f, ('out_set', 'inp_set')[n]))), sorted(names), f"set {n}")
      d = obs.attr(f, ('out_dict', 'inp_dict')[n])
      obs.same('functional', sorted(d), sorted(names), f"dictionary {n}")
      for k in names:
        obs.same('functional', d[k] is vs[k], True, f"vertex {k} of dictionary {n}")
  return cl


def vertices():
  """ vertices are designated by identifiers """
  def cl(obs):
    parse = obs.api('parse_identifiers', 'probayes.functional_utils')
    a = obs.call(obs.api('Variable'), 'a', vtype=float)
    for arg, want in (('a', ['a']), ('a,b', ['a', 'b']), (a, ['a']), ((a, 'b'), ['a', 'b']),
                      (['b', a], ['a', 'b']), (ASet(['b', 'a']), ['a', 'b'])):
      obs.same('functional', sorted(members(obs.call(parse, arg))), want, f"identifiers of {arg!r}")
    obs.raises('refusal', lambda: obs.call(parse, 3), None, 'identifiers of a number')
    obs.raises('refusal', lambda: obs.call(parse, ('a', 3)), None, 'identifiers of a number in a tuple')
    coll = obs.api('collate_vertices', 'probayes.functional_utils')
    obs.same('functional', obs.call(coll, None), {}, 'vertices of nothing')
    g = obs.call(obs.api('Graph', 'networkx'))
    obs.meth(g, 'add_node', 3)
    obs.raises('refusal', lambda: obs.call(coll, g), None, 'nameless vertices')
  return cl


# ----------------------------------------------------------------------- CF
def fields(obs, names):
  RV = obs.api('RV')
  rvs = {k: obs.call(RV, k, vtype=float, vset=[-1., 1.]) for k in names}
  return rvs


def cond_field(n, order, multi, stored):
  """ conditional functions of a field: called as any function """
  def cl(obs):
    keys = ('x', 'y', 'z')[:n]
    rvs = fields(obs, keys)
    CF = obs.api('CF', 'probayes.cf')
    rf = obs.call(obs.api('RF'), *rvs.values())
    func = (fn('f0'), fn('f1')) if multi else fn('f0')
    kw = {'order': dict(order)} if order else {}
    if stored:
      kw['q'] = v('q')
    e = obs.call(CF, rf, None, func, **kw)
    vals = {k: v(k) for k in keys}
    want = dict(vals)
    if stored:
      want['q'] = v('q')
    a, k = apply_order(order, (), want)
    for i in ((0, 1) if multi else (None,)):
      call = e if i is None else obs.I.getitem(e, i)
      got(obs, 'call', obs.call(call, dict(vals)), f"f{i or 0}", a, k, f"conditional function {i}")
      if all(isinstance(o, (int, type(None))) for o in (order or {}).values()):
        w = dict(want)
        w['unknown'] = 'x'
        a2, k2 = apply_order(order, (), w)
        got(obs, 'call', obs.call(call, dict(vals), unknown='x'), f"f{i or 0}", a2, k2,
            f"conditional function {i} with an unknown")
    obs.same('call', obs.attr(e, 'ismulti'), multi, 'multiple')
    obs.same('call', obs.attr(e, 'callable'), True, 'callable')
    obs.same('call', obs.meth(e, 'ret_name'), ','.join(k + "'" for k in keys) + '|' + ','.join(keys), 'name')
  return cl


def cond_between(forms):
  """ output and input fields may be given as variables, fields, or lists of them """
  def cl(obs):
    rvs = fields(obs, 'abxy')
    RF = obs.api('RF')

    def make(form, p, q):
      return {'rv': lambda: rvs[p], 'rf': lambda: obs.call(RF, rvs[p], rvs[q]),
              'list': lambda: [rvs[p], rvs[q]], 'tuple': lambda: (rvs[p], obs.call(RF, rvs[q]))}[form]()
    CF = obs.api('CF', 'probayes.cf')
    out, inp = make(forms[0], 'a', 'b'), make(forms[1], 'x', 'y')
    if isinstance(inp, (list, tuple)):
      inp = obs.call(RF, rvs['x'], rvs['y'])
    e = obs.call(CF, out, inp, fn('f0'))
    ok = {'rv': 1}
    o, i = obs.meth(e, 'ret_out'), obs.meth(e, 'ret_inp')
    obs.same('call', obs.attr(o, 'keylist'), ['a', 'b'][:ok.get(forms[0], 2)], 'output variables')
    obs.same('call', obs.attr(i, 'keylist'), ['x', 'y'][:ok.get(forms[1], 2)], 'input variables')
    obs.same('call', obs.meth(e, 'ret_name'), ','.join(['a', 'b'][:ok.get(forms[0], 2)]) + '|' +
             ','.join(['x', 'y'][:ok.get(forms[1], 2)]), 'name')
    got(obs, 'call', obs.call(e, x=v('x')), 'f0', [], {'x': v('x')}, 'conditional function')
  return cl


def cond_wrapped(n, form, multi):
  """ a function set up beforehand is called as by itself; auxiliary flags are kept from it """
  def cl(obs):
    keys = ('x', 'y', 'z')[:n]
    rvs = fields(obs, keys)
    CF = obs.api('CF', 'probayes.cf')
    Func = obs.api('Func', 'probayes.func')
    rf = obs.call(obs.api('RF'), *rvs.values())
    func = (fn('f0'), fn('f1')) if multi else fn('f0')
    kw = {'plain': {}, 'args': {}, 'kwds': {'q': v('q')}, 'order': {'order': {'x': 1, 'y': 0}},
          'delta': {'delta': {"x'": 'd', 'y': 0}}, 'all': {'q': v('q'), 'order': {'x': 'w', 'y': None}}}[form]
    ar = (v('p'),) if form in ('args',) else ()
    g = obs.call(Func, func, *ar, **kw)
    flags = {'passdims': True} if n == 3 else {'passprob': True} if form == 'order' else {}
    plain = obs.call(CF, rf, None, func, *ar, **kw, **flags)
    vals = {k: v(k) for k in keys}
    if form == 'delta':
      vals["x'"] = v("x'")
    for what, e in (('wrapped', obs.call(CF, rf, None, g)), ('direct', plain)):
      for i in ((0, 1) if multi else (None,)):
        c = e if i is None else obs.I.getitem(e, i)
        ref = g if i is None else obs.I.getitem(g, i)
        obs.same('call', obs.call(c, dict(vals)), obs.call(ref, dict(vals)), f"{what} {form} {i}")
        obs.same('call', obs.call(c, **vals), obs.call(ref, **vals), f"{what} {form} {i} by keywords")
      obs.same('call', obs.meth(e, 'ret_order'), kw.get('order'), f"{what} order")
      obs.same('call', obs.meth(e, 'ret_delta'), kw.get('delta'), f"{what} delta")
      for k in ('passdims', 'passprob'):
        obs.same('call', obs.meth(e, 'ret_' + k), flags.get(k) if what == 'direct' else None, f"{what} {k}")
  return cl


def cond_refuse_fields():
  """ dependences and other things are not conditional fields """
  def cl(obs):
    rvs = fields(obs, 'xyz')
    CF = obs.api('CF', 'probayes.cf')
    SD = obs.api('SD')
    RF = obs.api('RF')
    xy = obs.call(RF, rvs['x'], rvs['y'])
    dep = obs.meth(rvs['x'], '__or__', rvs['y'])
    both = obs.meth(xy, '__or__', rvs['z'])
    for what, d in (('x|y', dep), ('x,y|z', both)):
      obs.raises('refusal', lambda: obs.call(CF, d, rvs['z'], fn()), None, f"{what} for output")
      obs.raises('refusal', lambda: obs.call(CF, rvs['z'], d, fn()), None, f"{what} for input")
      obs.raises('refusal', lambda: obs.call(CF, d, None, fn()), None, f"{what} by itself")
      obs.raises('refusal', lambda: obs.call(CF, [rvs['z'], d], None, fn()), None, f"{what} within a list")
    for bad in (3, 2.5, ('x',), {'x': 1}):
      obs.raises('refusal', lambda: obs.call(CF, bad, rvs['z'], fn()), None, f"{bad!r} for output")
      obs.raises('refusal', lambda: obs.call(CF, [rvs['x'], bad], None, fn()), None, f"{bad!r} in a list")
    for bad in (3, 2.5):
      obs.raises('refusal', lambda: obs.call(CF, xy, bad, fn()), None, f"{bad!r} for input")
    e = obs.call(CF, xy, rvs['z'], fn('f0'))
    obs.raises('refusal', lambda: obs.I.getitem(e, 'x'), None, 'unknown of a function with an input field')
  return cl


def cond_refuse():
  def cl(obs):
    rvs = fields(obs, 'xy')
    CF = obs.api('CF', 'probayes.cf')
    obs.raises('refusal', lambda: obs.call(CF, rvs['x'], None, fn()), None, 'one variable by itself')
    obs.raises('refusal', lambda: obs.call(CF, 'x', rvs['y'], fn()), None, 'name for a variable')
    obs.raises('refusal', lambda: obs.call(CF, [rvs['x'], 'y'], None, fn()), None, 'name in a list')
    obs.raises('refusal', lambda: obs.call(CF, None, rvs['y'], fn()), None, 'input without output')
  return cl


def scenarios(tier='quick'):
  out = []
  add = lambda rule, name, c, **k: out.append(Scenario(rule, name, c, **k))
  for kind in ('symbols', 'variables', 'rvs'):
    for ta, tb in itertools.permutations(EXPRS, 2):
      for order in (OUT, OUT[::-1]):
        add('functional', f"Functional of {kind} a={ta} b={tb} added {','.join(order)}",
            iconic(kind, ta, tb, order))
    for names in (('a from x',), ('a from y', 'b from y'), ('a from x', 'b from y'), ('b from y', 'a from x'),
                  ('a,b from x,y',), ('b,a from x,y',), ('a,b from x,y', 'a from y')):
      for by in ('name', 'vertex'):
        for extra in (False, True):
          add('functional', f"Functional of {kind} {' and '.join(names)} by {by} extra={extra}",
              callable_func(kind, names, by, extra))
    for s, order in (('a from x', {'x': 0, 'y': None}), ('a,b from x,y', {'x': 1, 'y': 0}),
                     ('a,b from x,y', {'x': 0, 'y': 1}), ('a,b from x,y', {'y': 0}),
                     ('b,a from x,y', {'x': 'loc', 'y': 0}), ('a from y', {'x': None, 'y': 'q'})):
      add('functional', f"Functional of {kind} {s} order={order}", ordered(kind, s, order))
    add('functional', f"Functional of {kind} with defaults", stored_defaults(kind))
    add('functional', f"Functional of {kind} properties", properties(kind))
    add('refusal', f"Functional of {kind} refusals", refused(kind))
  add('functional', 'Functional within one graph', self_input())
  add('functional', 'Functional identifiers', vertices())
  for n in (2, 3):
    for order in (None, {'x': 0}, {'x': 1, 'y': 0}, {'x': None}, {'y': 'loc'}):
      for multi in (False, True):
        for st in (False, True):
          add('call', f"CF of {n} order={order} multi={multi} stored={st}", cond_field(n, order, multi, st))
  for forms in itertools.product(('rv', 'rf', 'list', 'tuple'), ('rv', 'rf')):
    add('call', f"CF {' given '.join(forms)}", cond_between(forms))
  add('refusal', 'CF refusals', cond_refuse())
  add('refusal', 'CF refusals of fields', cond_refuse_fields())
  for n in (2, 3):
    for form in ('plain', 'args', 'kwds', 'order', 'delta', 'all'):
      for multi in (False, True):
        add('call', f"CF wrapping of {n} {form} multi={multi}", cond_wrapped(n, form, multi))
  return out
