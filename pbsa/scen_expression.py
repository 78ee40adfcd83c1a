""" Calling conventions of Expression, Func, CF, Functional and Expr. """
import itertools

from . import terms as tm
from .values import Num, SArr, Unk, AbsExc, AbsFn, Lib, Inst
from .harness import Scenario

VAL = {k: tm.sym('v.' + k) for k in ("x", "y", "z", "x'", "y'", 'p', 'q')}


def f(t):
  return Num(t, (), 'float', 'float')


def v(k):
  return f(VAL[k])


def fn(name='f'):
  """ a callable of the client: reports what it was called with """
  return AbsFn(name, lambda I, args, kwds: (name, list(args), dict(kwds)))


def got(obs, rule, r, name, args, kwds, what):
  if isinstance(r, Unk):
    return obs.add(rule, None, f"{what}: {r.why}")
  obs.same(rule, r, (name, list(args), dict(kwds)), what)


CLASSES = [('Expression', 'probayes'), ('Func', 'probayes.func')]


def cls(obs, c):
  return obs.api(*c) if c[1] != 'probayes' else obs.api(c[0])


CALLS = {
    'f()': ((), {}),
    'f(p)': (('p',), {}),
    'f(p,q)': (('p', 'q'), {}),
    'f(x=)': ((), ('x',)),
    'f(p,x=,y=)': (('p',), ('x', 'y')),
    'f(x=,y=)': ((), ('x', 'y')),
}


def plain(c, call):
  a, k = CALLS[call]

  def cl(obs):
    e = obs.call(cls(obs, c), fn())
    args = [v(x) for x in a]
    kwds = {x: v(x) for x in k}
    for i in range(2):
      r = obs.call(e, *args, **kwds)
      got(obs, 'call', r, 'f', args, kwds, f"call {i} {call}")
  return cl


def by_dict(c, extra, order):
  """ a dictionary as only argument stands for keywords; it is not altered """
  def cl(obs):
    e = obs.call(cls(obs, c), fn(), **({'order': dict(order)} if order else {}))
    d = {'x': v('x'), 'y': v('y')}
    kw = {'z': v('z')} if extra else {}
    obs.freeze('values', d)
    for i in range(2):
      r = obs.call(e, d, **kw)
      want_a, want_k = apply_order(order, (), {**d, **kw})
      got(obs, 'call', r, 'f', want_a, want_k, f"call {i} with a dictionary")
    obs.unmutated('operand-unchanged')
  return cl


def apply_order(order, args, kwds):
  args, kwds = list(args), dict(kwds)
  if not order:
    return args, kwds
  new = {}
  for k, to in order.items():
    val = kwds.pop(k)
    if isinstance(to, int):
      while len(args) <= to:
        args.append(None)
      args[to] = val
    elif isinstance(to, str):
      new[to] = val
  kwds.update(new)
  return args, kwds


ORDERS = [
    {'x': 0}, {'x': 0, 'y': 1}, {'x': 1, 'y': 0}, {'x': 'loc'}, {'x': 0, 'y': 'scale'},
    {'x': None}, {'x': None, 'y': 0}, {'x': 'y', 'y': 'x'}, {'x': 'loc', 'y': 'scale'},
    {"x'": 0, 'x': 1}, {'x': None, "x'": 0, 'y': None, "y'": 1}, {"x'": 'succ', 'x': 'pred'},
    {'z': 0, 'x': 1, 'y': 2}, {'z': 1, 'x': 2, 'y': 0}, {'x': 'y', 'y': 'z', 'z': 'x'},
    {'x': 0, 'y': None, 'z': 'w'}, {'x': 'y', 'y': None}, {'y': None, 'x': 'y'},
]


def ordered(c, order, how, extra):
  def cl(obs):
    o = dict(order)
    obs.freeze('order', o)
    if how == 'kw':
      e = obs.call(cls(obs, c), fn(), order=o)
    else:
      e = obs.call(cls(obs, c), fn())
      obs.meth(e, 'set_order', o)
    kw = {k: v(k) for k in order}
    if extra:
      kw['q'] = v('q')
    for i in range(2):
      d = dict(kw)
      r = obs.call(e, d)
      a, k = apply_order(order, (), kw)
      got(obs, 'order', r, 'f', a, k, f"call {i} with order {order}")
      if all(x.isidentifier() for x in kw):
        r = obs.call(e, **dict(kw))
        got(obs, 'order', r, 'f', a, k, f"keyword call {i} with order {order}")
    first = next(iter(order))
    less = {k: x for k, x in kw.items() if k != first}
    obs.raises('refusal', lambda: obs.call(e, less), None, f"order without {first}")
    obs.unmutated('operand-unchanged')
  return cl


DELTAS = [
    {"x'": 0}, {"x'": 'dx'}, {"x'": 0, "y'": 1}, {"x'": 1, "y'": 0}, {"x'": 'dx', "y'": 'dy'},
    {'x': 0}, {'x': 0, "y'": 1}, {"x'": None, "y'": 0}, {"x'": 'y', "y'": 'x'},
    {"x'": 0, 'y': 'b'},
]


def delta(c, dl, how):
  def cl(obs):
    o = dict(dl)
    obs.freeze('delta', o)
    if how == 'kw':
      e = obs.call(cls(obs, c), fn(), delta=o)
    else:
      e = obs.call(cls(obs, c), fn())
      obs.meth(e, 'set_delta', o)
    kw = {}
    for k in dl:
      kw[k] = v(k)
      if k.endswith("'"):
        kw[k[:-1]] = v(k[:-1])
    args, new = [], {}
    for k, to in dl.items():
      val = f(VAL[k] - VAL[k[:-1]]) if k.endswith("'") else v(k)
      if isinstance(to, int):
        while len(args) <= to:
          args.append(None)
        args[to] = val
      elif isinstance(to, str):
        new[to] = val
    for i in range(2):
      r = obs.call(e, dict(kw))
      got(obs, 'order', r, 'f', args, new, f"call {i} with delta {dl}")
    obs.unmutated('operand-unchanged')
  return cl


def stored(c, nargs, kw, call_kw):
  """ arguments given at construction accompany every call """
  def cl(obs):
    a = [v('p'), v('q')][:nargs]
    k = {'x': v('x')} if kw else {}
    e = obs.call(cls(obs, c), fn(), *a, **k)
    for i in range(2):
      ck = {'y': v('y')} if call_kw else {}
      r = obs.call(e, **ck)
      got(obs, 'call', r, 'f', a, {**k, **ck}, f"call {i} with stored arguments")
  return cl


def multi(c, form, n, order):
  def cl(obs):
    fs = [fn(f"f{i}") for i in range(n)]
    keys = ['a', 'b', 'c'][:n]
    arg = tuple(fs) if form == 'tuple' else dict(zip(keys, fs))
    kw = {'order': {'x': 0}} if order else {}
    e = obs.call(cls(obs, c), arg, **kw)
    obs.same('multi', obs.meth(e, '__len__'), n, 'length')
    idx = list(range(n)) if form == 'tuple' else keys
    handles = {i: obs.meth(e, '__getitem__', i) for i in idx}
    if form == 'tuple':
      handles[-1] = obs.meth(e, '__getitem__', -1)
    want_a, want_k = ([v('x')], {}) if order else ([], {'x': v('x')})
    # every order of use: a handle always calls its own function
    for perm in (list(handles), list(handles)[::-1]):
      for i in perm:
        j = idx.index(i) if i != -1 else n - 1
        r = obs.call(handles[i], x=v('x'))
        got(obs, 'multi', r, f"f{j}", want_a, want_k, f"[{i}]")
        r = obs.call(obs.meth(e, '__getitem__', i), {'x': v('x')})
        got(obs, 'multi', r, f"f{j}", want_a, want_k, f"[{i}] of a dictionary")
    obs.raises('refusal', lambda: obs.call(e, v('p')), ['AssertionError'], 'call of a multiple')
    if form == 'dict':
      obs.raises('refusal', lambda: obs.meth(e, '__getitem__', 'nokey'), ['KeyError'], 'absent key')
  return cl


def constant(c, kind):
  def cl(obs):
    const = {'scalar': f(tm.sym('c')), 'array': Num(tm.sym('c', ('i',)), ('i',), 'arr', 'float'),
             'list': [1, 2], 'string': 'text', 'tuple': (f(tm.sym('c')), f(tm.sym('d'))),
             'dict': {'a': f(tm.sym('c')), 'b': f(tm.sym('d'))}}[kind]
    e = obs.call(cls(obs, c), const)
    ac = obs.attr(e, 'callable') if c[0] == 'Expression' else obs.meth(e, 'ret_callable')
    obs.same('constant', ac, False, 'callable')
    if kind in ('tuple', 'dict'):
      keys = list(const) if kind == 'dict' else [0, 1]
      for k in keys:
        obs.same('constant', obs.call(obs.meth(e, '__getitem__', k)), const[k], f"[{k}]()")
      obs.raises('refusal', lambda: obs.call(obs.meth(e, '__getitem__', keys[0]), v('p')),
                 ['AssertionError'], 'argument to a constant')
    else:
      for i in range(2):
        obs.same('constant', obs.call(e), const, 'call')
      obs.raises('refusal', lambda: obs.call(e, v('p')), ['AssertionError'], 'argument to a constant')
      obs.raises('refusal', lambda: obs.call(e, x=v('x')), ['AssertionError'], 'keyword to a constant')
    sc = obs.attr(e, 'isscalar') if c[0] == 'Expression' else obs.meth(e, 'ret_isscalar')
    obs.same('constant', sc, kind in ('scalar', 'tuple', 'dict', 'string'), 'isscalar')
    obs.raises('refusal', lambda: obs.call(cls(obs, c), const, v('p')), ['AssertionError'],
               'stored argument of a constant')
  return cl


def refusals(c):
  def cl(obs):
    C = cls(obs, c)
    E = ['AssertionError', 'TypeError']
    obs.raises('refusal', lambda: obs.call(C, fn(), order={'x': 0}, delta={"x'": 0}), E, 'order and delta')
    obs.raises('refusal', lambda: obs.call(C, fn(), order={'x': 0, 'y': 2}), E, 'gap in order')
    obs.raises('refusal', lambda: obs.call(C, fn(), delta={"x'": 0, "y'": 2}), E, 'gap in delta')
    obs.raises('refusal', lambda: obs.call(C, fn(), order=['x', 'y']), E, 'order not a dictionary')
    obs.raises('refusal', lambda: obs.call(C, fn(), order={'x': 1.5}), E, 'order to a float')
    obs.raises('refusal', lambda: obs.call(C, (fn('a'), 3)), E, 'callable with uncallable')
    obs.raises('refusal', lambda: obs.call(C, ([1], 3)), E, 'scalar with nonscalar')
    obs.raises('refusal', lambda: obs.call(C, None, 3), E, 'arguments without function')
    e = obs.call(C, fn(), order={'x': 0})
    obs.raises('refusal', lambda: obs.meth(e, 'set_delta', {"x'": 0}), E, 'delta after order')
    obs.meth(e, 'set_order', None)
    obs.meth(e, 'set_delta', {"x'": 0})
    r = obs.call(e, {"x'": v("x'"), 'x': v('x')})
    got(obs, 'order', r, 'f', [f(VAL["x'"] - VAL['x'])], {}, 'delta replacing order')
    obs.meth(e, 'set_delta', None)
    r = obs.call(e, x=v('x'))
    got(obs, 'order', r, 'f', [], {'x': v('x')}, 'mapping removed')
  return cl


def thunk(obs):
  """ argument-free lambdas disregard keywords; other lambdas receive them """
  e = obs.call(obs.api('Expression'), obs.code('lambda: c', c=v('p')))
  obs.num('call', obs.call(e, x=v('x')), VAL['p'], 'lambda without arguments')
  obs.num('call', obs.call(e), VAL['p'], 'lambda without arguments')
  obs.num('call', obs.call(e, {'x': v('x')}), VAL['p'], 'lambda without arguments')
  obs.raises('refusal', lambda: obs.call(e, v('x')), None, 'positional argument')
  for src in ("lambda **k: k['x'] - k['y']", 'lambda *, x, y: x - y', 'lambda *, x, **k: x - k["y"]'):
    e = obs.call(obs.api('Expression'), obs.code(src))
    obs.num('call', obs.call(e, x=v('x'), y=v('y')), VAL['x'] - VAL['y'], src)
    obs.num('call', obs.call(e, {'x': v('x'), 'y': v('y')}), VAL['x'] - VAL['y'], src)
  e = obs.call(obs.api('Expression'), obs.code('lambda *a: a[0] - a[1]'))
  obs.num('call', obs.call(e, v('p'), v('q')), VAL['p'] - VAL['q'], 'lambda *a')
  e = obs.call(obs.api('Expression'), obs.code('lambda x, y=2.: x - y'))
  obs.num('call', obs.call(e, v('p')), VAL['p'] - tm.const_t(2), 'lambda')
  obs.num('call', obs.call(e, v('p'), y=v('y')), VAL['p'] - VAL['y'], 'lambda')
  obs.num('call', obs.call(e, {'x': v('x'), 'y': v('y')}), VAL['x'] - VAL['y'], 'lambda')


def reset(obs):
  """ set_expr replaces everything of a former expression """
  E = obs.api('Expression')
  e = obs.call(E, fn('f'), v('p'), order={'x': 0}, x=v('x')) if False else \
      obs.call(E, fn('f'), order={'x': 'y'})
  obs.meth(e, 'set_expr', fn('g'))
  got(obs, 'call', obs.call(e, x=v('x')), 'g', [], {'x': v('x')}, 'after set_expr')
  obs.same('call', obs.attr(e, 'order'), None, 'order after set_expr')
  obs.meth(e, 'set_expr', (fn('a'), fn('b')))
  got(obs, 'multi', obs.call(obs.meth(e, '__getitem__', 1), v('p')), 'b', [v('p')], {}, '[1] after set_expr')
  obs.same('call', obs.attr(e, 'ismulti'), True, 'ismulti after set_expr')
  obs.meth(e, 'set_expr', f(tm.sym('c')))
  obs.num('constant', obs.call(e), tm.sym('c'), 'after set_expr')
  obs.same('call', [obs.attr(e, 'ismulti'), obs.attr(e, 'callable'), obs.attr(e, 'isscalar')],
           [False, False, True], 'flags after set_expr')


# ------------------------------------------------------------------ symbols
def sym(obs, n):
  return obs.call(Lib('sympy.Symbol'), n)


ICON = {
    'x+1': (('x',), lambda obs, s: obs.I.binop_('add', s['x'], 1), lambda t: t['x'] + tm.ONE),
    '2*x*y': (('x', 'y'), None, lambda t: tm.const_t(2) * t['x'] * t['y']),
    'x-y': (('x', 'y'), None, lambda t: t['x'] - t['y']),
    'exp(x)/z': (('x', 'z'), None, lambda t: tm.exp_t(t['x']) / t['z']),
    'log(y)*x': (('x', 'y'), None, lambda t: tm.log_t(t['y']) * t['x']),
    'z-x*y': (('x', 'y', 'z'), None, lambda t: t['z'] - t['x'] * t['y']),
}


def iconic(obs, text):
  names = ICON[text][0]
  s = {n: sym(obs, n) for n in names}
  return s, obs.code(text, exp=Lib('sympy.exp'), log=Lib('sympy.log'), **s)


def symbolic(text, form, shape):
  def cl(obs):
    names, _, den = ICON[text]
    s, ex = iconic(obs, text)
    e = obs.call(obs.api('Expression' if form != 'Expr' else 'Expr'), ex)
    vals = {}
    for i, n in enumerate(names):
      if shape == 'array' and i == 0:
        vals[n] = Num(tm.sym('v.' + n, ('i',), '+'), ('i',), 'arr', 'float')
      elif shape == 'outer':
        ax = tuple(chr(105 + i) if j == i else None for j in range(len(names)))
        vals[n] = Num(tm.sym('v.' + n, (chr(105 + i),), '+'), ax, 'arr', 'float')
      elif shape == 'int':
        vals[n] = 3 + i
      elif shape == 'bool' and i == 0:
        vals[n] = True
      else:
        vals[n] = Num(tm.sym('v.' + n, (), '+'), (), 'float', 'float')
    t = {n: (x.t if isinstance(x, Num) else tm.const_t(int(x))) for n, x in vals.items()}
    want = den(t)
    calls = {'dict': lambda: obs.call(e, dict(vals)),
             'kwds': lambda: obs.call(e, **vals),
             'pos': lambda: obs.call(e, *[vals[n] for n in sorted(names)]),
             'symbols': lambda: obs.call(e, {s[n]: x for n, x in vals.items()}),
             'extra': lambda: obs.call(e, {**vals, 'other': v('q')})}
    d = dict(vals)
    obs.freeze('values', d)
    for k, th in calls.items():
      r = th()
      if isinstance(r, SArr):
        obs.add('symbolic', None, 'explicit array')
        continue
      obs.num('symbolic', r, want, f"{text} by {k}")
    obs.num('symbolic', obs.call(e, d), want, f"{text} again")
    obs.unmutated('operand-unchanged')
    if len(names) > 1:
      obs.raises('refusal', lambda: obs.call(e, {names[0]: vals[names[0]]}), None, 'missing symbol')
  return cl


def symbolic_multi(form):
  def cl(obs):
    x, y = sym(obs, 'x'), sym(obs, 'y')
    ex = [obs.code('x+1', x=x), obs.code('x*y', x=x, y=y)]
    keys = [0, 1] if form == 'tuple' else ['a', 'b']
    e = obs.call(obs.api('Expression'), tuple(ex) if form == 'tuple' else dict(zip(keys, ex)))
    obs.num('symbolic', obs.call(obs.meth(e, '__getitem__', keys[0]), x=v('x')), VAL['x'] + tm.ONE, keys[0])
    for k in keys:
      r = obs.call(obs.meth(e, '__getitem__', k), {'x': v('x'), 'y': v('y')})
      obs.num('symbolic', r, VAL['x'] + tm.ONE if k == keys[0] else VAL['x'] * VAL['y'], f"[{k}]")
    obs.raises('refusal', lambda: obs.call(e, v('x')), ['AssertionError'], 'call of a multiple')
    obs.same('symbolic', list(obs.attr(e, 'symbols').keys()), ['x', 'y'], 'symbols')
    obs.raises('refusal', lambda: obs.call(obs.api('Expression'), (ex[0], fn())), ['AssertionError'],
               'iconic with callable')
  return cl


# -------------------------------------------------- kinds, and one after another
def kinds(obs, c):
  """ kind -> (positional arguments, keywords) of an expression of each kind """
  out = {
      'none': ((None,), {}),
      'scalar': ((f(tm.sym('c')),), {}),
      'array': ((Num(tm.sym('c', ('i',)), ('i',), 'arr', 'float'),), {}),
      'list': (([1, 2],), {}),
      'string': (('text',), {}),
      'function': ((fn(),), {}),
      'function args': ((fn(), v('p')), {'w': v('q')}),
      'function order': ((fn(),), {'order': {'x': 0}}),
      'function delta': ((fn(),), {'delta': {"x'": 0}}),
      'functions': (((fn('f0'), fn('f1')),), {}),
      'functions args': (((fn('f0'), fn('f1')), v('p')), {'w': v('q')}),
      'functions order': (((fn('f0'), fn('f1'), fn('f2')),), {'order': {'x': 'y'}}),
      'constants': (((f(tm.sym('c')), f(tm.sym('d'))),), {}),
      'arrays': ((([1, 2], [3], [4, 5]),), {}),
  }
  if c[0] == 'Expression':
    x, y = sym(obs, 'x'), sym(obs, 'y')
    out.update({
        'dict': (({'a': fn('fa'), 'b': fn('fb')},), {}),
        'dict args': (({'a': fn('fa'), 'b': fn('fb')}, v('p')), {}),
        'dict constants': (({'a': f(tm.sym('c')), 'k': f(tm.sym('d'))},), {}),
        'lambda': ((obs.code('lambda **k: k["x"] - 1'),), {}),
        'thunk': ((obs.code('lambda: c', c=v('p')),), {}),
        'lambdas': (((obs.code('lambda **k: k["x"] - 1'), obs.code('lambda **k: k["x"] + 1')),), {}),
        'iconic': ((obs.code('x*y', x=x, y=y),), {}),
        'invertible': ((obs.code('2*x+1', x=x),), {'invertible': True}),
        'iconics': (((obs.code('x+1', x=x), obs.code('x*y', x=x, y=y)),), {}),
        'iconic dict': (({'a': obs.code('x+1', x=x), 'b': obs.code('x*y', x=x, y=y)},), {}),
    })
  return out


FLAGS = {   # kind -> callable, islambda, ismulti, isscalar, isiconic, length
    'none': (False, False, False, False, False, None),
    'scalar': (False, False, False, True, False, None),
    'array': (False, False, False, False, False, None),
    'list': (False, False, False, False, False, None),
    'string': (False, False, False, True, False, None),
    'function': (True, False, False, False, False, None),
    'function args': (True, False, False, False, False, None),
    'function order': (True, False, False, False, False, None),
    'function delta': (True, False, False, False, False, None),
    'functions': (True, False, True, False, False, 2),
    'functions args': (True, False, True, False, False, 2),
    'functions order': (True, False, True, False, False, 3),
    'constants': (False, False, True, True, False, 2),
    'arrays': (False, False, True, False, False, 3),
    'dict': (True, False, True, False, False, 2),
    'dict args': (True, False, True, False, False, 2),
    'dict constants': (False, False, True, True, False, 2),
    'lambda': (True, True, False, False, False, None),
    'thunk': (True, True, False, False, False, None),
    'lambdas': (True, True, True, False, False, 2),
    'iconic': (True, False, False, None, True, None),
    'invertible': (True, False, True, None, True, 4),
    'iconics': (None, False, True, None, True, 2),
    'iconic dict': (None, False, True, None, True, 2),
}
CONLY = ('dict', 'dict args', 'dict constants', 'lambda', 'thunk', 'lambdas', 'iconic', 'invertible', 'iconics',
         'iconic dict')
ATTRS = ('callable', 'islambda', 'ismulti', 'isscalar', 'isiconic')


def flag(obs, c, e, name):
  return obs.attr(e, name) if c[0] == 'Expression' else obs.meth(e, 'ret_' + name)


def maybe(thunk):
  from .harness import norm, has_unk
  try:
    r = thunk()
  except AbsExc as e:
    return 'raises ' + e.etype
  n = norm(r)
  return Unk('result') if has_unk(n) else n


def observe(obs, c, e):
  """ what a user can see of an expression """
  names = [n for n in ATTRS if c[0] == 'Expression' or n not in ('islambda', 'isiconic')]
  out = [(n, maybe(lambda: flag(obs, c, e, n))) for n in names + ['order', 'delta']]
  if c[0] == 'Expression':
    out += [(n, maybe(lambda: obs.attr(e, n))) for n in ('keys', 'invertible', 'args', 'kwds')]
    out.append(('symbols', maybe(lambda: list(obs.attr(e, 'symbols')))))
    out += [(n, maybe(lambda: obs.attr(e, n) is None)) for n in ('inverse', 'invexpr', 'derinv')]
  out.append(('len', maybe(lambda: obs.meth(e, '__len__'))))
  calls = {'': {}, 'x': {'x': v('x')}, 'xy': {'x': v('x'), 'y': v('y')}, "x'": {"x'": v("x'"), 'x': v('x')}}
  for k, kw in calls.items():
    out.append((f"call({k})", maybe(lambda: obs.call(e, dict(kw)) if kw else obs.call(e))))
    for i in (0, 1, 2, -1, 'a', 'b', 'k'):
      out.append((f"[{i}]({k})", maybe(
          lambda: obs.call(obs.meth(e, '__getitem__', i), **({'x': v('x')} if k == 'x' else {}))
          if k in ('', 'x') else None)))
  return out


def respecified(c, a, b):
  """ an expression set anew is what one made afresh would be """
  def cl(obs):
    ks = kinds(obs, c)
    (aa, ak), (ba, bk) = ks[a], ks[b]
    e = obs.call(cls(obs, c), *aa, **ak)
    observe(obs, c, e)
    obs.meth(e, 'set_expr' if c[0] == 'Expression' else 'set_func', *ba, **bk)
    fresh = obs.call(cls(obs, c), *ba, **bk)
    for (n, x), (_, y) in zip(observe(obs, c, e), observe(obs, c, fresh)):
      if isinstance(x, Unk) or isinstance(y, Unk):
        continue
      obs.same('call', x, y, f"{n} of {b} set after {a}")
  return cl


def flags(c, kind):
  def cl(obs):
    a, k = kinds(obs, c)[kind]
    e = obs.call(cls(obs, c), *a, **k)
    want = FLAGS[kind]
    for n, w in zip(ATTRS, want):
      if (c[0] == 'Expression' or n not in ('islambda', 'isiconic')) and w is not None:
        obs.same('call', flag(obs, c, e, n), w, f"{n} of {kind}")
    obs.same('call', obs.meth(e, '__len__'), want[-1], f"length of {kind}")
    obs.same('call', flag(obs, c, e, 'order'), k.get('order'), f"order of {kind}")
    obs.same('call', flag(obs, c, e, 'delta'), k.get('delta'), f"delta of {kind}")
    if c[0] == 'Expression':
      obs.same('call', obs.attr(e, 'invertible'), kind == 'invertible', f"invertible of {kind}")
      ks = list(obs.I.iterate(obs.attr(e, 'keys')))
      ks = [x for x in ks if x not in (-1, None)] if kind != 'invertible' else ks
      exp = [0, None, 1, -1] if kind == 'invertible' else list(a[0]) if isinstance(a[0], dict) else \
          list(range(len(a[0]))) if isinstance(a[0], tuple) else []
      obs.same('call', sorted(map(str, ks)), sorted(map(str, exp)), f"keys of {kind}")
      obs.same('call', list(obs.attr(e, 'args')), list(a[1:]), f"stored arguments of {kind}")
      obs.same('call', dict(obs.attr(e, 'kwds')), {x: y for x, y in k.items() if x == 'w'},
               f"stored keywords of {kind}")
    multi = want[2]
    if multi and kind != 'invertible':
      obs.raises('refusal', lambda: obs.call(e), None, f"call of {kind}")
    if not multi:
      for i in (0, -1, 'a'):
        obs.raises('refusal', lambda: obs.call(obs.meth(e, '__getitem__', i)), None, f"[{i!r}] of {kind}")
    if want[0] is False or (want[4] and multi and kind != 'invertible'):
      obs.raises('refusal', lambda: obs.call(cls(obs, c), a[0], v('p')), None, f"{kind} with an argument")
      obs.raises('refusal', lambda: obs.call(cls(obs, c), a[0], w=v('p')), None, f"{kind} with a keyword")
  return cl


def mixtures(c):
  def cl(obs):
    C = cls(obs, c)
    ks = kinds(obs, c)
    bad = [('function', 'scalar'), ('function', 'list'), ('scalar', 'list'), ('scalar', 'array')]
    if c[0] == 'Expression':
      bad += [('function', 'lambda'), ('iconic', 'function'), ('iconic', 'scalar'), ('lambda', 'iconic')]
    for x, y in bad:
      for p, q in ((x, y), (y, x)):
        m = (ks[p][0][0], ks[q][0][0])
        obs.raises('refusal', lambda: obs.call(C, m), None, f"{p} with {q}")
        if c[0] == 'Expression':
          obs.raises('refusal', lambda: obs.call(C, {'a': m[0], 'b': m[1]}), None, f"{p} with {q} by key")
    for k in ('function', 'functions'):
      e = obs.call(C, *ks[k][0])
      obs.meth(e, 'set_delta', {"x'": 0})
      obs.raises('refusal', lambda: obs.meth(e, 'set_order', {'x': 0}), None, f"order after delta of {k}")
      e = obs.call(C, *ks[k][0])
      obs.meth(e, 'set_order', {'x': 0})
      obs.raises('refusal', lambda: obs.meth(e, 'set_delta', {"x'": 0}), None, f"delta after order of {k}")
    if c[0] == 'Expression':
      e = obs.call(C, *ks['iconic'][0])
      obs.raises('refusal', lambda: obs.meth(e, 'set_delta', {"x'": 0}), None, 'delta of symbols')
      obs.raises('refusal', lambda: obs.meth(e, 'set_order', {'x': 1}), None, 'order of symbols')
      for k in ('functions', 'constants', 'iconics', 'dict'):
        obs.raises('refusal', lambda: obs.call(C, *ks[k][0], invertible=True), None, f"invertible {k}")
  return cl


# ----------------------------------------------------------------------- CF
def cond_func(n, order):
  def cl(obs):
    RV = obs.api('RV')
    RF = obs.api('RF')
    rvs = [obs.call(RV, k, vtype=float) for k in ('x', 'y', 'z')[:n]]
    CF = obs.api('CF', 'probayes.cf')
    rf = obs.call(RF, *rvs)
    e = obs.call(CF, rf, None, fn(), **({'order': {'x': 0}} if order else {}))
    vals = {k: v(k) for k in ('x', 'y', 'z')[:n]}
    r = obs.call(e, dict(vals))
    a, k = apply_order({'x': 0} if order else None, (), vals)
    got(obs, 'call', r, 'f', a, k, 'conditional function')
  return cl


def scenarios(tier='quick'):
  out = []
  add = lambda rule, name, c, **k: out.append(Scenario(rule, name, c, **k))
  for c in CLASSES:
    n = c[0]
    for call in CALLS:
      add('call', f"{n} {call}", plain(c, call))
    for extra in (False, True):
      for o in (None, {'x': 0}, {'x': 1, 'y': 0}, {'x': 'y', 'y': 'x'}, {'y': None}):
        add('call', f"{n} dict extra={extra} order={o}", by_dict(c, extra, o))
    for o in ORDERS:
      for how in ('kw', 'set'):
        for extra in (False, True):
          add('order', f"{n} order {o} {how} extra={extra}", ordered(c, o, how, extra))
    for d in DELTAS:
      for how in ('kw', 'set'):
        add('order', f"{n} delta {d} {how}", delta(c, d, how))
    for na, kw, ck in itertools.product((0, 1, 2), (False, True), (False, True)):
      add('call', f"{n} stored {na} args kwds={kw} call kwds={ck}", stored(c, na, kw, ck))
    for form in ('tuple',) + (('dict',) if n == 'Expression' else ()):
      for k in (1, 2, 3):
        for o in (False, True):
          add('multi', f"{n} {form} of {k} order={o}", multi(c, form, k, o))
    for kind in ('scalar', 'array', 'list', 'string', 'tuple') + (('dict',) if n == 'Expression' else ()):
      add('constant', f"{n} constant {kind}", constant(c, kind))
    add('refusal', f"{n} refusals", refusals(c))
    add('refusal', f"{n} mixtures", mixtures(c))
    K = [k for k in FLAGS if n == 'Expression' or k not in CONLY]
    for a in K:
      add('call', f"{n} kind {a}", flags(c, a))
      for b in K:
        if a != b:
          add('call', f"{n} {b} set after {a}", respecified(c, a, b))
  add('call', 'Expression lambda', thunk)
  add('call', 'Expression set_expr again', reset)
  for text in ICON:
    for form in ('Expression', 'Expr'):
      for shape in ('scalar', 'array', 'outer', 'int', 'bool'):
        for order in ('fwd', 'rev'):
          add('symbolic', f"{form} {text} {shape} sets {order}", symbolic(text, form, shape), order=order)
  for form in ('tuple', 'dict'):
    add('symbolic', f"Expression symbolic {form}", symbolic_multi(form))
  return out
