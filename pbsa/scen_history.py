""" What a call returns does not depend on the calls made before it: every operation that settles nothing is
made on a fresh instance, and on one on which others, refused and random ones included, were made first. """
import itertools
import re

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet, AbsFn, Inst, NT
from .harness import Scenario, diff
from .interp import AbsExc
from .scen_isolation import fn as scalar_fn, N, T, var, pair, dim, view


def fn(tag):
  """ an opaque function that maps arrays element by element """
  plain = scalar_fn(tag)

  def f(I, args, kwds):
    keys = sorted(kwds)
    nds = [I.lib.nd(x) for x in list(args) + [kwds[k] for k in keys]]
    if any(n is None for n in nds) or not any(n[0] for n in nds):
      return plain.fn(I, args, kwds)
    rank = max(len(n[0]) for n in nds)
    shapes = [(1,) * (rank - len(n[0])) + tuple(n[0]) for n in nds]
    shape = tuple(max(c) for c in zip(*shapes))
    if any(a not in (1, b) for s in shapes for a, b in zip(s, shape)):
      raise I.exc('ValueError', f"{tag} called with shapes that do not match")
    out = []
    for at in itertools.product(*(range(n) for n in shape)):
      xs = []
      for (_, items, _t), s in zip(nds, shapes):
        k = 0
        for i, n in zip(at, s):
          k = k * n + (i if n > 1 else 0)
        xs.append(items[k])
      out.append(plain.fn(I, xs[:len(args)], dict(zip(keys, xs[len(args):]))))
    return SArr(out, 'float') if rank == 1 else NArr(shape, out, 'float')
  return AbsFn(tag, f)


# ---------------------------------------------------------------- results
DRAW = re.compile(r'rnd\d+')


def renamed(result):
  """ a result with the values drawn in it numbered in order of appearance """
  order = {}
  return DRAW.sub(lambda m: 'draw' + str(order.setdefault(m.group(), len(order))), str(result))


def seen(obs, v, depth=0):
  """ what can be observed of a result """
  I = obs.I
  if isinstance(v, Unk):
    return ('unknown',)
  if isinstance(v, Inst) and v.payload is not None and depth < 4:
    out = [v.cls.name]
    for a in ('name', 'dims', 'shape', 'keylist', 'prob', 'pscale'):
      try:
        out.append((a, I.lib.snapshot(obs.attr(v, a))))
      except AbsExc:
        out.append((a, None))
    return tuple(out) + (I.lib.snapshot(v.payload),)
  if isinstance(v, NT):
    return ('nt',) + tuple(seen(obs, x, depth + 1) for x in v.vals)
  if isinstance(v, (list, tuple)):
    return ('seq',) + tuple(seen(obs, x, depth + 1) for x in v)
  if isinstance(v, dict):
    return ('dict',) + tuple((I.lib.snapshot(k), seen(obs, x, depth + 1)) for k, x in v.items())
  if isinstance(v, Inst):
    return ('inst', v.cls.name)
  return I.lib.snapshot(v)


def make_call(obs, o, op):
  name, args, kw = op[1], op[2], op[3] if len(op) > 3 else {}
  try:
    if name == '[]':                       # an indexed call: o[args[0]](*args[1])
      r = obs.call(obs.I.getitem(o, args[0]), *args[1], **kw)
    elif name == '[:]':
      from .interp import SliceV
      r = obs.I.getitem(o, SliceV(None, None))
    elif name == '~':
      r = obs.meth(o, 'inverse')
    elif name == '.':
      r = obs.attr(o, args[0])
    elif name == 'Delta':                  # deltas in the form the instance itself gives them
      d = obs.call(obs.attr(o, 'Delta'), **args[1])
      r = obs.meth(o, args[0], *(args[2:] + (d,)))
    elif name == '()':
      r = obs.call(o, *args, **kw)
    elif name == 'walk':
      r = list(obs.I.iterate(obs.meth(o, 'sampler', *args, **kw)))
    elif name == 'walk part':
      r = []
      for x in obs.I.iterate(obs.meth(o, 'sampler', *args, **kw)):
        r.append(x)
        break
    else:
      r = obs.meth(o, name, *args, **kw)
    return ('returned', seen(obs, r))
  except AbsExc as e:
    return ('refused', e.etype)


def judge(obs, what, want, got):
  ok = got == want or renamed(got) == renamed(want)
  if not ok and (dim(str(got)) or dim(str(want)) or DRAW.search(str(got) + str(want))):
    ok = None
  obs.add('history', ok, what + ('' if ok else ': ' + diff(want, got)))


def history(kind, before, op):
  """ kind: (make, ops, see); before: operations made first; op: the one compared """
  def cl(obs):
    make, ops, see = kind
    want = make_call(obs, make(obs), ops(obs)[op]) if op is not None else None
    o = make(obs)
    first = view(obs, o, see)
    done = []
    for i in before:
      b = ops(obs)[i]
      got = make_call(obs, o, b)
      done.append(b[0] + (' (refused)' if got[0] == 'refused' else ''))
    now = view(obs, o, see)
    what = f"after {', '.join(done)}"
    for k in see:
      ok = now[k] == first[k]
      if not ok and (dim(str(now[k])) or dim(str(first[k]))):
        ok = None
      obs.add('history', ok, f"{k} {what}" + ('' if ok else ': ' + diff(first[k], now[k])))
    if op is not None:
      c = ops(obs)[op]
      got = make_call(obs, o, c)
      judge(obs, f"{c[0]} {what}", want, got)
  return cl


# ---------------------------------------------------------------- kinds
def S(*v):
  return ASet(list(v))


def variable(cls, typ, setting):
  def make(obs):
    x = var(obs, 'x', cls, typ)
    if setting == 'ufun':
      obs.meth(x, 'set_ufun', (obs.api('exp', 'numpy'), obs.api('log', 'numpy')))
    elif setting == 'delta':
      obs.meth(x, 'set_delta', .5 if typ is float else 1, bound=True, scale=typ is float)
    elif setting == 'random delta':
      obs.meth(x, 'set_delta', [.5 if typ is float else 1], bound=True)
    elif setting == 'function delta':
      obs.meth(x, 'set_delta', AbsFn('d', lambda I, a, k: a[0]), bound=True)
    elif setting == 'prob':
      obs.meth(x, 'set_prob', fn('P'), pscale='log')
    elif setting == 'tran':
      obs.meth(x, 'set_tran', fn('Q'))
    elif setting == 'tran pair':
      obs.meth(x, 'set_tran', (fn('Q'), fn('B')))
    elif setting == 'tfun':
      obs.meth(x, 'set_tran', (fn('Q'), fn('B')))
      obs.meth(x, 'set_tfun', (fn('F'), fn('R')))
    elif setting == 'table':
      n = 2 if typ is bool else 4
      obs.meth(x, 'set_prob', SArr([N(tm.sym(f"p{i}", sign='+')) for i in range(n)], 'float'))
      obs.meth(x, 'set_tran', NArr((n, n), [N(tm.sym(f"t{i}", sign='+')) for i in range(n * n)]))
    return x

  def ops(obs):
    v, w, d = {float: (1., 2., .25), int: (1, 2, 1), bool: (True, False, 1)}[typ]
    arr = SArr([v, w], typ.__name__)
    out = [('! call' if cls == 'RV' else 'call', '()', ()), ('call value', '()', (v,)), ('call {x: value}', '()', ({'x': w},)),
           ('call array', '()', (arr,)), ('evaluate default', 'evaluate', ()),
           ('apply_delta', 'apply_delta', (v, d)), ('bounded', 'apply_delta', (v, 9 * d, True)), ('far', 'apply_delta', (v, 9 * d)),
           ('icon', '[:]', ())]
    if typ is not bool:
      out += [('evaluate {3}', 'evaluate', (S(3),))]
    if cls == 'RV':
      out += [('step given', 'step', (v, w)), ('step array', 'step', (v, arr)), ('eval_prob', 'eval_prob', ({'x': v},)),
              ('name', 'eval_dist_name', ({'x': v},)), ('step back', 'step', (v, w), {'reverse': True})]
    out += [('! evaluate {0}', 'evaluate', (S(0),)), ('! evaluate {-2}', 'evaluate', (S(-2),)),
            ('! random delta', 'apply_delta', (v, [d])), ('! default delta', 'apply_delta', (v,)),
            ('! call unknown', '()', ({'q': v},)), ('! too many', '()', (v, v, v)),
            ('! bad delta', 'apply_delta', (v, [d, d]))]
    if cls == 'RV':
      out += [('! step', 'step', (v,)), ('! step random', 'step', (v, S(0))), ('! step array of', 'step', (arr, S(0))),
              ('! step out', 'step', (99, 98)), ('! step many', 'step', (v, v, v))]
    return out
  see = ['name', 'vset', 'vlims', 'ulims', 'length', 'lhv', 'delta']
  if cls == 'RV':
    see += ['pscale', 'def_prob']
  return make, ops, see


def field(cls, setting):
  keys = 'xyzw' if setting in ('given', 'given tran', 'given prop') else 'xy'
  elem = 'RV' if cls in ('RF', 'SD', 'SP') else 'Variable'

  def make(obs):
    if keys == 'xyzw':
      o = obs.call(obs.api(cls), pair(obs, 'xy', elem), pair(obs, 'zw', elem))
    elif cls in ('Field', 'RF'):
      o = pair(obs, 'xy', elem)
    else:
      o = obs.call(obs.api(cls), pair(obs, 'xy', elem))
    if setting in ('prob', 'given', 'chain', 'tran', 'prop'):
      obs.meth(o, 'set_prob', fn('J'), pscale='log')
    if setting in ('tran', 'chain'):
      obs.meth(o, 'set_tran', fn('Q'))
      obs.meth(o, 'set_delta', .25)
    if setting == 'tran pair':
      obs.meth(o, 'set_tran', (fn('Q'), fn('B')))
      obs.meth(o, 'set_delta', {'x': .25, 'y': .5}, bound=True)
    if setting == 'prop':
      obs.meth(o, 'set_prop', fn('Q'))
    if setting == 'delta':
      obs.meth(o, 'set_delta', {'x': .5, 'y': .25}, bound=True, scale=True)
    if setting == 'chain':
      obs.meth(o, 'set_scores', fn('sc'))
      obs.meth(o, 'set_thresh', AbsFn('th', lambda I, a, k: N(T('th'))))
      obs.meth(o, 'set_update', AbsFn('up', lambda I, a, k: True))
    return o

  def ops(obs):
    at = dict(zip(keys, (1., 2., .5, 1.5)))
    to = {k + "'": x for k, x in zip(keys, (1.25, .75, 2.5, 0.))}
    arr = dict(at, x=SArr([.25, 1.75], 'float'))
    out = [('eval_delta', 'Delta', ('eval_delta', {'x': .5, 'y': .25})), ('default delta', 'eval_delta', ()), ('name', 'eval_dist_name', (dict(at),)),
           ('evaluate', 'evaluate', (dict(at),)), ('parse_args', 'parse_args', ({'x,y': [1., 2.]},)),
           ('lengths', 'eval_length', ())]
    if keys == 'xy':
      out += [('apply_delta', 'Delta', ('apply_delta', {'x': .5, 'y': .25}, dict(at)))]
    out += [('evaluate {3}', 'evaluate', (dict(at, x=S(3)),))]
    if elem == 'RV':
      out += [('call', '()', (dict(at),)), ('call array', '()', (dict(arr),)), ('call {3}', '()', (dict(at, y=S(3)),)),
              ('call keywords', '()', (), dict(at)), ('iid', '()', (dict(arr),), {'iid': True}),
              ('joint', '()', (dict(at),), {'joint': True})]
      if keys == 'xy':
        out += [('step given', 'step', (dict(at), dict(to))), ('propose', 'propose', (dict(at),)),
                ('step back', 'step', (dict(at), dict(to)), {'reverse': True}), ('step', 'step', (dict(at),))]
    if cls in ('SD', 'SP') and setting in ('tran', 'chain', 'prop', 'tran pair'):
      out += [('sample', 'sample', (dict(at),))]
    if cls == 'SP' and setting in ('tran', 'chain', 'tran pair'):
      out += [('walk', 'walk', (dict(at),), {'stop': 3})]
    out += [('! evaluate {0}', 'evaluate', (S(0),)), ('! evaluate nothing', 'evaluate', ({},)),
            ('! default delta', 'apply_delta', (dict(at),)), ('! random delta', 'eval_delta', ([.5],)),
            ('! sphere', 'eval_delta', ((.5,),)), ('! unknown', 'evaluate', (dict(at, q=1.),)),
            ('! bad delta', 'eval_delta', ({'q': 1.},)), ('! bad pair', 'parse_args', ({'x,y': 1.},))]
    if elem == 'RV':
      out += [('! call unknown', '()', (dict(at, q=1.),)), ('! call random', '()', (S(0),)),
              ('! call none', '()', ()), ('! propose random', 'propose', (S(0),)),
              ('! step random', 'step', (dict(at), S(0))), ('! step unknown', 'step', ({'q': 1.},))]
    if cls in ('SD', 'SP'):
      out += [('! sample', 'sample', ()), ('! sample bad', 'sample', (dict(at), 3)),
              ('! sample suffix', 'sample', (dict(at),), {'suffix': False})]
    if cls == 'SP':
      out += [('! walk random', 'walk', (), {'stop': 2}), ('! walk part', 'walk part', (dict(at),), {'stop': 3}),
              ('! walk bad', 'walk', ({'q': 1.},), {'stop': 2}), ('! summary', '()', ([3],))]
    return out
  see = ['name', 'keylist', 'delta', 'Delta']
  if elem == 'RV':
    see += ['pscale', 'passdims', 'def_prob']
  if cls == 'SP':
    see += []
  return make, ops, see


def expression(cls, form):
  def make(obs):
    E = obs.api(cls)
    if form == 'single':
      return obs.call(E, fn('E'), order={'x': 0, 'y': None}, a=N(T('a')))
    if form == 'plain':
      return obs.call(E, fn('E'))
    if form == 'delta':
      return obs.call(E, fn('E'), delta={'x': 'w', 'y': 0})
    if form == 'tuple':
      return obs.call(E, (fn('E'), fn('G')))
    if form == 'dict':
      return obs.call(E, {'u': fn('E'), 'v': fn('G')})
    if form == 'scalar':
      return obs.call(E, 2.5)
    return obs.call(E, obs.code('2*x + y', x=obs.call(obs.api('Symbol', 'sympy'), 'x'),
                                y=obs.call(obs.api('Symbol', 'sympy'), 'y')))

  def ops(obs):
    x, y = N(T('x')), N(T('y'))
    at = {'x': x, 'y': y}
    out = [('call values', '()', (x, y)), ('call dict', '()', (dict(at),)), ('call keywords', '()', (), dict(at)),
           ('call one', '()', (x,)), ('call none', '()', ())]
    for i in {'tuple': (0, 1, -1), 'dict': ('u', 'v'), 'scalar': (None,)}.get(form, (None,)):
      out += [(f"[{i}] values", '[]', (i, (x, y))), (f"[{i}] dict", '[]', (i, (dict(at),))), (f"[{i}] none", '[]', (i, ()))]
    out += [('! many', '()', (x, y, x, y)), ('! string', '()', ('a',)), ('! key', '[]', ('zz', (x,))),
            ('! index', '[]', (7, (x,))), ('! keyword', '()', (), {'zz': x})]
    return out
  see = ['args', 'kwds', 'order', 'delta', 'callable', 'ismulti', 'isscalar', 'isiconic', 'keys']
  return make, ops, see


def func(form):
  def make(obs):
    F = obs.api('Func', 'probayes.func')
    if form == 'single':
      return obs.call(F, fn('E'))
    if form == 'ordered':
      return obs.call(F, fn('E'), order={'x': 0, 'y': 1})
    if form == 'tuple':
      return obs.call(F, (fn('E'), fn('G')))
    return obs.call(F, N(T('k')))

  def ops(obs):
    x, y = N(T('x')), N(T('y'))
    at = {'x': x, 'y': y}
    out = [('call values', '()', (x, y)), ('call dict', '()', (dict(at),)), ('call keywords', '()', (), dict(at)),
           ('call none', '()', ()), ('[0] values', '[]', (0, (x, y))), ('[1] dict', '[]', (1, (dict(at),))),
           ('! [7]', '[]', (7, (x,))), ('! ["a"]', '[]', ('a', (x,))), ('! string', '()', ('a',)),
           ('! [0] string', '[]', (0, ('a',)))]
    return out
  return make, ops, ['callable', 'ismulti', 'isscalar']


def functional():
  def make(obs):
    f = obs.call(obs.api('Functional'), pair(obs, 'ab', 'Variable'), pair(obs, 'xy', 'Variable'))
    obs.meth(f, 'add_func', {'a': 'x'}, fn('F'))
    obs.meth(f, 'add_func', {'b': 'y'}, fn('G'))
    return f

  def ops(obs):
    x, y = N(T('x')), N(T('y'))
    at = {'x': x, 'y': y}
    out = [('call', '()', (dict(at),)), ('call keywords', '()', (), dict(at))]
    for k in 'ab':
      out += [(f"[{k}]", '[]', (k, (dict(at),))), (f"[{k}] keywords", '[]', (k, ()), dict(at))]
    out += [('! none', '()', ()), ('! unknown', '()', ({'q': x},)), ('! [q]', '[]', ('q', (dict(at),))),
            ('! [a] none', '[]', ('a', ()))]
    return out
  return make, ops, ['inp_set', 'out_set', 'ndeps', 'isiconic']


def dist(cls):
  def make(obs):
    vals = {'x': SArr([3., 1., 2.], 'float'), 'y': 2., 'z': SArr([5., 7.], 'float')}
    kw = {}
    if cls == 'PD':
      kw = {'prob': NArr((3, 2), [N(tm.sym(f"p{i}", sign='+')) for i in range(6)])}
    return obs.call(obs.api(cls), 'x,y|z' if cls == 'PD' else 'x,y,z', vals, dims={'x': 0, 'y': None, 'z': 1}, **kw)

  def ops(obs):
    out = [('lookup', 'lookup', (['x'],)), ('lookup dist', 'lookup', (['z'],), {'as_dist': True}),
           ('redim', 'redim', ({'x': 1, 'z': 0},)), ('rekey', 'rekey', ({'x': 'q'},)),
           ('serialise', 'serialise', ()), ('singleton', 'singleton', ('y',)),
           ('! rekey', 'rekey', ({'x': 'y'},)), ('! redim', 'redim', ({'x': 0},)), ('! rekey list', 'rekey', (['x'],))]
    if cls == 'PD':
      out += [('marginalise', 'marginalise', ('x',)), ('marginal', 'marginal', ('y',)),
              ('conditionalise', 'conditionalise', ('x',)), ('sorted', 'sorted', ('x',)),
              ('expectation', 'expectation', ()), ('rescaled', 'rescaled', ('log',)), ('prod', 'prod', ('x',)),
              ('slice', '()', ({'x': 1.},)), ('call', '()', ('marg',)), ('quantile', 'quantile', (.5,)),
              ('! marginalise', 'marginalise', ('z',)), ('! sorted', 'sorted', ('q',)), ('! slice', '()', ({'q': 1.},)),
              ('! conditionalise', 'conditionalise', ('z',)), ('! slice value', '()', ({'x': 99.},))]
    return out
  see = ['name', 'dims', 'shape', 'keylist', 'short_name']
  if cls == 'PD':
    see += ['prob', 'pscale', 'marg', 'cond']
  return make, ops, see


KINDS = {}
for _t in (float, int, bool):
  for _s in ('plain', 'delta', 'random delta', 'function delta') + (('ufun',) if _t is float else ()):
    KINDS[f"Variable {_t.__name__} {_s}"] = variable('Variable', _t, _s)
  for _s in ('plain', 'prob', 'tran', 'tran pair', 'tfun') + (('ufun',) if _t is float else ('table',)):
    KINDS[f"RV {_t.__name__} {_s}"] = variable('RV', _t, _s)
for _c, _ss in (('Field', ('plain', 'delta')), ('RF', ('plain', 'prob', 'tran', 'tran pair', 'prop', 'delta')),
                ('Dependence', ('given',)), ('SD', ('prob', 'given', 'tran', 'tran pair', 'prop')),
                ('SP', ('prob', 'given', 'tran', 'tran pair', 'prop', 'chain'))):
  for _s in _ss:
    if _c == 'Dependence':
      continue
    KINDS[f"{_c} {_s}"] = field(_c, _s)
for _c in ('Expression', 'Prob'):
  for _f in ('single', 'plain', 'delta', 'tuple', 'dict', 'scalar', 'symbolic'):
    KINDS[f"{_c} {_f}"] = expression(_c, _f)
for _f in ('single', 'ordered', 'tuple', 'number'):
  KINDS[f"Func {_f}"] = func(_f)
KINDS['Functional'] = functional()
for _c in ('Distribution', 'PD'):
  KINDS[_c] = dist(_c)


# only in the thorough tier
DEEP = {'RF plain', 'RF tran', 'RF prop', 'SD prob', 'SD tran', 'SD prop', 'SP prob', 'SP given', 'SP prop', 'SP tran pair',
        'RV int tran', 'RV bool prob', 'RV bool tran pair', 'RV float tran pair', 'RV int tfun', 'RV bool tran',
        'Variable int function delta', 'Variable bool function delta', 'Prob delta', 'Prob tuple'}


def labels(kind):
  class Obs:
    def api(self, *a):
      return None

    def code(self, *a, **k):
      return None

    def call(self, *a, **k):
      return None
  return [o[0] for o in kind[1](Obs())]


def woven(kind, op, others):
  """ one instance throughout: op is made after each of the others in turn """
  def cl(obs):
    make, ops, see = kind
    want = make_call(obs, make(obs), ops(obs)[op])
    o = make(obs)
    done = []
    for i in others:
      b = ops(obs)[i]
      got = make_call(obs, o, b)
      done.append(b[0] + (' (refused)' if got[0] == 'refused' else ''))
      c = ops(obs)[op]
      judge(obs, f"{c[0]} after {', '.join(done[-3:])}", want, make_call(obs, o, c))
  return cl


def scenarios(tier='quick'):
  out = []
  cap = 32 if tier == 'thorough' else 3      # partitions on the values drawn
  for k, kind in KINDS.items():
    if tier != 'thorough' and k in DEEP:
      continue
    ls = labels(kind)
    fixed = [i for i, l in enumerate(ls) if not l.startswith('!')]
    every = list(range(len(ls)))
    for b in every:
      out.append(Scenario('history', f"{k}: settings after {ls[b]}", history(kind, [b], None), cap))
    for op in fixed:
      out.append(Scenario('history', f"{k}: {ls[op]} among the others", woven(kind, op, every), cap))
      if tier == 'thorough' or k[:2] not in ('RF', 'SD', 'SP', 'RV'):
        out.append(Scenario('history', f"{k}: {ls[op]} after the others", history(kind, every[::-1], op), cap))
      if tier == 'thorough':
        for b in every:
          out.append(Scenario('history', f"{k}: {ls[op]} after {ls[b]}", history(kind, [b], op), cap))
  return out
