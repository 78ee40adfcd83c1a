""" Instances made apart share no state: whatever is done to one leaves the others as they were. """
import itertools

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet, AbsFn, Inst
from .harness import Scenario, norm, diff
from .interp import AbsExc
from .pdlib import pscale_value
from .scen_field import and_, or_

WIDE = (float('-inf'), float('inf'))


def T(n):
  return tm.sym(n)


def N(t):
  return Num(t, (), 'float', 'float')


def fn(tag):
  def f(I, args, kwds):
    xs = [I.lib.to_num(x) for x in list(args) + [kwds[k] for k in sorted(kwds)]]
    if any(x is None for x in xs):
      raise I.exc('TypeError', f"{tag} called with {list(args)} {kwds}")
    return N(tm.func(tag, tuple(x.t for x in xs), sign='+'))
  return AbsFn(tag, f)


def var(obs, k, cls='Variable', typ=float):
  vset = {float: [-1., 3.], int: [0, 1, 2, 3], bool: [False, True]}[typ]
  return obs.call(obs.api(cls), k, vtype=typ, vset=vset)


def pair(obs, keys, cls):
  vs = [var(obs, k, cls) for k in keys]
  f = vs[0]
  for v in vs[1:]:
    f = and_(obs, f, v)
  return f


# ---------------------------------------------------------------- classes
def variable(cls, typ):
  def make(obs):
    return var(obs, 'x', cls, typ)

  def change(obs, o):
    one = 1. if typ is float else 1
    yield 'set_delta', (.5 if typ is float else 1,), {'bound': True, 'scale': typ is float}
    yield 'set_delta', ([.5 if typ is float else 1],), {'bound': False}
    yield 'eval_delta', ()
    yield 'apply_delta', (one,)
    yield 'apply_delta', (SArr([0, 1], 'int') if typ is not float else SArr([0., 1.], 'float'),)
    yield '__call__', ({'x': one},)
    yield '__call__', ({'x': ASet([2])},)
    yield '__call__', ({'x': ASet([0])},)
    yield 'evaluate', ()
    yield '__and__', (var(obs, 'w', cls, bool),)
    yield '__or__', (var(obs, 'u', cls, bool),)
    if cls == 'RV':
      yield 'set_prob', (fn('P'),), {'pscale': 'log'}
      yield '__call__', ({'x': one},)
      yield 'set_prob', ()
      yield 'set_tran', (fn('Q'),)
      yield 'set_tfun', ((fn('F'), fn('R')),)
      yield 'step', (one, one)
      yield 'set_tran', ((fn('Q'), fn('B')),)
      if typ is not float:
        yield 'set_prob', (SArr([.5, .5] if typ is bool else [.1, .2, .3, .4], 'float'),)
    yield '=vset', [-2., 5.] if typ is float else [1, 7] if typ is int else [True]
    yield '=vset', [(0.,), 4.] if typ is float else range(2, 6) if typ is int else [False, True]
    if typ is float:
      yield 'set_ufun', ((obs.api('log', 'numpy'), obs.api('exp', 'numpy')),)
      yield '__call__', ({'x': ASet([2])},)
    yield '=vtype', int
    yield '=name', 'q'
  see = ['name', 'vtype', 'vset', 'vlims', 'ulims', 'length', 'lhv', 'isfinite', 'inside', 'ufun', 'no_ucov',
         'delta', 'dexpr']
  if cls == 'RV':
    see += ['prob', 'pscale', 'tran', 'tfun', 'def_prob', 'order', 'args', 'kwds', 'callable', 'isscalar',
            'ismulti', 'pfun', 'sfun', 'logp']
  return make, change, see


def field(cls, cond=False):
  elem = 'RV' if cls in ('RF', 'SD', 'SP') else 'Variable'

  def make(obs):
    if cls in ('Field', 'RF'):
      return pair(obs, 'xy', elem)
    if not cond:
      return obs.call(obs.api(cls), pair(obs, 'xy', elem))
    return obs.call(obs.api(cls), pair(obs, 'xy', elem), pair(obs, 'zw', elem))

  def change(obs, o):
    keys = 'xyzw' if cond else 'xy'
    at = {k: 1. for k in keys}
    dep = cond
    if dep:
      yield 'set_prop_obj', (obs.attr(o, 'roots'),)
      yield 'set_delta', (obs.attr(o, 'roots'),)
    yield 'set_delta', (.5,), {'scale': False}
    yield 'set_delta', ([.5],), {'bound': True}
    yield 'set_delta', ({k: .25 for k in keys[-2:]},)
    yield 'eval_delta', ()
    yield 'apply_delta', ({k: 0. for k in keys[-2:]},)
    yield '__call__', (dict(at),)
    yield 'evaluate', ({'x': ASet([2])},)
    yield 'parse_args', ({'x,y': [1., 2.]},)
    yield '__and__', (var(obs, 'v', elem),)
    yield '__or__', (var(obs, 'u', elem),)
    yield '__getitem__', ('x',)
    yield 'eval_dist_name', (dict(at),)
    if cls in ('RF', 'SD', 'SP'):
      yield 'set_prob', (fn('P'),), {'pscale': 'log'}
      yield '__call__', (dict(at),)
      yield 'set_prob', (fn('P'),)
      yield 'set_prop', (fn('Q'),)
      yield 'propose', (dict(at),)
      yield 'set_prop', ()
      if dep:
        yield 'set_tran', (obs.attr(o, 'roots'),)
        yield 'set_tfun', (obs.attr(o, 'roots'),)
        yield 'set_prop', (obs.attr(o, 'roots'),)
      else:
        yield 'set_tran', (fn('Q'),)
        yield 'step', (dict(at),)
    if cls in ('SD', 'SP'):
      yield 'sample', (dict(at),)
    if cls == 'SP':
      yield 'set_scores', ('hastings',)
      yield 'set_thresh', ()
      yield 'set_update', ('metropolis',)
      yield 'sampler', (dict(at),), {'stop': 2}
      yield 'sampler', (dict(at),), {'stop': 3}
      yield 'reset', (0,)
    if cls in ('RF', 'SD', 'SP') and not dep:
      yield 'set_tfun', (fn('F'),)
    if cls == 'RF':
      yield 'set_tran', (SArr([N(T('t'))], 'float'),)
    if cls not in ('Field', 'Dependence'):
      yield 'set_prob', ()
  see = ['name', 'id', 'keylist', 'nvars', 'unitvar', 'anyfloat', 'anystoch', 'delta', 'Delta', 'leafs', 'roots',
         'stems']
  if cls in ('Dependence', 'SD', 'SP'):
    see += ['preds', 'deps', 'arch', 'prop_obj', 'subfields']
  if cls in ('RF', 'SD', 'SP'):
    see += ['prob', 'pscale', 'passdims', 'prop', 'tran', 'tfun', 'order', 'kwds', 'callable']
  if cls == 'SP':
    see += ['scores', 'thresh', 'update', 'get_counter()', 'get_last()']
  return make, change, see


def expression(cls):
  def make(obs):
    return obs.call(obs.api(cls), fn('E'), order={'x': 0, 'y': None}, a=N(T('a')))

  def change(obs, o):
    yield '__call__', ({'x': 1., 'y': 2.},)
    yield 'set_order', ({'x': 'z'},)
    yield '__call__', ({'x': 1., 'b': 2.},)
    yield 'set_order', ()
    yield 'set_delta', ({'x': 'w'},)
    yield '__call__', ({'x': 1., 'w': 2.},)
    yield '__getitem__', (None,)
    if cls == 'Prob':
      yield 'set_prob', (fn('P'),), {'pscale': 'log'}
      yield '=pscale', 1.
      yield 'set_prob', (.5,)
      yield 'eval_prob', ()
    else:
      yield 'set_expr', ((fn('G'), fn('H')),)
  see = ['args', 'kwds', 'order', 'delta', 'callable', 'ismulti', 'isscalar', 'isiconic', 'keys', 'expr']
  if cls == 'Prob':
    see += ['prob', 'pscale', 'isscipy', 'issympy', 'pfun', 'sfun', 'logp']
  return make, change, see


def functional():
  def make(obs):
    return obs.call(obs.api('Functional'), pair(obs, 'ab', 'Variable'), pair(obs, 'xy', 'Variable'))

  def change(obs, o):
    yield 'add_func', ({'a': 'x'}, fn('F'))
    yield 'add_func', ({'b': 'y'}, fn('G'))
    yield '__getitem__', ('a',)
  return make, change, ['inp_set', 'out_set', 'inp_dict', 'out_dict', 'deps', 'ndeps', 'funcs', 'isiconic',
                        'partials']


def dist(cls):
  def make(obs):
    vals = {'x': SArr([3., 1., 2.], 'float'), 'y': 2.}
    kw = {} if cls == 'Distribution' else {'prob': SArr([N(tm.sym(f'p{i}', sign='+')) for i in range(3)], 'float')}
    return obs.call(obs.api(cls), 'x,y', vals, dims={'x': 0, 'y': None}, **kw)

  def change(obs, o):
    yield 'lookup', (['x'],)
    yield 'redim', ({'x': 0},)
    yield '=name', 'y,x'
    yield '=dims', {'x': 0, 'y': None}
    yield 'rekey', ({'x': 'z'},)
    yield 'serialise', ()
    if cls == 'PD':
      yield 'marginalise', ('y',)
      yield '=pscale', 'log'
      yield '=prob', SArr([N(T(f'r{i}')) for i in range(3)], 'float')
      yield 'conditionalise', ('y',)
      yield 'sorted', ('x',)
      yield 'expectation', ()
      yield 'quantile', (.3,)
      yield 'rescaled', ('log',)
      yield 'prod', ('x',)
      yield '__call__', ({'x': 1.},)
      yield '__truediv__', (o,)
  see = ['name', 'dims', 'shape', 'sizes', 'ndim', 'size', 'keylist', 'short_name', 'aresingleton', 'issingleton']
  if cls == 'PD':
    see += ['prob', 'pscale', 'marg', 'cond']
  return make, change, see


# ---------------------------------------------------------------- the client
def view(obs, o, see):
  out = {}
  for a in see:
    try:
      if a.endswith('()'):      # how much is kept under whatever keys
        v = obs.meth(o, a[:-2])
        v = v if isinstance(v, Unk) else len(list(obs.I.iterate(v)))
      else:
        v = obs.attr(o, a)
    except AbsExc as e:
      v = 'raises ' + e.etype
    out[a] = ('unknown',) if isinstance(v, Unk) else obs.I.lib.snapshot(v)
  return out


def dim(s):
  return '?' in s or 'Unk' in s or 'opq' in s or 'unknown' in s


def apart(kind, step, late):
  """ a is made, b is made (before or after a is looked at) and changed; a, then a new c, are looked at """
  def cl(obs):
    make, change, see = kind
    a = make(obs)
    if late:
      first = view(obs, a, see)
      b = make(obs)
    else:
      b = make(obs)
      first = view(obs, a, see)
    obs.freeze('another instance', a)
    done = []
    i = 0
    for ch in change(obs, b):
      name, args, kw = (ch + ({},))[:3]
      i += 1
      if step is not None and i - 1 != step:
        continue
      try:
        if name.startswith('='):
          obs.I.setattr(b, name[1:], args)
        else:
          r = obs.meth(b, name, *args, **kw)
          if name in ('sampler', 'walk'):
            list(obs.I.iterate(r))
        done.append(name)
      except AbsExc as e:
        done.append(f"{name} (refused: {e.msg})")
    what = f"after {', '.join(done)} of another instance"
    for who, o in (('it', a), ('a new instance', make(obs))):
      now = view(obs, o, see)
      for k in see:
        ok = now[k] == first[k]
        if not ok and (dim(str(now[k])) or dim(str(first[k]))):
          ok = None
        obs.add('isolated', ok, f"{k} of {who} {what}" + ('' if ok else ': ' + diff(first[k], now[k])))
  return cl


KINDS = {}
for _c in ('Variable', 'RV'):
  for _t in (float, int, bool):
    KINDS[f"{_c} {_t.__name__}"] = variable(_c, _t)
for _c in ('Field', 'RF', 'Dependence', 'SD', 'SP'):
  KINDS[_c] = field(_c)
  if _c not in ('Field', 'RF'):
    KINDS[_c + ' conditional'] = field(_c, True)
for _c in ('Expression', 'Prob'):
  KINDS[_c] = expression(_c)
KINDS['Functional'] = functional()
for _c in ('Distribution', 'PD'):
  KINDS[_c] = dist(_c)


def scenarios(tier='quick'):
  out = []
  for k, kind in KINDS.items():
    for late in (False, True):
      out.append(Scenario('isolated', f"{k} all late={late}", apart(kind, None, late)))
    for i in range(36):
      out.append(Scenario('isolated', f"{k} step {i}", apart(kind, i, False)))
  return out
