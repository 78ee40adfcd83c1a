""" Serialised distributions: in memory and through files. """
import collections
import itertools

from .values import Unk, Inst, Num, ASet
from .harness import Scenario
from .pdlib import check_pd
from .scen_pd import specs, KEYS

R = 'serialise'


def content(obs, sp):
  """ what a distribution of this specification denotes """
  marg = [k for k in sp.keys if sp.roles[k] == 'm']
  cond = [k for k in sp.keys if sp.roles[k] == 'c']
  return marg, cond


def check(obs, got, d, sp, cls, what):
  """ the distribution read is the distribution written """
  if isinstance(got, Unk):
    return obs.add(R, None, f"{what}: {got.why}")
  if not isinstance(got, Inst):
    return obs.add(R, False, f"{what}: {got!r} is no distribution")
  obs.same(R, got.cls.name, cls, f"{what}: class")
  short = obs.attr(d, 'short_name')
  obs.same(R, obs.attr(got, 'short_name'), short, f"{what}: short name")
  obs.same(R, list(obs.attr(got, 'keylist')), list(obs.attr(d, 'keylist')), f"{what}: order of keys")
  dg, dd = obs.attr(got, 'dims'), obs.attr(d, 'dims')
  obs.same(R, list(dg.items()), list(dd.items()), f"{what}: dims")
  obs.same(R, list(obs.I.iterate(obs.attr(got, 'shape'))), list(obs.I.iterate(obs.attr(d, 'shape'))),
           f"{what}: shape")
  if cls == 'PD':
    marg, cond = content(obs, sp)
    check_pd(obs, R, got, marg, cond, sp.labels, sp.truth, what,
             pscale=obs.attr(d, 'pscale'))
  else:
    for k in sp.keys:
      obs.same(R, plain(obs, got.payload[k]), plain(obs, d.payload[k]), f"{what}: values of {k}")


def plain(obs, v):
  if isinstance(v, Num) and not v.axes:
    return v.t
  return v


def passage(obs, ds, way, aux=None):
  """ serialise, carry and deserialise; results in order of ds """
  s = obs.call(obs.api('serialise'), *ds)
  if way == 'memory':
    return list(obs.I.iterate(obs.call(obs.api('deserialise'), s)))
  if way == 'dist':
    obs.call(obs.api('write_dist', 'probayes.pd_utils'), '/dev/null/x', *ds)
    out = obs.call(obs.api('read_dist', 'probayes.pd_utils'), '/dev/null/x')
  else:
    obs.freeze('serialised', s)
    obs.call(obs.api('write_serialised'), '/dev/null/x', s, *([aux] if aux is not None else []))
    back = obs.call(obs.api('read_serialised'), '/dev/null/x')
    if isinstance(back, Unk):
      obs.add(R, None, back.why)
      return []
    back, gotaux = obs.I.iterate(back)
    obs.same(R, sorted(gotaux), sorted(aux or {}), 'auxiliary names')
    for n in (aux or {}):
      obs.same(R, sorted(gotaux[n]), sorted(aux[n]), f"auxiliary keys of {n}")
      for k in aux[n]:
        obs.same(R, gotaux[n][k], aux[n][k], f"auxiliary {n}/{k}")
    out = obs.call(obs.api('deserialise'), back)
  return list(obs.I.iterate(out))


def trip(sps, cls, way, aux=False):
  def cl(obs):
    ds = []
    for sp in sps:
      d = sp.build(obs, cls, prob=cls == 'PD')
      obs.freeze(sp.label(), d)
      ds.append(d)
    a = None
    if aux:
      a = {'more data': {'a': sps[0].value(aux)}}
      obs.freeze('aux', a)
    out = passage(obs, ds, way, a)
    obs.same(R, len(out), len(ds), 'number of distributions')
    names = [obs.attr(x, 'short_name') for x in out]
    if way == 'memory':
      obs.same(R, names, [obs.attr(d, 'short_name') for d in ds], 'order of distributions')
    for d, sp in zip(ds, sps):
      n = obs.attr(d, 'short_name')
      if n not in names:
        obs.add(R, False, f"{n} lost: {names}")
        continue
      check(obs, out[names.index(n)], d, sp, cls, f"{way} {n}")
    obs.unmutated('operand-unchanged')
  return cl


def sets(way, cls, keys, dimsof):
  """ variables known by a number of values or a constant """
  def cl(obs):
    vals = collections.OrderedDict()
    for k, kind in keys:
      if kind == 'set':
        vals[k] = obs.code('{3}')
      elif kind == 'none':
        vals[k] = obs.code('{None}')
      else:
        vals[k] = kind
    D = obs.api(cls)
    kw = {'prob': 0.5, 'pscale': 2.} if cls == 'PD' else {}
    d = obs.call(D, ','.join(k for k, _ in keys), vals, **kw)
    obs.freeze('distribution', d)
    out = passage(obs, [d], way)
    obs.same(R, len(out), 1, 'number of distributions')
    got = out[0]
    obs.same(R, got.cls.name, cls, 'class')
    obs.same(R, list(obs.attr(got, 'keylist')), [k for k, _ in keys], 'order of keys')
    for k, kind in keys:
      obs.same(R, got.payload[k], d.payload[k], f"values of {k}")
      obs.same(R, got.payload[k], {3} if kind == 'set' else {0} if kind == 'none' else kind,
               f"values of {k}")
    obs.same(R, list(obs.attr(got, 'dims').items()), [(k, None) for k, _ in keys], 'dims')
    if cls == 'PD':
      obs.same(R, obs.attr(got, 'prob'), 0.5, 'prob')
      obs.same(R, obs.attr(got, 'pscale'), 2., 'pscale')
    obs.unmutated('operand-unchanged')
  return cl


def refusals(obs):
  S = obs.api('serialise')
  sp = next(iter(specs(1)))
  d, e = sp.build(obs), sp.build(obs)
  obs.raises('refusal', lambda: obs.call(S, d, e), ['AssertionError', 'ValueError', 'KeyError'],
             'two distributions of one name')
  for w in (1, 'x', {}, []):
    obs.raises('refusal', lambda w=w: obs.call(S, d, w), ['TypeError'], f"serialise {w!r}")
  for w in (1, 'x', []):
    obs.raises('refusal', lambda w=w: obs.call(obs.api('deserialise'), w), None, f"deserialise {w!r}")
    obs.raises('refusal', lambda w=w: obs.call(obs.api('write_serialised'), 'f', w), None, f"write {w!r}")
  s = obs.call(S, d)
  arr = sp.value('x')
  for aux in ({'name': {'a': arr}}, {1: {'a': arr}}, {'a b': [arr]}, {'a b': {1: arr}}, {'a b': {'c': 1.}},
              {'a b': {'c': [1.]}}):
    obs.raises('refusal', lambda a=aux: obs.call(obs.api('write_serialised'), 'f', s, a),
               None, f"auxiliary data {aux!r}")
  obs.raises('refusal', lambda: obs.call(obs.api('read_serialised'), 'nowhere'), None, 'no such file')


def rewrite(obs):
  """ a file written again holds only what was written last """
  sps = list(specs(1))
  a = sps[0].build(obs)
  two = [s for s in specs(2) if s.labels['x'] and s.labels['y']]
  b = two[0].build(obs)
  W, Rd = obs.api('write_dist', 'probayes.pd_utils'), obs.api('read_dist', 'probayes.pd_utils')
  obs.call(W, 'f', b)
  obs.call(W, 'g', b, a)
  obs.call(W, 'f', a)
  out = list(obs.I.iterate(obs.call(Rd, 'f')))
  obs.same(R, [obs.attr(x, 'short_name') for x in out], ['x'], 'file written again')
  check(obs, out[0], a, sps[0], 'PD', 'file again')
  out = list(obs.I.iterate(obs.call(Rd, 'g')))
  obs.same(R, sorted(obs.attr(x, 'short_name') for x in out), ['x', 'x,y'], 'other file')


def scenarios(tier):
  S = []

  def add(what, client):
    S.append(Scenario(R, what, client, max_paths=16))
  n = 3 if tier == 'quick' else 4
  for i in range(1, n + 1):
    for sp in specs(i, shared=True):
      for way in ('memory', 'file') + (('dist', ) if i < 3 else ()):
        add(f"{way} PD {sp.label()}", trip([sp], 'PD', way))
        if sp.scale == 'one' and all(r == 'm' for r in sp.roles.values()):
          add(f"{way} Distribution {sp.label()}", trip([sp], 'Distribution', way))
  one = [s for s in specs(1, kinds=('ma', 'ms'))]
  two = [s for s in specs(2, kinds=('ma', 'ms', 'ca', 'cs'))]
  two = [s for s in two if s.labels['x'] and s.labels['y'] or s.scale == 'one']
  for a, b in itertools.product(one, two):
    for way in ('memory', 'file'):
      add(f"{way} several {a.label()} {b.label()}", trip([a, b], 'PD', way))
      add(f"{way} several {b.label()} {a.label()}", trip([b, a], 'PD', way))
  for sp in one + two:
    if sp.labels['x']:
      add(f"auxiliary data beside {sp.label()}", trip([sp], 'PD', 'file', 'x'))
  for way in ('memory', 'file'):
    for cls in ('PD', 'Distribution'):
      for ks in ([('x', 'set')], [('x', 'none')], [('x', 'set'), ('y', 2.5)], [('y', 2.5), ('x', 'set')],
                 [('z', 1.5), ('y', 2), ('x', 'set')]):
        add(f"{way} {cls} of constants {ks}", sets(way, cls, ks, None))
  S.append(Scenario('refusal', 'refused serialisations', refusals))
  add('rewritten files', rewrite)
  return S
