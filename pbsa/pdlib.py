"""Abstract distributions: construction through the public interface and the
oracle that reads back what a distribution denotes."""
import itertools

from . import terms as tm
from .terms import T
from .values import ASet, AbsExc, Unk, Num, SArr, Cplx, ASet, Inst

C = tm.sym('c', sign='+')          # arbitrary positive coefficient
S = tm.sym('s')                    # arbitrary log offset
SCALES = ('one', 'coef', 'log', 'offs')


def pscale_value(kind, tag=''):
  if kind == 'one':
    return 1.
  if kind == 'coef':
    return Num(tm.sym('c' + tag, sign='+'), (), 'float', 'float')
  if kind == 'log':
    return 0j
  if kind == 'offs':
    return Cplx(tm.sym('s' + tag), tm.ZERO)
  raise ValueError(kind)


def encode(kind, truth, tag=''):
  """ stored probability of a distribution whose true probability is truth """
  if kind == 'one':
    return truth
  if kind == 'coef':
    return truth / tm.sym('c' + tag, sign='+')
  if kind == 'log':
    return tm.log_t(truth)
  return tm.log_t(truth) - tm.sym('s' + tag)


def decode(I, prob, pscale):
  """ the true probability denoted by a stored probability and its pscale, read
  off the documented convention; None when not decidable """
  if isinstance(prob, (bool, int, float)):
    t = tm.const_t(prob)
  elif isinstance(prob, Num):
    t = prob.t
  else:
    return None
  if isinstance(pscale, Unk):
    return None
  if isinstance(pscale, complex):
    re, im = tm.const_t(pscale.real), pscale.imag != 0
  elif isinstance(pscale, Cplx):
    c = pscale.im.const()
    if c is None:
      return None
    re, im = pscale.re, c != 0
  elif isinstance(pscale, (int, float)):
    return t * tm.const_t(pscale)
  elif isinstance(pscale, Num):
    return t * pscale.t
  else:
    return None
  return tm.exp_t(t + (-re if im else re))


class Spec:
  """ What a distribution is: ordered keys, each an array over a label or a
  scalar; marginal/conditional roles; dims; truth. """
  def __init__(self, keys, roles, labels, dims, scale='one', truth=None, tag='',
               named=(), counts=None):
    self.counts = counts or {}        # keys standing for a number of unspecified samples
    self.keys = list(keys)
    self.named = named                # keys whose name states their values (k=[] or k=0)
    self.roles = dict(roles)          # key -> 'm' | 'c'
    self.labels = dict(labels)        # key -> label or None (scalar)
    self.dims = dict(dims)            # key -> int or None
    self.scale, self.tag = scale, tag
    labs = sorted(set(l for l in self.labels.values() if l))
    self.truth = truth if truth is not None else \
        tm.sym('P' + tag, labs, sign='+')

  def value(self, k):
    if k in self.counts:
      return ASet([self.counts[k]])
    lab = self.labels[k]
    if lab is None:
      return Num(tm.sym(k + '0'), (), 'float', 'float')
    return Num(tm.sym(k + 's', (lab,)), (lab,), 'arr', 'float')

  def name(self):
    def word(k):
      if k in self.named and k in self.counts:
        return k + '={}'
      return k if k not in self.named else k + ('=[]' if self.labels[k] else '=0')
    m = ','.join(word(k) for k in self.keys if self.roles[k] == 'm')
    c = ','.join(word(k) for k in self.keys if self.roles[k] == 'c')
    return m + ('|' + c if c else '')

  def axes(self):
    d = {}
    for k, i in self.dims.items():
      if i is not None:
        d[i] = self.labels[k]
    return tuple(d[i] for i in sorted(d))

  def build(self, obs, cls='PD', prob=True):
    I = obs.I
    import collections
    vals = collections.OrderedDict((k, self.value(k)) for k in self.keys)
    dims = collections.OrderedDict((k, self.dims[k]) for k in self.keys)
    PD = obs.api(cls)
    kw = {'dims': dims}
    if prob:
      t = encode(self.scale, self.truth, self.tag)
      ax = self.axes()
      p = Num(t, ax, 'arr' if ax else 'float', 'float')
      kw['prob'] = p
      kw['pscale'] = pscale_value(self.scale, self.tag)
    return obs.call(PD, self.name(), vals, **kw)

  def label(self):
    parts = []
    for k in self.keys:
      d = self.dims[k]
      n = f"{{{self.counts[k]}}}" if k in self.counts else ''
      parts.append(f"{k}:{self.roles[k]}{'' if d is None else d}{n}")
    named = f" named {','.join(self.named)}" if self.named else ''
    return f"[{' '.join(parts)} pscale={self.scale}{named}]"


def default_dims(keys, labels, order=None):
  """ dims by key order (order: permutation of array labels) """
  labs = []
  for k in keys:
    if labels[k] and labels[k] not in labs:
      labs.append(labels[k])
  if order == 'rev':
    labs = labs[::-1]
  return {k: (labs.index(labels[k]) if labels[k] else None) for k in keys}


def check_name(obs, pd, what):
  """ the name lists the marginal then the conditional variables, each fixed one with its value """
  I = obs.I
  parts = []
  for role in ('marg', 'cond'):
    d = obs.attr(pd, role)
    labs = []
    for k, lab in d.items():
      v = pd.payload.get(k)
      if not isinstance(lab, str) or v is None or isinstance(v, Unk):
        return
      fixed = isinstance(v, (bool, int, float, str, ASet)) or isinstance(v, Num) and v.kind != 'arr'
      head, eq, val = lab.partition('=')
      obs.same('name', head, k, f"{what}: label {lab!r} of {k}")
      if fixed:
        obs.same('name', lab, f"{k}={I.to_str(v)}", f"{what}: label of fixed {k}")
      else:
        obs.add('name', val in ('', '[]'), f"{what}: label {lab!r} of {k} is not fixed to a value")
      labs.append(lab)
    parts.append(','.join(labs))
  name = obs.attr(pd, 'name')
  want = '|'.join(parts) if parts[1] else parts[0]
  obs.same('name', name, want, f"{what}: name")
  short = obs.attr(pd, 'short_name')
  heads = [','.join(obs.attr(pd, role).keys()) for role in ('marg', 'cond')]
  obs.same('name', short, '|'.join(heads) if heads[1] else heads[0], f"{what}: short name")


def check_pd(obs, rule, pd, marg, cond, labels, truth, what, pscale=None, values=None,
             names=True):
  """ pd denotes truth over the given keys, consistently aligned """
  I = obs.I
  if isinstance(pd, Unk):
    obs.add(rule, None, f"{what}: {pd.why}")
    return
  if not isinstance(pd, Inst):
    obs.add(rule, False, f"{what}: {pd!r} is not a distribution")
    return
  keys = list(marg) + list(cond)
  got = list(pd.payload.keys()) if pd.payload is not None else None
  obs.same(rule, sorted(got), sorted(keys), f"{what}: variables")
  if sorted(got) != sorted(keys):
    return
  gm, gc = obs.attr(pd, 'marg'), obs.attr(pd, 'cond')
  obs.same(rule, sorted(gm.keys()), sorted(marg), f"{what}: marginal keys")
  obs.same(rule, sorted(gc.keys()), sorted(cond), f"{what}: conditional keys")
  if names:
    check_name(obs, pd, what)
  dims = obs.attr(pd, 'dims')
  prob = obs.attr(pd, 'prob')
  if isinstance(prob, Unk):
    obs.add(rule, None, f"{what}: prob {prob.why}")
    return
  if prob is None:
    obs.add(rule, False, f"{what}: no probability")
    return
  used = {}
  for k in keys:
    lab = labels[k]
    d = dims.get(k) if isinstance(dims, dict) else None
    di = I.as_int(d) if d is not None else None
    v = pd.payload[k]
    if isinstance(v, Unk):
      obs.add(rule, None, f"{what}: values of {k} {v.why}")
      continue
    want = values.get(k) if values else None
    if lab is None:
      obs.same(rule, d, None, f"{what}: dim of scalar {k}")
      if isinstance(want, T):
        obs.num(rule, v, want, f"{what}: value of {k}")
      elif want is not None:
        obs.same(rule, v, want, f"{what}: value of {k}")
      elif isinstance(v, Num):
        obs.num(rule, v, tm.sym(k + '0'), f"{what}: value of {k}")
      continue
    if di is None:
      obs.add(rule, False, f"{what}: array variable {k} has dimension {d!r}")
      continue
    used[di] = lab
    nd = prob.ndim if isinstance(prob, Num) else 0
    if not isinstance(prob, Num) or di >= nd or di < 0:
      obs.add(rule, False, f"{what}: dimension {di} of {k} outside probability of {nd} axes")
      continue
    obs.add(rule, prob.axes[di] == lab, f"{what}: axis {di} of prob runs along "
            f"{I.lib.lname(prob.axes[di])}, values of {k} along {lab}")
    if isinstance(v, Num):
      ok = v.axes == tuple(lab if i == di else None for i in range(nd))
      obs.add(rule, ok, f"{what}: values of {k} have axes {v.axes}, dim {di} of {nd}")
      wt = want if isinstance(want, T) else tm.sym(k + 's', (lab,))
      obs.num(rule, v, wt, f"{what}: values of {k}")
    else:
      obs.add(rule, False, f"{what}: values of {k} are {v!r}")
  nd = prob.ndim if isinstance(prob, Num) else 0
  obs.add(rule, nd == len(used), f"{what}: probability has {nd} axes for {len(used)} dimensions")
  ps = obs.attr(pd, 'pscale')
  t = decode(I, prob, ps)
  if t is None:
    obs.add(rule, None, f"{what}: probability {prob!r} pscale {ps!r}")
  elif tm.agree(t, truth):
    obs.add(rule, True, f"{what}: denotes {t.key[:120]}")
  elif t.opaque:
    obs.add(rule, None, f"{what}: opaque {t.key[:200]}")
  else:
    obs.add(rule, False, f"{what}: denotes {t.key[:260]}, expected {truth.key[:260]}")
  if pscale is not None:
    obs.same(rule, ps, pscale, f"{what}: pscale")
