""" Transitions and samples of fields, dependences and processes. """
import itertools

from . import terms as tm
from .values import Num, SArr, NArr, Unk, ASet, AbsFn, Cplx, Inst, NT
from .harness import Scenario, norm
from .pdlib import pscale_value, encode, decode
from .table import check_cells, shape_items
from .scen_variable import f
from .scen_field import and_, or_, lim

SCALES = ('one', 'coef', 'log', 'offs')


def T(name):
  return tm.sym(name)


def N(t):
  return Num(t, (), 'float', 'float')


def term(obs, v):
  return obs.I.lib.to_num(v).t


def kfn(tag, keys, log=None, extra=()):
  """ a client function of exactly the keywords keys """
  def fn(I, args, kwds):
    want = sorted(list(keys) + list(extra))
    if args or sorted(kwds) != want:
      raise I.exc('TypeError', f"{tag} called with {list(args)} {sorted(kwds)}, expected {want}")
    if log is not None:
      log.append({k: kwds[k] for k in kwds})
    return N(tm.func(tag, tuple(I.lib.to_num(kwds[k]).t for k in keys), sign='+'))
  return AbsFn(tag, fn)


def lo_hi(k):
  return [f(tm.sym('lo' + k)), f(tm.sym('hi' + k))]


WIDE = (float('-inf'), float('inf'))


def floats(obs, keys, scale='one'):
  RV = obs.api('RV')
  return [obs.call(RV, k, vtype=float, vset=WIDE, **lim(scale, k)) for k in keys]


def build(obs, cls, keys, scale='one', roots=()):
  """ an RF, or an SD/SP over independent variables, or leafs given roots """
  vs = floats(obs, list(keys) + list(roots))
  n = len(keys)
  a = vs[0]
  if cls == 'RF' and n == 1:
    a = obs.call(obs.api('RF'), a)
  for v in vs[1:n]:
    a = and_(obs, a, v)
  if cls == 'RF':
    return a
  if roots:
    b = vs[n]
    for v in vs[n + 1:]:
      b = and_(obs, b, v)
    if len(roots) == 1:
      b = obs.call(obs.api('RF'), b)
    if n == 1:
      a = obs.call(obs.api('RF'), a)
    return obs.call(obs.api(cls), a, b)
  return obs.call(obs.api(cls), a)


def primes(keys):
  return [k + "'" for k in keys] + list(keys)


def pkey(keys):
  return list(keys) + [k + "'" for k in keys]


def check_step(obs, pd, keys, pred, succ, tag, what, ps=1.0, rule='transition', scale=None):
  """ the step denotes tag(pred, succ) at the successor named """
  def truth(v):
    raw = tm.func(tag, tuple(term(obs, v[k]) for k in pkey(keys)), sign='+')
    return decode(obs.I, N(raw), ps)
  vals = {k: [pred[k]] for k in keys}
  vals.update({k + "'": [succ[k]] for k in keys})
  check_cells(obs, rule, pd, primes(keys), truth, what, values=vals,
              roles=([k + "'" for k in keys], list(keys)), pscale=ps)


# ------------------------------------------------------------ steps
def step_explicit(cls, keys, scale, multi):
  def cl(obs):
    x = build(obs, cls, keys)
    ps = pscale_value(scale, 'J')
    obs.meth(x, 'set_prob', kfn('J', keys), **lim(scale, 'J'))
    fns = (kfn('F', pkey(keys)), kfn('R', pkey(keys)))
    obs.meth(x, 'set_tran', fns if multi else fns[0])
    pred = {k: N(T('a' + k)) for k in keys}
    succ = {k: N(T('b' + k)) for k in keys}
    obs.freeze('pred', pred)
    obs.freeze('succ', succ)
    for rev in (False, True):
      tag = 'R' if multi and rev else 'F'
      how = {'reverse': rev} if rev else {}
      check_step(obs, obs.meth(x, 'step', pred, succ, **how), keys, pred, succ, tag,
                 f"step(pred, succ, reverse={rev})", ps)
      check_step(obs, obs.meth(x, 'step', (pred, succ), **how), keys, pred, succ, tag,
                 f"step((pred, succ), reverse={rev})", ps)
    st = obs.meth(x, 'step', pred, succ)
    if not isinstance(st, Unk):
      back = obs.meth(x, 'reval_tran', st)
      tag = 'R' if multi else 'F'

      def truth(v):
        raw = tm.func(tag, tuple(term(obs, v[k]) for k in pkey(keys)), sign='+')
        return decode(obs.I, N(raw), ps)
      check_cells(obs, 'transition', back, primes(keys), truth, 'reverse transition',
                  values={**{k: [pred[k]] for k in keys}, **{k + "'": [succ[k]] for k in keys}},
                  roles=(list(keys), [k + "'" for k in keys]), pscale=ps)
    obs.unmutated('operand-unchanged')
  return cl


def step_delta(cls, keys, form):
  """ the default delta designates the successor """
  def cl(obs):
    x = build(obs, cls, keys)
    obs.meth(x, 'set_tran', kfn('F', pkey(keys)))
    d = {k: T('d' + k) for k in keys}
    if form == 'dict':
      obs.meth(x, 'set_delta', {k: N(d[k]) for k in keys})
    elif form == 'scalar':
      d = {k: T('d') for k in keys}
      obs.meth(x, 'set_delta', N(T('d')))
    elif form == 'scalar and dict':
      d = {k: T('d') for k in keys}
      d[keys[-1]] = T('e')
      obs.meth(x, 'set_delta', N(T('d')), {keys[-1]: N(T('e'))})
    elif form == 'Delta':
      obs.meth(x, 'set_delta', obs.call(obs.attr(x, 'Delta'), *[N(d[k]) for k in keys]))
    elif form == 'function':
      D = obs.attr(x, 'Delta')
      obs.meth(x, 'set_delta', AbsFn('delta', lambda I, a, k: I.call(D, [N(d[j]) for j in keys], {})))
    pred = {k: N(T('a' + k)) for k in keys}
    obs.freeze('pred', pred)
    for _ in range(2):
      st = obs.meth(x, 'step', pred) if form != 'given' else obs.meth(
          x, 'step', pred, obs.call(obs.attr(x, 'Delta'), *[N(d[k]) for k in keys]))
      succ = {k: N(term(obs, pred[k]) + d[k]) for k in keys}
      check_step(obs, st, keys, pred, succ, 'F', f"step by {form} delta")
    obs.unmutated('operand-unchanged')
  return cl


def step_tfun(cls, keys, multi, tsteps=None, extra=False, scale='one'):
  """ each variable is drawn in turn given the current values of all """
  def cl(obs):
    x = build(obs, cls, keys)
    if scale != 'one':
      obs.meth(x, 'set_prob', kfn('J', keys), **lim(scale, 'J'))
    log = []

    def sampler(tag):
      def fn(I, args, kwds):
        k = dict(kwds)
        u = k.pop('unknown', None)
        if extra:
          if norm(k.pop('c', None)) != 7:
            raise I.exc('TypeError', 'stored keyword missing')
        if args or sorted(k) != sorted(keys) or u not in keys:
          raise I.exc('TypeError', f"sampler called with {list(args)} {sorted(kwds)}")
        log.append((tag, u, {j: I.lib.to_num(k[j]).t.key for j in keys}))
        return N(tm.func(tag + u, tuple(I.lib.to_num(k[j]).t for j in keys)))
      return AbsFn(tag, fn)
    kw = {'c': 7} if extra else {}
    if tsteps:
      kw['tsteps'] = tsteps
    obs.meth(x, 'set_tfun', (sampler('S'), sampler('R')) if multi else sampler('S'), **kw)
    pred = {k: T('a' + k) for k in keys}
    at = 0
    for turn in range(5 if tsteps else 2):
      given = {k: N(v) for k, v in pred.items()}
      obs.freeze(f"values {turn}", given)
      st = obs.meth(x, 'step', given, ASet([0])) if turn % 2 else obs.meth(x, 'step', given)
      cur = dict(pred)
      todo = list(keys)
      if tsteps:
        todo = todo[at:at + tsteps]
        at += tsteps
        if at >= len(keys):
          at = 0
      for k in todo:
        cur[k] = tm.func('S' + k, tuple(cur[j] for j in keys))
      check_cells(obs, 'transition', st, primes(keys), lambda v: tm.ONE, f"step {turn} by tfun",
                  values={**{k: [N(pred[k])] for k in keys}, **{k + "'": [N(cur[k])] for k in keys}},
                  roles=([k + "'" for k in keys], list(keys)),
                  pscale=pscale_value(scale, 'J') if scale != 'one' else 1.0)
      pred = cur
    obs.unmutated('operand-unchanged')
  return cl


# ------------------------------------------------------------ deltas of fields
def bounded_field(ends, how, vtype='float'):
  """ every variable of a field respects its own bounds """
  RVs = 'RV'

  def cl(obs):
    from .scen_variable import POS, vset_of, expect_bounded
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=vset_of(ends), vtype=float)
    y = obs.call(RV, 'y', vset=vset_of(ends[::-1]), vtype=float)
    z = obs.call(RV, 'z', vtype=float, vset=WIDE)
    j = and_(obs, and_(obs, x, y), z)
    for tx, ty in (('below', 'mid'), ('mid', 'above'), ('lo', 'hi'), ('hi', 'lo'), ('above', 'below')):
      d = {'x': f(POS[tx] - POS['mid']), 'y': f(POS[ty] - POS['mid']), 'z': N(T('dz'))}
      v = {'x': f(POS['mid']), 'y': f(POS['mid']), 'z': N(T('z'))}
      obs.freeze('values', v)
      if how == 'default':
        obs.meth(j, 'set_delta', dict(d), bound=True)
        got = obs.meth(j, 'apply_delta', v)
      elif how == 'default function':
        D = obs.attr(j, 'Delta')
        obs.meth(j, 'set_delta', dict(d), bound=True)
        got = obs.meth(j, 'apply_delta', v, obs.meth(j, 'eval_delta'))
      else:
        obs.meth(j, 'set_delta', N(T('w')), bound=True)
        got = obs.meth(j, 'apply_delta', v, obs.call(obs.attr(j, 'Delta'), d['x'], d['y'], d['z']))
      if isinstance(got, Unk):
        obs.add('bounded-delta', None, got.why)
        continue
      obs.num('bounded-delta', got['x'], expect_bounded('mid', tx, ends), f"x to {tx}")
      obs.num('bounded-delta', got['y'], expect_bounded('mid', ty, ends[::-1]), f"y to {ty}")
      obs.num('bounded-delta', got['z'], T('z') + T('dz'), 'z unbounded')
      obs.unmutated('operand-unchanged')
      obs.inputs.clear()
  return cl


def bounded_roots(cls, by):
  """ a dependence taking the delta of its roots takes their bounds """
  def cl(obs):
    from .scen_variable import POS, vset_of, expect_bounded
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vtype=float, vset=WIDE)
    ends = ('c', 'o')
    w = obs.call(RV, 'w', vset=vset_of(ends), vtype=float)
    z = obs.call(RV, 'z', vtype=float, vset=WIDE)
    paras = and_(obs, w, z)
    sd = obs.call(obs.api(cls), obs.call(obs.api('RF'), x), paras)
    for tw in ('below', 'lo', 'hi', 'above'):
      for bound in (True, False):
        obs.meth(paras, 'set_delta', {'w': f(POS[tw] - POS['mid']), 'z': N(T('dz'))}, bound=bound)
        obs.meth(sd, 'set_delta', paras if by == 'object' else 'roots')
        got = obs.meth(sd, 'apply_delta', {'w': f(POS['mid']), 'z': N(T('z'))})
        if isinstance(got, Unk):
          obs.add('bounded-delta', None, got.why)
          continue
        obs.num('bounded-delta', got['w'], expect_bounded('mid', tw, ends) if bound else POS[tw],
                f"w to {tw} bound={bound}")
        obs.num('bounded-delta', got['z'], T('z') + T('dz'), 'z unbounded')
  return cl


def default_proposal(cls, roots):
  """ by default the roots are proposed, or the leafs without any """
  def cl(obs):
    RV = obs.api('RV')
    names = 'x' + roots
    vs = {k: obs.call(RV, k, vtype=float, vset=WIDE) for k in names}
    F = obs.api('RF')
    leafs = obs.call(F, vs['x'])
    if roots:
      rts = obs.call(F, *[vs[k] for k in roots])
      x = obs.call(obs.api(cls), leafs, rts)
      who = rts
    else:
      x = obs.call(obs.api(cls), leafs)
      who = leafs
    keys = roots or 'x'
    obs.meth(who, 'set_prop', kfn('Q', keys))
    vals = {k: N(T('a' + k)) for k in keys}
    pr = obs.meth(x, 'propose', dict(vals))
    check_pd_at(obs, 'sample', pr, 'Q', keys, vals, f"{cls} propose", 1.0, "'")
    D = obs.attr(x, 'Delta')
    obs.same('sample', list(D.fields), list(keys), 'variables a delta moves')
  return cl


def draw_of(obs, v, d, shared, label):
  """ v is a draw from [-d, d] of its own """
  from .scen_variable import uniform_draw
  if isinstance(v, Unk):
    return obs.add('delta', None, f"{label}: {v.why}")
  if isinstance(v, list) and len(v) == 1:
    v = v[0]
  t = obs.I.lib.numt(v)
  shared.append(t.key)
  return obs.add('delta', uniform_draw(t, -d, d), f"{label}: {t.key[:200]} drawn from +-{d.key}")


def random_field(form, scale):
  def cl(obs):
    from .scen_variable import LO, HI
    RV = obs.api('RV')
    x = obs.call(RV, 'x', vset=[f(LO), f(HI)], vtype=float)
    y = obs.call(RV, 'y', vset=[0., 4.], vtype=float)
    j = and_(obs, x, y)
    d = tm.sym('d', (), '+')
    lengths = {'x': HI - LO, 'y': tm.const_t(4)} if scale else {'x': tm.ONE, 'y': tm.ONE}
    kw = {'scale': True} if scale else {}
    want = {k: d * lengths[k] for k in 'xy'}
    if form == 'list':
      obs.meth(j, 'set_delta', [f(d)], **kw)
    elif form == 'list and dict':
      obs.meth(j, 'set_delta', [f(d)], {'y': f(T('e'))}, **kw)
    elif form == 'scalar':
      obs.meth(j, 'set_delta', f(d), **kw)
    elif form == 'scalar and dict':
      obs.meth(j, 'set_delta', f(d), {'y': f(T('e'))}, **kw)
    elif form == 'dict':
      obs.meth(j, 'set_delta', {'x': f(d), 'y': f(T('e'))}, **kw)
      want = {'x': want['x'], 'y': T('e') * lengths['y']}
    if 'and dict' in form:
      want['y'] = T('e')
    seen = []
    for turn in range(2):
      e = obs.meth(j, 'eval_delta')
      if isinstance(e, Unk):
        obs.add('delta', None, e.why)
        return
      obs.same('delta', e.cls.fields, ['x', 'y'], 'fields of the delta')
      for k, v in zip(e.cls.fields, e.vals):
        if isinstance(v, NT):
          v = v.vals[0]
        if form == 'list' or form == 'list and dict' and k == 'x':
          draw_of(obs, v, want[k], seen, f"{form} delta of {k}")
        elif form == 'list and dict':
          w = v[0] if isinstance(v, list) else v
          t = obs.I.lib.numt(w)
          from .scen_variable import uniform_draw
          obs.add('delta', True if t.key == want[k].key else uniform_draw(t, -want[k], want[k]),
                  f"{form} delta of {k}: {t.key[:100]}")
        else:
          obs.num('delta', v, want[k], f"{form} delta of {k}")
    if seen:
      obs.add('delta', len(set(seen)) == len(seen), f"{len(set(seen))} distinct draws of {len(seen)}")
  return cl


# ------------------------------------------------------------ samples
def single_delta(cls, how):
  """ the field of one variable takes its delta, and deltas made by it """
  def cl(obs):
    size = tm.sym('len', (), '+')
    x = obs.call(obs.api('RV'), 'x', vtype=float, vset=[f(T('lox')), f(T('lox') + size)])
    r = obs.call(obs.api(cls), x)
    d, v = T('dx'), T('v')
    vals = {'x': N(v)}
    obs.freeze('values', vals)
    if how == 'function':
      g = AbsFn('g', lambda I, a, k: N(tm.func('g', (I.lib.to_num(a[0]).t,))))
      obs.meth(x, 'set_delta', g)
      want = tm.func('g', (v,))
    else:
      obs.meth(x, 'set_delta', N(d), **({'scale': True} if how == 'scaled' else {}))
      want = v + (d * size if how == 'scaled' else d)
    e = obs.meth(r, 'eval_delta')
    got = obs.meth(r, 'apply_delta', vals, e)
    obs.num('delta', obs.I.getitem(got, 'x'), want, f"{cls} delta of the variable ({how})")
    got = obs.meth(r, 'apply_delta', vals, obs.meth(x, 'Delta', N(T('q'))))
    obs.num('delta', obs.I.getitem(got, 'x'), v + T('q'), f"{cls} delta made by the variable")
    got = obs.meth(r, 'apply_delta', vals)
    obs.num('delta', obs.I.getitem(got, 'x'), v, f"{cls} without a delta of its own")
    obs.raises('refusal', lambda: obs.meth(r, 'apply_delta', vals, N(T('q'))), None, f"{cls} number for a delta")
    obs.unmutated('operand-unchanged')
  return cl


def late_lengths(cls, by):
  """ deltas scale to the lengths the variables have, not those they had """
  def cl(obs):
    RV = obs.api('RV')
    la, lb, ly = (tm.sym(k, (), '+') for k in ('la', 'lb', 'ly'))
    lo = T('lo')
    x = obs.call(RV, 'x', vtype=float, vset=[f(lo), f(lo + la)])
    y = obs.call(RV, 'y', vtype=float, vset=[f(T('loy')), f(T('loy') + ly)])
    j = and_(obs, x, y)
    if cls != 'RF':
      j = obs.call(obs.api(cls), j)
    if by == 'vset':
      obs.I.setattr(x, 'vset', [f(lo), f(lo + lb)])
    else:
      def fwd(I, args, kwds):
        v = args[0]
        if isinstance(v, SArr):
          return SArr([fwd(I, [i], kwds) for i in v.items], 'float')
        t = I.lib.numt(v)
        known = {lo.key: T('ul'), (lo + la).key: T('ul') + lb}
        return N(known.get(t.key, tm.func('u', (t,))))
      obs.meth(x, 'set_ufun', (AbsFn('u', fwd), AbsFn('ui', lambda I, a, k: N(tm.func('ui', (I.lib.numt(a[0]),))))))
    d, e = T('dx'), T('dy')
    for how, delta in (('common', N(d)), ('each', {'x': N(d), 'y': N(e)})):
      obs.meth(j, 'set_delta', delta, scale=True)
      r = obs.meth(j, 'eval_delta')
      if isinstance(r, Unk):
        obs.add('delta', None, r.why)
        continue
      for k, n, u in (('x', lb, d), ('y', ly, d if how == 'common' else e)):
        v = field(r, k)
        while isinstance(v, NT):
          v = v.vals[0]
        obs.num('delta', v, u * n, f"{cls} delta of {k} scaled after its {by} was set ({how})")
  return cl


def field(nt, k):
  """ component of a named tuple """
  if isinstance(nt, Unk):
    return nt
  return nt.vals[nt.cls.fields.index(k)]


def check_pd_at(obs, rule, pd, tag, keys, vals, what, ps, suffix='', roles=None):
  """ pd denotes tag(vals) at exactly vals """
  ks = [k + suffix for k in keys]

  def truth(v):
    raw = tm.func(tag, tuple(term(obs, v[k]) for k in ks), sign='+')
    return decode(obs.I, N(raw), ps)
  return check_cells(obs, rule, pd, ks, truth, what, values={k + suffix: [vals[k]] for k in keys},
                     roles=roles if roles is not None else (ks, []), pscale=ps)


def sample_plain(cls, scale):
  """ with neither proposal nor transition a sample is the distribution """
  keys = 'xy'

  def cl(obs):
    x = build(obs, cls, keys)
    ps = pscale_value(scale, 'J')
    obs.meth(x, 'set_prob', kfn('J', keys), **lim(scale, 'J'))
    vals = {k: N(T('a' + k)) for k in keys}
    obs.freeze('values', vals)
    check_pd_at(obs, 'sample', obs.meth(x, 'sample', vals), 'J', keys, vals, 'sample(values)', ps)
    obs.unmutated('operand-unchanged')
  return cl


def sample_prop(cls, scale, suffix):
  keys = 'xy'

  def cl(obs):
    x = build(obs, cls, keys)
    ps = pscale_value(scale, 'J')
    obs.meth(x, 'set_prob', kfn('J', keys), **lim(scale, 'J'))
    obs.meth(x, 'set_prop', kfn('Q', keys))
    vals = {k: N(T('a' + k)) for k in keys}
    obs.freeze('values', vals)
    kw = {} if suffix else {'suffix': False}
    pr = obs.meth(x, 'propose', vals, **kw)
    check_pd_at(obs, 'sample', pr, 'Q', keys, vals, f"propose({kw})", ps, "'" if suffix else '')
    if suffix:
      s = obs.meth(x, 'sample', vals)
      for turn in range(2):
        what = f"sample {turn} by proposal"
        obs.same('sample', [field(s, 'o'), field(s, 'r')], [None, None], f"{what}: o and r")
        check_pd_at(obs, 'sample', field(s, 'p'), 'J', keys, vals, f"{what}: p", ps)
        check_pd_at(obs, 'sample', field(s, 'q'), 'Q', keys, vals, f"{what}: q", ps, "'")
        s = obs.meth(x, 'sample', s)
    obs.unmutated('operand-unchanged')
  return cl


def moved(t, k):
  return t + T('d' + k)


def walker(obs, cls, keys, scale, multi, how='delta'):
  """ a process whose successor is the predecessor plus a delta """
  x = build(obs, cls, keys)
  obs.meth(x, 'set_prob', kfn('J', keys), **lim(scale, 'J'))
  fns = (kfn('F', pkey(keys)), kfn('R', pkey(keys)))
  obs.meth(x, 'set_tran', fns if multi else fns[0])
  obs.meth(x, 'set_delta', {k: N(T('d' + k)) for k in keys})
  return x, pscale_value(scale, 'J')


def check_q(obs, q, keys, pred, succ, what, ps, tag='F', rev=False, at=None):
  def truth(v):
    raw = tm.func(tag, tuple(term(obs, v[k]) for k in pkey(keys)), sign='+')
    return decode(obs.I, N(raw), at or ps)
  vals = {k: [pred[k]] for k in keys}
  vals.update({k + "'": [succ[k]] for k in keys})
  pr = [k + "'" for k in keys]
  check_cells(obs, 'sample', q, primes(keys), truth, what, values=vals,
              roles=(list(keys), pr) if rev else (pr, list(keys)), pscale=ps)


def sample_tran(cls, keys, scale, multi):
  """ o, p, q and r of consecutive samples """
  def cl(obs):
    x, ps = walker(obs, cls, keys, scale, multi)
    pred = {k: N(T('a' + k)) for k in keys}
    obs.freeze('values', pred)
    s = obs.meth(x, 'sample', pred)
    for turn in range(3):
      if isinstance(s, Unk):
        obs.add('sample', None, s.why)
        return
      succ = {k: N(moved(term(obs, pred[k]), k)) for k in keys}
      what = f"sample {turn}"
      if turn == 0:
        obs.same('sample', field(s, 'o'), None, f"{what}: o")
      else:
        check_pd_at(obs, 'sample', field(s, 'o'), 'J', keys, pred, f"{what}: o", ps)
      check_pd_at(obs, 'sample', field(s, 'p'), 'J', keys, succ, f"{what}: p", ps)
      check_q(obs, field(s, 'q'), keys, pred, succ, f"{what}: q", ps)
      if multi:
        check_q(obs, field(s, 'r'), keys, pred, succ, f"{what}: r", ps, 'R', True)
      else:
        obs.same('sample', field(s, 'r'), None, f"{what}: r")
      pred = succ
      obs.freeze(f"opqr {turn}", s)
      s = obs.meth(x, 'sample', s)
    obs.unmutated('operand-unchanged')
  return cl


def sample_dependence(cls, scale, joint):
  """ roots move, leafs are given; the probability is that of leafs given the new roots """
  def cl(obs):
    RV = obs.api('RV')
    vs = floats(obs, 'xy')
    w = obs.call(RV, 'w', vtype=float, vset=WIDE, prob=kfn1('W'))
    z = obs.call(RV, 'z', vtype=float, vset=WIDE, prob=kfn1('Z'))
    stats, paras = and_(obs, *vs), and_(obs, w, z)
    x = obs.call(obs.api(cls), stats, paras)
    ps = pscale_value(scale, 'J')
    obs.meth(x, 'set_prob', kfn('J', 'xywz'), **lim(scale, 'J'))
    obs.meth(paras, 'set_tran', kfn('F', pkey('wz')))
    obs.meth(paras, 'set_delta', {k: N(T('d' + k)) for k in 'wz'})
    obs.meth(x, 'set_tran', paras)
    obs.meth(x, 'set_delta', paras)
    pred = {k: N(T('a' + k)) for k in 'wz'}
    data = {k: N(T('c' + k)) for k in 'xy'}
    obs.freeze('values', pred)
    obs.freeze('data', data)
    kw = {'joint': True} if joint else {}
    s = obs.meth(x, 'sample', pred, data, **kw)
    ps1 = obs.attr(paras, 'pscale')
    for turn in range(2):
      if isinstance(s, Unk):
        obs.add('sample', None, s.why)
        return
      succ = {k: N(moved(term(obs, pred[k]), k)) for k in 'wz'}
      vals = {**succ, **data}

      def truth(v):
        raw = tm.func('J', tuple(term(obs, v[k]) for k in 'xywz'), sign='+')
        t = decode(obs.I, N(raw), ps)
        if joint:
          t = t * tm.func('W', (term(obs, v['w']),), sign='+') * tm.func('Z', (term(obs, v['z']),), sign='+')
        return t
      check_cells(obs, 'sample', field(s, 'p'), list('xywz'), truth, f"sample {turn}: p",
                  values={k: [vals[k]] for k in 'xywz'},
                  roles=(list('xywz'), []) if joint else (list('xy'), list('wz')))
      check_q(obs, field(s, 'q'), 'wz', pred, succ, f"sample {turn}: q", ps1)
      pred = succ
      s = obs.meth(x, 'sample', s, data, **kw)
    obs.unmutated('operand-unchanged')
  return cl


def kfn1(tag):
  def fn(I, args, kwds):
    v = list(args) + list(kwds.values())
    return N(tm.func(tag, (I.lib.to_num(v[0]).t,), sign='+'))
  return AbsFn(tag, fn)


# ------------------------------------------------------------ chains
def chain(keys, scale, multi, script, spoken=None):
  """ accepted samples become the predecessor; rejected ones do not """
  def cl(obs):
    x, ps = walker(obs, 'SP', keys, scale, multi)
    say = [spoken(u) for u in script] if spoken else list(script)
    calls = []

    def upd(I, args, kwds):
      calls.append([field(args[0], 's'), field(args[0], 't')])
      return say[len(calls) - 1]
    nsc = []

    def score(I, args, kwds):
      nsc.append(args[0])
      return N(T(f"s{len(nsc) - 1}"))
    nth = []

    def thresh(I, args, kwds):
      nth.append(1)
      return N(T(f"t{len(nth) - 1}"))
    obs.meth(x, 'set_scores', AbsFn('scores', score))
    obs.meth(x, 'set_thresh', AbsFn('thresh', thresh))
    obs.meth(x, 'set_update', AbsFn('update', upd))
    pred = {k: N(T('a' + k)) for k in keys}
    obs.freeze('values', pred)
    sampler = obs.meth(x, 'sampler', pred, stop=len(script))
    out = list(obs.I.iterate(sampler))
    obs.same('chain', len(out), len(script), 'number of samples')
    for turn, s in enumerate(out):
      if isinstance(s, Unk):
        obs.add('chain', None, s.why)
        return
      what = f"sample {turn} of {script}"
      succ = {k: N(moved(term(obs, pred[k]), k)) for k in keys}
      if turn == 0:
        obs.same('chain', field(s, 'o'), None, f"{what}: o")
      else:
        check_pd_at(obs, 'chain', field(s, 'o'), 'J', keys, pred, f"{what}: o", ps)
      check_pd_at(obs, 'chain', field(s, 'p'), 'J', keys, succ, f"{what}: p", ps)
      check_q(obs, field(s, 'q'), keys, pred, succ, f"{what}: q", ps)
      obs.num('chain', field(s, 's'), T(f"s{turn}"), f"{what}: score")
      obs.num('chain', field(s, 't'), T(f"t{turn}"), f"{what}: threshold")
      obs.same('chain', plain(obs, field(s, 'u')), script[turn], f"{what}: update")
      accepted = turn == 0 or bool(script[turn])
      if accepted:
        pred = succ
      check_pd_at(obs, 'chain', field(s, 'v'), 'J', keys, pred, f"{what}: verdict", ps)
    for i, (s, t) in enumerate(calls):
      obs.num('chain', s, T(f"s{i}"), f"score seen by update {i}")
      obs.num('chain', t, T(f"t{i}"), f"threshold seen by update {i}")
    obs.unmutated('operand-unchanged')
  return cl


# ------------------------------------------------------------ chains of dependences
def dependence(obs, scale):
  """ x,y|w,z: the roots move, the leafs are data """
  RV = obs.api('RV')
  vs = floats(obs, 'xy')
  w = obs.call(RV, 'w', vtype=float, vset=WIDE, prob=kfn1('W'))
  z = obs.call(RV, 'z', vtype=float, vset=WIDE, prob=kfn1('Z'))
  stats, paras = and_(obs, *vs), and_(obs, w, z)
  x = obs.call(obs.api('SP'), stats, paras)
  obs.meth(x, 'set_prob', kfn('J', 'xywz'), **lim(scale, 'J'))
  obs.meth(paras, 'set_tran', kfn('F', pkey('wz')))
  obs.meth(paras, 'set_delta', {k: N(T('d' + k)) for k in 'wz'})
  obs.meth(x, 'set_tran', paras)
  obs.meth(x, 'set_delta', paras)
  return x, pscale_value(scale, 'J')


def chain_data(scale, script, iid):
  """ the data given with the first values stay the data of every sample """
  def cl(obs):
    x, ps = dependence(obs, scale)
    lib = obs.I.lib
    rows = 2 if iid else 1

    def joint(I, args, kwds):
      if args or sorted(kwds) != sorted('wxyz'):
        raise I.exc('TypeError', f"called with {list(args)} {sorted(kwds)}")
      its = [shape_items(lib, kwds[k])[1] for k in 'xywz']
      if [len(i) for i in its] != [rows, rows, 1, 1]:
        raise I.exc('ValueError', f"called with {kwds}")
      out = [N(encode(scale, tm.func('J', tuple(lib.to_num(i[n % len(i)]).t for i in its), sign='+'), 'J'))
             for n in range(rows)]
      return SArr(out, 'float') if iid else out[0]
    obs.meth(x, 'set_prob', AbsFn('prob', joint), **lim(scale, 'J'))
    n = []

    def upd(I, args, kwds):
      n.append(0)
      return script[len(n) - 1]
    obs.meth(x, 'set_update', AbsFn('update', upd))
    pred = {k: N(T('a' + k)) for k in 'wz'}
    cs = {k: [N(T(f"c{k}{i}")) for i in range(rows)] for k in 'xy'}
    data = {'x,y': [SArr(cs['x'], 'float'), SArr(cs['y'], 'float')]} if iid else {k: c[0] for k, c in cs.items()}
    obs.freeze('values', pred)
    obs.freeze('data', data)
    kw = {'iid': True} if iid else {}
    out = list(obs.I.iterate(obs.meth(x, 'sampler', pred, data, joint=True, stop=len(script), **kw)))
    obs.same('chain', len(out), len(script), 'number of samples')
    succs, accepted = [], []

    def truth(w, z):
      t = tm.func('W', (w,), sign='+') * tm.func('Z', (z,), sign='+')
      for a, b in zip(cs['x'], cs['y']):
        t = t * tm.func('J', (a.t, b.t, w, z), sign='+')
      return t
    given = {k: ASet([rows]) if iid else cs[k][0] for k in 'xy'}
    for turn, s in enumerate(out):
      if isinstance(s, Unk):
        return obs.add('chain', None, s.why)
      succ = {k: N(moved(term(obs, pred[k]), k)) for k in 'wz'}
      what = f"sample {turn} of {script}: p"
      pd = field(s, 'p')
      scalar(obs, 'chain', pd, {**succ, **given}, truth(succ['w'].t, succ['z'].t), what)
      succs.append(succ)
      if turn == 0 or script[turn]:
        pred = succ
      accepted.append(pred)
    sm = obs.call(x, out, **({'conditionalise': True} if iid else {}))
    if isinstance(sm, Unk):
      return obs.add('summary', None, sm.why)
    for key, chosen in (('p', [s for s, u in zip(succs, script) if u is not False]),
                        ('v', [s for s, u in zip(accepted, script) if u is not False])):
      pd = field(sm, key)
      if isinstance(pd, Unk):
        return obs.add('summary', None, pd.why)
      what = f"summary {key} of {script}"
      want = [truth(r['w'].t, r['z'].t) for r in chosen]
      if iid:
        total = sum(want[1:], want[0])
        want = [t / total for t in want]
      obs.same('summary', sorted(obs.attr(pd, 'cond').keys()), ['x', 'y'] if iid else [], f"{what}: conditionals")
      for k in 'wz':
        obs.same('summary', pd.payload[k], [r[k] for r in chosen], f"{what}: values of {k}")
      for k in 'xy':
        obs.same('summary', pd.payload[k], ASet([2 * len(chosen)]) if iid else [given[k]] * len(chosen),
                 f"{what}: values of {k}")
      its = shape_items(lib, obs.attr(pd, 'prob'))
      if its is None:
        obs.add('summary', None, what)
        continue
      obs.same('summary', list(its[0]), [len(chosen)], f"{what}: shape")
      for i, (p, t) in enumerate(zip(its[1], want)):
        got = decode(obs.I, p, obs.attr(pd, 'pscale'))
        if got is None:
          obs.add('summary', None, what)
        else:
          obs.num('summary', N(got), t, f"{what}: probability of sample {i}")
    if iid and False not in script:
      both = [obs.call(x, [field(s, 'p') for s in out], conditionalise=True), field(sm, 'p')]
      if not any(isinstance(pd, Unk) for pd in both):
        for a in ('prob', 'pscale', 'dims'):
          obs.same('summary', obs.attr(both[0], a), obs.attr(both[1], a), f"summary of distributions: {a}")
        obs.same('summary', dict(both[0].payload), dict(both[1].payload), 'summary of distributions: values')
    obs.unmutated('operand-unchanged')
  return cl


def scalar(obs, rule, pd, vals, truth, what):
  """ a distribution at a single point """
  if isinstance(pd, Unk):
    return obs.add(rule, None, f"{what}: {pd.why}")
  for k, v in vals.items():
    obs.same(rule, pd.payload[k], v, f"{what}: value of {k}")
  got = decode(obs.I, obs.attr(pd, 'prob'), obs.attr(pd, 'pscale'))
  if got is None:
    return obs.add(rule, None, what)
  obs.num(rule, N(got), truth, f"{what}: probability")


def next_data(cls):
  """ a sample refed with data takes the last proposal from q and the data from the argument """
  def cl(obs):
    RV = obs.api('RV')
    vs = floats(obs, 'xy')
    w = obs.call(RV, 'w', vtype=float, vset=WIDE, prob=kfn1('W'))
    z = obs.call(RV, 'z', vtype=float, vset=WIDE, prob=kfn1('Z'))
    stats, paras = and_(obs, *vs), and_(obs, w, z)
    x = obs.call(obs.api(cls), stats, paras)
    obs.meth(x, 'set_prob', kfn('J', 'xywz'))
    obs.meth(paras, 'set_prop', kfn('Q', 'wz'))
    obs.meth(x, 'set_prop', paras)
    pred = {k: N(T('a' + k)) for k in 'wz'}
    first = {k: N(T('c' + k)) for k in 'xy'}
    second = {k: N(T('e' + k)) for k in 'xy'}
    s = None
    for turn, data in enumerate((first, second)):
      s = obs.meth(x, 'sample', s if turn else pred, data)
      if isinstance(s, Unk):
        return obs.add('sample', None, s.why)
      succ = pred
      vals = {**succ, **data}

      def truth(v):
        return tm.func('J', tuple(term(obs, v[k]) for k in 'xywz'), sign='+')

      def qtruth(v):
        return tm.func('Q', tuple(term(obs, v[k + "'"]) for k in 'wz'), sign='+')
      check_cells(obs, 'sample', field(s, 'p'), list('xywz'), truth, f"sample {turn}: p",
                  values={k: [vals[k]] for k in 'xywz'}, roles=(list('xy'), list('wz')))
      check_cells(obs, 'sample', field(s, 'q'), [k + "'" for k in 'wz'], qtruth, f"sample {turn}: q",
                  values={k + "'": [succ[k]] for k in 'wz'})
      pred = succ
  return cl


def numbered(u):
  """ a verdict as numpy compares: True and False of its own kind """
  if u is None:
    return None
  r = Num(tm.const_t(int(u)), (), 'bool', 'bool')
  r.np = True
  return r


def plain(obs, u):
  """ the verdict a value of either kind stands for """
  return u if u is None or isinstance(u, (bool, Unk)) else obs.I.truth(u)


# ------------------------------------------------------------ life cycle
def lifecycle(stop):
  """ a sampler gives exactly the samples asked for, then its state is cleared """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', 'one', False)
    pred = {k: N(T('a' + k)) for k in 'xy'}
    first = {k: N(moved(T('a' + k), k)) for k in 'xy'}
    for life in range(2):
      sampler = obs.meth(x, 'sampler', pred, stop=stop)
      obs.same('lifecycle', obs.meth(x, 'get_counter', life), 0, f"counter of new sampler {life}")
      obs.same('lifecycle', obs.meth(x, 'get_last', life), None, f"last of new sampler {life}")
      n = 0
      for s in obs.I.iterate(sampler):
        n += 1
        if isinstance(s, Unk):
          return obs.add('lifecycle', None, s.why)
        if n == 1:
          obs.same('lifecycle', field(s, 'o'), None, f"first sample of sampler {life} has no predecessor")
          check_pd_at(obs, 'lifecycle', field(s, 'p'), 'J', 'xy', first, f"first sample of sampler {life}", ps)
        obs.same('lifecycle', obs.meth(x, 'get_counter', life), n, f"counter after {n} samples")
        if n > stop:
          break
      obs.same('lifecycle', n, stop, f"samples of sampler {life} with stop={stop}")
      obs.same('lifecycle', obs.meth(x, 'get_counter', life), 0, f"counter of exhausted sampler {life}")
      obs.same('lifecycle', obs.meth(x, 'get_last', life), None, f"last of exhausted sampler {life}")
  return cl


def interleaved(order):
  """ samplers of one process do not affect each other """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', 'one', False)
    state = [{k: N(T(c + k)) for k in 'xy'} for c in 'ab']
    samplers = [obs.meth(x, 'sampler', state[i], stop=9) for i in range(2)]
    it = [iter(obs.I.iterate(s)) for s in samplers]
    count = [0, 0]
    for i in order:
      s = next(it[i])
      if isinstance(s, Unk):
        return obs.add('lifecycle', None, s.why)
      succ = {k: N(moved(term(obs, state[i][k]), k)) for k in 'xy'}
      what = f"sampler {i} in order {order}"
      if count[i] == 0:
        obs.same('lifecycle', field(s, 'o'), None, f"{what}: o")
      else:
        check_pd_at(obs, 'lifecycle', field(s, 'o'), 'J', 'xy', state[i], f"{what}: o", ps)
      check_pd_at(obs, 'lifecycle', field(s, 'p'), 'J', 'xy', succ, f"{what}: p", ps)
      state[i] = succ
      count[i] += 1
      for j in range(2):
        obs.same('lifecycle', obs.meth(x, 'get_counter', j), count[j], f"{what}: counter of {j}")
  return cl


def walking(stop, steps):
  """ successive walks continue one sequence without losing samples """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', 'one', False)
    pred = {k: N(T('a' + k)) for k in 'xy'}
    sampler = obs.meth(x, 'sampler', pred, **({} if stop is None else {'stop': stop}))
    got, want = [], 0
    for n in steps:
      w = obs.meth(x, 'walk', sampler) if n is None else obs.meth(x, 'walk', sampler, stop=n)
      if isinstance(w, Unk):
        return obs.add('lifecycle', None, w.why)
      w = list(obs.I.iterate(w))
      left = None if stop is None else stop - want
      exp = left if n is None else n if left is None else min(n, left)
      obs.same('lifecycle', len(w), exp, f"walk(stop={n}) of sampler(stop={stop}) after {want}")
      want += exp
      got += w
    for i, s in enumerate(got):
      succ = {k: N(moved(term(obs, pred[k]), k)) for k in 'xy'}
      check_pd_at(obs, 'lifecycle', field(s, 'p'), 'J', 'xy', succ, f"walked sample {i}", ps)
      pred = succ
  return cl


def plain_process(how):
  """ without proposals a sampler draws the distribution independently """
  def cl(obs):
    x = build(obs, 'SP', 'xy')
    obs.meth(x, 'set_prob', kfn('J', 'xy'))
    if how.startswith('int'):
      RV = obs.api('RV')
      a = obs.call(RV, 'x', vtype=float, vset=[0., 1.])
      b = obs.call(RV, 'y', vtype=float, vset=[0., 2.])
      x = obs.call(obs.api('SP'), and_(obs, a, b))
      obs.meth(x, 'set_prob', kfn('J', 'xy'))
      sampler = obs.meth(x, 'sampler', 3) if how == 'int' else obs.meth(x, 'sampler', stop=3)
    else:
      vals = {k: N(T('a' + k)) for k in 'xy'}
      sampler = obs.meth(x, 'sampler', vals, stop=3)
    seen = []
    out = list(obs.I.iterate(sampler))
    obs.same('lifecycle', len(out), 3, f"samples of sampler({how})")
    for s in out:
      if isinstance(s, Unk):
        return obs.add('lifecycle', None, s.why)

      def truth(v):
        return tm.func('J', (term(obs, v['x']), term(obs, v['y'])), sign='+')
      check_cells(obs, 'lifecycle', s, ['x', 'y'], truth, f"sample of sampler({how})", roles=(['x', 'y'], []))
      seen.append(term(obs, s.payload['x']).key)
    if how.startswith('int'):
      obs.add('lifecycle', len(set(seen)) == 3, 'samples drawn anew')
  return cl


def refed(multi):
  """ with a proposal but no delta each sample proposes anew; with a delta from the last """
  def cl(obs):
    RV = obs.api('RV')
    a = obs.call(RV, 'x', vtype=float, vset=[0., 1.])
    b = obs.call(RV, 'y', vtype=float, vset=[0., 2.])
    x = obs.call(obs.api('SP'), and_(obs, a, b))
    obs.meth(x, 'set_prob', kfn('J', 'xy'))
    obs.meth(x, 'set_prop', kfn('Q', 'xy'))
    seen = []
    for s in obs.I.iterate(obs.meth(x, 'sampler', stop=3)):
      if isinstance(s, Unk):
        return obs.add('lifecycle', None, s.why)
      p, q = field(s, 'p'), field(s, 'q')

      def truth(v):
        return tm.func('J', (term(obs, v['x']), term(obs, v['y'])), sign='+')

      def qtruth(v):
        return tm.func('Q', (term(obs, v["x'"]), term(obs, v["y'"])), sign='+')
      check_cells(obs, 'lifecycle', p, ['x', 'y'], truth, 'proposed: p')
      check_cells(obs, 'lifecycle', q, ["x'", "y'"], qtruth, 'proposed: q')
      for k in 'xy':
        obs.same('lifecycle', p.payload[k], q.payload[k + "'"], f"value of {k} in p and q")
      seen.append(term(obs, p.payload['x']).key)
      obs.same('lifecycle', [field(s, 'o'), field(s, 'r')], [None, None], 'o and r')
      obs.same('lifecycle', field(s, 'v') is p, True, 'verdict is p without an update function')
    obs.add('lifecycle', len(set(seen)) == 3, 'proposals drawn anew')
  return cl


def chain_tfun(multi, script, tsteps=None, scale='one'):
  """ a chain whose proposals are drawn variable by variable """
  keys = 'xy'

  def cl(obs):
    x = build(obs, 'SP', keys)
    obs.meth(x, 'set_prob', kfn('J', keys), **lim(scale, 'J'))
    ps = pscale_value(scale, 'J')

    def sampler(tag):
      def fn(I, args, kwds):
        k = dict(kwds)
        u = k.pop('unknown')
        return N(tm.func(tag + u, tuple(I.lib.to_num(k[j]).t for j in keys)))
      return AbsFn(tag, fn)
    kw = {'tsteps': tsteps} if tsteps else {}
    obs.meth(x, 'set_tfun', (sampler('S'), sampler('R')) if multi else sampler('S'), **kw)
    say = list(script)
    obs.meth(x, 'set_update', AbsFn('update', lambda I, args, kwds: say.pop(0)))
    pred = {k: T('a' + k) for k in keys}
    at = 0
    out = list(obs.I.iterate(obs.meth(x, 'sampler', {k: N(pred[k]) for k in keys}, stop=len(script))))
    obs.same('chain', len(out), len(script), 'number of samples')
    for turn, s in enumerate(out):
      if isinstance(s, Unk):
        return obs.add('chain', None, s.why)
      cur = dict(pred)
      todo = list(keys)
      if tsteps:
        todo = todo[at:at + tsteps]
        at = (at + tsteps) % len(keys)
      for k in todo:
        cur[k] = tm.func('S' + k, tuple(cur[j] for j in keys))
      what = f"sample {turn} of {script}"
      vals = {k: N(cur[k]) for k in keys}
      check_pd_at(obs, 'chain', field(s, 'p'), 'J', keys, vals, f"{what}: p", ps)
      check_cells(obs, 'chain', field(s, 'q'), primes(keys), lambda v: tm.ONE, f"{what}: q",
                  values={**{k: [N(pred[k])] for k in keys}, **{k + "'": [vals[k]] for k in keys}},
                  roles=([k + "'" for k in keys], list(keys)), pscale=ps)
      if turn == 0 or script[turn]:
        pred = cur
      check_pd_at(obs, 'chain', field(s, 'v'), 'J', keys, {k: N(pred[k]) for k in keys}, f"{what}: verdict", ps)
  return cl


def chain_default(script, scale, set_by):
  """ a chain of one variable stepping by its own transition, or by one set upon the process over it """
  def cl(obs):
    F = kfn('F', pkey('x'))
    v = obs.call(obs.api('RV'), 'x', vtype=float, vset=WIDE, **lim(scale, 'x'))
    if set_by != 'process':
      obs.meth(v, 'set_tran', kfn('V', pkey('x')) if set_by == 'both' else F)
    x = obs.call(obs.api('SP'), v)
    obs.meth(x, 'set_prob', kfn('J', 'x'), **lim(scale, 'J'))
    ps = pscale_value(scale, 'J')
    if set_by != 'variable':
      obs.meth(x, 'set_tran', (F, kfn('R', pkey('x'))))
    obs.meth(x, 'set_delta', {'x': N(T('dx'))})
    say = list(script)
    obs.meth(x, 'set_update', AbsFn('update', lambda I, args, kwds: say.pop(0)))
    pred = {'x': N(T('ax'))}
    out = list(obs.I.iterate(obs.meth(x, 'sampler', pred, stop=len(script))))
    obs.same('chain', len(out), len(script), 'number of samples')
    for turn, s in enumerate(out):
      if isinstance(s, Unk):
        return obs.add('chain', None, s.why)
      succ = {'x': N(moved(term(obs, pred['x']), 'x'))}
      what = f"sample {turn} of {script}"
      check_pd_at(obs, 'chain', field(s, 'p'), 'J', 'x', succ, f"{what}: p", ps)
      check_q(obs, field(s, 'q'), 'x', pred, succ, f"{what}: q", ps,
              at=pscale_value(scale, 'x') if set_by == 'variable' else None)
      if set_by == 'variable':
        obs.same('sample', field(s, 'r'), None, f"{what}: r of a one-way transition")
      else:
        check_q(obs, field(s, 'r'), 'x', pred, succ, f"{what}: r", ps, tag='R', rev=True)
      if turn == 0 or script[turn]:
        pred = succ
      check_pd_at(obs, 'chain', field(s, 'v'), 'J', 'x', pred, f"{what}: verdict", ps)
  return cl


def stored_arguments(const):
  """ scores, thresholds and updates are called with the arguments stored beside them """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', 'one', False)
    seen = {'s': [], 't': [], 'u': []}

    def fn(tag, val):
      def f(I, args, kwds):
        seen[tag].append((len(args), {k: norm(v) for k, v in kwds.items()}))
        return val
      return AbsFn(tag, f)
    obs.meth(x, 'set_scores', fn('s', N(T('sc'))), k=3)
    if const:
      obs.meth(x, 'set_thresh', 0.25)
    else:
      obs.meth(x, 'set_thresh', fn('t', N(T('th'))), m=4)
    obs.meth(x, 'set_update', fn('u', True), n=5)
    out = list(obs.I.iterate(obs.meth(x, 'sampler', {k: N(T('a' + k)) for k in 'xy'}, stop=2)))
    for s in out:
      if isinstance(s, Unk):
        return obs.add('chain', None, s.why)
      obs.num('chain', field(s, 's'), T('sc'), 'score of the function set')
      obs.num('chain', field(s, 't'), tm.const_t(0.25) if const else T('th'), 'threshold set')
      obs.same('chain', field(s, 'u'), True, 'update of the function set')
    obs.same('chain', seen['s'], [(1, {'k': 3})] * 2, 'calls of the scores')
    obs.same('chain', seen['t'], [] if const else [(0, {'m': 4})] * 2, 'calls of the threshold')
    obs.same('chain', seen['u'], [(1, {'n': 5})] * 2, 'calls of the update')
    for what, fnm in (('scores', 'set_scores'), ('thresh', 'set_thresh'), ('update', 'set_update')):
      obs.meth(x, fnm)
      obs.same('chain', obs.attr(x, what), None, f"{what} cleared")
      for kind in ('metropolis', 'hastings', 'gibbs'):
        obs.raises('refusal', lambda: obs.meth(x, fnm, kind, 3), what=f"{fnm}({kind!r}, 3)")
        obs.raises('refusal', lambda: obs.meth(x, fnm, kind, a=3), what=f"{fnm}({kind!r}, a=3)")
  return cl


# ------------------------------------------------------------ summaries
def summary(script, scale, form, cond=False, spoken=None):
  """ summaries concatenate the samples that are not refused """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', scale, True)
    say = [spoken(u) for u in script] if spoken else list(script)
    n = []

    def upd(I, args, kwds):
      n.append(0)
      return say[len(n) - 1]
    ns = []

    def score(I, args, kwds):
      ns.append(0)
      return N(T(f"s{len(ns) - 1}"))
    nt = []

    def thresh(I, args, kwds):
      nt.append(0)
      return N(T(f"t{len(nt) - 1}"))
    obs.meth(x, 'set_scores', AbsFn('scores', score))
    obs.meth(x, 'set_thresh', AbsFn('thresh', thresh))
    obs.meth(x, 'set_update', AbsFn('update', upd))
    pred = {k: N(T('a' + k)) for k in 'xy'}
    out = list(obs.I.iterate(obs.meth(x, 'sampler', pred, stop=len(script))))
    if any(isinstance(s, Unk) for s in out):
      return obs.add('summary', None, 'unknown sample')
    if form == 'deque':
      samples = obs.call(obs.api('deque', 'collections'), out)
    else:
      samples = tuple(out) if form == 'tuple' else list(out)
    sm = obs.call(x, samples)
    if isinstance(sm, Unk):
      return obs.add('summary', None, sm.why)
    keep = [i for i, u in enumerate(script) if u is not False]
    us = field(sm, 'u')
    obs.same('summary', [plain(obs, u) for u in us] if isinstance(us, list) else us, [script[i] for i in keep], 'updates')
    for k in 'st':
      obs.same('summary', field(sm, k), [N(T(f"{k}{i}")) for i in keep] if keep else None,
               'scores' if k == 's' else 'thresholds')
    chain_at, cur = [], pred
    succs = []
    for i, u in enumerate(script):
      succ = {k: N(moved(term(obs, cur[k]), k)) for k in 'xy'}
      succs.append((cur, succ))
      if i == 0 or u:
        cur = succ
      chain_at.append(cur)

    def rows(pd, want, what, keys='xy', tag='J'):
      if pd is None:
        return obs.add('summary', not want, f"{what}: missing, expected {len(want)} samples")

      def truth(v):
        raw = tm.func(tag, tuple(term(obs, v[k]) for k in keys), sign='+')
        return decode(obs.I, N(raw), ps)
      cs = check_cells(obs, 'summary', pd, list(keys), truth, what)
      if cs is not None:
        got = [tuple(term(obs, c[0][k]).key for k in keys) for c in cs]
        obs.same('summary', got, [tuple(term(obs, w[k]).key for k in keys) for w in want],
                 f"{what}: sequence of values")
    rows(field(sm, 'p'), [succs[i][1] for i in keep], 'summary p')
    rows(field(sm, 'v'), [chain_at[i] for i in keep], 'summary v')
    rows(field(sm, 'o'), [succs[i][0] for i in keep if i > 0], 'summary o')
    moves = [{**succs[i][0], **{k + "'": succs[i][1][k] for k in 'xy'}} for i in keep]
    rows(field(sm, 'q'), moves, 'summary q', pkey('xy'), 'F')
    rows(field(sm, 'r'), moves, 'summary r', pkey('xy'), 'R')
    obs.same('summary', len(out), len(script), 'samples given untouched')
  return cl


def plain_summary(kind, scale, form):
  """ samples made outside a sampler, and bare distributions """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', scale, True)
    preds = [{k: N(T(f"a{k}{i}")) for k in 'xy'} for i in range(3)]
    succs = [{k: N(moved(term(obs, p[k]), k)) for k in 'xy'} for p in preds]
    out = [obs.meth(x, 'sample', dict(p)) for p in preds]
    if any(isinstance(s, Unk) for s in out):
      return obs.add('summary', None, 'unknown sample')
    updates = []
    if kind == 'mixed':
      obs.meth(x, 'set_update', AbsFn('update', lambda I, a, k: True))
      q = {k: N(T(f"b{k}")) for k in 'xy'}
      more = list(obs.I.iterate(obs.meth(x, 'sampler', dict(q), stop=1)))
      if any(isinstance(s, Unk) for s in more):
        return obs.add('summary', None, 'unknown sample')
      out += more
      preds, succs = preds + [q], succs + [{k: N(moved(term(obs, q[k]), k)) for k in 'xy'}]
      updates = [True]
    if kind == 'distributions':
      out = [field(s, 'p') for s in out]
    n = len(out)
    samples = obs.call(obs.api('deque', 'collections'), out) if form == 'deque' else \
        tuple(out) if form == 'tuple' else list(out)
    sm = obs.call(x, samples)
    if isinstance(sm, Unk):
      return obs.add('summary', None, sm.why)

    def rows(pd, want, what, keys='xy', tag='J', pre=None):
      def truth(v):
        raw = tm.func(tag, tuple(term(obs, v[k]) for k in keys), sign='+')
        return decode(obs.I, N(raw), ps)
      cs = check_cells(obs, 'summary', pd, list(keys), truth, what)
      if cs is not None:
        got = [tuple(term(obs, c[0][k]).key for k in keys) for c in cs]
        obs.same('summary', got, [tuple(term(obs, w[k]).key for k in keys) for w in want], f"{what}: values")
    if kind == 'distributions':
      rows(sm, succs, 'summary of distributions')
    else:
      rows(field(sm, 'p'), succs, 'summary p')
      obs.same('summary', field(sm, 'u'), updates, 'updates')
      moves = [{**p, **{k + "'": s[k] for k in 'xy'}} for p, s in zip(preds, succs)]
      keys = pkey('xy')
      for key, tag in (('q', 'F'), ('r', 'R')):
        rows(field(sm, key), moves, f"summary {key}", keys, tag)
    obs.same('summary', len(list(obs.I.iterate(samples))), n, 'samples given untouched')
  return cl


def odd_summary():
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', 'one', True)
    s = obs.meth(x, 'sample', {k: N(T('a' + k)) for k in 'xy'})
    p = field(s, 'p')
    obs.raises('refusal', lambda: obs.call(x, [p, 3]), None, 'a number beside distributions')
    obs.raises('refusal', lambda: obs.call(x, [p, s]), None, 'a sample beside distributions')
    obs.raises('refusal', lambda: obs.call(x, [s, p]), None, 'a distribution beside samples')
    obs.raises('refusal', lambda: obs.call(x, [3, 4]), None, 'numbers')
  return cl


def resetting(by, keep):
  """ a sampler set back starts its count (and unless kept its chain) afresh, others carry on """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', 'one', False)
    start = [{k: N(T(f"a{k}{i}")) for k in 'xy'} for i in range(2)]
    sp = [obs.meth(x, 'sampler', dict(p)) for p in start]
    it = [iter(obs.I.iterate(s)) for s in sp]
    state = list(start)

    def draw(i, n):
      s = next(it[i])
      if isinstance(s, Unk):
        return obs.add('lifecycle', None, s.why)
      state[i] = {k: N(moved(term(obs, state[i][k]), k)) for k in 'xy'}
      check_pd_at(obs, 'lifecycle', field(s, 'p'), 'J', 'xy', state[i], f"sampler {i}: p", ps)
      obs.same('lifecycle', obs.meth(x, 'get_counter', sp[i]), n, f"counter of sampler {i}")
      return obs.same('lifecycle', obs.meth(x, 'get_last', i) is s or
                      field(obs.meth(x, 'get_last', i), 'p') is field(s, 'p'), True, f"last of sampler {i}")
    for n in (1, 2):
      for i in (0, 1):
        draw(i, n)
    obs.meth(x, 'reset', sp[0] if by == 'sampler' else 0, **({'reset_last': False} if keep else {}))
    obs.same('lifecycle', obs.meth(x, 'get_counter', 0), 0, 'counter reset')
    obs.same('lifecycle', obs.meth(x, 'get_last', sp[0]) is None, not keep, 'last reset')
    obs.same('lifecycle', obs.meth(x, 'get_counter', 1), 2, 'counter of the other')
    if not keep:
      state[0] = start[0]
    draw(0, 1)
    draw(1, 3)
    obs.same('lifecycle', [obs.meth(x, 'get_sampler', i) is sp[i] for i in (0, 1)], [True, True], 'samplers')
    obs.same('lifecycle', len(list(obs.I.iterate(obs.meth(x, 'get_sampler')))), 2, 'number of samplers')
  return cl


# ------------------------------------------------------------ acceptance
def opqr_of(obs, x, **k):
  C = obs.attr(x, 'opqr')
  return obs.call(C, *[k.get(c) for c in 'opqr'])


def dist(obs, name, scale, truth, tag):
  PD = obs.api('PD')
  ps = pscale_value(scale, tag)
  return obs.call(PD, name, {'x': 1.}, prob=N(encode(scale, truth, tag)), **lim(scale, tag))


def ratio(hi):
  """ two positive probabilities in a known order """
  p = tm.sym('p0', (), '+')
  r = tm.sym('r', (), '+')
  return (p, p + r) if hi else (p + r, p)


def metropolis(scale, hi, names, set_by):
  """ acceptance is the ratio of the probabilities denoted, at most one """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', scale, False)
    obs.meth(x, 'set_scores', names)
    pred, succ = ratio(hi)
    o = dist(obs, 'x', scale, pred, 'J')
    p = dist(obs, 'x', scale, succ, 'J')
    q = dist(obs, 'x', 'one' if scale in ('one', 'coef') else 'log', tm.sym('q', (), '+'), 'J')
    want = tm.ONE if hi else succ / pred
    got = obs.call(obs.attr(x, 'scores'), opqr_of(obs, x, o=o, p=p, q=q))
    obs.num('acceptance', got, want, f"{names} score of {succ.key}/{pred.key}")
    got = obs.call(obs.attr(x, 'scores'), opqr_of(obs, x, p=p, q=q))
    obs.same('acceptance', got, None, f"{names} score without predecessor")
    t = obs.call(obs.attr(x, 'thresh'))
    t2 = obs.call(obs.attr(x, 'thresh'))
    ts = [v if isinstance(v, Unk) else obs.I.lib.numt(v).key for v in (t, t2)]
    from .scen_variable import uniform_draw
    obs.add('acceptance', None if isinstance(t, Unk) else uniform_draw(obs.I.lib.numt(t), tm.ZERO, tm.ONE),
            f"{names} threshold drawn from [0, 1]: {ts[0]}")
    obs.add('acceptance', None if isinstance(t, Unk) else ts[0] != ts[1], f"{names} threshold drawn anew")
  return cl


def hastings(scale, case):
  """ the proposal correction q(pred|succ) / q(succ|pred) """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', scale, True)
    obs.meth(x, 'set_scores', 'hastings')
    pred, succ = tm.sym('pp', (), '+'), tm.sym('ps', (), '+')
    qf, qr = tm.sym('qf', (), '+'), tm.sym('qr', (), '+')
    if case == 'equal proposals':
      pred, succ = ratio(False)
      qr = qf
    elif case == 'no way back':
      qr = tm.ZERO
    elif case == 'no way there':
      qf = tm.ZERO
    o, p = dist(obs, 'x', scale, pred, 'J'), dist(obs, 'x', scale, succ, 'J')
    q, r = dist(obs, 'x', scale, qf, 'J'), dist(obs, 'x', scale, qr, 'J')
    got = obs.call(obs.attr(x, 'scores'), opqr_of(obs, x, o=o, p=p, q=q, r=r))
    if case == 'equal proposals':
      obs.num('acceptance', got, succ / pred, f"hastings score with {case}")
    elif case == 'no way there':
      obs.same('acceptance', got, None, 'hastings score of an impossible proposal')
    elif case == 'no way back':
      obs.num('acceptance', got, tm.ZERO, 'hastings score of a proposal that cannot be reversed')
    else:
      want = obs.I.lib.maxmin('min', N(tm.ONE), N(succ * qr / (pred * qf)))
      obs.num('acceptance', got, want.t, f"hastings score with {case}")
  return cl


def decide(names, case):
  """ accepted exactly when the score reaches the threshold """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', 'one', False)
    if case[1] == 'update':
      obs.meth(x, 'set_update', names)
    else:
      obs.meth(x, 'set_scores', names)
    u = obs.attr(x, 'update')
    t, r = tm.sym('t', (), '+'), tm.sym('r', (), '+')
    C = obs.attr(x, 'stuv')
    for s, th, want in ((N(t + r), N(t), True), (N(t), N(t + r), None), (N(t), N(t), True),
                        (None, N(t), True)):
      if names == 'gibbs':
        want = True
      got = obs.call(u, obs.call(C, s, th, None, None))
      obs.add('acceptance', None if isinstance(got, Unk) else bool(got) == bool(want),
              f"{names} update for score {s!r} threshold {th!r}: {got!r}, expected {want}")
  return cl


def end_to_end(names, scale):
  """ scores of a chain are those of its own probabilities """
  def cl(obs):
    x, ps = walker(obs, 'SP', 'x' + 'y', scale, False)
    obs.meth(x, 'set_scores', names)
    pred = {k: N(T('a' + k)) for k in 'xy'}
    cur = pred
    for turn, s in enumerate(obs.I.iterate(obs.meth(x, 'sampler', pred, stop=3))):
      if isinstance(s, Unk):
        return obs.add('acceptance', None, s.why)
      succ = {k: N(moved(term(obs, cur[k]), k)) for k in 'xy'}

      def P(v):
        return decode(obs.I, N(tm.func('J', tuple(term(obs, v[k]) for k in 'xy'), sign='+')), ps)
      sc = field(s, 's')
      if turn == 0:
        obs.same('acceptance', sc, None, 'no score for the first sample')
        obs.same('acceptance', field(s, 'u'), True, 'first sample accepted')
      else:
        r = P(succ) / P(cur)
        c = None if isinstance(sc, Unk) else obs.I.lib.numt(sc)
        least = obs.I.lib.numt(obs.I.lib.maxmin('min', N(tm.ONE), N(r)))
        obs.add('acceptance', None if c is None else c.key in (r.key, '1', least.key),
                f"score {c and c.key} of ratio {r.key}")
      check_pd_at(obs, 'acceptance', field(s, 'p'), 'J', 'xy', succ, f"sample {turn}: p", ps)
      if turn == 0 or field(s, 'u') is True:
        cur = succ
      check_pd_at(obs, 'acceptance', field(s, 'v'), 'J', 'xy', cur, f"sample {turn}: verdict", ps)
  return cl


def unknown_scores():
  def cl(obs):
    x, ps = walker(obs, 'SP', 'xy', 'one', False)
    obs.raises('refusal', lambda: obs.meth(x, 'set_scores', 'metropolis', 3), None, 'arguments with metropolis')
    obs.raises('refusal', lambda: obs.meth(x, 'set_thresh', 'hastings', 3), None, 'arguments with hastings')
    obs.raises('refusal', lambda: obs.meth(x, 'set_update', 'gibbs', 3), None, 'arguments with gibbs')
    obs.raises('refusal', lambda: obs.meth(x, 'set_prop', kfn('Q', 'xy')), None, 'proposal beside a transition')
    obs.raises('refusal', lambda: obs.meth(x, 'walk', [1, 2]), None, 'walk of a list')
    obs.raises('refusal', lambda: obs.meth(x, 'walk', None), None, 'walk of nothing')
    y = build(obs, 'SP', 'xy')
    obs.meth(y, 'set_prop', kfn('Q', 'xy'))
    obs.raises('refusal', lambda: obs.meth(y, 'set_tran', kfn('F', pkey('xy'))), None,
               'transition beside a proposal')
  return cl


def setters(cls):
  """ Setters called without argument leave nothing set, and accept arrays """
  def cl(obs):
    x = build(obs, cls, 'xy')
    what = {'prop': kfn('Q', 'xy'), 'tran': kfn('F', pkey('xy')),
            'tfun': (kfn('F', 'xy'), kfn('G', 'xy')), 'delta': {k: N(T('d' + k)) for k in 'xy'}}
    for name, value in what.items():
      obs.meth(x, 'set_' + name, value)
      obs.add('sample', obs.attr(x, name) is not None, f"{cls}.set_{name} sets it")
      for nothing in ((), (None,)):
        obs.meth(x, 'set_' + name, *nothing)
        got = obs.attr(x, name)
        obs.add('sample', got is None, f"{cls}.set_{name}{nothing}: {got}, expected nothing set")
        obs.meth(x, 'set_' + name, value)
      obs.meth(x, 'set_' + name)
    arr = NArr((2,), [N(T('a0')), N(T('a1'))])
    obs.meth(x, 'set_prop', arr)
    got = obs.meth(x, 'eval_prop', {k: N(T('x' + k)) for k in 'xy'})
    obs.same('sample', got, arr, f"{cls} constant proposal of an array")
  return cl


def scenarios(tier):
  out = []

  def add(rule, construct, cl, **k):
    out.append(Scenario(rule, construct, cl, **k))
  add('summary', 'SP.__call__ odd samples', odd_summary())
  for by in ('sampler', 'index'):
    for keep in (False, True):
      add('lifecycle', f"SP.reset {by} keep={keep}", resetting(by, keep))
  for cls in ('RF', 'SD', 'SP'):
    add('sample', f"{cls} setters without argument", setters(cls))
    for by in ('vset', 'ufun'):
      add('delta', f"{cls}.set_delta scaled to a length set later by {by}", late_lengths(cls, by))
    for how in ('plain', 'scaled', 'function'):
      add('delta', f"{cls}.apply_delta of one variable {how}", single_delta(cls, how))
    for keys in ('x', 'xy', 'xyz'):
      for multi in (False, True):
        if keys != 'x':
          for sc in SCALES:
            add('transition', f"{cls}.step given {keys} multi={multi} pscale={sc}",
                step_explicit(cls, keys, sc, multi))
      for form in ('dict', 'scalar', 'scalar and dict', 'Delta', 'function', 'given'):
        if keys != 'x' or form in ('dict', 'Delta'):
          add('transition', f"{cls}.step {keys} by delta {form}", step_delta(cls, keys, form))
      if keys != 'x':
        for multi in (False, True):
          for ts in (None, 1, 2):
            add('transition', f"{cls}.step {keys} by tfun multi={multi} tsteps={ts}",
                step_tfun(cls, keys, multi, ts, ts == 1))
        for sc in SCALES[1:]:
          add('transition', f"{cls}.step {keys} by tfun pscale={sc}", step_tfun(cls, keys, False, None, False, sc))
  for ends in itertools.product('oc', 'oc'):
    for how in ('default', 'default function', 'given'):
      add('bounded-delta', f"RF.apply_delta bounded {ends} {how}", bounded_field(ends, how))
  for cls in ('SD', 'SP'):
    for by in ('object', 'name'):
      add('bounded-delta', f"{cls}.apply_delta of the roots by {by}", bounded_roots(cls, by))
    for roots in ('', 'w', 'wz'):
      add('sample', f"{cls}.propose by default with roots '{roots}'", default_proposal(cls, roots))
  for form in ('list', 'list and dict', 'scalar', 'scalar and dict', 'dict'):
    for sc in (False, True):
      add('delta', f"RF.eval_delta {form} scale={sc}", random_field(form, sc))
  for sc in SCALES:
    for cls in ('SD', 'SP'):
      add('sample', f"{cls}.sample without proposals pscale={sc}", sample_plain(cls, sc))
      for suffix in (True, False):
        add('sample', f"{cls}.sample by proposal pscale={sc} suffix={suffix}", sample_prop(cls, sc, suffix))
      for keys in ('xy', 'xyz'):
        for multi in (False, True):
          add('sample', f"{cls}.sample {keys} by transition multi={multi} pscale={sc}",
              sample_tran(cls, keys, sc, multi))
      for joint in (False, True):
        add('sample', f"{cls}.sample dependence joint={joint} pscale={sc}",
            sample_dependence(cls, sc, joint))
    add('sample', f"{cls}.sample dependence by proposals", next_data(cls))
  for sc in ('one', 'log', 'offs'):
    for script in ((True, True, True), (True, False, True), (False, True, None), (True, None, False)):
      for iid in (False, True):
        add('chain', f"SP.sampler dependence with data pscale={sc} updates={script} iid={iid}",
            chain_data(sc, script, iid))
  U = (True, False, None)
  for script in itertools.product(U, U, U, U):
    for multi in (False, True):
      add('chain', f"SP.sampler updates={script} multi={multi}", chain('xy', 'one', multi, script))
  for sc in SCALES[1:]:
    for script in itertools.product(U, U, U):
      add('chain', f"SP.sampler updates={script} pscale={sc}", chain('xy', sc, False, script))
  for multi in (False, True):
    for script in itertools.product(U, U, U):
      add('chain', f"SP.sampler by tfun multi={multi} updates={script}", chain_tfun(multi, script))
    add('chain', f"SP.sampler by tfun one at a time multi={multi}", chain_tfun(multi, (True, True, False, True), 1))
  for sc in SCALES:
    for script in ((True, True, True), (True, False, True), (False, None, True)):
      add('chain', f"SP.sampler by tfun pscale={sc} updates={script}", chain_tfun(False, script, None, sc))
      for by in ('variable', 'process', 'both'):
        add('chain', f"SP.sampler of one variable by {by} pscale={sc} updates={script}",
            chain_default(script, sc, by))
  for const in (False, True):
    add('chain', f"SP.sampler with stored arguments const={const}", stored_arguments(const))
  for stop in (0, 1, 3):
    add('lifecycle', f"SP.sampler stop={stop}", lifecycle(stop))
  for order in itertools.product((0, 1), repeat=4):
    add('lifecycle', f"SP.sampler interleaved {order}", interleaved(order))
  for stop, steps in ((None, (2, 3)), (None, (0, 1, 2)), (5, (2, 2)), (4, (2, None)), (3, (None,)),
                      (2, (1, 5)), (3, (3, 1))):
    add('lifecycle', f"SP.walk {steps} stop={stop}", walking(stop, steps))
  for how in ('int', 'int by stop', 'dict'):
    add('lifecycle', f"SP.sampler without proposals {how}", plain_process(how))
  add('lifecycle', 'SP.sampler by proposal', refed(False))
  for form in ('list', 'tuple', 'deque'):
    add('summary', f"SP.__call__ samples {form}", summary((True, None, True), 'one', form))
    for kind in ('opqr', 'distributions', 'mixed'):
      for sc in SCALES:
        add('summary', f"SP.__call__ {kind} {form} pscale={sc}", plain_summary(kind, sc, form))
  for script in itertools.product(U, U, U):
    for sc in ('one', 'log'):
      add('summary', f"SP.__call__ samples updates={script} pscale={sc}", summary(script, sc, 'list'))
    add('chain', f"SP.sampler updates={script} of numpy", chain('xy', 'one', False, script, numbered))
    add('summary', f"SP.__call__ samples updates={script} of numpy",
        summary(script, 'one', 'list', False, numbered))
  for sc in SCALES:
    for names in ('metropolis', 'hastings'):
      for hi in (False, True):
        add('acceptance', f"{names}_scores succ {'>' if hi else '<'} pred pscale={sc}",
            metropolis(sc, hi, names, 'scores'))
      add('acceptance', f"SP.next {names} pscale={sc}", end_to_end(names, sc))
    for case in ('equal proposals', 'distinct proposals', 'no way back', 'no way there'):
      if 'no way' not in case or sc in ('one', 'coef'):
        add('acceptance', f"hastings_scores {case} pscale={sc}", hastings(sc, case))
  for names in ('metropolis', 'hastings', 'gibbs'):
    for by in ('scores', 'update'):
      add('acceptance', f"{names}_update set by {by}", decide(names, ('', by)))
  add('refusal', 'SP refusals', unknown_scores())
  return out
