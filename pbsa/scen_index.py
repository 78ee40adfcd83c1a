""" Re-indexing: slicing, sorting, re-dimensioning, renaming, rescaling, products. """
import collections
import itertools

from . import terms as tm
from .values import Num, Unk, AbsExc, Inst, NT, Cplx, ASet
from .harness import Scenario
from .pdlib import SCALES, Spec, check_pd, default_dims, pscale_value, decode
from .scen_pd import specs, subsets, sum_over


def marg_cond(sp, keys=None):
  keys = keys or sp.keys
  return [k for k in keys if sp.roles[k] == 'm'], [k for k in keys if sp.roles[k] == 'c']


def slicing(sp, ks, keepdims):
  def cl(obs):
    I, lib = obs.I, obs.I.lib
    pd = sp.build(obs)
    obs.freeze('self', pd)
    want = {k: Num(tm.sym('v' + k), (), 'float', 'float') for k in ks}
    kw = {'keepdims': True} if keepdims else {}
    r = obs.meth(pd, '__call__', dict(want), **kw)
    truth, labels, values = sp.truth, dict(sp.labels), {}
    for k in ks:
      lab = sp.labels[k]
      if lab is None:
        continue
      m = lib.cmp('==', Num(tm.sym(k + 's', (lab,)), (lab,), 'arr'), want[k])
      nz = lib.np_nonzero(m)[0]
      cnt = lib.size_of(nz.axes[0])
      n = [v for kk, v, *_ in I.ctx.taken if kk[0] == 'count' and kk[1] == cnt.key]
      if len(n) != 1:
        obs.add('slice', None, 'number of matches not examined')
        return
      n = n[0]
      shared = [j for j in sp.keys if sp.labels[j] == lab]
      if n == 1 and not keepdims:
        idx = lib.numt(lib.index(nz, 0))
        truth = lib.index_t(truth, lab, idx)
        for j in shared:
          labels[j] = None
          values[j] = lib.index_t(tm.sym(j + 's', (lab,)), lab, idx)
        values[k] = want[k].t
      elif n == 0:
        # empty along the variable: only the shape remains
        p = obs.attr(r, 'prob') if isinstance(r, Inst) else r
        if isinstance(p, Unk) or not isinstance(r, Inst):
          obs.add('slice', None, 'unknown probability')
          return
        sh = [lib.numt(x).key for x in lib.shape_of(p)] if isinstance(p, Num) else None
        d = obs.attr(r, 'dims').get(k)
        ok = sh is not None and d is not None and sh[I.as_int(d)] == '0'
        obs.add('slice', ok, f"no match for {k}: probability of shape {sh}, dimension {d}")
        return
      else:
        nl = nz.axes[0]
        truth = lib.index_t(truth, lab, nz.t)
        for j in shared:
          labels[j] = nl
          values[j] = lib.index_t(tm.sym(j + 's', (lab,)), lab, nz.t)
    m, c = marg_cond(sp)
    check_pd(obs, 'slice', r, m, c, labels, truth, f"slice by {','.join(ks)}",
             pscale_value(sp.scale), values)
    obs.unmutated('operand-unchanged')
  return cl


def bad_slice(sp):
  def cl(obs):
    pd = sp.build(obs)
    obs.raises('refusal', lambda: obs.meth(pd, '__call__', {'q': 1.}), None, 'unknown variable')
    arr = [k for k in sp.keys if sp.labels[k]]
    if arr:
      obs.raises('refusal', lambda: obs.meth(pd, '__call__', {arr[0]: sp.value(arr[0])}), None,
                 'array in place of a scalar')
    obs.raises('refusal', lambda: obs.meth(pd, '__call__', 'neither'), None, 'unknown selector')
  return cl


def sorting(sp, k):
  def cl(obs):
    I, lib = obs.I, obs.I.lib
    pd = sp.build(obs)
    obs.freeze('self', pd)
    r = obs.meth(pd, 'sorted', k)
    lab = sp.labels[k]
    truth, values = sp.truth, {}
    if lab is not None:
      idx = lib.np_argsort(Num(tm.sym(k + 's', (lab,)), (lab,), 'arr'))
      truth = lib.index_t(truth, lab, idx.t)
      for j in sp.keys:
        if sp.labels[j] == lab:
          values[j] = lib.index_t(tm.sym(j + 's', (lab,)), lab, idx.t)
    m, c = marg_cond(sp)
    check_pd(obs, 'sort', r, m, c, sp.labels, truth, f"sorted({k})", pscale_value(sp.scale),
             values)
    obs.unmutated('operand-unchanged')
  return cl


def redim(sp, perm):
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    labs = list(perm)
    dims = collections.OrderedDict((k, labs.index(sp.labels[k]) if sp.labels[k] else None)
                                   for k in sp.keys)
    obs.freeze('dims', dims)
    r = obs.meth(pd, 'redim', dims)
    m, c = marg_cond(sp)
    check_pd(obs, 'redim', r, m, c, sp.labels, sp.truth, f"redim({dict(dims)})",
             pscale_value(sp.scale))
    if isinstance(r, Inst):
      obs.same('redim', dict(obs.attr(r, 'dims')), dict(dims), 'dimensions asked for')
    obs.unmutated('operand-unchanged')
  return cl


def rekey(sp, keymap):
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    km = dict(keymap)
    obs.freeze('keymap', km)
    r = obs.meth(pd, 'rekey', km)
    m, c = marg_cond(sp)
    nk = lambda k: keymap.get(k, k)
    labels = {nk(k): sp.labels[k] for k in sp.keys}
    values = {nk(k): sp.value(k).t for k in sp.keys}
    check_pd(obs, 'rekey', r, [nk(k) for k in m], [nk(k) for k in c], labels, sp.truth,
             f"rekey({keymap})", pscale_value(sp.scale), values)
    obs.unmutated('operand-unchanged')
  return cl


def rekey_names(obs):
  """ what a name says of the values survives a change of key """
  PD = obs.api('PD')
  y = Num(tm.sym('ys', ('y',)), ('y',), 'arr')
  P = Num(tm.sym('P', ('y',), sign='+'), ('y',), 'arr')
  pd = obs.call(PD, 'x=0,y=[]|z=1.5', collections.OrderedDict([('x', 0), ('y', y), ('z', 1.5)]),
                prob=P)
  for km, want in (({'x': 'q'}, 'q=0,y=[]|z=1.5'), ({'y': 'long'}, 'x=0,long=[]|z=1.5'),
                   ({'z': 'w', 'x': 'y1'}, 'y1=0,y=[]|w=1.5')):
    r = obs.meth(pd, 'rekey', dict(km))
    obs.same('rekey', obs.attr(r, 'name'), want, f"name after rekey({km})")
    obs.same('rekey', obs.attr(pd, 'name'), 'x=0,y=[]|z=1.5', 'name of the operand')
  obs.raises('refusal', lambda: obs.meth(pd, 'rekey', {'x': 'q', 'y': 'q'}), None,
             'two keys mapped to one')


def rescaled(sp, to):
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    ps = pscale_value(to, 'r')
    r = obs.meth(pd, 'rescaled', ps)
    m, c = marg_cond(sp)
    check_pd(obs, 'rescaled', r, m, c, sp.labels, sp.truth, f"rescaled to {to}", ps)
    obs.unmutated('operand-unchanged')
  return cl


def prod(sp, ks):
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    if any(sp.roles[k] != 'm' or sp.labels[k] is None for k in ks):
      obs.raises('refusal', lambda: obs.meth(pd, 'prod', list(ks)), None,
                 'product along a scalar or a conditional')
      return
    labs = set(sp.labels[k] for k in ks)
    rest = [k for k in sp.keys if k not in ks]
    if any(sp.labels[k] in labs for k in rest):
      return
    r = obs.meth(pd, 'prod', list(ks))
    truth = sp.truth
    for l in labs:
      truth = tm.prod_t(truth, l)
    if not isinstance(r, Inst):
      obs.add('product-along', None if isinstance(r, Unk) else False, f"prod: {r!r}")
      return
    labels = {k: (None if k in ks else sp.labels[k]) for k in sp.keys}
    m, c = marg_cond(sp)
    got = dict(r.payload)
    for k in ks:
      v = got.get(k)
      ok = None
      from .values import ASet
      if isinstance(v, (ASet,)):
        els = list(v)
        ok = len(els) == 1 and obs.I.lib.numt(els[0]) is not None and \
            obs.I.lib.numt(els[0]).key == tm.size_t(sp.labels[k]).key
      elif not isinstance(v, Unk):
        ok = False
      obs.add('product-along', ok, f"variable {k} becomes a set of its size: {v!r}")
    values = {k: got[k] for k in ks if k in got}
    check_pd(obs, 'product-along', r, m, c, labels, truth, f"prod({','.join(ks)})",
             values=values)
    obs.unmutated('operand-unchanged')
  return cl


def lookup(sp, ks, how):
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    if how == 'call':
      which = 'marg' if sp.roles[ks[0]] == 'm' else 'cond'
      r = obs.meth(pd, '__call__', which)
    else:
      r = obs.meth(pd, 'lookup', list(ks))
    if isinstance(r, Unk) or not isinstance(r, dict):
      obs.add('lookup', None if isinstance(r, Unk) else False, f"lookup: {r!r}")
      return
    groups = collections.OrderedDict()
    for k in sp.keys:
      if k in ks:
        lab = sp.labels[k]
        groups.setdefault(lab if lab else ('s', k), []).append(k)
    want = {','.join(g): g for g in groups.values()}
    obs.same('lookup', sorted(r.keys()), sorted(want), 'variables returned')
    for name, g in want.items():
      if name not in r:
        continue
      v = r[name]
      if len(g) == 1:
        obs.num('lookup', v, sp.value(g[0]).t, f"values of {name}")
        if sp.labels[g[0]] and isinstance(v, Num):
          obs.same('lookup', len(v.axes), 1, f"axes of {name}")
      elif isinstance(v, tuple) and len(v) == len(g):
        for k, x in zip(g, v):
          obs.num('lookup', x, sp.value(k).t, f"values of {k} in {name}")
      else:
        obs.add('lookup', None if isinstance(v, Unk) else False, f"values of {name}: {v!r}")
    obs.unmutated('operand-unchanged')
  return cl


def looked_up(sp, ks):
  """ a distribution of some of the variables keeps their values, which of them share an axis, and no gaps """
  def cl(obs):
    pd = sp.build(obs)
    obs.freeze('self', pd)
    r = obs.meth(pd, 'lookup', list(ks), as_dist=True)
    want = [k for k in sp.keys if k in ks or not ks]
    if not isinstance(r, Inst):
      return obs.add('lookup', None if isinstance(r, Unk) else False, f"lookup: {r!r}")
    obs.same('lookup', list(r.payload), want, 'variables in order')
    obs.same('lookup', obs.attr(r, 'name'), ','.join(want), 'name')
    obs.same('lookup', obs.attr(r, 'keylist'), want, 'keys')
    dims = obs.attr(r, 'dims')
    if not isinstance(dims, dict):
      return obs.add('lookup', None if isinstance(dims, Unk) else False, 'dims')
    labs = sorted({sp.labels[k] for k in want if sp.labels[k]}, key=lambda l: [
        sp.dims[k] for k in sp.keys if sp.labels[k] == l][0])
    obs.same('lookup', [dims.get(k, 'none') for k in want],
             [labs.index(sp.labels[k]) if sp.labels[k] else None for k in want], 'dims')
    obs.same('lookup', obs.attr(r, 'ndim'), len(labs), 'ndim')
    for k in want:
      v = r.payload.get(k)
      if isinstance(v, ASet):
        obs.add('lookup', None, f"values of {k}")
        continue
      obs.num('lookup', v, sp.value(k).t, f"values of {k}")
      if isinstance(v, Num):
        at = [None] * len(v.axes)
        if sp.labels[k] and len(labs) == len(at):
          at[labs.index(sp.labels[k])] = sp.labels[k]
        obs.same('lookup', list(v.axes), at if sp.labels[k] else [], f"axes of {k}")
    obs.unmutated('operand-unchanged')
  return cl


def singletons(sp):
  """ whether a variable is single valued, by key, position or as a whole """
  def cl(obs):
    pd = sp.build(obs)
    one = [sp.labels[k] is None for k in sp.keys]
    for i, k in enumerate(sp.keys):
      obs.same('lookup', obs.meth(pd, 'singleton', k), one[i], f"singleton({k})")
      obs.same('lookup', obs.meth(pd, 'singleton', i), one[i], f"singleton({i})")
    obs.same('lookup', obs.meth(pd, 'singleton'), all(one), 'singleton()')
    obs.same('lookup', obs.meth(pd, 'singleton', 'q'), None, 'singleton of an unknown variable')
    obs.same('lookup', list(obs.I.iterate(obs.attr(pd, 'aresingleton'))), one, 'aresingleton')
    obs.same('lookup', obs.attr(pd, 'issingleton'), all(one), 'issingleton')
  return cl


def naming(obs):
  """ The name determines roles; parentheses and scalar assignments are understood """
  PD = obs.api('PD')
  for text, m, c in (('x', 'x', ''), ('x,y', 'xy', ''), ('x|y', 'x', 'y'), ('x,y|z,w', 'xy', 'zw'),
                     ('p(x|y)', 'x', 'y'), ('(x,y|z)', 'xy', 'z'), ('p(x)', 'x', '')):
    vals = collections.OrderedDict((k, Num(tm.sym(k + '0'))) for k in m + c)
    pd = obs.call(PD, text, vals, prob=Num(tm.sym('P', sign='+')))
    obs.same('naming', list(obs.attr(pd, 'marg').keys()), list(m), f"marginals of {text}")
    obs.same('naming', list(obs.attr(pd, 'cond').keys()), list(c), f"conditionals of {text}")
    want = ','.join(m) + ('|' + ','.join(c) if c else '')
    obs.same('naming', obs.attr(pd, 'short_name'), want, f"short name of {text}")


def default_build(sp):
  def cl(obs):
    vals = collections.OrderedDict((k, sp.value(k)) for k in sp.keys)
    obs.freeze('values', vals)
    ax = sp.axes()
    from .pdlib import encode
    pd = obs.call(obs.api('PD'), sp.name(), vals, prob=Num(encode(sp.scale, sp.truth), ax,
                  'arr' if ax else 'float'), pscale=pscale_value(sp.scale))
    m, c = marg_cond(sp)
    check_pd(obs, 'construction', pd, m, c, sp.labels, sp.truth, 'construction without dims',
             pscale_value(sp.scale))
    I, lib = obs.I, obs.I.lib
    obs.same('construction', list(obs.attr(pd, 'shape')) if ax else [],
             [tm.size_t(l) for l in ax], 'shape')
    obs.same('construction', obs.attr(pd, 'ndim'), len(ax), 'ndim')
    obs.same('construction', obs.attr(pd, 'issingleton'), not ax, 'issingleton')
    obs.unmutated('operand-unchanged')
  return cl


def invalid(obs):
  PD = obs.api('PD')
  x = Num(tm.sym('xs', ('x',)), ('x',), 'arr')
  y = Num(tm.sym('ys', ('y',)), ('y',), 'arr')
  P0 = Num(tm.sym('P', sign='+'))
  Px = Num(tm.sym('P', ('x',), sign='+'), ('x',), 'arr')
  Pxy = Num(tm.sym('P', ('x', 'y'), sign='+'), ('x', 'y'), 'arr')
  R = 'refusal'
  obs.raises(R, lambda: obs.call(PD, 'x', {'x': 1.}, prob=Px), None, 'scalar value, array prob')
  obs.raises(R, lambda: obs.call(PD, 'x', {'x': x}, prob=P0), None, 'array value, scalar prob')
  obs.raises(R, lambda: obs.call(PD, 'x', {'x': x}, prob=Pxy), None, 'array value, matrix prob')
  obs.raises(R, lambda: obs.call(PD, 'x,y', {'x': x, 'y': y}, prob=Px), None,
             'two array values, vector prob')
  obs.raises(R, lambda: obs.call(PD, 'x', {'x': 1., 'y': 2.}, prob=P0), None,
             'value missing from the name')
  obs.raises(R, lambda: obs.call(PD, 'x', {'x': 1.}, prob=P0, dims={'x': 0}), None,
             'dimension for a scalar')
  obs.raises(R, lambda: obs.call(PD, 'x|y|z', {'x': 1., 'y': 1., 'z': 1.}, prob=P0), None,
             'ambiguous name')


def scenarios(tier):
  out = []
  big = tier == 'thorough'
  for n in (1, 2, 3):
    scales = SCALES if n < 2 or big else ('coef', 'offs')
    for sp in specs(n, shared=True, scales=scales):
      lb = sp.label()
      arr = [k for k in sp.keys if sp.labels[k]]
      if sp.scale in ('coef',) or big:
        if len(set(sp.labels[k] for k in arr)) == len(arr) and \
            sp.dims == default_dims(sp.keys, sp.labels):
          out.append(Scenario('construction', f"PD() without dims {lb}", default_build(sp)))
        for ks in subsets(arr):
          if len(set(sp.labels[k] for k in ks)) != len(ks):
            continue
          if len(ks) > 2:
            continue
          for kd in (False, True):
            out.append(Scenario('slice', f"PD.__call__({','.join(ks)}{' keepdims' if kd else ''}) {lb}",
                                slicing(sp, ks, kd)))
        out.append(Scenario('refusal', f"PD.__call__(invalid) {lb}", bad_slice(sp)))
        for k in sp.keys:
          out.append(Scenario('sort', f"PD.sorted({k}) {lb}", sorting(sp, k)))
        labs = sorted(set(l for l in sp.labels.values() if l))
        for perm in itertools.permutations(labs):
          out.append(Scenario('redim', f"PD.redim({','.join(perm)}) {lb}", redim(sp, perm)))
        for k in sp.keys:
          out.append(Scenario('rekey', f"PD.rekey({k}) {lb}", rekey(sp, {k: 'q'})))
        if n > 1:
          out.append(Scenario('rekey', f"PD.rekey(swap) {lb}",
                              rekey(sp, {sp.keys[0]: 'q', sp.keys[1]: 'r'})))
        for ks in subsets(sp.keys):
          out.append(Scenario('lookup', f"PD.lookup({','.join(ks)}) {lb}", lookup(sp, ks, 'lookup')))
          out.append(Scenario('lookup', f"PD.lookup({','.join(ks)}) as a distribution {lb}", looked_up(sp, ks)))
        out.append(Scenario('lookup', f"PD.lookup() as a distribution {lb}", looked_up(sp, [])))
        out.append(Scenario('lookup', f"PD.singleton {lb}", singletons(sp)))
        for role in 'mc':
          ks = [k for k in sp.keys if sp.roles[k] == role]
          if ks:
            out.append(Scenario('lookup', f"PD.__call__({role}) {lb}", lookup(sp, ks, 'call')))
      for ks in subsets(sp.keys):
        out.append(Scenario('product-along', f"PD.prod({','.join(ks)}) {lb}", prod(sp, ks)))
      if n < 3 or big:
        for to in SCALES:
          out.append(Scenario('rescaled', f"PD.rescaled({to}) {lb}", rescaled(sp, to)))
  out.append(Scenario('naming', 'PD names', naming))
  out.append(Scenario('rekey', 'PD.rekey names', rekey_names))
  out.append(Scenario('refusal', 'PD construction refusals', invalid))
  return out
