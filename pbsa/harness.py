"""Scenarios, obligations and verdicts.

A scenario is an abstract client of the package's public interface together
with obligations on what it observes.  Every obligation is decided on the
abstract values: 'hold', 'fail' or 'open' (the domains do not decide it; never
reported as a violation, always counted).
"""
import re
import ast
import os
import time

from . import terms as tm
from .terms import T
from .values import (AbsExc, Undecided, Unk, Num, SArr, NArr, Cplx, ASet, Inst, NT, Opq, Lib, Func,
                     Bound, AbsFn, Partial)
from .interp import Program, Interp, Ctx, explore, Env, ModuleV

_PARSED = {}


class Obligation:
  def __init__(self, rule, status, construct, detail, site=None):
    self.rule, self.status, self.construct = rule, status, construct
    self.detail, self.site = detail, site

  def __repr__(self):
    return f"<{self.status} {self.rule} {self.construct}: {self.detail}>"


class Obs:
  """ Obligations collected along one partition. """
  def __init__(self, I, construct):
    self.I, self.construct = I, construct
    self.out = []
    self.inputs = []   # (label, value, digest) frozen operands

  # -- recording
  def add(self, rule, ok, detail='', site=None):
    if ok is None:
      st = 'open'
    elif ok:
      st = 'hold'
    else:
      st = 'open' if self.I.ctx.tainted else 'fail'
    if site is None:
      r = getattr(self.I, 'last_return', None)
      site = f"{r[1]}:{r[2]} in {r[0]}" if r else None
    # the sign marks of symbols (terms.sym) are internal
    detail = re.sub(r'~[+0-]?', '', detail) if isinstance(detail, str) else detail
    self.out.append(Obligation(rule, st, self.construct, detail, site))
    return ok

  # -- helpers
  def call(self, fn, *args, **kwds):
    return self.I.call(fn, list(args), kwds)

  def meth(self, o, name, *args, **kwds):
    return self.I.call(self.I.getattr(o, name), list(args), kwds)

  def attr(self, o, name):
    return self.I.getattr(o, name)

  def api(self, name, module='probayes'):
    return self.I.import_name(module, name)

  def code(self, src, **names):
    """ a client-supplied expression (lambdas and the like) """
    node = _PARSED.get(src)
    if node is None:
      node = _PARSED[src] = ast.parse(src.strip(), '<client>', 'eval').body
    mod = ModuleV('client')
    mod.vars.update(names)
    env = Env(None, mod)
    env.vars = mod.vars
    return self.I.eval(node, env)

  def raises(self, rule, thunk, types=None, what=''):
    """ the call must be refused with an exception """
    try:
      v = thunk()
    except AbsExc as e:
      ok = types is None or any(e.etype == t for t in types)
      self.add(rule, ok, f"{what}: raised {e.etype} ({e.msg})", e.site)
      return None
    if isinstance(v, Unk):
      self.add(rule, None, f"{what}: unknown result {v.why}")
    else:
      self.add(rule, False, f"{what}: accepted, expected a refusal")
    return v

  def num(self, rule, got, want, what=''):
    """ got denotes the (scalar) term want """
    I = self.I
    if isinstance(got, (bool, int, float)):
      if isinstance(got, float) and got != got:
        return self.add(rule, want.key == 'nan', f"{what}: nan, expected {want.key}")
      gt = tm.const_t(got)
    elif isinstance(got, Num):
      gt = got.t
    elif isinstance(got, Unk):
      return self.add(rule, None, f"{what}: {got.why}")
    else:
      return self.add(rule, False, f"{what}: {show(got)} is not the number {want.key}")
    ok = tm.agree(gt, want)
    if ok:
      return self.add(rule, True, f"{what} = {want.key}")
    if ok is None:
      return self.add(rule, None, f"{what}: opaque {gt.key[:200]}")
    return self.add(rule, False, f"{what}: {gt.key[:300]}, expected {want.key[:300]}")

  def same(self, rule, got, want, what=''):
    """ exact equality of structured constants """
    if isinstance(got, Unk):
      return self.add(rule, None, f"{what}: {got.why}")
    g = norm(got)
    w = norm(want)
    if has_unk(g):
      return self.add(rule, None, f"{what}: {g!r}")
    return self.add(rule, g == w, f"{what}: {g!r}" + ('' if g == w else f", expected {w!r}"))

  # -- effects
  def freeze(self, label, v):
    self.inputs.append((label, v, self.I.lib.snapshot(v)))

  def unmutated(self, rule):
    for label, v, snap in self.inputs:
      now = self.I.lib.snapshot(v)
      ok = now == snap
      self.add(rule, ok, f"operand {label} " + ('unchanged' if ok else 'modified: ' +
                                                diff(snap, now)))


def diff(a, b, path=''):
  if type(a) != type(b) or not isinstance(a, tuple):
    return f"{path}: {str(a)[:120]} -> {str(b)[:120]}"
  if len(a) != len(b):
    return f"{path}: {str(a)[:160]} -> {str(b)[:160]}"
  for i, (x, y) in enumerate(zip(a, b)):
    if x != y:
      return diff(x, y, path + f"/{i}" if not (isinstance(x, tuple) and x and isinstance(x[0], str))
                  else path + '/' + x[0])
  return path


def show(v):
  return repr(v)[:200]


def norm(v):
  if isinstance(v, Num):
    c = v.t.const()
    if c is not None and not v.axes:
      return int(c) if c.denominator == 1 else float(c)
    return ('num', v.t.key, v.axes)
  if isinstance(v, bool):
    return int(v)
  if isinstance(v, float) and v.is_integer():
    return int(v)
  if isinstance(v, T):
    c = v.const()
    if c is not None:
      return int(c) if c.denominator == 1 else float(c)
    return ('num', v.key, ())
  if isinstance(v, SArr):
    return [norm(x) for x in v.items]
  if isinstance(v, NArr):
    def nest(shape, items):
      if len(shape) == 1:
        return [norm(x) for x in items]
      n = len(items) // shape[0] if shape[0] else 0
      return [nest(shape[1:], items[i * n:(i + 1) * n]) for i in range(shape[0])]
    return nest(v.shape, v.items)
  if isinstance(v, (list, tuple)):
    return [norm(x) for x in v]
  if isinstance(v, dict):
    return {k: norm(x) for k, x in v.items()}
  if isinstance(v, Inst):
    if v.payload is not None:
      return norm(v.payload)
    return ('inst', v.cls.name, id(v))
  if isinstance(v, ASet):
    return ('set', frozenset(repr(norm(x)) for x in v.d.values()))
  if isinstance(v, (set, frozenset)):
    return ('set', frozenset(repr(norm(x)) for x in v))
  if isinstance(v, Cplx):
    return ('cplx', v.re.key, v.im.key)
  if isinstance(v, complex):
    return ('cplx', tm.const_t(v.real).key, tm.const_t(v.imag).key)
  if isinstance(v, NT):
    return [norm(x) for x in v.vals]
  if type(v) in (type({}.keys()), type({}.values()), type({}.items())) or \
      'odict' in type(v).__name__ or 'dict_' in type(v).__name__:
    return [norm(x) for x in v]
  return v


def has_unk(v):
  if isinstance(v, Unk):
    return True
  if isinstance(v, (list, tuple)):
    return any(has_unk(x) for x in v)
  if isinstance(v, dict):
    return any(has_unk(x) for x in v.values())
  return False


class Scenario:
  """ client(obs) performs the abstract calls and records obligations. """
  def __init__(self, rule, construct, client, max_paths=64, doc='', order=None):
    self.rule, self.construct, self.client = rule, construct, client
    self.max_paths, self.doc = max_paths, doc
    self.order = order
    self.orders = None      # set-iteration orders to compare


class Result:
  def __init__(self):
    self.obligations = []
    self.paths = 0
    self.funcs, self.lines = set(), set()
    self.undecided = []
    self.scenarios = 0
    self.vacuous = []


CLIENTS = ('pdlib.py', 'table.py')


def misshapen(e):
  """ an abstract client found a key or an item missing, or None in place of a value """
  tb = e.__traceback__
  while tb.tb_next is not None:
    tb = tb.tb_next
  f = os.path.basename(tb.tb_frame.f_code.co_filename)
  if not (f.startswith('scen_') or f in CLIENTS):
    return False
  return isinstance(e, (KeyError, IndexError)) or "'NoneType' object" in str(e)


def run_scenario(program, scn, res, seedctx=None):
  res.scenarios += 1

  def client(I):
    obs = Obs(I, scn.construct)
    I._obs = obs
    old = ASet.order
    ASet.order = scn.order or 'fwd'
    try:
      scn.client(obs)
    finally:
      ASet.order = old
    return obs
  decided = 0
  for o in explore(program, client, scn.max_paths):
    res.paths += 1
    res.funcs |= o.I.funcs
    res.lines |= o.I.lines
    obs = getattr(o.I, '_obs', None)
    obls = list(obs.out) if obs else []
    part = '; '.join(f"{k[0] if isinstance(k, tuple) else k} {k[1] if isinstance(k, tuple) and len(k) > 1 else ''}={v}"
                     for k, v in o.decisions)[:300]
    if o.kind == 'raise':
      st = 'open' if o.tainted else 'fail'
      obls.append(Obligation(scn.rule, st, scn.construct,
                             f"raises {o.exc.etype}: {o.exc.msg}", o.exc.site))
    elif o.kind == 'undecided':
      res.undecided.append((scn.construct, str(o.exc)))
      obls.append(Obligation(scn.rule, 'open', scn.construct, f"undecided: {o.exc}", None))
    elif o.kind == 'internal':
      # a result without the parts every client reads is a violation; anything else is the model's limit
      st = 'fail' if misshapen(o.exc) and not o.tainted else 'open'
      r = o.ret
      obls.append(Obligation(scn.rule, st, scn.construct,
                             f"{'result lacks' if st == 'fail' else 'internal:'} {type(o.exc).__name__} {o.exc}",
                             f"{r[1]}:{r[2]} in {r[0]}" if r else None))
    for ob in obls:
      ob.partition = part
      if ob.status != 'open':
        decided += 1
      res.obligations.append(ob)
  if not decided:
    res.vacuous.append(scn.construct)
  return res


def run_orders(program, scn, res):
  """ the observations of a client do not depend on the order sets are iterated in """
  runs = []
  for order in scn.orders:
    r = Result()
    scn.order = order
    run_scenario(program, scn, r)
    runs.append(r)
    res.paths += r.paths
    res.funcs |= r.funcs
    res.lines |= r.lines
  res.scenarios += 1
  base = runs[0].obligations
  for order, r in zip(scn.orders[1:], runs[1:]):
    obl = r.obligations
    if any(o.status == 'open' for o in base + obl):
      res.obligations.append(Obligation('order', 'open', scn.construct, f"order {order}: open obligations"))
      continue
    bad = [(a, b) for a, b in zip(base, obl) if (a.status, a.rule) != (b.status, b.rule)]
    if bad or len(base) != len(obl):
      a, b = bad[0] if bad else (None, (base + obl)[-1])
      res.obligations.append(Obligation(
          'order', 'fail', scn.construct,
          f"sets iterated in order {scn.orders[0]}: {a.status + ' ' + a.detail if a else len(base)}; "
          f"in order {order}: {b.status + ' ' + b.detail if a else len(obl)}"[:700],
          (b if b.status == 'fail' else a or b).site))
    else:
      res.obligations.append(Obligation('order', 'hold', scn.construct,
                                        f"{len(obl)} observations agree under order {order}",
                                        obl[0].site if obl else None))
  for o in res.obligations:
    o.partition = ''
  return res
