""" Probability scales: every conversion preserves the denoted probability. """
import itertools
import math

from . import terms as tm
from .values import Num, Cplx, Unk, AbsExc
from .harness import Scenario
from .pdlib import SCALES, pscale_value, encode, decode

MOD = 'probayes.pscales'
KINDS = ('one', 'coef', 'log', 'offs', 'neg')


CONCRETE = (1., 1 + 0j, 0j, 2., 2 + 0j, 0.5, 0.5 + 0j, 2 - 1j, 2 + 1j, -1 + 0j, -1 - 3j)


def psv(kind, tag=''):
  if not isinstance(kind, str):    # a literal scale stands for itself
    return kind
  if kind == 'neg':    # imaginary pi marks a negated offset
    return Cplx(tm.sym('n' + tag), tm.const_t(math.pi))
  return pscale_value(kind, tag)


def enc(kind, truth, tag=''):
  if isinstance(kind, complex):
    return tm.log_t(truth) - tm.const_t(-kind.real if kind.imag else kind.real)
  if isinstance(kind, float):
    return truth / tm.const_t(kind)
  if kind == 'neg':
    return tm.log_t(truth) + tm.sym('n' + tag)
  return encode(kind, truth, tag)


def islog(kind):
  if not isinstance(kind, str):
    return isinstance(kind, complex)
  return kind in ('log', 'offs', 'neg')


def number(a, b):
  """ the number of the product's own scale, as a real scale """
  if isinstance(a, float) and isinstance(b, float):
    return a * b
  n = sum((-c.real if c.imag else c.real) if isinstance(c, complex) else math.log(c)
          for c in (a, b))
  return n if n > 0 else 1.


def arr(t, axes):
  return Num(t, axes, 'arr' if axes else 'float', 'float')


def denotes(obs, rule, prob, ps, truth, axes, what):
  I = obs.I
  if isinstance(prob, Unk) or isinstance(ps, Unk):
    obs.add(rule, None, f"{what}: {prob!r} {ps!r}")
    return
  t = decode(I, prob, ps)
  if t is None:
    obs.add(rule, None if not isinstance(prob, (list, tuple)) else False,
            f"{what}: {prob!r} under pscale {ps!r}")
    return
  if tm.agree(t, truth):
    obs.add(rule, True, f"{what}: denotes {t.key[:100]}")
  elif t.opaque:
    obs.add(rule, None, f"{what}: opaque {t.key[:160]}")
  else:
    obs.add(rule, False, f"{what}: denotes {t.key[:240]}, expected {truth.key[:240]}")
  got = prob.axes if isinstance(prob, Num) else ()
  obs.add(rule, got == tuple(axes), f"{what}: axes {got}, expected {tuple(axes)}")


def scenarios(tier):
  out = []
  R = 'scale-preserved'

  # ---- eval_pscale conventions
  def conv(obs):
    f = obs.api('eval_pscale', MOD)
    for arg, want in ((None, 1.), (1, 1.), (1., 1.), ('log', 0j), ('ln', 0j), (0, 0j), (0., 0j),
                      (2, 2.), (0.5, 0.5), (0j, 0j), (1 + 0j, 1 + 0j), (2 + 0j, 2 + 0j), (-1 + 3j, -1 + 3j)):
      r = obs.call(f, arg)
      obs.same('pscale-convention', r, want, f"eval_pscale({arg!r})")
      obs.add('pscale-convention', isinstance(r, (complex, Cplx)) == isinstance(want, complex)
              if not isinstance(r, Unk) else None, f"eval_pscale({arg!r}) logarithmic: {r!r}")
    for bad in ('linear', [1.], {'a': 1}):
      obs.raises('pscale-convention', lambda: obs.call(f, bad), None, f"eval_pscale({bad!r})")
    for k in KINDS:
      r = obs.call(f, psv(k))
      obs.same('pscale-convention', r, psv(k), f"eval_pscale(<{k}>)")
  out.append(Scenario('pscale-convention', 'pscales.eval_pscale', conv))

  # ---- rescale between every pair of scales
  for ax in ((), ('x',), ('x', 'y')):
    for a, b in itertools.product(KINDS, KINDS):
      for ta, tb in (('a', 'b'), ('a', 'a')):
        if (ta == tb) and a != b:
          continue
        def cl(obs, a=a, b=b, ta=ta, tb=tb, ax=ax):
          P = tm.sym('P', ax, sign='+')
          f = obs.api('rescale', MOD)
          p = arr(enc(a, P, ta), ax)
          obs.freeze('prob', p)
          r = obs.call(f, p, psv(a, ta), psv(b, tb))
          denotes(obs, R, r, psv(b, tb), P, ax, f"rescale({a}->{b})")
          obs.unmutated('operand-unchanged')
          if a == 'one':
            r = obs.call(f, p, psv(b, tb))
            denotes(obs, R, r, psv(b, tb), P, ax, f"rescale(->{b})")
            r = obs.call(f, p, None, psv(b, tb))
            denotes(obs, R, r, psv(b, tb), P, ax, f"rescale(None->{b})")
          if b == 'one':
            r = obs.call(f, p, psv(a, ta), None)
            denotes(obs, R, r, 1., P, ax, f"rescale({a}->None)")
        out.append(Scenario(R, f"pscales.rescale {a}{ta}->{b}{tb} ndim={len(ax)}", cl))

  # ---- literal scales, including a real and a complex one of the same number
  for a, b in itertools.product(CONCRETE, CONCRETE):
    def cl(obs, a=a, b=b):
      for ax in ((), ('x',)):
        P = tm.sym('P', ax, sign='+')
        p = arr(enc(a, P), ax)
        r = obs.call(obs.api('rescale', MOD), p, a, b)
        denotes(obs, R, r, b, P, ax, f"rescale({a}->{b})")
        Q = tm.sym('Q', ax, sign='+')
        q = arr(enc(b, Q), ax)
        r = obs.call(obs.api('div_prob', MOD), p, q, a, b)
        denotes(obs, 'division', r, a, P / Q, ax, f"div_prob({a},{b})")
        for kw in ({}, {'use_logp': True}, {'use_logp': False}, {'pscale': a}, {'pscale': b},
                   {'pscale': a, 'use_logp': True}, {'pscale': b, 'use_logp': False},
                   {'pscale': number(a, b)}, {'pscale': complex(number(a, b), 0.)}):
          r = obs.call(obs.api('prod_rule', MOD), p, q, pscales=[a, b], **kw)
          if isinstance(r, tuple) and len(r) == 2:
            denotes(obs, 'product-rule', r[0], r[1], P * Q, ax, f"prod_rule({a},{b},{kw})")
          else:
            obs.add('product-rule', None if isinstance(r, Unk) else False, f"{r!r}")
          if kw.keys() == {'pscale'}:
            continue
          if len(kw) < 2:
            r = obs.call(obs.api('prod_pscale', MOD), [a, b], *kw.values())
            log = kw.get('use_logp', islog(a) or islog(b))
            obs.add('pscale-product', isinstance(r, (complex, Cplx)) == log
                    if not isinstance(r, Unk) else None,
                    f"prod_pscale([{a},{b}],{kw}) logarithmic: {r!r}")
    out.append(Scenario(R, f"pscales literal scales {a},{b}", cl))

  # ---- offsets and coefficients agree
  for k in KINDS + CONCRETE:
    def cl(obs, k=k):
      offs = obs.call(obs.api('logp_offs', MOD), psv(k))
      coef = obs.call(obs.api('prob_coef', MOD), psv(k))
      want = decode(obs.I, 1. if not islog(k) else 0., psv(k))
      obs.num('offset-coefficient', coef, want, f"prob_coef({k})")
      obs.num('offset-coefficient', offs, tm.log_t(want), f"logp_offs({k})")
    out.append(Scenario('offset-coefficient', f"pscales.logp_offs/prob_coef {k}", cl))

  # ---- log/exp of regular values are exact, of zero and huge are finite
  for ax in ((), ('x',)):
    def cl(obs, ax=ax):
      P = tm.sym('P', ax, sign='+')
      L = tm.sym('L', ax)
      f, g = obs.api('log_prob', MOD), obs.api('exp_logp', MOD)
      obs.num('log-exp', obs.call(f, arr(P, ax)), tm.log_t(P), 'log_prob(p)')
      obs.num('log-exp', obs.call(g, arr(L, ax)), tm.exp_t(L), 'exp_logp(l)')
      obs.num('log-exp', obs.call(obs.api('real_sqrt', MOD), arr(P, ax)),
              P.power(tm.Fraction(1, 2)), 'real_sqrt(p)')
      n0 = len(obs.I.ctx.events)
      z = arr(tm.ZERO, ax)
      r = obs.call(f, z if ax else 0.)
      finite(obs, r, 'log_prob(0)')
      bad = [e for e in obs.I.ctx.events[n0:] if e[0] == 'log' and not e[2]]
      obs.add('zero-guard', not bad, f"log_prob(0) takes the logarithm of zero at {bad[:1]}")
      back = obs.call(g, r)
      obs.num('zero-guard', back, tm.ZERO, 'exp_logp(log_prob(0))') if False else None
      huge = arr(tm.const_t(1e6), ax) if ax else 1e6
      finite(obs, obs.call(g, huge), 'exp_logp(1e6)')
      obs.num('zero-guard', obs.call(obs.api('real_sqrt', MOD), z if ax else 0.), tm.ZERO,
              'real_sqrt(0)')
    out.append(Scenario('log-exp', f"pscales.log_prob/exp_logp ndim={len(ax)}", cl))

  # ---- product of pscales
  combos = [c for n in (1, 2, 3) for c in itertools.combinations_with_replacement(KINDS, n)]
  for ks in combos:
    for ul in (None, True, False):
      def cl(obs, ks=ks, ul=ul):
        f = obs.api('prod_pscale', MOD)
        ps = [psv(k, str(i)) for i, k in enumerate(ks)]
        args = [ps] if ul is None else [ps, ul]
        obs.freeze('pscales', ps)
        r = obs.call(f, *args)
        log = any(islog(k) for k in ks) if ul is None else ul
        want = tm.ONE
        for i, k in enumerate(ks):
          want = want * decode(obs.I, 0. if islog(k) else 1., psv(k, str(i)))
        if isinstance(r, Unk):
          obs.add('pscale-product', None, r.why)
          return
        obs.add('pscale-product', isinstance(r, (complex, Cplx)) == log,
                f"prod_pscale({ks}, {ul}) logarithmic: {r!r}")
        denotes(obs, 'pscale-product', 0. if isinstance(r, (complex, Cplx)) else 1., r, want, (),
                f"prod_pscale({ks}, {ul})")
        obs.unmutated('operand-unchanged')
      out.append(Scenario('pscale-product', f"pscales.prod_pscale {ks} use_logp={ul}", cl))

  # ---- product rule
  combos = [c for n in (1, 2) for c in itertools.product(KINDS, repeat=n)]
  combos += list(itertools.product(('one', 'log', 'offs'), repeat=3))
  for ks in combos:
    for ul in (None, True, False):
      for pk in (None, 'one', 'coef', 'log', 'offs'):
        if pk is not None and ul is not None:
          continue
        for shape in ('scalar', 'array'):
          def cl(obs, ks=ks, ul=ul, pk=pk, shape=shape):
            f = obs.api('prod_rule', MOD)
            ax = ('x',) if shape == 'array' else ()
            Ps = [tm.sym(f"P{i}", ax, sign='+') for i in range(len(ks))]
            probs = [arr(enc(k, P, str(i)), ax) for i, (k, P) in enumerate(zip(ks, Ps))]
            kw = {'pscales': [psv(k, str(i)) for i, k in enumerate(ks)]}
            if ul is not None:
              kw['use_logp'] = ul
            if pk is not None:
              kw['pscale'] = psv(pk, 'out')
            for i, p in enumerate(probs):
              obs.freeze(f"prob{i}", p)
            r = obs.call(f, *probs, **kw)
            want = tm.ONE
            for P in Ps:
              want = want * P
            if isinstance(r, tuple) and len(r) == 2:
              denotes(obs, 'product-rule', r[0], r[1], want, ax, f"prod_rule({ks})")
              if pk is not None:
                obs.same('product-rule', r[1], psv(pk, 'out'), 'requested pscale')
            else:
              obs.add('product-rule', None if isinstance(r, Unk) else False, f"{r!r}")
            obs.unmutated('operand-unchanged')
          out.append(Scenario('product-rule',
                              f"pscales.prod_rule {ks} use_logp={ul} pscale={pk} {shape}", cl))

  # ---- division
  for a, b in itertools.product(KINDS, KINDS):
    for o in (None,) + KINDS:
      for shape in ('scalar', 'array'):
        def cl(obs, a=a, b=b, o=o, shape=shape):
          f = obs.api('div_prob', MOD)
          ax = ('x',) if shape == 'array' else ()
          A, B = tm.sym('A', ax, sign='+'), tm.sym('B', ax, sign='+')
          pa, pb = arr(enc(a, A, 'a'), ax), arr(enc(b, B, 'b'), ax)
          obs.freeze('dividend', pa)
          obs.freeze('divisor', pb)
          kw = {} if o is None else {'pscale': psv(o, 'o')}
          r = obs.call(f, pa, pb, psv(a, 'a'), psv(b, 'b'), **kw)
          denotes(obs, 'division', r, psv(a, 'a') if o is None else psv(o, 'o'), A / B, ax,
                  f"div_prob({a},{b}->{o})")
          guard(obs, 0, 'div_prob')
          if a == b == 'one' and o is None:
            r = obs.call(f, pa, pb)
            denotes(obs, 'division', r, 1., A / B, ax, 'div_prob(a,b)')
            n0 = len(obs.I.ctx.events)
            Z = tm.sym('Z', ax, sign='+0')
            obs.call(f, pa, arr(Z, ax))
            guard(obs, n0, 'div_prob by possibly zero divisor')
          obs.unmutated('operand-unchanged')
        out.append(Scenario('division', f"pscales.div_prob {a}/{b} out={o} {shape}", cl))
  return out


def guard(obs, n0, what):
  bad = [e for e in obs.I.ctx.events[n0:] if e[0] == 'div' and not e[2]]
  obs.add('zero-guard', not bad, f"{what}: division by a quantity not bounded away from zero "
          f"at {bad[:1]}")


def finite(obs, r, what):
  if isinstance(r, Unk):
    obs.add('zero-guard', None, f"{what}: {r.why}")
    return
  t = obs.I.lib.numt(r)
  c = t.const() if t is not None else None
  ok = c is not None
  if not ok and t is not None and t.opaque:
    ok = None
  obs.add('zero-guard', ok, f"{what} = {t.key if t is not None else r!r} is finite")
