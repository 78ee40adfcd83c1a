""" Models of the sympy objects the package wraps: symbols, numbers and
expressions are terms over symbol atoms; substitution replaces those atoms. """
import math

from . import terms as tm
from .terms import Atom
from .values import Num, SArr, NArr, Opq, AbsFn, ASet, Inst, Unk, Lib


def symatom(name):
  return Atom('S:' + name)


# attributes of SymPy symbols, numbers and expressions
SYM_ATTRS = set("""
_Frel _Rrel _Symbol__xnew_cached_ _add_handler _all_nonneg_or_nonppos _args _args_type
_as_mpf_op _as_mpf_val _assumptions _assumptions0 _assumptions_orig _combine_inverse
_compare_pretty _constructor_postprocessor_mapping _diff_wrt _do_eq_sympify _eval_Mod
_eval_adjoint _eval_as_leading_term _eval_aseries _eval_conjugate _eval_derivative
_eval_derivative_matrix_lines _eval_derivative_n_times _eval_difference_delta _eval_evalf
_eval_expand_complex _eval_expand_log _eval_expand_mul _eval_expand_multinomial
_eval_expand_power_base _eval_expand_power_exp _eval_herm_antiherm _eval_interval
_eval_is_algebraic _eval_is_algebraic_expr _eval_is_antihermitian _eval_is_commutative
_eval_is_complex _eval_is_composite _eval_is_even _eval_is_extended_negative
_eval_is_extended_nonnegative _eval_is_extended_nonpositive _eval_is_extended_positive
_eval_is_extended_positive_negative _eval_is_extended_real _eval_is_finite _eval_is_hermitian
_eval_is_imaginary _eval_is_infinite _eval_is_integer _eval_is_irrational _eval_is_meromorphic
_eval_is_negative _eval_is_odd _eval_is_polar _eval_is_polynomial _eval_is_positive
_eval_is_prime _eval_is_rational _eval_is_rational_function _eval_is_real _eval_is_zero
_eval_is_zero_infinite_helper _eval_lseries _eval_nseries _eval_order _eval_pos_neg _eval_power
_eval_real_imag _eval_refine _eval_rewrite _eval_rewrite_as_Pow _eval_rewrite_as_cos
_eval_rewrite_as_exp _eval_rewrite_as_sin _eval_rewrite_as_sqrt _eval_rewrite_as_tanh
_eval_simplify _eval_subs _eval_transpose _evalf _exec_constructor_postprocessors _expand_hint
_expandsums _explicit_class_assumptions _from_args _from_mpmath _has _has_matcher
_hashable_content _kind_dispatcher _matches_add_wildcard _matches_commutative
_matches_expand_pows _matches_get_other_nodes _matches_match_wilds _matches_new_states
_matches_noncomm _matches_simple _merge _mhash _mpc_ _mpf_ _mpmath_ _mul_handler _nargs _new
_new_rawargs _op_priority _parse_order _pow _prec _prop_handler _random _recursive_call
_remove_non_digits _repr_disabled _repr_latex_ _repr_png_ _repr_svg_ _rewrite _sage_ _sanitize
_should_evalf _singularities _sorted_args _subs _taylor _taylor_term _to_mpmath _xreplace
adjoint apart args args_cnc as_base_exp as_coeff_Add as_coeff_Mul as_coeff_add as_coeff_exponent
as_coeff_mul as_coefficient as_coefficients_dict as_content_primitive as_dummy as_expr
as_independent as_leading_term as_numer_denom as_ordered_factors as_ordered_terms as_poly
as_powers_dict as_real_imag as_set as_terms as_two_terms aseries assumptions0 atoms base
binary_symbols cancel canonical_variables ceiling class_key coeff cofactors collect combsimp
compare compute_leading_term conjugate copy could_extract_minus_sign count count_ops
default_assumptions denominator diff dir doit dummy_eq epsilon_eq equals eval evalf exp expand
expr_free_symbols extract_additively extract_branch_factor extract_leading_order
extract_multiplicatively factor factors fdiff find flatten floor fourier_series fps free_symbols
fromiter func gammasimp gcd getO getn has has_free has_xfree identity integrate inverse invert
is_Add is_AlgebraicNumber is_Atom is_Boolean is_Derivative is_Dummy is_Equality is_Float
is_Function is_Indexed is_Integer is_MatAdd is_MatMul is_Matrix is_Mul is_Not is_Number
is_NumberSymbol is_Order is_Piecewise is_Point is_Poly is_Pow is_Rational is_Relational
is_Symbol is_Vector is_Wild is_algebraic is_algebraic_expr is_antihermitian is_commutative
is_comparable is_complex is_composite is_constant is_even is_extended_negative
is_extended_nonnegative is_extended_nonpositive is_extended_nonzero is_extended_positive
is_extended_real is_finite is_hermitian is_hypergeometric is_imaginary is_infinite is_integer
is_irrational is_meromorphic is_negative is_noninteger is_nonnegative is_nonpositive is_nonzero
is_number is_odd is_polar is_polynomial is_positive is_prime is_rational is_rational_function
is_real is_same is_scalar is_singular is_symbol is_transcendental is_zero kind lcm leadterm
limit limit_denominator lseries make_args match matches n name nargs normal nseries nsimplify
num numerator p powsimp primitive q radsimp ratsimp rcall refine removeO replace rewrite round
separate series simplify sort_key subs taylor_term to_nnf together transpose trigsimp unbranched
xreplace
""".split())


class SymE(Opq):
  """ sympy expression with a term denotation """
  def __init__(self, t, syms, kind=None):
    self.t, self.syms = t, dict(syms)
    if kind is None:
      kind = 'sympy.Expr' if syms else 'sympy.Float'
    Opq.__init__(self, f"sympy<{t.key}>", kind)


class SymMixin:
  def lib_sympy_Symbol(self, name, *a, **k):
    if not isinstance(name, str):
      return self.I.unk('Symbol of non-string')
    o = SymE(tm.atom_t(symatom(name)), {}, 'sympy.Symbol')
    o.key = f"sympy.Symbol('{name}')"
    o.syms = {name: o}
    return o

  def sym_num(self, v, kind):
    t = self.symt(v)
    if t is None:
      if isinstance(v, (float, int)) and not math.isfinite(v):
        t = tm.const_t(v)
      else:
        return self.I.unk(kind + ' of unmodelled value')
    return SymE(t, {}, kind)

  def lib_sympy_Float(self, v, *a, **k):
    return self.sym_num(v, 'sympy.Float')

  def lib_sympy_Integer(self, v):
    return self.sym_num(v, 'sympy.Integer')

  def lib_sympy_log(self, v):
    return self.sym_fun(v, tm.log_t)

  def lib_sympy_exp(self, v):
    return self.sym_fun(v, tm.exp_t)

  def lib_sympy_sqrt(self, v):
    return self.sym_fun(v, lambda t: t.power(tm.Fraction(1, 2)))

  def sym_fun(self, v, fn):
    t = self.symt(v)
    if t is None:
      return self.I.unk('sympy function')
    return SymE(fn(t), self.symsof(v))

  def symt(self, v):
    if isinstance(v, SymE):
      return v.t
    if isinstance(v, Inst) and isinstance(v.attrs.get('_expr'), SymE):
      return v.attrs['_expr'].t
    if isinstance(v, Num) and v.axes:
      return None
    return self.numt(v)

  def symsof(self, *vs):
    out = {}
    for v in vs:
      if isinstance(v, SymE):
        out.update(v.syms)
      elif isinstance(v, Inst) and isinstance(v.attrs.get('_expr'), SymE):
        out.update(v.attrs['_expr'].syms)
    return out

  def sym_binop(self, name, a, b):
    for x, y, flip in ((a, b, False), (b, a, True)):
      if isinstance(y, (SArr, NArr)) or isinstance(y, Num) and y.axes:
        return self.I.unk('sympy with array')
    ta, tb = self.symt(a), self.symt(b)
    if ta is None or tb is None:
      return None
    if name == 'add':
      t = ta + tb
    elif name == 'sub':
      t = ta - tb
    elif name == 'mul':
      t = ta * tb
    elif name == 'truediv':
      t = ta / tb
    elif name == 'pow' and tb.const() is not None:
      t = ta.power(tb.const())
    else:
      return None
    syms = {n: s for n, s in self.symsof(a, b).items()
            if any(at.op == 'S:' + n for at in t.atoms())}
    return SymE(t, syms)

  def sym_attr(self, o, name):
    if name == 'free_symbols':
      return ASet(list(o.syms.values()))
    if name == 'name' and o.kind == 'sympy.Symbol':
      return list(o.syms)[0]
    if name == 'subs':
      return AbsFn(o.key + '.subs', lambda I, args, kwds: self.sym_subs(o, *args, **kwds))
    if name == 'symbol':
      raise self.I.exc('AttributeError', name)
    if name in ('evalf', 'n', 'doit', 'simplify'):
      return AbsFn(o.key + '.' + name, lambda I, args, kwds: o)
    if name == 'args' and (not o.syms or o.kind == 'sympy.Symbol'):
      return ()
    if name in ('_cdf', 'cdf', 'pdf'):
      raise self.I.exc('AttributeError', name)
    return None

  def sym_subs(self, o, mapping=None, value=None, **k):
    if isinstance(mapping, Inst):
      mapping = mapping.payload
    if mapping is None:
      return o
    if not isinstance(mapping, dict):
      mapping = {mapping: value} if value is not None else None
      if mapping is None:
        return self.I.unk('subs')
    t, syms = o.t, dict(o.syms)
    sub = {}
    for key, v in mapping.items():
      n = key if isinstance(key, str) else list(key.syms)[0] if isinstance(key, SymE) and \
          key.kind == 'sympy.Symbol' else None
      if n is None or isinstance(v, (SArr, NArr, Unk)) or isinstance(v, Num) and v.axes:
        return self.I.unk('subs of arrays')
      tv = self.symt(v)
      if tv is None:
        return self.I.unk('subs')
      if n in syms:
        sub[symatom(n).key] = tv
        del syms[n]
        syms.update(self.symsof(v))
    t = tm.subst(t, lambda a: sub.get(a.key))
    return SymE(t, syms)

  def lib_sympy_lambdify(self, symbols, expr, *a, **k):
    names = []
    for s in self.I.iterate(symbols):
      if not (isinstance(s, SymE) and s.kind == 'sympy.Symbol'):
        return self.I.unk('lambdify')
      names.append(list(s.syms)[0])
    if not isinstance(expr, SymE):
      return self.I.unk('lambdify')

    def fn(I, args, kwds):
      lib = I.lib
      if len(args) != len(names):
        raise I.exc('TypeError', f"lambdified function takes {len(names)} arguments")
      if any(isinstance(v, Unk) for v in args):
        return I.unk('lambdify argument')
      if any(isinstance(v, NArr) for v in args):
        return lib.ndmap(lambda *a: fn(I, list(a), {}), *args, dtype='float')
      sarr = [v for v in args if isinstance(v, SArr)]
      if sarr:
        n = len(sarr[0].items)
        if any(len(v.items) != n for v in sarr) or any(isinstance(v, Num) and v.axes for v in args):
          return I.unk('lambdify arrays')
        return SArr([fn(I, [v.items[i] if isinstance(v, SArr) else v for v in args], {})
                     for i in range(n)], 'float')
      nums = [lib.to_num(v) for v in args]
      if any(v is None for v in nums):
        return I.unk('lambdify argument')
      axes = lib.broadcast(*[v for v in nums if v.axes]) if any(v.axes for v in nums) else ()
      sub = {symatom(n).key: v.t for n, v in zip(names, nums)}
      t = tm.subst(expr.t, lambda a: sub.get(a.key))
      return Num(t, axes, 'arr' if axes or any(v.kind == 'arr' for v in nums) else 'float', 'float')
    return AbsFn(f"lambdify<{expr.t.key}>", fn)

  def lib_sympy_utilities_autowrap_ufuncify(self, symbols, expr, *a, **k):
    return self.lib_sympy_lambdify(symbols, expr)

  # ------------------------------------------------------------------ scipy
  def lib_scipy_stats_bernoulli(self, p=None, **k):
    t = self.numt(p)
    if t is None:
      return self.I.unk('bernoulli')
    return Opq(f"bernoulli({t.key})", 'scipy.stats.frozen')

  def scipy_attr(self, o, name):
    if o.key.startswith('bernoulli(') and name == 'rvs':
      def rvs(I, args, kwds):
        size = args[0] if args else kwds.get('size')
        lib = I.lib
        I.ctx.fresh += 1
        I.ctx.events.append(('rng', 'rvs', None, None, I.site()))
        tag = f"{o.key},rnd{I.ctx.fresh}"
        if size is None:
          return Num(tm.atom_t(Atom('rand.bernoulli', (tag,), integer=True, sign='+0')), (), 'int', 'int')
        axes = lib.axes_from_shape(size)
        if axes is None:
          return I.unk('rvs size')
        labs = set()
        for l in axes:
          labs |= set(lib.base_labels(l))
        tag += '[' + ','.join(sorted(labs)) + ']'
        return Num(tm.atom_t(Atom('rand.bernoulli', (tag,), frozenset(labs), '+0', integer=True)),
                   axes, 'arr', 'int')
      return AbsFn(o.key + '.rvs', rvs)
    return None
