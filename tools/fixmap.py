MAP = [
 ('distribution looked up by keys', 'C06'),
 ('indexed call of a Func', 'C11'), ('set as a function is subject to the bound', 'C10'), ('deltas of a field are scaled', 'C10'),
 ('joint key must be', 'C13'), ('transitions of a single variable', 'C14'), ('two-way transitions over', 'C14'),
  ('setters of a dependence', 'C14'), ("share dimensions between all variables", "C04"),('concatenate distributions', 'C05'), ('RF steps by scalar', 'C10'), ('RF counts and renumbers', 'C13'), ('products of unspecified', 'C04'), ('product does not add', 'C04'), ('product refuses values', 'C04'), ('slice_by_keyvals treats absent', 'C20'), ('eval_vtype', 'C21'), ('multivariate scipy', 'C13'), ('conditional sampling follows', 'C14'),

 ('Field can be instantiated', 'C19'), ('write_serialised', 'C17'), ('serialise refuses', 'C17'),
 ('bool_perm_freq', 'C20'), ('product names', 'C04'), ('iterdict', 'C18'), ('CF accepts', 'C11'),
 ('CondCov', 'C20'),
 ('RF.set_tfun', 'C14'), ('RF.step with deterministic', 'C14'), ('Dependence applies a delta', 'C10'), ('SD.set_tran', 'C14'), ('SP.walk', 'C15'),
 ('hastings_scores', 'C16'), ('lambdas taking', 'C11'),
 ('product matches conditional', 'C04'), ('combined dependences honour', 'C13'),
 ('RV evaluates an array', 'C12'), ('joint probability', 'C13'), ('RF.', 'C13'), ('slice_by_keyvals', 'C13'),
 ('Field deltas', 'C10'), ('Field.eval_delta', 'C10'), ('delta of its variable', 'C10'),
 ('Field can be', 'C19'), ('Field.subfield', 'C19'), ('Field inequality', 'C19'), ('Dependence', 'C19'),
 ('SD with roots', 'C19'), ('refused operands', 'C19'), ('desuffix', 'C13'), ('parallel dependences', 'C13'),
 ('lhv', 'C08'), ('Variable.vset', 'C08'), ('dexpr', 'C08'), ('clearing Variable.ufun', 'C08'),
 ('variables()', 'C08'), ('Variable.inside', 'C08'), ('Variable.vtype', 'C08'),
 ('Variable accepts', 'C08'), ('RV passes vset', 'C08'), ('RVs()', 'C08'),
 ('bounded delta', 'C10'), ('callable Variable deltas', 'C10'), ('integer list deltas', 'C10'),
 ('explicit zero Variable delta', 'C10'), ('clearing', 'C08'),
 ('Expression', 'C11'), ('Func', 'C11'), ('CF', 'C11'), ('expression symbols', 'C11'),
 ('Functional.isiconic', 'C11'),
 ('Prob', 'C12'), ('Bernoulli', 'C12'), ('transitional', 'C12'), ('RV.step', 'C12'),
 ('uniform_prob', 'C12'), ('matrix_cond_sample', 'C12'), ('SciPy', 'C12'), ('an RV with an SD', 'C19'),
 ('prod_pscale', 'C01'), ('prod_rule', 'C01'), ('div_prob', 'C01'), ('eval_pscale', 'C01'),
 ('marginalise renumbers', 'C02'), ('conditionalise', 'C03'), ('division', 'C03'),
 ('product honours', 'C04'), ('product counts', 'C04'), ('singleton looks', 'C04'),
 ('summate', 'C05'), ('PD.', 'C06'), ('PD call', 'C06'), ('str_margcond', 'C06'),
 ('Distribution without dims', 'C06'),
]


def prop_of(s):
  for k, p in MAP:
    if k in s:
      return p
  raise KeyError(s)
