"""The properties (source of properties.jsonl and MANIFEST.json)."""
NOTE = ('Decides every obligation by abstract interpretation of the current source for all values, '
        'array lengths and probabilities within the enumerated partitions; trusts the numpy/builtin '
        'models of pbsa/libnp.py, ideal real arithmetic, and the bound on the number of variables '
        'per client. Open obligations are counted in the evidence and never reported. ')


def prop(id, title, statement, over, text, why, files, mech, observe=(), note='', state=(), note_override=None):
  return {'id': id, 'title': title, 'statement': statement,
          'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
          'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                      'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                      'observe_at': list(observe), 'hook_needed': None},
          'level_note': note_override or NOTE + note}


P = 'probayes/'
TABLE = [
  prop('C01', 'Changing probability scale never changes the probability denoted',
       'Probabilities are stored relative to a scale: a positive real scale is a multiplicative '
       'coefficient, a complex scale means natural logarithms offset by its real part. Converting, '
       'multiplying or dividing stored probabilities between any two scales yields, in the scale '
       'asked for, exactly the stored number that denotes the same mathematical probability, '
       'product or quotient, whether scalar or array. The default scale of a product is the one '
       'under which the product of the stored numbers denotes the product of the probabilities, '
       'and dividing zero by zero probability gives zero.',
       ['inputs', 'configurations'],
       'all scale pairs (unit, coefficient, log, log with offset) x scalar/array x all positive '
       'probabilities, coefficients and offsets',
       'The tests rescale two or three numeric examples; the claim is over all coefficients, '
       'offsets and probabilities and every pair of scale kinds.',
       [P + 'pscales.py'],
       [('scale normalisation', P + 'pscales.py eval_pscale'),
        ('conversion', P + 'pscales.py rescale'), ('products', P + 'pscales.py prod_pscale/prod_rule'),
        ('quotients', P + 'pscales.py div_prob')],
       ['rescale, prod_rule, div_prob return values', 'PD.pscale']),
  prop('C02', 'Marginals and expectations obey the sum rule',
       'Marginalising variables out of a distribution returns the distribution over the remaining '
       'variables whose probability is the sum over exactly the removed variables, with every '
       'remaining variable keeping its values, its axis and its role, in the same scale. '
       'An expectation is the probability-weighted sum of the (optionally exponentiated) values '
       'divided by the total probability over the same variables, and redistributing upon the cells of other variables '
       'adds up the probabilities falling into each cell. Requests to sum out a scalar or '
       'a conditional variable are refused.',
       ['inputs', 'configurations'],
       'all distributions of up to three variables: every mix of marginal/conditional, array/scalar, '
       'shared axes, any order of axes, every scale; every subset of variables',
       'Tests marginalise a few two-variable examples in the default axis order; the claim covers '
       'every arrangement of roles, axes and scales and every value.',
       [P + 'pd.py', P + 'distribution.py'],
       [('sum rule', P + 'pd.py PD.marginalise'), ('complement', P + 'pd.py PD.marginal'),
        ('expectation', P + 'pd.py PD.expectation'), ('redistribution', P + 'pd.py PD.remarginalise')],
       ['returned distribution: prob, pscale, dims, values, marg, cond']),
  prop('C03', 'Conditioning and division normalise within each condition',
       'Conditionalising on variables returns the joint probability divided by its sum over the '
       'variables that stay marginal, so that it totals one for every setting of the conditions, '
       'with the given variables moved to the conditionals and every variable keeping its values. '
       'Dividing a joint distribution by a distribution of some of its variables gives the quotient '
       'of their probabilities aligned variable by variable, whatever the order of their axes and '
       'whatever their scales. Conditionalising on a variable that is not marginal is refused.',
       ['inputs', 'configurations'],
       'all distributions of up to three variables (roles, array/scalar, shared axes, axis order, '
       'scale), every subset conditioned on, every divisor over a subset',
       'Tests condition one or two arrangements; alignment errors only show for unusual axis orders, '
       'positions of the conditioned variable or scales.',
       [P + 'pd.py'],
       [('conditioning', P + 'pd.py PD.conditionalise'), ('division', P + 'pd.py PD.__truediv__')],
       ['returned distribution: prob, pscale, dims, values, marg, cond']),
  prop('C04', 'Multiplying distributions obeys the product rule',
       'The product of distributions denotes the product of their probabilities with every variable '
       'aligned by name (batches of unspecified samples adding up), whatever the order of factors, '
       'axes and scales, in the scale asked for or else the product of the factor scales. A conditional variable that is marginal in another '
       'factor becomes marginal; conditionals common to the factors appear once. Factors sharing a '
       'marginal variable, having incompatible conditionals, or disagreeing on the values of a '
       'variable that one has as marginal and another as conditional, are refused.',
       ['inputs', 'configurations'],
       'all products of two and three factors over up to four variables, with array and scalar '
       'variables, every pair of scales, factor permutations, reversed axes',
       'Tests multiply a handful of numeric distributions in one order and one scale.',
       [P + 'pd_utils.py', P + 'pd.py', P + 'pscales.py'],
       [('product', P + 'pd_utils.py product'), ('operator', P + 'pd.py PD.__mul__')],
       ['returned distribution: prob, pscale, dims, values, marg, cond']),
  prop('C05', 'Adding distributions concatenates along one variable',
       'Adding distributions over the same variables joins them along the one variable in which '
       'they differ (or along a new axis when all are scalar), keeping every probability with its '
       'own value and the common scale; batches of unspecified samples add up. Distributions with different scales, variables or '
       'conditionals are refused.',
       ['inputs', 'configurations'],
       'all sums of two distributions of up to two variables, scalar or array, each scale, each '
       'differing axis',
       'The tests add one example.',
       [P + 'pd_utils.py', P + 'pd.py'], [('concatenation', P + 'pd_utils.py summate')],
       ['returned distribution']),
  prop('C06', 'Re-indexing keeps each probability with its values',
       'Slicing by values, sorting by a variable, re-assigning axes, renaming variables, rescaling '
       'and looking up values return a distribution (or values) in which every probability still '
       'belongs to the same combination of variable values as before, with the axes, names and '
       'roles of all variables consistent. Multiplying probabilities along a variable denotes the '
       'product over that variable of the denoted probabilities. Malformed constructions or '
       'selections are refused.',
       ['inputs', 'configurations'],
       'all distributions of up to three variables (roles, array/scalar, shared axes, axis order, '
       'scale), every selection, none/one/several matches',
       'Tests slice and sort one or two arrays; misalignment needs a particular axis order, a shared '
       'axis or several matches.',
       [P + 'pd.py', P + 'distribution.py', P + 'pd_utils.py'],
       [('slicing', P + 'pd.py PD.__call__'), ('sorting', P + 'pd.py PD.sorted'),
        ('axes', P + 'pd.py PD.redim'), ('renaming', P + 'pd.py PD.rekey'),
        ('rescaling', P + 'pd.py PD.rescaled'), ('product', P + 'pd.py PD.prod'),
        ('lookup', P + 'distribution.py Distribution.lookup')],
       ['returned distribution']),
  prop('C07', 'Operations leave their operands unchanged',
       'No operation on distributions or probabilities modifies its operands: after any of them, '
       'every operand (and every dictionary, list or array handed in by the caller) has the same '
       'variables, values, probabilities, axes, name and scale as before.',
       ['inputs', 'histories'],
       'every public operation on distributions and stored probabilities, all operands of the '
       'enumerated shapes',
       'Tests check results, hardly ever the operands afterwards; in-place writes show only for '
       'particular scales, zero probabilities or array operands.',
       [P + 'pd.py', P + 'pd_utils.py', P + 'pscales.py', P + 'distribution.py'],
       [('copies before in-place updates', P + 'pscales.py'), ('new dictionaries', P + 'pd.py')],
       ['operands after the call']),
  prop('C08', 'Variables admit exactly their declared domain',
       'A variable (or random variable) reports as members exactly the values of the set it was '
       'declared with: a discrete set element by element, or an interval whose bracketed or open '
       'ends are kept and whose order of declaration does not matter. Its type, limits, length, '
       'log-hypervolume, default probability and transformed limits are those of that set, and '
       'stay so after any later setting of its type, set, or transformation. Malformed '
       'declarations are refused.',
       ['inputs', 'configurations', 'histories'],
       'all variable types x set forms (scalar, list, tuple, set, array), every combination of open '
       'and closed ends in either order, infinite ends, with and without transformation, each '
       'setter afterwards, all positions of a value relative to the ends',
       'Tests declare a few numeric intervals; the claim covers every value on, between and beyond '
       'the ends for every form of declaration and order of setting.',
       [P + 'variable.py', P + 'vtypes.py', P + 'variable_utils.py', P + 'rv.py'],
       [('declaration', P + 'variable.py Variable.vset/vtype'), ('limits', P + 'variable.py Variable._eval_ulims'),
        ('membership', P + 'variable.py Variable._inside')],
       ['Variable.inside, vset, limits, ulims, length, lhv']),
  prop('C09', 'Evaluated values are members, as many and as random as asked',
       'Evaluating a variable by default gives all members of a discrete set in order; evaluating '
       'it with a positive count gives that many ordered values spanning the domain, with zero one '
       'random member and with a negative count that many random members. Values never fall outside '
       'the declared domain, never on an excluded end, and pass through the inverse of any '
       'transformation. Requests that the domain cannot satisfy are refused.',
       ['inputs', 'configurations', 'schedules'],
       'all interval end kinds, orders, set forms, types and transformations; requests None, {n}, '
       '{0}, {-n}; every outcome of the random generator',
       'Sampling is random and the claim covers every draw and every interval.',
       [P + 'variable.py', P + 'vtypes.py', P + 'rv.py'],
       [('evaluation', P + 'variable.py Variable.evaluate'), ('uniform values', P + 'vtypes.py uniform')],
       ['Variable.evaluate, Variable.__call__ return values']),
  prop('C10', 'Deltas move values as specified and respect bounds',
       'Applying a delta to a value of a variable adds exactly the amount specified (fixed, scaled '
       'by length, drawn within the symmetric interval given, or returned by a function), in the '
       'transformed space where there is a transformation. If bounded, the outcome is always a '
       'member of the domain, whatever the value, the amount and the kinds of end. The value given '
       'is not altered and an explicit delta overrides the default one.',
       ['inputs', 'configurations', 'schedules'],
       'all types, end kinds, fixed/scaled/random/callable deltas, bounded or not, all values '
       'and amounts, every draw',
       'Tests apply a few numeric deltas; leaving the domain needs a particular value, amount and '
       'end.',
       [P + 'variable.py'],
       [('delta', P + 'variable.py Variable.eval_delta'), ('application', P + 'variable.py Variable.apply_delta')],
       ['Variable.apply_delta, Variable.eval_delta return values']),
  prop('C11', 'Expressions pass exactly the mapped arguments to their functions',
       'Calling an expression, function or symbolic expression evaluates the underlying callable '
       'with exactly the arguments given, each keyword placed where the order mapping says '
       '(positional index, other keyword, or dropped) and each delta mapping receiving successor '
       'minus predecessor. Multiple expressions dispatch each index or key to its own callable in '
       'any order of use, constants ignore their arguments, and stored arguments accompany every '
       'call. Neither the mapping nor the dictionary of values is altered, and calls lacking a '
       'mapped keyword are refused.',
       ['inputs', 'configurations', 'histories'],
       'all order and delta mappings over up to three keywords (index, keyword, None, exchanged), '
       'tuple and dictionary multiples, repeated calls, every value',
       'Tests use a few mappings with one call each; exchanged keywords, dropped keywords or '
       'repeated calls are needed to expose a mix-up.',
       [P + 'expression.py', P + 'func.py', P + 'expr.py', P + 'expression_utils.py'],
       [('mapping', P + 'expression.py Expression._call'), ('functions', P + 'func.py Func._call'),
        ('symbols', P + 'expr.py Expr')],
       ['Expression/Func/Expr call results']),
  prop('C12', 'Random variables evaluate the probability they were given',
       'A random variable evaluates, at every value of its variable set, exactly the probability it '
       'was given (by default uniform, a Bernoulli scalar, an array over the set, a function or a '
       'SciPy object), zero outside the set where it is uniform, in the scale asked for, and sets '
       'this probability beside the value it belongs to. A step returns the successor value named '
       'in the transition beside the transition probability of exactly that successor given that '
       'predecessor, whether from a matrix, a function or a cumulative function, in either '
       'direction. Resetting a probability or transition leaves nothing of the previous one.',
       ['inputs', 'configurations', 'histories', 'schedules'],
       'all types of random variable x forms of probability x scales x value requests (none, scalar, '
       'array, outside the set); all transition matrices of the set sizes enumerated, functions, '
       'every draw; setter sequences',
       'Tests evaluate a few random variables in the linear scale; transposed matrices, wrong '
       'scales or stale functions show only in particular configurations and draws.',
       [P + 'rv.py', P + 'rv_utils.py', P + 'prob.py'],
       [('probability', P + 'rv.py RV.eval_prob'), ('scaling', P + 'prob.py Prob.eval_prob'),
        ('transition', P + 'rv.py RV.step/eval_step'), ('default', P + 'rv_utils.py uniform_prob/nominal_uniform_prob')],
       ['RV call and step results (PD)']),
  prop('C13', 'Joint distributions evaluate the combination of their components',
       'Calling a random field evaluates, at every combination of the values requested, the joint '
       'probability: the product of the probabilities of its independent variables, or the joint '
       'function or distribution it was given, in the scale of the field, whatever the scales of '
       'its variables; a stochastic dependence evaluates the conditional probability of its leaf '
       'variables given its root variables and, asked for the joint, that conditional multiplied '
       'by the probability of the roots, and dependences in parallel multiply. Each variable asked '
       'for keeps its own values and its own axis unless values are asked for along a shared axis, '
       'and neither the variables nor the values given are altered. Values for unknown variables, '
       'and shared-axis values of different lengths, are refused.',
       ['inputs', 'configurations'],
       'fields of up to three variables and dependences of up to two leafs and two roots in every '
       'mix of scales, value requests (keyword, dictionary, scalar, array, sample, shared axis) and '
       'forms of probability; every value and probability',
       'Tests call a few fields of uniform variables in the linear scale; a wrong scale, axis or '
       'factor shows only for particular combinations.',
       [P + 'rf.py', P + 'field.py', P + 'sd.py', P + 'dependence.py', P + 'pd_utils.py'],
       [('evaluation', P + 'field.py Field.evaluate'), ('joint', P + 'rf.py RF.eval_prob'),
        ('dependences', P + 'sd.py SD.eval_prob/arch_prob')],
       ['RF and SD call results (PD)']),
  prop('C14', 'Steps and samples carry the probabilities of exactly the move made',
       'Stepping a random field, stochastic dependence or process evaluates the transitional '
       'probability it was given, in the scale of the field, at exactly the predecessor and the '
       'successor: the successor given, else the predecessor moved by the delta, else the one the '
       'transition function draws variable by variable from the current values, in order and for as '
       'many variables per step as asked for; a reverse step uses the reverse function when there is '
       'one. A sample holds the distribution o of the predecessor, p of the proposed value, q of '
       'proposing it and r of the reverse move, the next sample starting from the value proposed, '
       'whereas a process without transition or proposal samples its own distribution. Proposals '
       'beside transitions, and the reverse, are refused.',
       ['inputs', 'configurations', 'histories'],
       'fields, dependences and processes of up to three variables x transition forms (one-way and '
       'two-way function, tfun with or without tsteps, forms of delta) x all scales; every value',
       'Tests step and sample a few one-way processes; a swapped direction, a stale key or a wrong '
       'scale needs particular configurations and several steps.',
       [P + 'rf.py', P + 'sd.py', P + 'dependence.py', P + 'sp.py', P + 'prob.py'],
       [('steps', P + 'rf.py RF.step/eval_step/eval_tfun/eval_tran/reval_tran'),
        ('proposals', P + 'sd.py SD.propose'), ('samples', P + 'sd.py SD.sample/opqr')],
       ['RF.step, SD.step, SD.propose and SD.sample results']),
  prop('C15', 'Sampling chains advance, stop and summarise as specified',
       'A sampler proposes each sample from the last accepted one: the first sample is accepted, and '
       'after that the update decision accepts the proposal or retains the previous verdict, a '
       'decision of exactly False also excluding the sample from summaries. Samplers yield exactly '
       'the number of samples asked for, then start afresh; several samplers of one process never '
       'affect one another, and walking draws the steps asked for without discarding any. Calling '
       'the process with samples concatenates, in order, their distributions, scores and decisions.',
       ['histories', 'schedules', 'inputs'],
       'every script of accept/retain/refuse decisions up to length four, every interleaving of two '
       'samplers up to four draws, stops and walk lengths enumerated, all scales and values',
       'Tests run one seeded chain; retained predecessors, refused samples, restarts and interleaving '
       'depend on the history of decisions.',
       [P + 'sp.py', P + 'sp_utils.py', P + 'sd.py'],
       [('advance', P + 'sp.py SP.next'), ('generator', P + 'sp_utils.py sample_generator'),
        ('lifecycle', P + 'sp.py SP.sampler/reset/get_counter/walk'), ('summary', P + 'sp.py SP.__call__')],
       ['stuv samples yielded by SP.sampler', 'SP.walk and SP call results'],
       state=[('SP.__counter, SP.__last, SP.__sampler', 'per-sampler position in its chain', P + 'sp.py')]),
  prop('C16', 'Acceptance follows the Metropolis, Hastings and Gibbs rules',
       'The Metropolis score of a proposal is min(1, P(succ)/P(pred)) and the Hastings score is '
       'min(1, P(succ) q(pred|succ) / (P(pred) q(succ|pred))), both on the probabilities denoted, '
       'whatever the scale they are stored in, reducing to the plain ratio when the two proposal '
       'probabilities agree or no reverse is defined. The threshold is drawn afresh and uniformly '
       'from [0, 1], and a proposal is accepted exactly when there is no score or the score is at '
       'least the threshold. Gibbs sampling accepts every proposal.',
       ['inputs', 'configurations', 'schedules'],
       'all scales x successor more or less probable than predecessor x all positive probabilities, '
       'proposal probabilities and thresholds',
       'Tests check only that chains run or their rough statistics under one seed; a biased '
       'acceptance rule converges to the wrong distribution without failing.',
       [P + 'sp_utils.py', P + 'sp.py'],
       [('scores', P + 'sp_utils.py metropolis_scores/hastings_scores/gibbs_scores'),
        ('threshold', P + 'sp_utils.py *_thresh'), ('decision', P + 'sp_utils.py *_update'),
        ('configuration', P + 'sp.py SP.set_scores/set_thresh/set_update')],
       ['SP.scores, SP.thresh, SP.update; stuv.s, stuv.t, stuv.u']),
  prop('C17', 'Serialised distributions read back as they were written',
       'Serialising distributions and deserialising them, directly or through a file, gives '
       'distributions of the same class, variables, conditioning and order of variables, each '
       'variable with its values and dimension, the same probabilities and the same scale, '
       'with auxiliary arrays unchanged beside them. Writing leaves the distributions as they were, '
       'and a file written again holds only what was written last. Two distributions of one name, '
       'arguments that are no distributions and malformed auxiliary data are refused rather than '
       'silently dropped.',
       ['inputs', 'configurations'],
       'every arrangement of up to three (thorough: four) variables (marginal/conditional, array/'
       'constant/number of values, shared dimensions, any order of dimensions) x all scales x memory/'
       'file, and pairs of distributions',
       'No test serialises; the one example writes two one-dimensional distributions in order, and a '
       'file lists its contents alphabetically, so only some orders lose information.',
       [P + 'pd_utils.py', P + 'pd.py', P + 'distribution.py'],
       [('writer', P + 'pd_utils.py serialise/write_serialised'),
        ('reader', P + 'pd_utils.py read_serialised/deserialise'),
        ('contents', P + 'pd.py PD.serialise, distribution.py Distribution.serialise')],
       ['deserialise(...) results'],
       note='h5py is replaced by the model pbsa/stubs/h5py.py (alphabetical listing, closed files '
            'inaccessible); variables named order, and distributions without probability, are excluded.'),
  prop('C18', 'Results do not depend on the order in which sets are iterated',
       'The package keeps keys, symbols and vertices in sets, whose iteration order changes from one '
       'interpreter to the next. Names, orders of keys, axes, values, probabilities and refusals '
       'observed through the public interface are nevertheless the same in every order. This holds '
       'for sets held by the package and for sets given by the caller.',
       ['schedules', 'inputs', 'configurations'],
       'every client of the other properties (up to three variables) under the sorted and the reversed '
       '(thorough: also a rotated) iteration order of every set',
       'String hashing is randomised per process: one test run sees one order, so an order that goes '
       'wrong fails only now and then.',
       [P + 'pd_utils.py', P + 'dependence.py', P + 'field.py', P + 'expression.py', P + 'functional.py'],
       [('sets of keys', P + 'dependence.py, pd_utils.py, functional_utils.py')],
       ['keylist, name, dims, prob and values of any result']),
  prop('C19', 'Composition builds exactly the graph its operators specify',
       'Combining variables, fields and dependences with & and |, or by their constructors, gives a '
       'composition of exactly the operand variables in the order of the operands, stochastic when '
       'any operand is, whose leafs, roots, edges, keys, names, identifier, predecessor keys and '
       'Delta fields agree with one another. Conditioning puts an edge from every variable of the '
       'right operand to every variable of the left, joining two dependences keeps the edges of '
       'both, and a field is the union of its variables without edges. Operands are left as they '
       'were, and combinations without meaning are refused.',
       ['inputs', 'histories'],
       'every bracketing of & and | over up to four (thorough: five) variables, all Variable or all '
       'RV, serial and parallel chains, constructors, subfields and equality',
       'The number of compositions is exponential in the number of operators; tests build about ten.',
       [P + 'field.py', P + 'rf.py', P + 'dependence.py', P + 'sd.py', P + 'icon.py', P + 'variable.py'],
       [('composition', P + 'variable.py, field.py, dependence.py __and__/__or__'),
        ('graph', P + 'dependence.py Dependence.set_deps/_reset'), ('fields', P + 'field.py Field.set_vars')],
       ['keylist, nodes, edges, leafs, roots, name, id of the composition']),
  prop('C20', 'Likelihoods from counts and covariances follow their data',
       'Counting boolean rows gives, for every combination of values, its number of occurrences plus '
       'the baseline, and the labelled function gives their relative frequency for every request, '
       'scalar or array, in the order of the variables; binary codes and their numbers invert each '
       'other at any width. Interpolating or sampling one variable of a covariance model given the '
       'others stays within the limits of the variable and follows the normal distribution with the '
       'conditional mean and deviation of the covariance, together with its density. '
       'Malformed counts, codes and requests are refused.',
       ['inputs', 'configurations'],
       'boolean data of one to three columns under three baselines and every request; codes of one '
       'and several numbers at every width; covariance models of two and three variables in several '
       'orders, every variable, zero to five values',
       'One numeric example cannot tell a transposed coefficient or a dropped baseline from the right '
       'one; random draws are only tested for running.',
       [P + 'likelihoods.py', P + 'cond_cov.py', P + 'rf_utils.py', P + 'rf.py'],
       [('counts', P + 'likelihoods.py bool_perm_freq'), ('slices', P + 'rf_utils.py slice_by_keyvals'),
        ('conditional', P + 'cond_cov.py CondCov'), ('codes', P + 'likelihoods.py int_to_bin/bin_to_int')],
       ['bool_perm_freq, int_to_bin, bin_to_int, CondCov.interp, PD of the field']),
  prop('C21', 'Value types, grids and names are those asked for',
       'Whether a value is scalar, a singleton, dimensionless, a unit set or a unit integer set, and '
       'which of bool, int or float a value, array, set or type stands for, is recognised for every '
       'form of value; conversion to a type yields the same values in that type. Uniform grids and '
       'draws have the count asked for, lie within their bounds in order, and leave out exactly the '
       'excluded ends. Named dictionaries, transposed dictionaries and icons keep the names, order '
       'and items given, arguments keyed by variables are taken by their names, and what is no name is refused.',
       ['inputs', 'configurations'],
       'every form of scalar, container, array and type; grids and draws of 1-4 values and signs under '
       'every exclusion of ends',
       'The forms of value that reach these helpers are open ended; tests see few of them.',
       [P + 'vtypes.py', P + 'named_dict.py', P + 'icon.py', P + 'pd_utils.py'],
       [('types', P + 'vtypes.py'), ('grids', P + 'vtypes.py uniform'), ('names', P + 'named_dict.py, icon.py')],
       ['return values of the helpers']),
  prop('C22', 'Quantiles locate the level within the cumulative probability',
       'The quantile of a distribution at a level in (0, 1) lies, along the last axis, between the '
       'two neighbouring values at which the cumulative normalised probability brackets the level, '
       'and has for every other axis the value of that cell; scalars are kept and unsorted variables '
       'give their number of values. Several levels give one distribution each, and the scale the '
       'probabilities are stored in makes no difference.',
       ['inputs', 'configurations'],
       'seven tables of 2-5 probabilities over one axis and their products over two axes, in each scale, '
       'at nine levels and lists of levels; scalar, unsorted and unnormalised variants',
       'The tests only print quantiles of a few distributions.',
       [P + 'pd.py', P + 'pscales.py'],
       [('quantile', P + 'pd.py PD.quantile')],
       ['values of the quantile distributions']),
  prop('C23', 'Names of distributions state their variables, roles and fixed values',
       'Whatever operation made it, the name of a distribution lists its marginal variables and, after a bar, its '
       'conditional variables, in the order of marg and cond. A variable is labelled key=value exactly if it is '
       'fixed to a single value (or an unspecified {count}), and with that value; array variables never keep the label '
       'of a value. short_name lists the same keys without labels.',
       ['inputs', 'configurations'],
       'every distribution returned in the scenarios of C02-C06, C11-C16 and C22 of up to two variables',
       'Products, sums and lookups rely on the labels, but no test compares them.',
       [P + 'pd.py', P + 'pd_utils.py', P + 'rv.py', P + 'rf.py', P + 'sd.py'],
       [('name', P + 'pd.py PD.dims, PD.__call__, PD.short_name'), ('name', P + 'pd_utils.py margcond_str')],
       ['operands of at most two variables']),
  prop('C24', 'Every name, attribute and call in the package resolves',
       'No path through the package fails because of what it names: every name read is bound in its scope '
       '(a local on at least one path to the use), everything imported exists, every attribute read through '
       'an instance is defined in the family of its class, and the arguments of every call to a function, '
       'class or method of the package bind to the parameters of each definition it may reach.',
       ['programs', 'inputs'],
       'every name, attribute access, import and package call on every path of every module',
       'Tests execute only some branches: a misspelt name, a dropped import or a changed signature on any other '
       'branch is met first by a user.',
       [P + f for f in ('dependence.py', 'distribution.py', 'expression.py', 'field.py', 'functional.py', 'pd.py',
                        'pd_utils.py', 'prob.py', 'rf.py', 'rv.py', 'sd.py', 'sp.py', 'variable.py')],
       [('names', 'every module of probayes'), ('calls', 'every call between functions and methods of probayes')],
       ['any public call'],
       note_override='Decides every use over the syntax trees; objects of unknown class are only required to have an '
       'attribute some known class defines. Dependence.add_deps is a known finding. '),
  prop('C25', 'Instances made apart share no state',
       'Variables, random variables, fields, dependences, processes, expressions, functionals and distributions '
       'made independently share nothing: setting, calling, combining, stepping or sampling one leaves every '
       'observable attribute of those made before as it was, and those made later from the same arguments are as '
       'if nothing had been done.',
       ['histories', 'inputs'],
       'every class x each of its setters and operations alone, and all of them in sequence, with the other '
       'instance made before or after',
       'Tests make each object once; state leaking through class attributes, default arguments or module globals '
       'shows only between two instances in one history.',
       [P + f for f in ('variable.py', 'rv.py', 'field.py', 'rf.py', 'dependence.py', 'sd.py', 'sp.py', 'prob.py',
                        'expression.py', 'functional.py', 'distribution.py', 'pd.py')],
       [('class attributes', 'class bodies of the modules anchored'),
        ('setters', P + 'variable.py set_delta, rv.py set_tran, sp.py sampler')],
       ['properties and attributes of the other instance']),
  prop('C30', 'What a call returns does not depend on the calls made before it',
       'A call that settles nothing (a probability, evaluation, delta, transition, proposal, sample, walk or a '
       'manipulation of a distribution) gives, on an instance already called, sampled or refused any number of '
       'times, what it gives on a fresh instance made the same way, save for the values drawn in it. It leaves '
       'every setting that can be observed as it was.',
       ['histories', 'inputs'],
       'every class in its various settings x each of its calls after each of the others, refused and random ones '
       'included, and after all of them in one history',
       'Tests make one or two calls on each object; caches, arguments kept from the call before and settings left '
       'half changed by a refusal show only in particular sequences.',
       [P + f for f in ('variable.py', 'rv.py', 'field.py', 'rf.py', 'sd.py', 'sp.py', 'expression.py', 'prob.py',
                        'func.py', 'functional.py', 'distribution.py', 'pd.py')],
       [('arguments', P + 'expression.py Expression.__call__, variable.py apply_delta, field.py eval_delta'),
        ('walks', P + 'sp.py sampler, next')],
       ['results of calls', 'properties and attributes of the instance']),
  prop('C26', 'Samples drawn follow their distribution and chains converge upon their target',
       'Values drawn from a variable, a random variable or a conditional covariance model are distributed as '
       'declared, and the values of a long Metropolis, Hastings or Gibbs chain are distributed as the target of '
       'the process. Estimates from them approach the expectations of the target as more are drawn.',
       ['inputs', 'histories'],
       'all declared distributions and targets, all seeds, in the limit of many samples',
       'A finite test sees one seed and one target, and passes or fails by chance.',
       [P + f for f in ('variable.py', 'rv.py', 'rv_utils.py', 'sp.py', 'sp_utils.py', 'cond_cov.py')],
       [('draws', P + 'variable.py Variable.evaluate'), ('chains', P + 'sp.py SP.next')],
       ['empirical frequencies of samples']),
  prop('C27', 'Probabilities stay accurate and finite in floating point',
       'Conversions between scales, products, sums and normalisations of probabilities lose no more than a few '
       'units of rounding, and neither overflow nor underflow while the result can be represented, in particular '
       'on logarithmic scales with widely differing offsets.',
       ['inputs'],
       'all floating-point probabilities, coefficients and offsets, including denormal and extreme values',
       'Tests compare a few moderate values; loss of precision shows at magnitudes they do not sample.',
       [P + f for f in ('pscales.py', 'pd.py', 'pd_utils.py', 'sp_utils.py')],
       [('conversion', P + 'pscales.py rescale, prod_rule, div_prob'),
        ('exponentials', P + 'pscales.py log_prob, exp_logp')],
       ['rounding error of stored probabilities']),
  prop('C28', 'Symbolic inverses, derivatives and integrals are mathematically right',
       'The inverse a symbolic transformation of a variable is given, the partial derivatives of symbolic '
       'expressions, and the densities and distribution functions of symbolic random variables are those of the '
       'expressions declared, on the whole domain of the variable.',
       ['inputs', 'programs'],
       'all symbolic expressions a user may declare',
       'Tests use a handful of expressions whose inverse is known.',
       [P + f for f in ('expression.py', 'variable.py', 'sympy_prob.py')],
       [('inverse', P + 'expression.py'), ('densities', P + 'sympy_prob.py')],
       ['values of inverse and derivative callables']),
  prop('C29', 'Chance enters only through the generator the caller seeds',
       'Every random draw the package makes comes from the global generator of numpy, which the package itself '
       'never seeds, replaces, saves or restores, so that a run is repeated exactly by seeding it. Requests that '
       'leave nothing to chance (given values, ordered or default values, fixed deltas, operations upon '
       'distributions) take no draw, so that they do not alter the draws that follow. Nothing changes settings of '
       'the whole process, or touches files or processes the caller did not name.',
       ['inputs', 'histories', 'programs'],
       'every call site of the package; every deterministic request of the clients of the other properties',
       'Tests fix no seed and compare no two runs, so that a generator of its own, a fixed seed or a stray draw '
       'goes unnoticed.',
       [P + f for f in ('variable.py', 'vtypes.py', 'rv.py', 'rv_utils.py', 'field.py', 'sp_utils.py', 'cond_cov.py',
                        'sympy_prob.py', 'pd_utils.py')],
       [('draws', P + 'variable.py Variable.evaluate, vtypes.py uniform'), ('thresholds', P + 'sp_utils.py')],
       ['the state of the generator before and after a call'],
       note='Draws inside scipy and sympy are judged by the arguments they are called with only.'),
]
NOT_APPLICABLE = [
  ('C26', 'Quantifies over the law of pseudo-random draws and limits of infinite chains: which quantity each draw and '
          'decision uses is decided statically (C09, C12, C14-C16), but no source-level argument in reach bounds '
          'empirical frequencies or convergence of an arbitrary user target.'),
  ('C27', 'Rounding depends upon runtime magnitudes of arbitrary user data flowing through numpy kernels; the analysis '
          'is over ideal reals (C01-C05), and a sound interval/error analysis of numpy reductions over arrays of '
          'unbounded length and value would have no non-trivial bound.'),
  ('C28', 'Computed by sympy (solve, diff, integrate) at run time from expressions the user declares; their correctness '
          'is a property of sympy and the expression rather than of this source. That the package passes the right '
          'expression, variable and arguments is decided (C08, C11, C12).'),
]
