""" Which scenarios, rules and lints decide which property. """
COMMON = [
    'Arithmetic is taken over the ideal reals: rounding, overflow and under-flow are not part of '
    'any obligation.',
    'numpy, collections and the other library calls behave as modelled in pbsa/libnp.py and '
    'pbsa/stubs; a call outside the models leaves the obligation open, never failed.',
    'Abstract clients use at most the number of variables stated in DESIGN.md; array lengths, '
    'values, probabilities, coefficients and offsets are arbitrary.',
]
EXPL = ('Trace-partitioned abstract interpretation of the package source: each abstract client '
        'calls the public interface with abstract operands (arbitrary values, axis-labelled '
        'arrays of arbitrary length) and every obligation compares the canonical abstract value '
        'returned with the one the rule demands. Nothing of /repo is executed and no solver is '
        'used. ')


def P(title, rule_text, scenarios, rules=None, lints=(), assumptions=(), floor=1):
  return {'title': title, 'rule_text': rule_text, 'scenarios': scenarios, 'rules': rules,
          'lints': list(lints), 'explanation': EXPL + rule_text,
          'assumptions': COMMON + list(assumptions), 'floor': floor}


PROPS = {}


def rule_in(*rules):
  return lambda s: s.rule in rules


def of(*names):
  return lambda s: any(s.construct.startswith(n) for n in names)


def small(s):
  """ the clients of at most two variables: enough to expose an in-place write """
  return not (' z:' in s.construct or '[z:' in s.construct)


PROPS['C01'] = P(
    'Changing probability scale preserves the probability denoted',
    'For every pair of probability scales, the stored number returned, read under the scale asked '
    'for, equals the probability denoted by the operand read under its own scale.',
    [('scen_pscales', None)],
    rules={'pscale-convention', 'log-exp', 'offset-coefficient', 'pscale-product', 'product-rule',
           'zero-guard', 'rescale', 'division'})
PROPS['C02'] = P(
    'Marginals and expectations obey the sum rule',
    'The distribution returned by marginalise/marginal denotes the sum of the operand over exactly '
    'the axes summed out, aligned variable by variable; expectation is the normalised weighted '
    'sum; scalars and conditionals are refused.',
    [('scen_pd', None), ('scen_remarg', None)], rules={'sum-rule', 'expectation', 'refusal', 'redistribution'})
PROPS['C03'] = P(
    'Conditioning and dividing distributions normalise per condition',
    'conditionalise denotes the operand divided by its sum over the remaining marginal axes, with '
    'the keys moved to the conditionals; division denotes the quotient aligned by variable.',
    [('scen_cond', None)], rules={'conditioning', 'division', 'refusal'})
PROPS['C04'] = P(
    'Multiplying distributions obeys the product rule',
    'The product denotes the product of the denoted probabilities aligned by variable, in the '
    'scale asked for, with conditionals cancelled by matching marginals.',
    [('scen_comb', lambda s: 'summate' not in s.construct and '__add__' not in s.construct),
     ('scen_iid', rule_in('product-rule', 'refusal'))],
    rules={'product-rule', 'refusal'})
PROPS['C05'] = P(
    'Adding distributions concatenates along one variable',
    'Addition keeps every probability with its own value along the one differing variable.',
    [('scen_comb', lambda s: 'summate' in s.construct or '__add__' in s.construct),
     ('scen_iid', rule_in('concatenation', 'refusal')), ('scen_sum', None)],
    rules={'concatenation', 'refusal'})
PROPS['C06'] = P(
    'Re-indexing keeps each probability with its values',
    'Every re-indexed distribution denotes, at each combination of values, what the operand denoted '
    'there; axes, names and roles agree.',
    [('scen_index', None)],
    rules={'slice', 'sort', 'redim', 'rekey', 'rescaled', 'product-along', 'lookup', 'naming',
           'construction', 'refusal'})
PROPS['C07'] = P(
    'Operations leave their operands unchanged',
    'The abstract state of every operand (values, probabilities, dims, name, scale, caller-owned '
    'containers) after an operation equals its state before.',
    [('scen_pscales', None), ('scen_pd', small), ('scen_cond', small), ('scen_comb', small),
     ('scen_index', small), ('scen_variable', None), ('scen_expression', None), ('scen_rv', None),
     ('scen_field', None), ('scen_process', None), ('scen_graph', None),
     ('scen_serial', small), ('scen_functional', None), ('scen_utils', None),
     ('scen_iid', small), ('scen_quant', None), ('scen_rf', None), ('scen_remarg', None)],
    rules={'operand-unchanged'})
PROPS['C08'] = P(
    'Variables admit exactly their declared domain',
    'Membership, limits, length and hypervolume of a Variable/RV are those of the set declared, '
    'whatever end kinds, order, types and transformation, also after any setter.',
    [('scen_variable', None), ('scen_dist', of('RV.set_ufun'))],
    rules={'domain', 'derived', 'refusal'})
PROPS['C09'] = P(
    'Sampled values lie in the domain and follow the request',
    'Values evaluated for a count, a random request or by default are members of the domain, '
    'of the number asked for, and ordered over the whole domain.',
    [('scen_variable', None), ('scen_dist', of('RV.evaluate', 'RV.set_ufun', 'RV.__call__ sympy'))],
    rules={'sampling'})
PROPS['C10'] = P(
    'Deltas move values as specified and never leave bounds',
    'A delta adds (or randomly draws within) the amount specified, scaled as specified; a bounded '
    'delta lands inside the domain.',
    [('scen_variable', None), ('scen_process', rule_in('delta', 'bounded-delta')),
     ('scen_dist', of('RV.set_ufun')), ('scen_rf', rule_in('delta', 'covariance'))],
    rules={'delta', 'bounded-delta', 'covariance'})
PROPS['C11'] = P(
    'Expressions call their functions with exactly the mapped arguments',
    'The underlying function is called exactly with the positional and keyword arguments the '
    'order/delta mapping, stored arguments and call designate; multiples dispatch each index to '
    'its own function.',
    [('scen_expression', None), ('scen_functional', None)],
    rules={'call', 'functional', 'order', 'multi', 'constant', 'symbolic', 'refusal'})
PROPS['C12'] = P(
    'Random variables assign the declared probability and transition to every value',
    'A random variable called with values denotes, in its own scale, the declared probability of '
    'each value (uniform, Bernoulli, tabulated, callable; zero outside the domain); a step denotes '
    'the declared transitional probability of each successor given each predecessor.',
    [('scen_rv', None), ('scen_dist', of('Prob.', 'RV.'))],
    rules={'probability', 'transition', 'refusal'})

PROPS['C13'] = P(
    'Joint distributions evaluate the combination of their components',
    'A random field or stochastic dependence called with values denotes, in its own scale, the '
    'joint probability its components determine (product of independent variables, stored joint '
    'function, conditional times marginal), beside the values asked for on axes of their own; '
    'values and names that do not fit are refused.',
    [('scen_field', None), ('scen_dist', of('RF.__call__', 'RF.set_prob')), ('scen_rf', rule_in('joint'))],
    rules={'joint', 'refusal'})

PROPS['C14'] = P(
    'Transitions and proposals of fields, dependences and processes',
    'A step denotes, in the scale of the field, the transitional probability declared, evaluated at '
    'exactly the predecessor and successor (the one given, the one the delta designates, or the one '
    'the transition function draws variable by variable); a sample carries the distribution of the '
    'value proposed, the probability of proposing it and, for a two-way transition, of the way back.',
    [('scen_process', rule_in('transition', 'sample', 'refusal')), ('scen_dist', of('RF.step')),
     ('scen_rf', rule_in('transition', 'sample', 'refusal'))],
    rules={'transition', 'sample', 'refusal'})
PROPS['C15'] = P(
    'Sampling chains advance, stop and summarise as specified',
    'Over every script of update decisions a chain proposes from the last accepted value, yields as '
    'verdict the accepted or the retained distribution, stops at the count asked for, keeps '
    'interleaved samplers apart, and is summarised sample by sample.',
    [('scen_process', rule_in('chain', 'lifecycle', 'summary'))],
    rules={'chain', 'lifecycle', 'summary'})
PROPS['C16'] = P(
    'Acceptance of proposals follows the Metropolis, Hastings and Gibbs rules',
    'The score is min(1, ratio of the probabilities denoted, corrected by the proposals), whatever '
    'the scale they are stored in; the threshold is a fresh draw from [0, 1]; acceptance is exactly '
    'score >= threshold (always for Gibbs, and for the first sample).',
    [('scen_process', rule_in('acceptance'))], rules={'acceptance'})
PROPS['C17'] = P(
    'Serialised distributions read back as they were written',
    'Every distribution deserialised from memory or file has the class, name, roles, order of keys, '
    'values, dimensions, probability and scale of the one serialised.',
    [('scen_serial', None)], rules={'serialise', 'refusal'})
PROPS['C18'] = P(
    'Results do not depend on the order in which sets are iterated',
    'Every observation of every client is the same whichever order the sets and frozensets of the '
    'package (and the caller) are iterated in.',
    [(m, small) for m in ('scen_pd', 'scen_cond', 'scen_comb', 'scen_index', 'scen_serial', 'scen_iid')] +
    [(m, None) for m in ('scen_variable', 'scen_expression', 'scen_rv', 'scen_field', 'scen_process', 'scen_dist',
                         'scen_graph', 'scen_functional', 'scen_utils', 'scen_quant', 'scen_rf', 'scen_remarg')])
PROPS['C18']['orders'] = {'quick': ('fwd', 'rev'), 'thorough': ('fwd', 'rev', 'rot')}
PROPS['C19'] = P(
    'Composition builds exactly the graph its operators specify',
    'The variables, order, leafs, roots, edges, names, Delta fields, classes and views of a '
    'composition built by &, |, constructors and set_deps are those its operators specify; '
    'arguments that are no vertices and compositions without meaning are refused.',
    [('scen_graph', None)], rules={'graph', 'refusal'})
PROPS['C20'] = P(
    'Likelihoods from counts and covariances follow their data',
    'Counts and relative frequencies of boolean rows equal the number of occurrences of each '
    'combination plus the baseline, wherever asked; binary codes and numbers invert each other; '
    'conditional Gaussian draws lie within the limits and have the Schur mean, deviation and density.',
    [('scen_utils', rule_in('binary', 'counts', 'conditional', 'refusal'))],
    rules={'binary', 'counts', 'conditional', 'refusal'})
PROPS['C21'] = P(
    'Value types, grids and names are those asked for',
    'The type of every value, set or array is recognised and converted as asked; uniform grids and '
    'draws keep their bounds, end points and count; named dictionaries and icons keep their names '
    'and items, and refuse what is no name.',
    [('scen_utils', rule_in('types', 'grid', 'named'))],
    rules={'types', 'grid', 'named', 'refusal'})
PROPS['C22'] = P(
    'Quantiles locate the level within the cumulative probability',
    'A quantile lies between the two values bracketing the crossing of the cumulative probability '
    'along the last axis, at the values of the cell for every other axis, whatever the scale.',
    [('scen_quant', None)], rules={'quantile'})
PROPS['C23'] = P(
    'Names of distributions state their variables, roles and fixed values',
    'The name of every distribution an operation returns lists its marginal variables and, after a '
    'bar, its conditional ones; a variable is labelled with a value exactly if it is fixed, and with '
    'that value; the short name lists the keys alone.',
    [('scen_pd', small), ('scen_cond', small), ('scen_comb', small), ('scen_index', small), ('scen_iid', small),
     ('scen_quant', None), ('scen_rv', None), ('scen_field', None), ('scen_rf', None), ('scen_process', None),
     ('scen_remarg', None),
     ('scen_dist', None), ('scen_graph', lambda s: s.construct.endswith(('interface', 'variables')))], rules={'name'})
PROPS['C24'] = P(
    'Every name, attribute and call in the package resolves',
    'On every path, a name read is bound, what is imported exists, an attribute read is defined by '
    'the class or its family, and the arguments of a call to package code bind to its parameters.',
    [], rules={'name', 'import', 'attribute', 'call'}, lints=[('lint_names', 'resolution')], floor=40)
PROPS['C24']['explanation'] = (
    'Scope, namespace, class-family and signature resolution over the syntax trees of every module of the '
    'package: 4 rules judged at every use, whichever path reaches it. Nothing of /repo is executed. ') + \
    PROPS['C24']['rule_text']
PROPS['C24']['assumptions'] = [
    'Attributes of objects whose class is not known are only required to be defined by some class of the '
    'package, the standard library or the installed numpy, scipy, sympy, networkx or h5py.',
    'A local counts as bound if any path to the use binds it (loops and handlers taken generously).',
    'Nothing outside the package rebinds its names or attributes.']
PROPS['C25'] = P(
    'Instances made apart share no state',
    'Whatever is set, called or drawn on one instance, every observable attribute of an instance made '
    'before it, and of one made afterwards from the same arguments, is what it was.',
    [('scen_isolation', None)], rules={'isolated'})
PROPS['C30'] = P(
    'What a call returns does not depend on the calls made before it',
    'A call that settles nothing gives on an instance already called, sampled or refused what it gives on a fresh one '
    'made the same way, and leaves every observable setting as it was.',
    [('scen_history', None)], rules={'history'})
PROPS['C29'] = P(
    'Chance enters only through the generator the caller seeds',
    'Every draw is taken from the global generator of numpy, which nothing in the package seeds, replaces or '
    'restores; requests that leave nothing to chance take no draw; no process-wide setting is changed and no file '
    'or process is opened that the caller did not name.',
    [('scen_draws', None)], rules={'draws', 'chance', 'settings', 'files'}, lints=[('lint_effects', 'effects')],
    floor=100)
