"""Planted bugs: edits against /repo's HEAD with demonstrations."""
SEEDS = [
 dict(id='S01', prop='C01', needs='converting between two different log offsets',
      breaks='the offset of the source scale is ignored when both scales are logarithmic with offsets',
      edits=[('probayes/pscales.py', "  d_offs = logp_offs(pscale) - logp_offs(rtype)\n",
              "  d_offs = logp_offs(rtype) - logp_offs(pscale) if p_log and r_log and pscale and rtype \\\n"
              "      else logp_offs(pscale) - logp_offs(rtype)\n")],
      demo='''
import numpy as np
from probayes.pscales import rescale
p = rescale(np.log(0.25), complex(2., 0.), complex(3., 0.))
q = rescale(p, complex(3., 0.), 1.)
assert abs(q - 0.25 * np.exp(2.)) < 1e-9, q
'''),
 dict(id='S02', prop='C02', needs='expectation of a variable whose probabilities do not sum to one, keyed on a subset',
      breaks='the expectation is divided by the total over every axis rather than the summed axes',
      edits=[('probayes/pd.py', """      sum_prob = np.sum(prob, axis=tuple(set(sum_axes)), keepdims=False)
    else:
""", """      sum_prob = np.sum(prob) / max(1, prob.size // np.prod([prob.shape[d] for d in set(sum_axes)]))
    else:
""")],
      demo='''
import numpy as np
from probayes.pd import PD
p = np.array([[1., 3.], [2., 2.], [5., 1.]]) / 14.
pd = PD('x,y', {'x': np.arange(3.), 'y': np.arange(2.)}, prob=p)
e = pd.expectation('x')['x']
w = (p * np.arange(3.)[:, None]).sum(0) / p.sum(0)
assert np.allclose(e, w), (e, w)
'''),
 dict(id='S03', prop='C06', needs='sorting by one of two variables that share an axis',
      breaks='the companion variable of a shared axis keeps its unsorted values',
      edits=[('probayes/pd.py', """      else:
        vals.update({_key: np.ravel(_val)[keyidx]})
    return PD(self.name, vals, dims=self._dims, 
""", """      else:
        vals.update({_key: np.ravel(_val)})
    return PD(self.name, vals, dims=self._dims, 
""")],
      demo='''
import numpy as np
from probayes.pd import PD
pd = PD('x,y', {'x': np.array([3., 1., 2.]), 'y': np.array([30., 10., 20.])}, dims={'x': 0, 'y': 0},
        prob=np.array([.3, .1, .2]))
s = pd.sorted('x')
assert np.allclose(np.ravel(s['y']), [10., 20., 30.]), s['y']
'''),
 dict(id='S04', prop='C04', needs='a product with a factor of three axes of which the last two are listed in the other order',
      breaks='a factor with transposed axes is broadcast without moving them when its first axis stays in place',
      edits=[('probayes/pd_utils.py', "      if len(old_dims) > 1 and not old_dims == new_dims:",
              "      if len(old_dims) > 1 and not (old_dims == new_dims or len(old_dims) > 2 and old_dims[0] == new_dims[0]):")],
      demo="""
import collections
import numpy as np
from probayes.pd import PD
from probayes.pd_utils import product
x, y, z = np.arange(2.), np.arange(2.), np.arange(2.)
a = np.arange(1., 9.).reshape(2, 2, 2) / 36.
c = np.arange(2., 10.).reshape(2, 2, 2) / 36.
px = PD('x,y,z', collections.OrderedDict(x=x, y=y, z=z), dims=dict(x=0, y=1, z=2), prob=a)
pw = PD('w|x,z,y', collections.OrderedDict(w=1., x=x, z=z, y=y), dims=dict(w=None, x=0, z=1, y=2), prob=c)
pp = product(pw, px)
got = np.moveaxis(np.asarray(pp.prob), [pp.dims[k] for k in 'xyz'], [0, 1, 2])
want = a * np.moveaxis(c, [0, 2, 1], [0, 1, 2])
assert np.allclose(got, want), (got, want)
"""),
 dict(id='S05', prop='C05', needs='adding two distributions whose unspecified marginal counts differ',
      breaks='the count of an unspecified marginal is the largest of the counts rather than their total',
      edits=[('probayes/pd_utils.py', "          sum_vals[key] += list(val)[0]\n",
              "          sum_vals[key] = max(sum_vals[key], list(val)[0])\n")],
      demo="""
import numpy as np
from probayes.pd import PD
from probayes.pd_utils import summate
a = PD('x,y', {'x': {2}, 'y': 1.}, prob=.2)
b = PD('x,y', {'x': {5}, 'y': 3.}, prob=.3)
s = summate(a, b)
assert s['x'] == {7}, s['x']
"""),
 dict(id='S06', prop='C06', needs='sorting by a variable whose order is not an involution (three or more values in a cycle)',
      breaks='the rows are permuted by the ranks rather than by the sorting order',
      edits=[('probayes/pd.py', "    keyidx = np.argsort(ravals)\n    keyval = ravals[keyidx]\n\n",
              "    keyidx = np.argsort(np.argsort(ravals))\n    keyval = np.sort(ravals)\n\n")],
      demo="""
import numpy as np
from probayes.pd import PD
p = PD('x', {'x': np.array([30., 10., 20.])}, prob=np.array([.5, .2, .3]))
s = p.sorted('x')
got = dict(zip(np.ravel(s['x']).tolist(), np.ravel(s.prob).tolist()))
assert got == {30.: .5, 10.: .2, 20.: .3}, got
"""),
 dict(id='S07', prop='C09', needs='a deterministic grid over a float domain open at its lower end only',
      breaks='the grid keeps the excluded lower end and drops the included upper end',
      edits=[('probayes/vtypes.py', "    return np.linspace(v_0, v_1, n+1)[1:]\n",
              "    return np.linspace(v_0, v_1, n+1)[:n]\n")],
      demo="""
from probayes.vtypes import uniform
v = uniform(0., 1., 4, ex_0=True, ex_1=False)
assert min(v) > 0. and abs(max(v) - 1.) < 1e-12, v
"""),
 dict(id='S08', prop='C10', needs='a bounded variable with one open (bouncing) lower end and a step landing exactly upon it',
      breaks='a step onto the excluded end is accepted rather than reverted',
      edits=[('probayes/variable.py', "        outside = vals <= self._vlims[0]\n", "        outside = vals < self._vlims[0]\n")],
      demo="""
import numpy as np
import probayes as pb
x = pb.Variable('x', vtype=float, vset=[(0.,), 1.])
x.set_delta(0.5, bound=True)
v = x.apply_delta(np.array([0.5, 0.75]), delta=np.array([-0.5, -0.5]), bound=True)
assert np.all(v > 0.), v
"""),
 dict(id='S09', prop='C10', needs='an explicit delta given to a variable whose own default delta is scaled by its length',
      breaks='an explicit step is multiplied by the length of the domain',
      edits=[('probayes/variable.py', "    if delta == self._delta and self._delta_kwds['scale']:",
              "    if self._delta_kwds['scale']:")],
      demo="""
import probayes as pb
x = pb.Variable('x', vtype=float, vset=[0., 10.])
x.set_delta(0.1, scale=True)
d = x.eval_delta(0.25)
assert abs(d[0] - 0.25) < 1e-12, d
"""),
 dict(id='S10', prop='C12', needs='a log-scaled default probability and a value outside the domain',
      breaks='values outside a domain have log probability 0 (probability one)',
      edits=[('probayes/rv_utils.py', "  p_zero = NEARLY_NEGATIVE_INF if use_logs else 0.\n",
              "  p_zero = 0. if not use_logs or isscalar(prob) else NEARLY_NEGATIVE_INF\n")],
      demo="""
import numpy as np
import probayes as pb
x = pb.RV('x', vtype=float, vset=[0., 2.], pscale='log')
q = x({'x': np.array([1., 5.])})
p = np.ravel(q.rescaled(1.).prob)
assert abs(p[1]) < 1e-9, p
"""),
 dict(id='S11', prop='C12', needs='sampling backwards through a transition given as a pair of distinct matrices',
      breaks='the reverse step samples from the forward matrix',
      edits=[('probayes/rv.py', "             self._tran[int(reverse)]()\n      if isunitset",
              "             self._tran[0]()\n      if isunitset")],
      demo="""
import numpy as np
import probayes as pb
f = np.array([[0., 1.], [1., 0.]])
r = np.array([[1., 0.], [0., 1.]])
x = pb.RV('x', vtype=int, vset=[0, 1])
x.set_tran((f, r))
for _ in range(4):
  q = x.step(1, {0}, reverse=True)
  assert int(np.ravel(q["x'"])[0]) == 1, q
"""),
 dict(id='S12', prop='C15', needs='walking the same sampler a second time',
      breaks='a later walk counts the samples of the earlier walks towards its stop',
      edits=[('probayes/sp.py', "      if len(steps) >= stop:\n        break", "      if self.__counter[sampler] >= stop:\n        break")],
      demo="""
import numpy as np
import probayes as pb
x, y = [pb.RV(n, vtype=float, vset=[-9., 9.]) for n in 'xy']
m = pb.SP(x & y)
m.set_prob(lambda x, y: np.exp(-0.5 * (x * x + y * y)))
m.set_tran(lambda **k: 1.)
m.set_delta(0.5)
s = m.sampler({'x': 0., 'y': 0.}, stop=20)
assert [len(m.walk(s, n)) for n in (4, 3, 5)] == [4, 3, 5]
"""),
 dict(id='S13', prop='C19', needs='chaining three or more dependences serially',
      breaks='a serial dependence of three or more stages takes the roots of its second stage',
      edits=[('probayes/dependence.py', "        elif i == len(args) - 1:\n          roots = arg.roots\n",
              "        elif i == 1:\n          roots = arg.roots\n")],
      demo="""
import probayes as pb
v = [pb.RV(n, vtype=int, vset=[0, 1]) for n in 'abcd']
d = pb.SD(v[0] | v[1], v[1] | v[2], v[2] | v[3])
assert set(d.roots.keylist) == {'d'}, d.roots.keylist
"""),
 dict(id='S14', prop='C20', needs='conditional sampling of a bounded covariance model whose means differ from one variable to another',
      breaks='every bound is recentred upon the mean of the first variable',
      edits=[('probayes/cond_cov.py', "np.atleast_2d(lims) - np.expand_dims(self._mean, -1)", "np.atleast_2d(lims) - self._mean[0]")],
      demo="""
import numpy as np
from probayes.cond_cov import CondCov
c = CondCov([0., 10.], np.array([[1., 0.], [0., 1.]]), np.array([[-1., 1.], [9., 11.]]))
v = np.ravel(c.interp(0., {4}))
assert np.all(np.abs(v - 10.) <= 1. + 1e-9), v
"""),
 dict(id='S15', prop='C22', needs='quantiles of a distribution held on a logarithmic scale',
      breaks='the cumulative sum is taken over the stored log probabilities',
      edits=[('probayes/pd.py', "    cumprob = np.cumsum(ravprob)\n",
              "    cumprob = np.cumsum(np.ravel(self.prob))\n")],
      demo="""
import numpy as np
from probayes.pd import PD
p = np.array([.05, .1, .6, .2, .05])
a = PD('x', {'x': np.arange(5.)}, prob=p)
b = PD('x', {'x': np.arange(5.)}, prob=np.log(p), pscale='log')
for q in (.1, .3, .8, .9):
  u, v = a.quantile(q)['x'], b.quantile(q)['x']
  assert np.allclose(u, v), (q, u, v)
"""),
 dict(id='S16', prop='C23', needs='values for several variables given under one comma-separated key',
      breaks='every variable of a joint key takes the first of the values',
      edits=[('probayes/dependence.py', "            vals.update({subkey: val[i]})\n", "            vals.update({subkey: val[0]})\n")],
      demo="""
import numpy as np
import probayes as pb
a, b = [pb.RV(n, vtype=float, vset=[0., 4.]) for n in 'ab']
d = pb.SD(a, b)
n = d.eval_dist_name({'a,b': [1., 3.]})
assert n == d.eval_dist_name({'a': 1., 'b': 3.}), n
"""),
 dict(id='S17', prop='C11', needs='a function registered for an output with one known input beside one unknown input',
      breaks='a specification naming inputs outside the input set is accepted as long as one is known',
      edits=[('probayes/functional.py', "    assert spec_inp.issubset(self._inp_set), \\\n", "    assert spec_inp.intersection(self._inp_set), \\\n")],
      demo="""
import probayes as pb
from probayes.functional import Functional
x, y, a, b, w = [pb.Variable(n, vtype=float) for n in 'xyabw']
f = Functional(a & b, x & y)
refused = False
try:
  f.add_func({a: x, b: w}, lambda x, y=0., w=0.: (x, w))
except AssertionError:
  refused = True
assert refused
"""),
 dict(id='S18', prop='C07', needs='a boolean step given as an array, with the caller keeping the array it passed',
      breaks='the values passed in are flipped in place',
      edits=[('probayes/variable.py', "          vals = np.copy(values)\n          vals[flip]", "          vals = values\n          vals[flip]")],
      demo="""
import numpy as np
import probayes as pb
x = pb.Variable('x', vtype=bool, vset=[False, True])
v = np.zeros(64, dtype=bool)
w = x.apply_delta(v, delta=[1.])
assert not v.any(), v
"""),
 dict(id='S19', prop='C18', needs='a lookup keyed on every variable at once, with hash randomisation',
      breaks='the mesh of a lookup follows the iteration order of a set',
      edits=[('probayes/distribution.py', "    for i, key in enumerate(self._keylist):\n      if key in keys and key not in seen_keys:",
              "    for key in list(keys) if len(keys) == len(self._keylist) else self._keylist:\n      i = self._keylist.index(key)\n      if key in keys and key not in seen_keys:")],
      demo="""
import os
import subprocess
import sys
code = "import numpy as np; from probayes.pd import PD; n = 4; " \\
  "v = {'abcd'[i]: np.arange(2.) for i in range(n)}; " \\
  "p = PD('a,b,c,d', v, prob=np.ones([2] * n) / 16.); print(','.join(p.lookup(['a', 'b', 'c', 'd'])))"
seen = set()
for seed in range(12):
  env = dict(os.environ, PYTHONHASHSEED=str(seed))
  seen.add(subprocess.check_output([sys.executable, '-W', 'ignore', '-c', code], env=env, text=True).strip())
assert seen == {'a,b,c,d'}, seen
"""),
 dict(id='S20', prop='C13', needs='factors of a joint distribution kept on different probability scales',
      breaks='the factors of a joint distribution are all combined as if they were on the scale of the joint',
      edits=[('probayes/sd_utils.py', "  pscales = [subarch.pscale for subarch in arch]\n", "  pscales = [arch[0].pscale for subarch in arch]\n")],
      demo="""
import numpy as np
import probayes as pb
x, y, z = [pb.RV(n, vtype=int, vset=[0, 1]) for n in 'xyz']
u = x | y
u.set_prob(lambda x, y: np.log(.3 + .2 * x + .1 * y), pscale='log')
v = x | z
v.set_prob(lambda x, z: .5 + .1 * x - .2 * z)
for d in (pb.SD(u, v), pb.SD(v, u)):
  d.set_prob()
  p = d({'x': 1, 'y': 1, 'z': 1}).rescaled(1.).prob
  assert abs(float(np.ravel(p)[0]) - .24) < 1e-9, p
"""),
 dict(id='S21', prop='C16', needs='hastings acceptance where the forward and reverse proposals differ and are log-scaled',
      breaks='the reverse proposal probability is rescaled the wrong way',
      edits=[('probayes/sp_utils.py', "      revp = rescale(revp.prob, pscale, 1.)\n", "      revp = rescale(revp.prob, 1., pscale)\n")],
      demo="""
import collections
import numpy as np
from probayes.sp_utils import hastings_scores
P = collections.namedtuple('P', 'prob')
T = collections.namedtuple('T', 'o p q r')
s = hastings_scores(T(P(np.log(.4)), P(np.log(.2)), P(np.log(.5)), P(np.log(.25))), pscale='log')
assert abs(s - .25) < 1e-9, s
"""),

 dict(id='S22', prop='C02', needs='redistributing a distribution whose values fall exactly on the edges of the target',
      breaks='a value on an edge is counted in the cell below it',
      edits=[('probayes/pd.py', "np.digitize(rav_vals, edges)-1))", "np.digitize(rav_vals, edges, right=True)-1))")],
      demo="""
import numpy as np
from probayes.pd import PD
from probayes.distribution import Distribution
p = PD('x', {'x': np.arange(4.)}, prob=np.array([.1, .2, .3, .4]))
t = Distribution('y', {'y': np.array([0., 10., 20.])})
r = p.remarginalise(t, y=np.array([0., 10., 10., 20.]))
assert np.allclose(r.prob, [.1, .5, .4]), r.prob
"""),
 dict(id='S23', prop='C03', needs='conditioning a distribution that is already conditional upon an array of values',
      breaks='the normalisation runs over the conditioning variables as well',
      edits=[('probayes/pd.py', "        if key not in keys and key in self._marg.keys():\n", "        if key not in keys:\n")],
      demo="""
import numpy as np
from probayes.pd import PD
p = np.arange(1., 9.).reshape([2, 2, 2])
d = PD('x,y|z', {'x': np.arange(2.), 'y': np.arange(2.), 'z': np.arange(2.)}, prob=p)
c = d.conditionalise('y')
a = [c.dims[k] for k in 'xyz']
q = np.transpose(c.prob, a)
assert np.allclose(q, p / p.sum(0, keepdims=True)), q
"""),
 dict(id='S24', prop='C14', needs='sampling from the last sample of a chain with a transition, and reading the distribution of the predecessor',
      breaks='a sample carries the predecessor of its predecessor',
      edits=[('probayes/sd.py', "      orig = args[0].p\n", "      orig = args[0].o if args[0].o is not None else args[0].p\n")],
      demo="""
import numpy as np
import probayes as pb
x = pb.RV('x', vtype=float, vset=[0., 9.])
y = pb.RV('y', vtype=float, vset=[0., 9.])
s = pb.SP(x & y)
s.set_prob(lambda x, y: np.exp(-x - y))
s.set_tran(lambda **kw: 1.)
s.set_delta([.5])
np.random.seed(1)
o = s.sample({'x': 4., 'y': 4.})
for i in range(4):
  last, o = o, s.sample(o)
  assert o.o is last.p
"""),
 dict(id='S25', prop='C17', needs='serialising a distribution held on a logarithmic scale with an offset',
      breaks='a logarithmic scale with an offset is read back as a coefficient',
      edits=[('probayes/pd_utils.py', "np.atleast_1d(pscale).tolist()[0]", "np.real_if_close(np.atleast_1d(pscale)).tolist()[0]")],
      demo="""
import numpy as np
from probayes.pd import PD
from probayes.pd_utils import serialise, deserialise
p = PD('x', {'x': np.arange(3.)}, prob=np.log([.2, .3, .5]) - 2., pscale=complex(2., 0.))
q, = deserialise(serialise(p))
assert np.iscomplexobj(q.pscale) and q.pscale == p.pscale, q.pscale
assert np.allclose(q.rescaled(1.).prob, p.rescaled(1.).prob)
"""),
 dict(id='S26', prop='C25', needs='two processes in one program, reading all counters of one of them',
      breaks='the counters and last samples of all processes are kept in one place',
      edits=[('probayes/sp.py', "  __counter = None   # Step counter\n", "  __counter = collections.Counter()   # Step counter\n")],
      demo="""
import probayes as pb
x = pb.RV('x', vtype=float, vset=[0., 9.])
y = pb.RV('y', vtype=float, vset=[0., 9.])
a, b = pb.SP(x & y), pb.SP(x & y)
next(a.sampler({0}, stop=3))
assert len(b.get_counter()) == 0, b.get_counter()
"""),
 dict(id='S27', prop='C29', needs='seeding the generator of numpy and drawing several values at random twice',
      breaks='several values at random come from a generator the caller cannot seed',
      edits=[('probayes/vtypes.py', "    return np.random.uniform(v_0, v_1, size=-n)\n", "    return np.random.default_rng().uniform(v_0, v_1, size=-n)\n")],
      demo="""
import numpy as np
import probayes as pb
x = pb.RV('x', vtype=float, vset=[0., 9.])
np.random.seed(3)
a = x({-4})['x']
np.random.seed(3)
b = x({-4})['x']
assert np.array_equal(a, b), (a, b)
"""),
 dict(id='S28', prop='C08', needs='a variable of the reals under a decreasing transformation',
      breaks='the length of a domain under a decreasing transformation is negative',
      edits=[('probayes/variable.py', """    self._length = max(self._ulims) - min(self._ulims)
    self._lhv = log_prob(self._length) if self._isfinite else np.inf
    self._nlhv""", """    self._length = self._ulims[1] - self._ulims[0]
    self._lhv = log_prob(self._length) if self._isfinite else np.inf
    self._nlhv""")],
      demo="""
import numpy as np
import probayes as pb
x = pb.Variable('x', vtype=float, vset=[1., 4.])
x.set_ufun((lambda v: 1. / v, lambda v: 1. / v))
assert abs(x.length - .75) < 1e-9, x.length
assert abs(x.lhv - np.log(.75)) < 1e-9, x.lhv
"""),
 dict(id='S29', prop='C24', needs='summarising something that is no sample of the process',
      breaks='the report of a foreign sample fails on an attribute that does not exist',
      edits=[('probayes/sp.py', '"Sample must be outputted from sampler: {}".format(self._id)', '"Sample must be outputted from sampler: {}".format(self.__id)')],
      demo="""
import probayes as pb
x = pb.RV('x', vtype=float, vset=[0., 9.])
y = pb.RV('y', vtype=float, vset=[0., 9.])
s = pb.SP(x & y)
try:
  s([1])
except AssertionError:
  pass
else:
  raise RuntimeError('accepted')
"""),
 dict(id='S30', prop='C21', needs='values of single precision',
      breaks='single precision values are not recognised as real',
      edits=[('probayes/vtypes.py', "  np.dtype('float32'), np.dtype('float64')},", "  np.dtype('float64')},")],
      demo="""
import numpy as np
from probayes.vtypes import eval_vtype
assert eval_vtype(np.array([1., 2.], dtype=np.float32)) is float, eval_vtype(np.array([1.], dtype=np.float32))
"""),
 dict(id='S31', prop='C15', needs='summarising a chain whose update compares numbers of numpy',
      breaks='rejected samples are counted in the summary',
      edits=[('probayes/sp.py', "        if sample.u == False:\n", "        if sample.u is False:\n")],
      demo="""
import numpy as np
import probayes as pb
x = pb.RV('x', vtype=float, vset=[0., 9.])
y = pb.RV('y', vtype=float, vset=[0., 9.])
s = pb.SP(x & y)
s.set_prob(lambda x, y: np.exp(-4. * x - 4. * y))
s.set_tran(lambda **kw: 1.)
s.set_delta([3.], bound=True)
s.set_scores('metropolis')
s.set_thresh('metropolis')
s.set_update(lambda stuv: np.bool_(stuv.s is None or stuv.s >= stuv.t))
np.random.seed(2)
w = s.walk(s.sampler({'x': 1., 'y': 1.}, stop=60))
n = sum(bool(i.u) for i in w)
assert 0 < n < 60, n
assert len(s(w).u) == n, (len(s(w).u), n)
"""),
 dict(id='S32', prop='C30', needs='a delta applied with a bound of its own, and another without one afterwards',
      breaks='the bound given for one delta holds for those applied later',
      edits=[('probayes/variable.py', "    if bound is None:\n      bound = False if 'bound' not in",
              "    if bound is not None:\n      self._delta_kwds['bound'] = bound\n    else:\n      bound = False if 'bound' not in")],
      demo="""
import probayes as pb
x = pb.Variable('x', vtype=float, vset=[0., 3.])
assert x.apply_delta(1., 5.) == 6.
assert x.apply_delta(1., 5., bound=True) == 3.
assert x.apply_delta(1., 5.) == 6., x.apply_delta(1., 5.)
"""),
 dict(id='S33', prop='C30', needs='a delta of its own applied to a field, and the default applied afterwards',
      breaks='the delta given for one call replaces the default of the field',
      edits=[('probayes/field.py', "    delta = delta or self._delta\n    if delta is None:\n      return values\n",
              "    delta = self._delta = delta or self._delta\n    if delta is None:\n      return values\n")],
      demo="""
import probayes as pb
x = pb.Variable('x', vtype=float, vset=[0., 9.])
y = pb.Variable('y', vtype=float, vset=[0., 9.])
f = x & y
at = {'x': 1., 'y': 2.}
assert dict(f.apply_delta(at)) == at
assert f.apply_delta(at, f.Delta(x=.5, y=.25))['x'] == 1.5
assert dict(f.apply_delta(at)) == at, f.apply_delta(at)
"""),
]
