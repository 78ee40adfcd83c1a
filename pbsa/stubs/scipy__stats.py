""" The part of scipy.stats the package uses: distributions whose functions are the
textbook compositions of the normal density phi, its integral ndtr and its inverse
ndtri (and of the uniform, exponential and Poisson functions). """
import numpy as np
import _abs
from scipy.stats import _multivariate
from scipy.stats._multivariate import multi_rv_generic


class rv_generic:
  def __call__(self, *args, **kwds):
    return rv_frozen(self, *args, **kwds)


class rv_frozen:
  def __init__(self, dist, *args, **kwds):
    self.dist, self.args, self.kwds = dist, args, kwds

  def pdf(self, x):
    return self.dist.pdf(x, *self.args, **self.kwds)

  def logpdf(self, x):
    return self.dist.logpdf(x, *self.args, **self.kwds)

  def pmf(self, x):
    return self.dist.pmf(x, *self.args, **self.kwds)

  def cdf(self, x):
    return self.dist.cdf(x, *self.args, **self.kwds)

  def ppf(self, x):
    return self.dist.ppf(x, *self.args, **self.kwds)

  def rvs(self, size=None):
    return self.dist.rvs(*self.args, size=size, **self.kwds)


class rv_continuous(rv_generic):
  pass


class rv_discrete(rv_generic):
  pass


class _loc_scale(rv_continuous):
  def pdf(self, x, loc=0, scale=1):
    return _abs.fn(self.density, (x - loc) / scale) / scale

  def logpdf(self, x, loc=0, scale=1):
    return np.log(_abs.fn(self.density, (x - loc) / scale)) - np.log(scale)

  def cdf(self, x, loc=0, scale=1):
    return _abs.fn(self.cumul, (x - loc) / scale)

  def logcdf(self, x, loc=0, scale=1):
    return np.log(self.cdf(x, loc, scale))

  def sf(self, x, loc=0, scale=1):
    return 1. - self.cdf(x, loc, scale)

  def logsf(self, x, loc=0, scale=1):
    return np.log(self.sf(x, loc, scale))

  def ppf(self, q, loc=0, scale=1):
    return loc + scale * _abs.fn(self.quantile, q)

  def isf(self, q, loc=0, scale=1):
    return self.ppf(1. - q, loc, scale)

  def mean(self, loc=0, scale=1):
    return loc

  def std(self, loc=0, scale=1):
    return scale

  def var(self, loc=0, scale=1):
    return scale ** 2

  def median(self, loc=0, scale=1):
    return loc

  def rvs(self, loc=0, scale=1, size=1, random_state=None):
    return loc + scale * _abs.rand(self.label, size)


class norm_gen(_loc_scale):
  density, cumul, quantile, label = 'phi', 'ndtr', 'ndtri', 'normal'


class cauchy_gen(_loc_scale):
  density, cumul, quantile, label = 'cauchyd', 'cauchyc', 'cauchyi', 'cauchy'


class poisson_gen(rv_discrete):
  def pmf(self, k, mu, loc=0):
    return _abs.fn('poissond', k - loc, mu)

  def logpmf(self, k, mu, loc=0):
    return np.log(_abs.fn('poissond', k - loc, mu))

  def cdf(self, k, mu, loc=0):
    return _abs.fn('poissonc', k - loc, mu)

  def logcdf(self, k, mu, loc=0):
    return np.log(_abs.fn('poissonc', k - loc, mu))

  def ppf(self, q, mu, loc=0):
    return loc + _abs.fn('poissoni', q, mu)

  def sf(self, k, mu, loc=0):
    return 1. - self.cdf(k, mu, loc)

  def rvs(self, mu, loc=0, size=1, random_state=None):
    return loc + _abs.rand('poisson', size, mu)

  def mean(self, mu, loc=0):
    return loc + mu


class multivariate_normal_gen(multi_rv_generic):
  def __call__(self, mean=None, cov=1, allow_singular=False, seed=None):
    return multivariate_normal_frozen(mean, cov)

  def pdf(self, x, mean=None, cov=1):
    return _abs.mvn(x, mean, cov)

  def logpdf(self, x, mean=None, cov=1):
    return np.log(_abs.mvn(x, mean, cov))

  def cdf(self, x, mean=None, cov=1):
    return _abs.mvncdf(x, mean, cov)

  def logcdf(self, x, mean=None, cov=1):
    return np.log(_abs.mvncdf(x, mean, cov))

  def rvs(self, mean=None, cov=1, size=1, random_state=None):
    return _abs.unknown('multivariate sample')


class multivariate_normal_frozen:
  def __init__(self, mean, cov):
    self.mean = np.array(mean)
    self.cov = np.array(cov)

  def pdf(self, x):
    return _abs.mvn(x, self.mean, self.cov)

  def logpdf(self, x):
    return np.log(_abs.mvn(x, self.mean, self.cov))

  def cdf(self, x):
    return _abs.mvncdf(x, self.mean, self.cov)

  def logcdf(self, x):
    return np.log(_abs.mvncdf(x, self.mean, self.cov))

  def rvs(self, size=1, random_state=None):
    return _abs.unknown('multivariate sample')


norm = norm_gen()
cauchy = cauchy_gen()
poisson = poisson_gen()
multivariate_normal = multivariate_normal_gen()
