""" The part of sympy.stats the package uses: a random symbol whose arguments are its
symbol and a probability space that holds the distribution. """
import sympy
import _abs
from sympy.stats import rv
from sympy.stats.rv import RandomSymbol


class SingleContinuousPSpace:
  def __init__(self, symbol, distribution):
    self.symbol, self.distribution = symbol, distribution
    self.args = (symbol, distribution)


class NormalDistribution:
  def __init__(self, mean, std):
    self.mean, self.std = mean, std
    self.args = (mean, std)

  def pdf(self, x):
    return _abs.sfn('phi', (x - self.mean) / self.std) / self.std

  def _cdf(self, x):
    return _abs.sfn('ndtr', (x - self.mean) / self.std)


class ExponentialDistribution:
  def __init__(self, rate):
    self.rate = rate
    self.args = (rate,)

  def pdf(self, x):
    return self.rate * sympy.exp(-self.rate * x)

  def _cdf(self, x):
    return 1 - sympy.exp(-self.rate * x)


class PoissonDistribution:
  def __init__(self, lamda):
    self.lamda = lamda
    self.args = (lamda,)

  def pdf(self, x):
    return _abs.sfn('poissond', x, self.lamda)

  def _cdf(self, x):
    raise TypeError('no closed form')


def Normal(name, mean, std):
  return RandomSymbol(name, SingleContinuousPSpace(name, NormalDistribution(mean, std)))


def Exponential(name, rate):
  return RandomSymbol(name, SingleContinuousPSpace(name, ExponentialDistribution(rate)))


def Poisson(name, lamda):
  return RandomSymbol(name, SingleContinuousPSpace(name, PoissonDistribution(lamda)))


def sample(expr, size=(), library='scipy', numsamples=1, seed=None):
  return _abs.rand('sample', None, *[_abs.key(a) for a in expr.pspace.distribution.args])
