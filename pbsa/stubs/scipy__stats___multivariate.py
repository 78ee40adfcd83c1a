""" scipy.stats._multivariate: the base class the package tests for. """


class multi_rv_generic:
  pass
