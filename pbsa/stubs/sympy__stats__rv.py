""" sympy.stats.rv: random symbols. """
import sympy


class RandomSymbol(sympy.Expr):
  _closed = True      # no attributes beyond those below

  def __init__(self, symbol, pspace):
    self.symbol, self.pspace = symbol, pspace
    self.args = (symbol, pspace)
    self.name = symbol.name
    self.free_symbols = {self}
