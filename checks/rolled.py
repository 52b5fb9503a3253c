"""n rolled copies of a die with exactly k symbolic faces"""
import itertools
from .probe import *


def rolled(w, st, D, N, real=False):
  """a die object that remembers being N rolls of D; real: through roll() itself"""
  if not real:
    R = w.die('#R', st) if N > 1 else D
    if N > 1:
      m = w.RV.lookup('set_source')[0]
      if m is not None:
        try:
          w.I.call(O(Bound(m, R)), [C(N), D], {}, st, w.fr)
          return R
        except PyRaise:
          pass
  return run(w, st, lambda s: w.I.call(w.pub('roll'), [C(N), D], {}, s, w.fr)).val


def outcomes(k, N):
  """multisets as ascending index tuples with the number of their orderings"""
  for c in itertools.combinations_with_replacement(range(k), N):
    n = math.factorial(N)
    for i in set(c):
      n //= math.factorial(c.count(i))
    yield c, n


def weight(c, n, ps):
  t = C(n)
  for i in c:
    t = mul(t, ps[i])
  return t


def bag_of(vs, ps, N, f):
  """segments (f(ascending faces), weight) over all multisets"""
  return [it(tuple_of(f([vs[i] for i in c]), weight(c, n, ps))) for c, n in outcomes(len(vs), N)]


def add_all(xs):
  t = ZERO
  for x in xs:
    t = add(t, x)
  return t
