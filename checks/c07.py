"""C07: results do not depend on which calls were made before (relational: with and without a history)"""
import re
from .rolled import *
from .c06 import deep

OBS = '''
def obs(x):
  if isinstance(x, RV):
    return ('die', x.vals, x.probs, tuple([type(v).__name__ for v in x.vals]), str(x), len(x), x._source_roll, x._source_die.vals, x._source_die.probs)
  if isinstance(x, BlankRV):
    return ('empty', len(x), str(x))
  if isinstance(x, StringSeq):
    return ('texts', str(x), len(x))
  if isinstance(x, Seq):
    return ('seq', tuple(x), tuple([type(v).__name__ for v in x]), str(x))
  if isinstance(x, (list, tuple)):
    return tuple([obs(y) for y in x])
  if isinstance(x, (bool, int, float)):
    return ('num', x, type(x).__name__)
  return x
'''

# operations (over the parameters below) and, for each, requests that resemble it
OPS = [
  ('roll(2, E)', ['roll(5, E)', 'roll(2, F)', 'roll(3, E)', 'roll(2, G)', 'roll(-2, E)', 'roll(4, E)', 'roll(E)', 'roll(1, E)', 'str(roll(2, roll(E)))']),
  ('roll(3, E)', ['roll(2, E)', 'roll(3, F)', 'roll(-3, E)', 'roll(6, E)', 'roll(1, roll(3, E))', 'roll(2, roll(3, E))']),
  ('roll(-2, E)', ['roll(2, E)', 'roll(-2, F)', 'roll(2, -E)']),
  ('roll(E)', ['roll(3, E)', 'roll(2, E)', 'roll(5, E)', 'roll(-1, E)', 'roll(F)']),
  ('roll(6)', ['roll(2, 6)', 'roll(-6)', 'roll(1, 6)', 'roll(3, 6)', 'roll("2d6")', 'roll([1, 2, 3, 4, 5, 6])', 'roll(5)']),
  ('roll(2, 6)', ['roll(2, roll(6))', 'roll(2, [1, 2, 3, 4, 5, 6])', 'roll(2, [1.0, 2.0, 3.0, 4.0, 5.0, 6.0])', 'roll(2, roll(1, 6))', 'roll(3, 6)', 'roll(6, 2)', 'roll(2, -6)', 'roll([2], 6)', 'roll("2d6")']),
  ('roll("2d6")', ['roll("3d6")', 'roll("d6")', 'roll(2, 6)', 'roll("6d2")']),
  ('roll(2, [1, 2])', ['roll(2, [1.0, 2.0])', 'roll(2, [True, 2])', 'roll(2, [1, 2, 2])', 'roll(2, [2, 1])', 'roll(2, 2)', 'roll(2, RV([1, 2], [1, 3]))', 'roll(4, [1, 2])']),
  ('roll(2, [1.0, 2.0])', ['roll(2, [1, 2])', 'roll(2, 2)']),
  ('roll(2, [1.5, 2.5])', ['roll(2, [1, 2])', 'roll(2, [1.5, 2])']),
  ('roll(2, RV([0, 1, 2], [0, 1, 1]))', ['roll(2, [1, 2])', 'roll(2, RV([0, 1, 2], [1, 1, 1]))', 'roll(2, RV([-1, 1, 2], [0, 1, 1]))']),
  ('roll([1, 2], 4)', ['roll(3, 4)', 'roll([2, 1], 4)', 'roll([1, 2], 5)', 'roll(roll([1, 2]), 4)']),
  ('roll(roll(2), 3)', ['roll(2, 3)', 'roll(1, 3)', 'roll(roll(2), 4)', 'roll(roll(3), 3)', 'roll(roll(2), roll(1, 3))']),
  ('roll(RV([0, 2], [1, 1]), E)', ['roll(RV([0, 2], [1, 3]), E)', 'roll(2, E)', 'roll(0, E)']),
  ('roll(2, StringSeq(["a", "b"]))', ['roll(2, StringSeq(["b", "c"]))', 'roll(2, 2)']),
  ('roll(2, H)', ['roll(3, H)', 'roll(4, H)', 'roll(2, [1, 2])']),
  ('roll(3, Z)', ['roll(2, Z)', 'roll(6, Z)', 'roll(3, [1, 2])']),
  ('1 @ roll(2, H)', ['roll(2, H)', '1 @ H']),
  ('Z + H', ['H + Z', 'roll(2, Z)', 'Z * H']),
  ('gN(Z)', ['gS(Z)', 'gN(H)']),
  ('gS(roll(2, Z))', ['gS(roll(2, 2))', 'gN(Z)']),
  ('E + F', ['E + E', 'F + E', 'E - F', 'E + 1', 'roll(2, E)']),
  ('E * 2', ['E * 2.0', 'E * 3', 'E + E']),
  ('E == F', ['E == E', 'F == E', 'E != F', 'E > F', 'hash(E)', 'hash(F)']),
  ('RV([1, 2], [1, 1]) / 2', ['RV([1, 2], [1, 1]) // 2', 'RV([1, 2], [1, 1]) / 2.0', 'RV([1.0, 2.0], [1, 1]) / 2']),
  ('-E', ['-F', '+E', 'abs(E)', '-roll(2, E)']),
  ('1 @ roll(3, E)', ['2 @ roll(3, E)', '1 @ roll(3, F)', '1 @ roll(2, E)', 'roll(3, E)', '3 @ roll(3, E)']),
  ('2 @ roll(3, 4)', ['1 @ roll(3, 4)', '2 @ roll(3, 5)', '2 @ roll(4, 4)', '2 @ roll(3, [4, 3, 2, 1])', '2 @ roll(3, [1.0, 2.0, 3.0, 4.0])', '[2] @ roll(3, 4)']),
  ('Seq(1, 3) @ roll(3, 4)', ['Seq(1, 2) @ roll(3, 4)', 'Seq(3, 1) @ roll(3, 4)', 'Seq(1, 3) @ roll(4, 4)', '1 @ roll(3, 4)', 'Seq([1, 3, 3]) @ roll(3, 4)', 'Seq(1, 3) @ roll(3, RV([1, 2, 3, 4], [1, 1, 1, 2]))']),
  ('1 @ E', ['1 @ F', '2 @ E', '0 @ E', '1 @ roll(2, E)']),
  ('2 @ Seq(5, 6, 7)', ['1 @ Seq(5, 6, 7)', '2 @ Seq(5, 7, 6)', 'Seq(1, 2) @ Seq(5, 6, 7)']),
  ('Seq(1, 2) == 2', ['Seq(1, 2) == 1', 'Seq(1, 2) != 2', 'Seq(2, 2) == 2', 'Seq(1, 2) == Seq(1, 2)']),
  ('len(roll(2, E))', ['len(E)', 'len(roll(3, E))', 'roll(1, E)']),
  ('str(roll(2, 6))', ['str(roll(1, 6))', 'str(roll(2, roll(6)))', 'str(roll(2, [1, 2, 3, 4, 5, 6]))', 'str(roll(3, 6))', 'roll(2, roll(1, 6))']),
  ('str(roll(2, [1, 2, 3, 4]))', ['str(roll(2, 4))', 'str(roll(2, roll(4)))', 'roll(2, 4)']),
  ('output(roll(2, 4), print_=False)', ['output(roll(2, 4), print_=False, named="x")', 'output(roll(2, 3), print_=False)', 'output(roll(2, 4), print_=False, blocks_width=20)', 'output(roll(2, 4), print_=False, show_pdf=False)', 'output(roll(2, 4), print_=False, cdf_cut=20)']),
  ('roll(2, 4).output(print_=False)', ['output(roll(2, 4), print_=False, blocks_width=20)', 'roll(2, 3).output(print_=False)']),
  ('output(3, print_=False)', ['output(3.0, print_=False)', 'output(True, print_=False)', 'output(BlankRV(), print_=False)']),
  ('RV([1, 2, 3, 4], [1, 1, 1, 97]).get_vals_probs(0.02)', ['RV([1, 2, 3, 4], [1, 1, 1, 97]).get_vals_probs()', 'RV([1, 2, 3, 4], [1, 1, 1, 97]).get_vals_probs(0.9)', 'RV([1, 2, 3, 4], [1, 1, 1, 7]).get_vals_probs(0.02)']),
  ('RV([1, 2, 3], [1, 2, 3]).get_cdf()', ['RV([1, 2, 3], [1, 2, 4]).get_cdf()', 'RV([1, 2, 3], [1, 2, 3]).mean()', 'RV([1, 2, 3], [1, 2, 3]).std()']),
  ('roll(6).mean()', ['roll(2, 6).mean()', 'roll(6).std()', 'roll(8).mean()']),
  ('roll(6).std()', ['roll(2, 6).std()', 'roll(6).mean()']),
  ('roll(6).filter([1, 2])', ['roll(6).filter(1)', 'roll(6).filter([3])', 'roll(8).filter([1, 2])']),
  ('RV([3, 1, 2], [2, 4, 2])', ['RV([3, 1, 2], [2, 4, 4])', 'RV([3.0, 1.0, 2.0], [2, 4, 2])', 'RV([3, 1, 2], [2, 4, 2], truncate=True)']),
  ('RV([1.5, 2.5, 1.9], [1, 1, 1])', ['RV([1.5, 2.5, 1.9], [1, 1, 1], truncate=True)', 'RV([1, 2, 1], [1, 1, 1])']),
  ('RV([1, 2, 3], [1, 0, 1])', ['RV([1, 3], [1, 1])', 'RV([1, 2, 3], [1, 1, 1])']),
  ('RV.from_rvs([E, F, 5])', ['RV.from_rvs([F, E, 5])', 'RV.from_rvs([E, F, 5], [1, 2, 3])', 'RV.from_rvs([E, F])', 'RV.from_rvs([None, E])']),
  ('get_seq([1, [2, 3]], 4)', ['get_seq([1, 2], [3, 4])', 'get_seq([1.0, [2, 3]], 4)', 'get_seq(["a"], 4)']),
  ('Seq(roll(4), 2)', ['Seq(roll(5), 2)', 'Seq(roll(4), 3)']),
  ('gN(E)', ['gN(F)', 'gS(E)', 'gD(E)', 'gN(3)', 'gN(Seq(1, 2))', 'gBoom(E)']),
  ('gN(roll(2, 3))', ['gN(roll(3, 3))', 'gS(roll(2, 3))', 'gBoom(roll(2, 3))', 'gD(roll(2, 3))', 'gDeep(3)']),
  ('gS(roll(2, 3))', ['gS(roll(3, 3))', 'gN(roll(2, 3))', 'gS(roll(2, [1, 2, 3]))', 'gS(roll(2, [1.0, 2.0, 3.0]))', 'gS(roll(2, RV([1, 2, 3], [1, 1, 2])))', 'gBoom(roll(2, 3))', '1 @ roll(2, 3)']),
  ('gS(E)', ['gS(F)', 'gN(E)', 'gS(roll(2, E))']),
  ('gSS(roll(2, 3))', ['gS(roll(2, 3))', '1 @ roll(2, 3)', 'gSS(roll(3, 3))']),
  ('gD(Seq(1, 2))', ['gD(Seq(2, 1))', 'gD(E)', 'gD(3)']),
  ('gKw(q=roll(2), p=roll(3))', ['gKw(q=roll(3), p=roll(2))', 'gKw(roll(2), roll(3))', 'gKw(2, roll(3))', 'gBoom(q=roll(2))']),
  ('gDeep(4)', ['gDeep(20)', 'gDeep(2)', 'gBoom(4)', 'gBoomDeep(3)']),
  ('gDeep(20)', ['gDeep(4)', 'gBoom(4)', 'gBoomDeep(9)']),
  ('explode_X(roll(3))', ['explode_X(roll(4))', 'explode_X(roll(3), depth=1)', 'explode_X(roll(2, 3))', 'maximum_of_X(roll(3))']),
  ('highest_X_of_X(2, roll(3, 3))', ['highest_X_of_X(1, roll(3, 3))', 'lowest_X_of_X(2, roll(3, 3))', 'highest_X_of_X(2, roll(3, 2))', 'middle_X_of_X(1, roll(3, 3))']),
  ('lowest_X_of_X(1, roll(2, 3))', ['highest_X_of_X(1, roll(2, 3))', 'lowest_X_of_X(1, roll(3, 3))']),
  ('middle_X_of_X(1, roll(3, 3))', ['middle_X_of_X(2, roll(3, 3))', 'middle_X_of_X(1, roll(2, 3))']),
  ('maximum_of_X(roll(4))', ['maximum_of_X(roll(6))', 'maximum_of_X(roll(2, 4))']),
  ('count_X_in_X(Seq(1, 2), roll(2, 3))', ['count_X_in_X(Seq(2, 3), roll(2, 3))', 'count_X_in_X(Seq(1, 2), roll(3, 3))']),
  ('X_contains_X(roll(2, 3), 2)', ['X_contains_X(roll(2, 3), 1)', 'X_contains_X(roll(3, 3), 2)']),
  ('sort_X(Seq(2, 3, 1))', ['sort_X(Seq(3, 2, 1))', 'reverse_X(Seq(2, 3, 1))', 'sort_X(roll(2, 3))']),
  ('reverse_X(Seq(2, 3, 1))', ['reverse_X(Seq(3, 2))', 'sort_X(Seq(2, 3, 1))']),
  ('absolute_X(RV([-1, 2], [1, 1]))', ['absolute_X(RV([-1, 3], [1, 1]))', 'absolute_X(-2)']),
  ('myMatmul(2, 345)', ['myMatmul(1, 345)', 'myMatmul(2, 435)', 'myMatmul(2, Seq(3, 4, 5))', 'myMatmul(True, 345)']),
  ('myLen(345)', ['myLen(34)', 'myLen(roll(3, 6))', 'myLen(-345)']),
  ('myInvert(2)', ['myInvert(0)', 'myInvert(E)']),
  ('myAnd(2, 1)', ['myAnd(0, 1)', 'myOr(2, 1)', 'myAnd(E, 1)']),
  ('StringSeq(["a", "b", 2])', ['StringSeq(["b", "a", 2])', 'StringSeq(["a"])']),
  ('output(roll(2, StringSeq(["a", "b"])), print_=False)', ['output(roll(2, StringSeq(["a", "c"])), print_=False)', 'output(roll(StringSeq(["a", "b"])), print_=False)']),
  ('BlankRV() + E', ['BlankRV() - E', 'BlankRV() + F', 'BlankRV() == E']),
  ('roll(BlankRV())', ['roll(BlankRV(), E)', 'roll(2, BlankRV())', 'roll([])']),
  ('roll(BlankRV(), 6)', ['roll(BlankRV())', 'roll(6)', 'roll(0, 6)']),
  ('gS(R)', ['gSS(R)', 'gN(R)', '1 @ R', 'Seq(1, 2) @ R', 'R + 1', 'str(R)', 'output(R, print_=False)']),
  ('gSS(R)', ['gS(R)', 'len(R)']),
  ('1 @ R', ['2 @ R', 'gS(R)', 'Seq(1, 2) @ R', 'roll(2, R)']),
  ('2 @ W', ['1 @ W', 'gS(W)', 'Seq(1, 3) @ W']),
  ('Seq(1, 3) @ W', ['Seq(3, 1) @ W', 'gS(W)', '3 @ W', 'lowest_X_of_X(1, W)']),
  ('sort_X(W)', ['reverse_X(W)', 'gS(W)', 'maximum_of_X(W)']),
  ('roll(2, R)', ['roll(3, R)', 'R + R', '1 @ roll(2, R)', 'roll(1, R)', 'roll(2, W)']),
  ('(R, str(R), R.mean(), R.std(), R.get_vals_probs(0.3), R.get_cdf(), R.filter(1), hash(R), len(R))', ['R.mean()', 'R.get_vals_probs(0.9)', 'str(R)', 'R.filter(2)', 'output(R, print_=False, cdf_cut=30)', 'gS(R)', 'roll(1, R)']),
  ('explode_X(R)', ['explode_X(W)', 'maximum_of_X(R)', 'explode_X(R, depth=1)']),
  ('highest_X_of_X(1, W)', ['lowest_X_of_X(1, W)', 'gS(W)', 'middle_X_of_X(1, W)', 'highest_X_of_X(2, W)']),
  ('(Q.sum(), 2 @ Q, str(Q), len(Q), Q == 2)', ['2 @ Q', 'sort_X(Q)', 'reverse_X(Q)', 'Q + 1', 'roll(Q)', 'gS(Q)', 'gN(Q)', 'Seq(Q, 4)', 'Q @ R', '~Q']),
  ('Q @ W', ['Q @ R', 'W + Q', '2 @ Q', 'Seq(1, 3) @ W', 'gS(W)']),
  ('roll(2, Q)', ['roll(Q, 2)', 'roll(Q)', 'sort_X(Q)', 'roll(2, get_seq(Q))']),
  ('R + W', ['W + R', 'R - W', 'R + R', 'gS(R)', 'roll(2, R)']),
  ('Y.output(print_=False)', ['Y + 1', 'roll(Y)', 'gD(Y)', 'gN(Y)', '1 @ Y']),
  ('hash(roll(2, 3))', ['hash(roll(3, 2))', 'hash(roll(2, [1.0, 2.0, 3.0]))']),
]

# dice with equal faces, totals, means, ends, numbers of faces, faces that compare equal, negated, scaled
LIKE = [
  ['RV([1, 2, 4], [1, 2, 3])', 'RV([1, 2, 4], [3, 2, 1])', 'RV([1, 2, 4], [1, 3, 2])', 'RV([1, 3, 4], [1, 2, 3])', 'RV([1, 2, 4], [2, 0, 4])', 'RV([1.0, 2, 4], [1, 2, 3])', 'RV([1, 2, 4.5], [1, 2, 3])',
   'RV([-4, -2, -1], [3, 2, 1])', 'RV([2, 4, 8], [1, 2, 3])', 'RV([1, 2, 4], [1, 1, 1])', 'RV([0, 1, 2, 4], [0, 1, 2, 3])', 'RV([1, 2], [1, 2])'],
  ['RV([1, 2, 3], [1, 2, 1])', 'RV([1, 2, 3], [2, 1, 2])', 'RV([1, 2, 3], [1, 0, 1])', 'RV([1, 3], [1, 1])', 'roll(3)', 'RV([2], [1])', 'RV([0, 2, 4], [1, 2, 1])', 'roll(2, 2) - 1', 'Seq(1, 2, 2, 3)', '3', 'RV([-1, 2, 5], [1, 2, 1])'],
  ['RV([0, 1], [1, 1])', 'RV([-1, 1], [1, 1])', 'RV([0, 1], [1, 3])', 'RV([0, 2], [1, 1])', 'RV([0.0, 1.0], [1, 1])', 'RV([False, True], [1, 1])', 'RV([-1, 0], [1, 1])', 'roll(2) - 1', 'RV([1, 0], [3, 1])'],
]
SHAPES = ['roll(2, {})', 'roll(3, {})', 'roll(-2, {})', 'roll(1, {})', '1 @ roll(2, {})', '2 @ roll(3, {})', 'Seq(1, 2) @ roll(3, {})', 'gS(roll(2, {}))', 'gN({})', 'gS({})', '{} + {}', '{} * 2', '{} == 2', '-roll(1, {})',
          'roll({}, 2)', 'explode_X({})', 'maximum_of_X({})', 'highest_X_of_X(1, roll(2, {}))', 'RV.from_rvs([{}, 5, roll(2)], [1, 2, 3])', 'output({}, print_=False)', 'get_seq({}, 1)', 'str(roll(2, {}))', 'hash(roll(1, {}))',
          '(roll(1, {}).mean(), roll(1, {}).std(), roll(1, {}).get_cdf(), roll(1, {}).filter(1), roll(1, {}).get_vals_probs(0.2))', 'sort_X({})', 'count_X_in_X(Seq(1, 2), roll(2, {}))', 'absolute_X({})', 'X_contains_X(roll(2, {}), 2)',
          'highest_of_X_and_X({}, 2)', 'gKw({}, {})']

HELP = '''
@anydice_casting()
def gN(p: T_N):
  return p * 2 + 1
@anydice_casting()
def gS(p: T_S):
  return 1 @ p
@anydice_casting()
def gSS(p: T_S):
  return str(p) == '' or len(p) + (p > 1)
@anydice_casting()
def gD(p: T_D):
  return p + p
@anydice_casting()
def gKw(p: T_N, q: T_N):
  return p * 10 + q
@anydice_casting()
def gDeep(k: T_N):
  if k <= 0:
    return 100
  return 1 + gDeep(k - 1)
@anydice_casting()
def gBoomIn(p: T_N, q: T_N = 1):
  if p >= 2:
    raise ValueError('boom')
  return p
@anydice_casting()
def gBoomDeepIn(k: T_N):
  if k <= 0:
    raise ValueError('boom')
  return gBoomDeepIn(k - 1)
def gBoom(*a, **k):
  try:
    return gBoomIn(3, *a[1:])
  except ValueError:
    return 0
def gBoomDeep(k):
  try:
    return gBoomDeepIn(k)
  except ValueError:
    return 0
'''

SETTINGS = [("'position order'", "'lowest first'", "'highest first'"), ("'explode depth'", '1', '2'), ("'maximum function depth'", '3', '10'), ("'RV_TRUNC'", 'True', 'False'),
            ("'RV_IGNORE_ZERO_PROBS'", 'True', 'False'), ("'DEFAULT_OUTPUT_WIDTH'", '40', '180')]

UNRELATED = ['roll(3, 6)', '2 @ roll(3, 6)', 'E + E', 'gN(roll(2, 3))', 'gS(roll(2, 3))', 'explode_X(roll(4))', 'gBoomDeep(4)', 'gBoom(3)', 'gDeep(15)', 'output(roll(2, 6), print_=False)',
             'highest_X_of_X(1, roll(2, 4))', 'RV([1.5, 2], [1, 1])', 'str(roll(2, roll(6)))', 'hash(E)', 'len(roll(2, E))', 'roll(2, E)', 'settings_reset()',
             "output(StringSeq(['a', 'b']), print_=False)"]


def same(a, b, sa, sb, chk, w):
  """observation terms equal? -> verdict, text"""
  da, db = deep(sa, a), deep(sb, b)
  if da is db:
    return PROVEN, 'same term'
  n = 0
  for m in w.models(12, chk.seed):
    try:
      if not all(m.ev(f, {}) for f in w.pre):
        continue
      x, y = m.ev(da, {}), m.ev(db, {})
    except (EvErr, Unknown):
      continue
    n += 1
    if repr(x) != repr(y):
      return VIOLATED, f'{str(x)[:120]} without, {str(y)[:120]} with that history'
  try:
    if nf_equal(da, db):
      return PROVEN, 'same normal form'
  except (NotDist, TooBig, KeyError):
    pass
  return UNDECIDED, f'{n} models agree'


def main():
  chk = Check('C07', 'the result term of every operation is the same with and without a history of other calls, for every setting in force', parallel=8)
  memo = {}

  def world(symbolic, texts=()):
    w = chk.world(contract=symbolic)
    st = w.st.fork()
    if symbolic:
      h = w.ranked('h', 3, lo=1)
      E = w.raw_rv(st, tuple_of(h[0], h[2]), tuple_of(C(1), C(2)))
      F = w.raw_rv(st, tuple_of(h[0], h[2]), tuple_of(C(1), C(1)))
      G = w.raw_rv(st, tuple_of(h[1], h[2]), tuple_of(C(1), C(2)))
    else:
      mkd = lambda a, b: w.I.call(w.pub('RV'), [tuple_of(*map(C, a)), tuple_of(*map(C, b))], {}, st, w.fr)
      E, F, G = mkd([1, 3], [1, 2]), mkd([1, 3], [1, 1]), mkd([2, 3], [1, 2])
    mk2 = lambda a, b: w.I.call(w.pub('RV'), [tuple_of(*map(C, a)), tuple_of(*map(C, b))], {}, st, w.fr)
    return w, st, (E, F, G, mk2([1.5, 2.25], [1, 2]), mk2([0, 1, 2], [0, 1, 1]), *shared(w, st, any(re.search(r'\b[RWQY]\b', t) for t in texts)))

  def shared(w, st, used):
    """values handed to the history and to the operation alike"""
    if not used:
      return (NONE_T,) * 4
    call = lambda n, *a: w.I.call(w.pub(n), list(a), {}, st, w.fr)
    return call('roll', C(2), C(3)), call('roll', C(3), C(2)), call('Seq', C(2), C(3), C(1)), call('BlankRV')

  def program(symbolic, hist, sets, op):
    """observation of op after hist under the settings sets"""
    w, st, vals = world(symbolic, [op, *hist])
    body = OBS + HELP
    f0 = body + 'def caller(E, F, G, H, Z, R, W, Q, Y):\n' + ''.join(f'  try:\n    {x}\n  except Exception:\n    pass\n' for x in hist) + ''.join(f'  settings_set({k}, {v})\n' for k, v in sets) + f'  return obs({op})\n'
    out = run(w, st, lambda s: w.I.call(w.define(f0, 'caller', s), list(vals), {}, s, w.fr))
    return w, out

  def ob(name, op, hist, sets=(), symbolic=False):
    def f():
      k = (op, sets, symbolic)
      w, o2 = program(symbolic, hist, sets, op)
      if k not in memo:
        memo[k] = program(symbolic, [], sets, op)[1]
      o1 = memo[k]
      if o1.val is None:
        if o2.val is None and o1.raises and o2.raises:
          return (PROVEN, 'raises either way') if o1.raises[0].e.exc == o2.raises[0].e.exc else (VIOLATED, f'raises {o2.raises[0].e.exc} instead of {o1.raises[0].e.exc}')
        return VIOLATED, f'raises {o1.raises[0].e.exc} only without the history'
      if o2.val is None:
        return VIOLATED, f'raises {o2.raises[0].e} after the history'
      return same(o1.val, o2.val, o1.st, o2.st, chk, w)
    chk.ob(name, f, op)

  deep_ = chk.tier == 'thorough'
  for op, like in OPS:
    sym_ok = 'E' in op.replace('False', '')
    for s in ((True, False) if sym_ok else (False,)):
      tag = ' (symbolic faces)' if s else ''
      ob(f'{op} again{tag}', op, [op], (), s)
      ob(f'{op} after similar calls{tag}', op, like, (), s)
      ob(f'{op} after similar calls in another order{tag}', op, like[::-1], (), s)
      for l in like if deep_ else like[:2]:
        ob(f'{op} after {l}{tag}', op, [l], (), s)
      ob(f'{op} after unrelated calls{tag}', op, UNRELATED[:-1] if s else UNRELATED, (), s)
      for n, v, d in SETTINGS:
        ob(f'{op} after it ran with {n}={v}{tag}', op, [f'settings_set({n}, {v})', op, f'settings_set({n}, {d})'], (), s)
        ob(f'{op} with {n}={v} after it ran without{tag}', op, [op], ((n, v),), s)
        if deep_:
          ob(f'{op} after it ran with {n}={v}, then reset{tag}', op, [f'settings_set({n}, {v})', op, 'settings_reset()'], (), s)
          ob(f'{op} with {n}={v} after it ran without, then again without{tag}', op, [f'settings_set({n}, {v})', op, f'settings_set({n}, {d})', op], ((n, v),), s)
          ob(f'{op} with {n}={v} after similar calls without{tag}', op, like, ((n, v),), s)
  # the same request on dice that resemble each other in one respect or another
  for shape in LIKE:
    for t in SHAPES:
      for s in shape if deep_ else shape[:3]:
        others = [t.replace('{}', x) for x in shape if x != s]
        ob(f'{t} on {s} after the same on similar dice', t.replace('{}', s), others)
        if deep_:
          ob(f'{t} on {s} after the same on similar dice, in another order', t.replace('{}', s), others[::-1])
  compiling(chk)
  return chk.finish(level='other')


# ---------------------------------------------------------------- compilation of trees
def tree_tools(w, st):
  I = w.I
  NT, N = w.get('parser.myparser', 'NodeType'), w.get('parser.myparser', 'Node')

  def node(t, *ch):
    return I.call(N, [I.getattr(NT, t, st, w.fr), *[C(c) if isinstance(c, str) else c for c in ch]], {}, st, w.fr)
  return node


def build(node, spec):
  if isinstance(spec, str):
    return C(spec)
  return node(spec[0], *[build(node, x) for x in spec[1:]])


NUM = lambda k: ('NUMBER', str(k))
VAR = lambda v: ('VAR', v)
OUT = lambda e: ('OUTPUT', e)
ML = lambda *x: ('MULTILINE_CODE', *x)
FUN = lambda nm, code: ('FUNCTION', ('FUNCNAME_DEF', *nm), code)
RES = lambda e: ('RESULT', e)
CALL = lambda *x: ('CALL', *x)
ARG = lambda e: ('CALL_EXPR', e)

PROGRAMS = {
  'plain': ML(('VAR_ASSIGN', 'A', ('EXPR_OP', 'ndm', NUM(2), NUM(6))), OUT(('EXPR_OP', '@', NUM(1), VAR('A')))),
  'function': ML(FUN(['myfn', ('PARAM_WITH_DTYPE', 'N', 'n')], ML(RES(VAR('N')))), OUT(CALL('myfn', ARG(NUM(3))))),
  'other function': ML(FUN(['other', ('PARAM', 'N')], ML(RES(VAR('N')))), OUT(CALL('other', ARG(NUM(3))))),
  'undefined function': ML(OUT(CALL('myfn', ARG(NUM(3))))),
  'library': ML(OUT(CALL('absolute', ARG(NUM(3))))),
  'library redefined': ML(FUN(['absolute', ('PARAM', 'N')], ML(RES(NUM(1)))), OUT(CALL('absolute', ARG(NUM(3))))),
  'collision': ML(FUN(['output', ], ML(RES(NUM(1)))), OUT(CALL('output'))),
  'variable T': ML(('VAR_ASSIGN', 'T_N', NUM(1)), OUT(VAR('T_N'))),
  'no output': ML(('VAR_ASSIGN', 'A', NUM(1))),
  'loop': ML(('LOOP', 'A', ('SEQ', NUM(1), ('RANGE', NUM(2), NUM(4))), ML(OUT(('UNARY', '!', VAR('A')))))),
  'string': ML(('OUTPUT_NAMED', NUM(1), ('STRING', 'a', ('STRVAR', 'B'), '{x}'))),
}
FLAGS = [(), ('COMPILER_FLAG_NON_LOCAL_SCOPE',), ('COMPILER_FLAG_OPERATOR_ON_INT',), ('COMPILER_FLAG_FUNC_LIB_CONFLICT',), ('NO_SUCH_FLAG',)]


def compiling(chk):
  def resolve(w, st, prog, flags):
    node = tree_tools(w, st)
    t = build(node, PROGRAMS[prog])
    fl = st.new('dict', map=mk('map', C('empty'), *[mk('e', C(n), TRUE) for n in flags])) if flags is not None else NONE_T
    f = w.get('parser.parse_and_exec', 'do_resolve')
    return run(w, st, lambda s: w.I.call(f, [t], {'flags': fl}, s, w.fr))
  memo = {}

  def ob(p, fl, q, fl2):
    def f():
      w = chk.world()
      w.get('parser.parse_and_exec', 'do_resolve')
      st = w.st.fork()
      if (p, fl) not in memo:
        memo[p, fl] = resolve(w, w.st.fork(), p, fl)
      a = memo[p, fl]
      o = resolve(w, st, q, fl2)
      b = resolve(w, o.st if o.val is not None else o.raises[0].st if o.raises else st, p, fl)
      if a.val is None or b.val is None:
        ra, rb = (x.raises[0].e.exc if x.val is None else None for x in (a, b))
        return (PROVEN, 'rejected either way') if ra == rb else (VIOLATED, f'rejected only {"without" if ra else "with"} that history: {ra or b.raises[0].e}')
      return same(a.val, b.val, a.st, b.st, chk, w)
    chk.ob(f'compiling {p} {fl} after compiling {q} {fl2}', f, 'do_resolve')
  def ob_all(p, fl, order):
    def f():
      w = chk.world()
      w.get('parser.parse_and_exec', 'do_resolve')
      st = w.st.fork()
      if (p, fl) not in memo:
        memo[p, fl] = resolve(w, w.st.fork(), p, fl)
      a = memo[p, fl]
      if order not in memo:
        for q in list(PROGRAMS)[::order]:
          for fl2 in FLAGS[::order]:
            o = resolve(w, st, q, fl2)
            st = o.st if o.val is not None else o.raises[0].st if o.raises else st
        memo[order] = st
      st = memo[order].fork()
      b = resolve(w, st, p, fl)
      if a.val is None or b.val is None:
        ra, rb = (x.raises[0].e.exc if x.val is None else None for x in (a, b))
        return (PROVEN, 'rejected either way') if ra == rb else (VIOLATED, f'rejected only {"without" if ra else "with"} that history: {ra or b.raises[0].e}')
      return same(a.val, b.val, a.st, b.st, chk, w)
    chk.ob(f'compiling {p} {fl} after compiling {len(PROGRAMS)} programs under all flags, order {order}', f, 'do_resolve')
  for p in PROGRAMS:
    for fl in FLAGS:
      ob_all(p, fl, 1)
      ob_all(p, fl, -1)
      for q in PROGRAMS if chk.tier == 'thorough' else ():
        for fl2 in FLAGS:
          ob(p, fl, q, fl2)
