from .ctor import *

DICE = {'A': ([1, 2, 3], [1, 2, 3]), 'U': ([-1, 0, 1], [1, 1, 1]), 'Z': ([0, 1, 2], [0, 1, 1]), 'H': ([1, 2, 5], [10**20 + 1, 3 * 10**20, 7]), 'G': ([0, 4], [1, 10**22 + 1]),
        'T': ([1, 2], [1, 10**45]), 'K': ([1, 2, 4], [10**45, 0, 2 * 10**45 + 1]), 'F': ([1.5, 2.5], [2, 2]), 'L': ([7], [3]), 'M': ([True, 0], [2, 4]), 'N': ([3, 1, 3, 2], [2, 2, 2, 8]), 'P': ([2, 1], [0, 0])}
UNARY = ['{0}', '-{0}', '+{0}', 'abs({0})', 'round({0})', 'math.floor({0})', 'math.ceil({0})', 'math.trunc({0})', '{0}.get_cdf()', '{0}.filter(1)', '{0}.filter([0, 1, 2])', '{0}.filter([1, 2, 3, 0, 4, 5, -1, 7, 1.5, 2.5])', 'roll({0})', 'roll(1, {0})', 'roll(2, {0})', 'roll(3, {0})',
         'roll(5, {0})', 'roll(-2, {0})', 'roll(0, {0})', '{0} + 1', '2 * {0}', '{0} * 0', '1 - {0}', '{0} // 2', '{0} / 2', '{0} % 2', '{0} ** 2', '{0} == 1', '{0} != 1', '{0} < 2', '2 >= {0}', '{0} & 1', '0 | {0}', '1 @ roll(2, {0})', '2 @ roll(3, {0})', 'Seq(1, 2) @ roll(2, {0})', 'Seq(1, 3) @ roll(3, {0})',
         '1 @ {0}', 'RV.from_rvs([{0}, 5])', 'RV.from_rvs([{0}, 1], [3, 6])', 'RV.from_rvs([{0}, None, {0}])', 'RV.from_rvs([{0}, {0}], [0, 4])', 'gN({0})', 'gS(roll(2, {0}))', 'gD({0})', 'RV({0}.vals, [4] * len({0}.vals))', 'RV({0}.vals, {0}.probs, truncate=True)', 'get_rv({0})', 'explode_X({0})', 'maximum_of_X({0})', 'lowest_X_of_X(1, roll(2, {0}))', 'absolute_X({0})',
         'highest_of_X_and_X({0}, 2)', 'roll(2, roll(2, {0}))', 'roll(2, {0}) + roll(2, {0})', '(roll(2, {0}) * roll(2, {0})).get_cdf()', 'roll(2, {0}).filter(3)', 'RV.from_seq([{0}, 3, 3])', 'RV.from_const(True)', 'used({0}) + 1', 'used(roll(3, {0})).filter(3)', 'used({0}).get_cdf()', '-used({0})', 'roll(2, used({0}))', '1 @ used(roll(2, {0}))']
BINARY = ['{0} + {1}', '{0} - {1}', '{0} * {1}', '{0} // ({1} + 5)', '{0} == {1}', '{0} <= {1}', '{0} | {1}', '{0} & {1}', 'RV.from_rvs([{0}, {1}])', 'RV.from_rvs([{0}, {1}], [2, 6])', 'gNN({0}, {1})', 'roll({1}, {0})', 'roll(2, {0} + {1})', 'highest_of_X_and_X({0}, {1})', 'used({0}) + used({1})']
SUPPORT = '''
import math
@anydice_casting()
def gN(p: T_N):
  return p // 2
@anydice_casting()
def gNN(p: T_N, q: T_N):
  return p * 10 - q
@anydice_casting()
def gS(p: T_S):
  return 2 @ p
@anydice_casting()
def gD(p: T_D):
  return p + p
def get_rv(x):
  return RV.from_rvs([x])
def used(x):
  x.mean()
  x.get_vals_probs()
  return x
'''
SETS = [(), (('RV_IGNORE_ZERO_PROBS', True),), (('RV_TRUNC', True),)]


def routes(chk, deep):
  def ob(expr, names, sets):
    def f():
      w = chk.world(contract=False)
      st = w.st.fork()
      for k, v in sets:
        w.setting(k, v, st)
      I = w.I
      dice = [I.call(O(w.RV), [tuple_of(*map(C, DICE[n][0])), tuple_of(*map(C, DICE[n][1]))], {}, st, w.fr) for n in names]
      src = SUPPORT + f'def caller({", ".join(names)}):\n  return {expr}\n'
      fn_ = w.define(src, 'caller', st)
      look = w.define('def look(x):\n  return (x.mean(), x.get_vals_probs(), x.vals, x.probs)\n', 'look', st)
      out = run(w, st, lambda s: I.call(fn_, list(dice), {}, s, w.fr))
      if out.val is None:
        return PROVEN, f'no die: raises {out.raises[0].e}'
      if out.val.op != 'ref' or out.st.obj(out.val).kind != 'inst' or out.st.obj(out.val).cls is not w.RV:
        return (PROVEN, 'the result is no die') if is_c(out.val) or w.kind(out.val, out.st) == 'BlankRV' else (UNDECIDED, 'result is no die object')
      m = next(iter(w.models(1, 0)))
      bad = canon_obs(m, out.st, out.st.obj(out.val))
      if bad:
        return VIOLATED, bad
      o2 = run(w, out.st.fork(), lambda s: I.call(look, [out.val], {}, s, w.fr))
      if o2.val is None:
        return (VIOLATED, f'reading the die raises {o2.raises[0].e}') if sum(m.ev(out.st.obj(out.val).f['probs'], {})) else (PROVEN, 'canonical, no weight at all')
      mean, vp, vals, probs = m.ev(o2.val, {})
      tot = sum(probs)
      if tot == 0:
        return PROVEN, 'canonical, no weight at all'
      want = [p / tot for p in probs]
      if [v for v, _ in vp] != list(vals) or any(abs(a - b) > 1e-9 for (_, a), b in zip(vp, want)):
        return VIOLATED, f'shares {vp} of weights {probs}: the total is stale'
      ex = sum(Fraction(v) * p for v, p in zip(vals, probs)) / tot
      if abs(mean - ex) > 1e-9 * max(1, abs(ex)):
        return VIOLATED, f'mean {mean} of faces {vals} with weights {probs}: the total is stale'
      return PROVEN, 'canonical form, fresh total'
    chk.ob(f'result of {expr}{" with " + str(dict(sets)) if sets else ""}', f, expr)
  for sets in SETS:
    for u in UNARY:
      for d in DICE:
        ob(u.format(d), (d,), sets)
    for b in BINARY:
      for c, d in [('A', 'U'), ('A', 'Z'), ('Z', 'Z'), ('H', 'G'), ('H', 'H'), ('T', 'A'), ('A', 'T'), ('K', 'T'), ('T', 'K'), ('G', 'T'), ('F', 'A'), ('A', 'F'), ('L', 'H'), ('M', 'A'), ('N', 'H'), ('P', 'A')] if not deep else itertools.product(DICE, DICE):
        if c == d:
          ob(b.format(c, d), (c,), sets)
        else:
          ob(b.format(c, d), (c, d), sets)


def main():
  chk = Check('C08', 'every route to a die stores strictly ascending faces, coprime non-negative integer weights and no stale total', parallel=8)
  ctor_obligations(chk, 3 if chk.tier == 'quick' else 4)
  routes(chk, chk.tier == 'thorough')
  return chk.finish()
