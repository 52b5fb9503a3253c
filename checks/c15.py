"""C15: the views of a distribution: faces and probabilities, cut, cumulative view, filter, mean"""
import itertools
from .rolled import *


def pairs_term(pairs):
  return tuple_of(*[tuple_of(v, p) for v, p in pairs])


def main():
  chk = Check('C15', 'each view of a die lists every face with weight over total weight; a cut removes the least likely faces only')
  quick = chk.tier == 'quick'
  w0 = chk.world()
  site = {n: method_site(w0, w0.RV, n) for n in ('get_vals_probs', 'get_cdf', 'filter', 'mean', 'std')}

  def meth(w, s, R, name, *args, **kw):
    return w.I.call(w.I.getattr(R, name, s, w.fr), [a if isinstance(a, T) else C(a) for a in args], {k: C(v) for k, v in kw.items()}, s, w.fr)

  # ---------------------------------------------------------------- no cut: any die, then exact ones
  for ty, tn in ((INT, 'whole'), (ANY, 'any')):
    for args, kw, an in (((), {}, ''), ((0,), {}, ' cut 0'), ((), {'cdf_cut': 0}, ' cdf_cut=0'), ((0.0,), {}, ' cut 0.0')):
      def f():
        w = chk.world()
        st = w.st.fork()
        D = w.die('D', st, ty)
        out = run(w, st, lambda s: meth(w, s, D, 'get_vals_probs', *args, **kw))
        u = fresh()
        tot = sum_p('D')
        spec = Term(tup(mk('for', (u,), dbase('D'), it(tuple_of(fn('D.v', B(u), ty=ty), arith('truediv', fn('D.p', B(u), ty=INT), tot))))))
        return check_out(chk, out, spec)
      chk.ob(f'faces and shares, {tn} faces{an}', f, site['get_vals_probs'])
    for n in (1, 2, 3, 5):
      def f():
        w = chk.world()
        st = w.st.fork()
        D, vs, ps = w.die_exact('D', st, n, ty)
        out = run(w, st, lambda s: meth(w, s, D, 'get_vals_probs'))
        tot = add_all(ps)
        return check_out(chk, out, Term(pairs_term([(v, arith('truediv', p, tot)) for v, p in zip(vs, ps)])))
      chk.ob(f'faces and shares, {n} {tn} faces', f, site['get_vals_probs'])
    def f():
      w = chk.world()
      st = w.st.fork()
      D = w.die('D', st, ty)
      out = run(w, st, lambda s: meth(w, s, D, 'mean'))
      u = fresh()
      num_ = mk('sum', (u,), dbase('D'), mul(fn('D.v', B(u), ty=ty), fn('D.p', B(u), ty=INT)), ty=ty)
      return check_out(chk, out, Num(arith('truediv', num_, sum_p('D'))))
    chk.ob(f'mean, {tn} faces', f, site['mean'])
    for n in (1, 2, 3):
      def f():
        w = chk.world()
        st = w.st.fork()
        D, vs, ps = w.die_exact('D', st, n, ty)
        out = run(w, st, lambda s: meth(w, s, D, 'mean'))
        return check_out(chk, out, Num(arith('truediv', add_all([mul(v, p) for v, p in zip(vs, ps)]), add_all(ps))))
      chk.ob(f'mean, {n} {tn} faces', f, site['mean'])

  # the deviation: root of the mean square minus the squared mean (compared squared: 0 where rounding makes it negative)
  for ty, tn in ((INT, 'whole'), (ANY, 'any')):
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
      def f():
        w = chk.world()
        st = w.st.fork()
        D, vs, ps = w.die_exact('D', st, n, ty)
        sq = w.define('def sq(d):\n  return d.std() ** 2\n', 'sq', st)
        out = run(w, st, lambda s: w.I.call(sq, [D], {}, s, w.fr))
        tot = add_all(ps)
        var = arith('sub', arith('truediv', add_all([mul(arith('pow', v, C(2)), p) for v, p in zip(vs, ps)]), tot),
                    arith('pow', arith('truediv', add_all([mul(v, p) for v, p in zip(vs, ps)]), tot), C(2)))
        r = w.define('import math\ndef r(v):\n  return (math.sqrt(v) if v >= 0 else 0) ** 2\n', 'r', st)
        return check_out(chk, out, Py(run(w, st, lambda s: w.I.call(r, [var], {}, s, w.fr))))
      chk.ob(f'deviation, {n} {tn} faces', f, site['std'])

  # ---------------------------------------------------------------- cut
  def cut_case(weights, cut, ty=INT, order=None):
    tot = sum(weights)
    acceptable = []
    n = len(weights)
    for perm in itertools.permutations(range(n)):
      if any(weights[a] > weights[b] for a, b in zip(perm, perm[1:])):
        continue
      acc, gone = 0, set()
      for i in perm:
        acc += weights[i]
        if Fraction(acc, tot) < Fraction(cut):
          gone.add(i)
        else:
          break
      if gone not in acceptable:
        acceptable.append(gone)

    def f():
      w = chk.world()
      st = w.st.fork()
      D, vs, ps = w.die_exact('D', st, n, ty, weights)
      out = run(w, st, lambda s: meth(w, s, D, 'get_vals_probs', C(cut)))
      sp = [Term(pairs_term([(v, C(p / tot)) for i, (v, p) in enumerate(zip(vs, weights)) if i not in g])) for g in acceptable]
      return check_out(chk, out, sp[0] if len(sp) == 1 else AnyOf(*sp))
    chk.ob(f'cut {cut} of weights {weights}', f, site['get_vals_probs'])

  for wts in [(1,), (1, 3), (3, 1), (2, 2), (1, 2, 4), (4, 2, 1), (2, 4, 1), (1, 4, 2), (1, 1, 6), (6, 1, 1), (1, 6, 1), (0, 3, 1), (3, 0, 5), (5, 3, 0), (1, 2, 3, 10), (10, 1, 3, 2), (3, 10, 2, 1)]:
    for cut in (0.001, 0.05, 0.15, 0.3, 0.45, 0.62, 0.8, 0.99):
      cut_case(wts, cut)
  for wts in [(1, 3), (3, 1), (1, 2, 1), (1, 2, 5), (5, 2, 1), (2, 4, 2), (1, 1, 2, 4), (8, 1, 3, 4)]:
    for cut in (0.125, 0.25, 0.375, 0.5, 0.75):   # boundaries met exactly
      cut_case(wts, cut)
  if not quick:
    for wts in itertools.permutations((1, 3, 5, 9)):
      for cut in (0.04, 0.1, 0.2, 0.35, 0.51, 0.7, 0.9, 0.999):
        cut_case(wts, cut, ANY)
  for bad in (-0.1, 1, 1.5, 100):
    def f():
      w = chk.world()
      st = w.st.fork()
      D, vs, ps = w.die_exact('D', st, 3, INT, (1, 2, 4))
      out = run(w, st, lambda s: meth(w, s, D, 'get_vals_probs', bad))
      return check_out(chk, out, Raise())
    chk.ob(f'cut {bad} rejected', f, site['get_vals_probs'])

  # ---------------------------------------------------------------- cumulative view
  for ty, tn in ((INT, 'whole'), (ANY, 'any')):
    for n in (1, 2, 3, 4):
      def f():
        w = chk.world()
        st = w.st.fork()
        D, vs, ps = w.die_exact('D', st, n, ty)
        out = run(w, st, lambda s: meth(w, s, D, 'get_cdf'))
        return check_out(chk, out, Dist(*[it(tuple_of(v, add_all(ps[:i + 1]))) for i, v in enumerate(vs)]))
      chk.ob(f'cumulative view, {n} {tn} faces', f, site['get_cdf'])

  # ---------------------------------------------------------------- filter
  def filt(name, n, mkobj, removed, ty=INT):
    """removed(vs) -> list of conditions, one per face"""
    def f():
      w = chk.world()
      st = w.st.fork()
      D, vs, ps = w.die_exact('D', st, n, ty)
      obj = mkobj(w, st, vs)
      out = run(w, st, lambda s: meth(w, s, D, 'filter', obj))
      gone = removed(vs)
      full = [(v, p) for v, p, g in zip(vs, ps, gone) if g is not True]
      dist = lambda ks: Dist(*[it(tuple_of(v, p)) for v, p in ks]) if ks else Dist(it(tuple_of(ZERO, ONE)))
      spec = dist(full)
      if any(g is not True and g is not False for g in gone):   # at most one face equals the number
        spec = Cases(*[(g, dist([k for j, k in enumerate(full) if j != i])) for i, g in enumerate(gone)], (TRUE, spec))
      return check_out(chk, out, spec)
    chk.ob('filter: ' + name, f, site['filter'])

  for n in (1, 2, 3):
    for i in range(n):
      filt(f'face {i} of {n}', n, lambda w, st, vs, i=i: vs[i], lambda vs, i=i: [j == i for j in range(len(vs))])
      filt(f'face {i} of {n} in a sequence', n, lambda w, st, vs, i=i: w.seq_exact(st, [vs[i]]), lambda vs, i=i: [j == i for j in range(len(vs))])
      filt(f'face {i} of {n}, any number', n, lambda w, st, vs, i=i: vs[i], lambda vs, i=i: [j == i for j in range(len(vs))], ANY)
    filt(f'all {n} faces', n, lambda w, st, vs: w.seq_exact(st, vs), lambda vs: [True] * len(vs))
    filt(f'no face of {n}', n, lambda w, st, vs: w.seq_exact(st, []), lambda vs: [False] * len(vs))
    filt(f'a number, {n} faces', n, lambda w, st, vs: w.num('x'), lambda vs: [cmp('eq', v, sym('x', INT)) for v in vs])
    filt(f'a list of faces, {n} faces', n, lambda w, st, vs: st.new('list', segs=tuple_of(*vs[:1])), lambda vs: [True] + [False] * (len(vs) - 1))
    filt(f'first and last of {n}', n, lambda w, st, vs: w.seq_exact(st, [vs[-1], vs[0]]), lambda vs: [j in (0, len(vs) - 1) for j in range(len(vs))])

  # ---------------------------------------------------------------- text faces and other concrete views
  prog = PROG
  cases = {
    'texts are shown as texts': ("views(Seq('b', 'a', 'b'))", "(('a', 1/3), ('b', 2/3))"),
    'texts that look like numbers are quoted': ("views(Seq('1', 'x', '-2.5'))", "(('\"-2.5\"', 1/3), ('\"1\"', 1/3), ('x', 1/3))"),
    'a number and the text of it are two faces': ("views(Seq(1, '1'))", "((1, 1/2), ('\"1\"', 1/2))"),
    'numbers before texts': ("views(Seq('x', 7, -3))", "((-3, 1/3), (7, 1/3), ('x', 1/3))"),
    'a sum of texts': ("views(roll(2, Seq('x', 'y')))", "(('x + y', 1/2), ('2*x', 1/4), ('2*y', 1/4))"),
    'texts shown alike, the rare one is cut': ("views(RV.from_seq(Seq('2*x', roll_x(), roll_x(), roll_x(), roll_x())), 0.3)", "(('2*x', 4/5),)"),
    'texts shown alike, none is cut': ("sorted(views(RV.from_seq(Seq('2*x', roll_x(), roll_x(), roll_x(), roll_x())), 0.1), key=lambda t: t[1])", "[('2*x', 1/5), ('2*x', 4/5)]"),
    'texts shown alike, no cut': ("sorted(views(RV.from_seq(Seq('2*x', roll_x()))), key=lambda t: t[1])", "[('2*x', 1/2), ('2*x', 1/2)]"),
    'cut keeps text that names a cut number': ("views(RV.from_seq(Seq(1, '1', '1', '1')), 0.3)", "(('\"1\"', 3/4),)"),
    'large and small faces': ("views(RV([10**20, -10**20, 0], [1, 1, 2]))", "((-10**20, 1/4), (0, 1/2), (10**20, 1/4))"),
    'impossible face listed with share 0': ("views(RV([1, 2], [0, 3]))", "((1, 0.0), (2, 1.0))"),
    'view after repeated view': ("(views(roll(6)), views(roll(6)))[1]", "tuple((i, 1/6) for i in range(1, 7))"),
    'view of a rolled die': ("views(roll(2, 2))", "((2, 1/4), (3, 1/2), (4, 1/4))"),
    'view after mean': ("mean_then_views(RV([1, 2], [1, 3]))", "((1, 1/4), (2, 3/4))"),
    'cumulative of texts': ("fields(RV.from_seq(Seq('a', 'b', 'b')).get_cdf())", "(2, (1, 3))"),
    'cumulative of a die': ("fields(roll(3).get_cdf())", "(3, (1, 2, 3))"),
    'cumulative with an impossible face': ("fields(RV([1, 2, 3, 4], [1, 0, 2, 0]).get_cdf())", "(4, (1, 1, 3, 3))"),
    'cumulative of a wide die': ("fields(roll(52).get_cdf())", "(52, tuple(range(1, 53)))"),
    'filter by a die': ("views(roll(6).filter(roll(4)))", "((5, 1/2), (6, 1/2))"),
    'filter by a text': ("views(RV.from_seq(Seq('a', 'b', 'b')).filter('a'))", "(('b', 1.0),)"),
    'filter by a range': ("views(RV([1, 2, 3, 4], [1, 2, 3, 4]).filter(range(2, 4)))", "((1, 1/5), (4, 4/5))"),
    'filter keeps relative weights': ("views(RV([1, 2, 3], [1, 2, 6]).filter(1))", "((2, 1/4), (3, 3/4))"),
    'filter of everything': ("views(roll(3).filter([1, 2, 3]))", "((0, 1.0),)"),
    'filter of nested values': ("views(roll(4).filter([1, [2, (3,)]]))", "((4, 1.0),)"),
    'filter of 1 does not remove 1.5': ("views(RV([1, 1.5], [1, 1]).filter(1))", "((1.5, 1.0),)"),
    'mean of a die with zero weights': ("RV([5, 7], [0, 2]).mean()", "7.0"),
    'mean of negative faces': ("RV([-3, -1], [3, 1]).mean()", "-2.5"),
    'deviation of a constant': ("RV([4], [1]).std()", "0"),
    'deviation of a fair coin': ("RV([0, 2], [1, 1]).std()", "1.0"),
    'deviation of a weighted die': ("RV([0, 4], [3, 1]).std() ** 2 - 3.0 < 1e-9", "True"),
  }
  for vs, ps in [((-5, -3), (1, 1)), ((-7, 2, 3), (3, 1, 2)), ((1, 2, 3, 4, 5, 6), (1,) * 6), ((-1, 1), (1, 1)), ((0, 100), (9, 1)), ((-2.5, 0.5, 4), (1, 4, 1)), ((1000, 1001), (1, 1)), ((5, 7), (0, 2)),
                 ((-6, -5, -4), (1, 2, 3))]:
    t = sum(ps)
    m = Fraction(sum(Fraction(v) * p for v, p in zip(vs, ps)), t)
    dev = float(sum((Fraction(v) - m) ** 2 * p for v, p in zip(vs, ps)) / t) ** 0.5
    cases[f'deviation of faces {vs} with weights {ps}'] = (f'abs(RV({list(vs)}, {list(ps)}).std() - {dev!r}) < 1e-6', 'True')
    cases[f'mean of faces {vs} with weights {ps}'] = (f'abs(RV({list(vs)}, {list(ps)}).mean() - {float(m)!r}) < 1e-9', 'True')
  for name, (got, want) in cases.items():
    def f():
      w = chk.world(contract=False)
      w.get('string_rvs', 'StringVal')
      st = w.st.fork()
      g = w.define(prog + f'def go():\n  return {got}\n', 'go', st)
      x = w.define(f'def want():\n  return {want}\n', 'want', st)
      out = run(w, st, lambda s: w.I.call(g, [], {}, s, w.fr))
      e = run(w, st, lambda s: w.I.call(x, [], {}, s, w.fr))
      return same_const(out, e)
    chk.ob(name, f, site['get_cdf'] if 'cumul' in name else site['filter'] if name.startswith('filter') else site['get_vals_probs'])
  return chk.finish()


PROG = '''
from .factory import get_seq as Seq

def views(x, cut=None):
  d = x if hasattr(x, 'vals') else RV.from_seq(x)
  return d.get_vals_probs() if cut is None else d.get_vals_probs(cut)

def roll_x():
  return roll(2, Seq('x')).vals[0]

def mean_then_views(d):
  d.mean()
  d.std()
  return d.get_vals_probs()

def fields(d):
  return len(d.vals), d.probs
'''


def sum_p(name):
  u = fresh()
  return mk('sum', (u,), dbase(name), fn(name + '.p', B(u), ty=INT), ty=INT)


def plain(v, st):
  """a fully known value as a Python value"""
  if is_c(v):
    return cv(v)
  if v.op == 'tup' and segs_exact(v.args):
    return tuple(plain(a.args[0], st) for a in v.args)
  if v.op == 'ref' and st.obj(v).kind in ('list', 'iter') and segs_exact(st.obj(v).f['segs'].args):
    return [plain(a.args[0], st) for a in st.obj(v).f['segs'].args]
  raise Unknown(f'not a known value: {str(v)[:100]}')


def same_const(out, e):
  if out.val is None:
    return (VIOLATED, f'raises {out.raises[0].e}') if out.raises and not any(r.pc for r in out.raises) else (UNDECIDED, 'no value')
  a, b = plain(out.val, out.st), plain(e.val, e.st)
  ok = show_types(a) == show_types(b) and close(a, b) if not isinstance(a, str) else a == b
  return (PROVEN, 'the value is the documented one') if ok else (VIOLATED, f'expected {b!r}, the code gives {a!r}')


def show_types(x):
  if isinstance(x, (tuple, list)):
    return [type(x).__name__] + [show_types(y) for y in x]
  return 'number' if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) else type(x).__name__
