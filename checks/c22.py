"""C22: the function library: documented parameter types and results"""
from .rolled import *


def main():
  chk = Check('C22', 'each library function casts its arguments to its documented types and yields what its name says', parallel=8)
  quick = chk.tier == 'quick'
  w0 = chk.world()

  def site_of(name):
    f = ov(w0.pub(name))
    for a in ('func', 'f'):
      f = getattr(f, a, f)
    return 'funclib.' + name

  def case(fname, name, build, spec, sets=(), kw=None):
    def f():
      w = chk.world()
      st = w.st.fork()
      for k, v in sets:
        w.setting(k, v, st)
      args, sp = build(w, st)
      st.pc = ()
      out = run(w, st, lambda s: w.I.call(w.pub(fname), list(args), {k: C(v) for k, v in (kw or {}).items()}, s, w.fr))
      return check_out(chk, out, sp)
    chk.ob(f'{fname}: {name}', f, site_of(fname))

  def neg_(x):
    return arith('sub', ZERO, x)

  def bagd(name, f, ty=INT):
    return Dist(bag_die(name, ty, f))

  abs_ = lambda x: ite(cmp('lt', x, ZERO), neg_(x), x)
  for ty, tn in ((INT, 'whole number'), (FLOAT, 'fractional number')):
    case('absolute_X', tn, lambda w, st: ([w.num('x', ty)], Num(abs_(sym('x', ty)))), None)
  case('absolute_X', 'sequence', lambda w, st: ([w.seq('A', st)], Num(abs_(sum_of('A')))), None)
  case('absolute_X', 'list', lambda w, st: ([w.list_('A', st)], Num(abs_(sum_of('A')))), None)
  case('absolute_X', 'die', lambda w, st: ([w.die('A', st)], bagd('A', abs_)), None)
  case('absolute_X', 'die with any faces', lambda w, st: ([w.die('A', st, ANY)], bagd('A', abs_, ANY)), None)
  case('absolute_X', 'two faces', lambda w, st: exact1(w, st, 2, lambda vs, ps: Dist(*[it(tuple_of(abs_(v), p)) for v, p in zip(vs, ps)])), None)
  case('absolute_X', 'empty die', lambda w, st: ([w.blank(st)], BlankT(True)), None)
  case('absolute_X', 'keyword', lambda w, st: ([w.num('x')], Num(abs_(sym('x', INT)))), None)

  # ---------------------------------------------------------------- highest / lowest of two
  for fname, pick in (('highest_of_X_and_X', lambda a, b: ite(cmp('gt', a, b), a, b)), ('lowest_of_X_and_X', lambda a, b: ite(cmp('lt', a, b), a, b))):
    for ka in ('int', 'float', 'seq', 'list', 'die', 'dief'):
      for kb in ('int', 'seq', 'die', 'float'):
        if {ka, kb} & {'dief', 'float'} and quick and kb not in ('int', 'float'):
          continue
        def build(w, st, ka=ka, kb=kb, pick=pick):
          a, b = Opd(w, st, ka, 'A'), Opd(w, st, kb, 'B')
          return [a.term, b.term], combine(a, b, pick)
        case(fname, f'{ka} and {kb}', build, None)
    for kb in ('blank', 'nullrv'):
      case(fname, f'number and {kb}', lambda w, st, kb=kb: ([w.num('x'), Opd(w, st, kb, 'B').term], BlankT(True)), None)

  # ---------------------------------------------------------------- contains / count
  def seqx(w, st, n, nm='s'):
    return [w.num(f'{nm}{i}') for i in range(n)]
  for n in (0, 1, 2, 3, 4):
    def build(w, st, n=n, kind='seq'):
      es = seqx(w, st, n)
      x = w.num('x')
      a = w.seq_exact(st, es) if kind == 'seq' else st.new('list', segs=tuple_of(*es)) if kind == 'list' else tuple_of(*es)
      return [a, x], Num(b2i(or_(*[cmp('eq', e, x) for e in es])) if es else ZERO)
    for kind in ('seq', 'list', 'tuple'):
      case('X_contains_X', f'{kind} of {n}', lambda w, st, build=build, kind=kind: build(w, st, kind=kind), None)
  def hassum(w, st):
    u = fresh()
    return [w.seq('A', st), w.num('x')], Num(b2i(mk('any', (u,), dbase('A'), cmp('eq', fn('A.e', B(u), ty=INT), sym('x', INT)), ty=BOOL)))
  case('X_contains_X', 'any sequence', hassum, None)
  case('X_contains_X', 'number contains number', lambda w, st: ([w.num('y'), w.num('x')], Num(b2i(cmp('eq', sym('y', INT), sym('x', INT))))), None)
  for n in (1, 2, 3):
    def build(w, st, n=n):
      es = seqx(w, st, n)
      D, vs, ps = w.die_exact('D', st, 2)
      return [w.seq_exact(st, es), D], Dist(*[it(tuple_of(b2i(or_(*[cmp('eq', e, v) for e in es])), p)) for v, p in zip(vs, ps)])
    case('X_contains_X', f'sequence of {n}, number from a die', build, None)
  for N in (1, 2, 3):
    def build(w, st, N=N):
      D, vs, ps = w.die_exact('D', st, 2)
      x = w.num('x')
      return [rolled(w, st, D, N), x], Dist(*bag_of(vs, ps, N, lambda xs: b2i(or_(*[cmp('eq', e, x) for e in xs]))))
    case('X_contains_X', f'{N} dice with 2 faces', build, None)
  case('X_contains_X', 'sequence as the number', lambda w, st: ([w.seq_exact(st, [C(1), w.num('p'), C(3)]), w.seq_exact(st, [w.num('a'), w.num('b')])],
                                                               Num(b2i(or_(*[cmp('eq', e, add(sym('a', INT), sym('b', INT))) for e in (C(1), sym('p', INT), C(3))])))), None)
  for n in (0, 1, 2, 3):
    for m in (0, 1, 2, 3):
      def build(w, st, n=n, m=m):
        a, b = seqx(w, st, n, 's'), seqx(w, st, m, 't')
        return [w.seq_exact(st, a), w.seq_exact(st, b)], Num(add_all([b2i(cmp('eq', x, y)) for x in a for y in b]))
      case('count_X_in_X', f'{n} values in {m} elements', build, None)
  case('count_X_in_X', 'number in a sequence', lambda w, st: ([w.num('x'), w.seq_exact(st, [w.num('s0'), w.num('s1')])], Num(add_all([b2i(cmp('eq', sym('x', INT), sym(f's{i}', INT))) for i in (0, 1)]))), None)
  case('count_X_in_X', 'number in a number', lambda w, st: ([w.num('x'), w.num('y')], Num(b2i(cmp('eq', sym('x', INT), sym('y', INT))))), None)
  for N in (1, 2, 3):
    def build(w, st, N=N):
      D, vs, ps = w.die_exact('D', st, 2)
      x, y = w.num('x'), w.num('y')
      return [w.seq_exact(st, [x, y]), rolled(w, st, D, N)], Dist(*bag_of(vs, ps, N, lambda xs: add_all([b2i(cmp('eq', a, e)) for a in (x, y) for e in xs])))
    case('count_X_in_X', f'2 values in {N} dice', build, None)
  case('count_X_in_X', 'values from a die in a sequence', lambda w, st: exact1(w, st, 2, lambda vs, ps: Dist(*[it(tuple_of(add_all([b2i(cmp('eq', v, sym(f's{i}', INT))) for i in (0, 1)]), p)) for v, p in zip(vs, ps)]),
                                                                              lambda D: [D, w.seq_exact(st, [w.num('s0'), w.num('s1')])]), None)

  # ---------------------------------------------------------------- largest face
  for order in ('highest first', 'lowest first'):
    for n in (1, 2, 3, 5):
      for ty in (INT, ANY):
        case('maximum_of_X', f'die with {n} faces, {order}{"" if ty is INT else ", any faces"}', lambda w, st, n=n, ty=ty: exact1(w, st, n, lambda vs, ps: Num(vs[-1]), ty=ty), None, sets=[('position order', order)])
    case('maximum_of_X', f'number, {order}', lambda w, st: ([w.num('x')], Num(sym('x', INT))), None, sets=[('position order', order)])
    for perm in itertools.permutations(range(3)):
      case('maximum_of_X', f'sequence ordered {perm}, {order}', lambda w, st, perm=perm: ranked_seq(w, st, perm, lambda xs: Num(xs[-1])), None, sets=[('position order', order)])
    for N in (2, 3):
      def build(w, st, N=N):
        A, vs, ps = w.die_exact('A', st, 2, INT, (1, 2))
        return [run(w, st, lambda s: w.I.call(w.pub('roll'), [C(N), C(6)], {}, s, w.fr)).val], Num(C(6 * N))
      case('maximum_of_X', f'{N} dice, {order}', build, None, sets=[('position order', order)])

  # ---------------------------------------------------------------- reverse / sort
  for n in (0, 1, 2, 3, 4):
    for kind in ('seq', 'list', 'tuple'):
      def build(w, st, n=n, kind=kind):
        es = seqx(w, st, n)
        a = w.seq_exact(st, es) if kind == 'seq' else st.new('list', segs=tuple_of(*es)) if kind == 'list' else tuple_of(*es)
        return [a], SeqT(*[it(e) for e in es[::-1]])
      case('reverse_X', f'{kind} of {n}', build, None)
  def anyrev(w, st):
    u = fresh()
    return [w.seq('A', st)], SeqT(mk('for', (u,), mk('d.rev', dbase('A')), it(fn('A.e', B(u), ty=INT))))
  case('reverse_X', 'any sequence', anyrev, None)
  case('reverse_X', 'number', lambda w, st: ([w.num('x')], SeqT(it(sym('x', INT)))), None)
  for N in (1, 2, 3):
    for fname in ('reverse_X', 'sort_X'):
      def build(w, st, N=N):
        D, vs, ps = w.die_exact('D', st, 2)
        return [rolled(w, st, D, N)], Dist(*bag_of(vs, ps, N, add_all))
      case(fname, f'{N} dice', build, None)
  for n in (1, 2, 3, 4):
    for perm in itertools.permutations(range(n)):
      for kind in ('seq', 'list') if n == 3 else ('seq',):
        case('sort_X', f'{kind} ordered {perm}', lambda w, st, perm=perm, kind=kind: ranked_seq(w, st, perm, lambda xs: SeqT(*[it(x) for x in xs[::-1]]), kind), None)
  for pat in ((0, 0), (0, 1, 0), (1, 0, 1), (1, 1, 0, 0), (0, 0, 0)):
    case('sort_X', f'repeated elements {pat}', lambda w, st, pat=pat: ranked_seq(w, st, pat, lambda xs, pat=pat: SeqT(*[it(xs[r]) for r in sorted(pat, reverse=True)])), None)
  for vals in ((-3, 1, 2), (2, -5, 0, 5), (-1, -2, -3), (0.5, -1, 1), (10, 9, 100), (-1, 1, -1, 1)):
    case('sort_X', f'elements {vals}', lambda w, st, vals=vals: ([w.seq_exact(st, [C(v) for v in vals])], SeqT(*[it(C(v)) for v in sorted(vals, reverse=True)])), None)
  case('sort_X', 'number', lambda w, st: ([w.num('x')], SeqT(it(sym('x', INT)))), None)
  case('sort_X', 'empty', lambda w, st: ([w.seq_exact(st, [])], SeqT()), None)
  for f_ in ('reverse_X', 'sort_X', 'count_X_in_X', 'X_contains_X'):
    case(f_, 'empty die', lambda w, st, f_=f_: ([w.blank(st)] + ([w.num('x')] if 'X_' in f_[1:] and f_ not in ('reverse_X', 'sort_X') else []), BlankT(True)), None)

  # ---------------------------------------------------------------- highest / lowest / middle of dice
  def nth(fname, sel):
    shapes = [(2, 1), (2, 2), (2, 3), (3, 2), (2, 4), (3, 3), (2, 5)] + ([] if quick else [(3, 4), (2, 6), (4, 3), (2, 7)])
    for kf, N in shapes:
      for k in range(0, N + 2):
        def build(w, st, kf=kf, N=N, k=k):
          D, vs, ps = w.die_exact('D', st, kf)
          return [C(k), rolled(w, st, D, N, fname == 'middle_X_of_X' and k == N)], Dist(*bag_of(vs, ps, N, lambda xs: add_all(sel(xs, k)) if sel(xs, k) else ZERO))
        if fname == 'middle_X_of_X' and k > N:
          continue
        def wrapb(w, st, build=build, k=k):
          a, sp = build(w, st)
          return a, AnyOf(sp, Num(ZERO)) if k == 0 else sp
        case(fname, f'{k} of {N} dice with {kf} faces', wrapb, None)
    for k in (1, 2, 3):
      def build(w, st, k=k):
        D, vs, ps = w.die_exact('D', st, 2, ANY, (1, 3))
        return [C(k), rolled(w, st, D, 3, fname == 'middle_X_of_X' and k == 3)], Dist(*bag_of(vs, [C(1), C(3)], 3, lambda xs: add_all(sel(xs, k))))
      case(fname, f'{k} of 3 dice, any faces', build, None)
      def build(w, st, k=k):
        R = run(w, st, lambda s: w.I.call(w.pub('roll'), [C(3), C(4)], {}, s, w.fr)).val
        vs = [C(i) for i in range(1, 5)]
        return [C(k), R], Dist(*bag_of(vs, [ONE] * 4, 3, lambda xs: add_all(sel(xs, k))))
      case(fname, f'{k} of 3d4', build, None)
      def build(w, st, k=k):
        D, vs, ps = w.die_exact('D', st, 2)
        return [w.seq_exact(st, [C(k + 4), C(-4)]), rolled(w, st, D, 3, fname == 'middle_X_of_X' and k == 3)], Dist(*bag_of(vs, ps, 3, lambda xs: add_all(sel(xs, k))))
      case(fname, f'sequence with sum {k} of 3 dice', build, None)
    for N, k in [(n, k) for n in range(1, 9 if quick else 12) for k in range(1, n + 1)]:
      for (a, b), (p, q) in (((0, 1), (1, 1)),) + ((((1, 10), (2, 1)),) if N <= 5 or not quick else ()):
        def build(w, st, k=k, N=N, a=a, b=b, p=p, q=q):
          D = w.I.call(O(w.RV), [tuple_of(C(a), C(b)), tuple_of(C(p), C(q))], {}, st, w.fr)
          R = run(w, st, lambda s: w.I.call(w.pub('roll'), [C(N), D], {}, s, w.fr)).val
          d = {}
          for j in range(N + 1):  # j dice show b
            v = sum(sel([a] * (N - j) + [b] * j, k))
            d[v] = d.get(v, 0) + math.comb(N, j) * q ** j * p ** (N - j)
          return [C(k), R], Dist(*[it(tuple_of(C(v), C(x))) for v, x in sorted(d.items())])
        case(fname, f'{k} of {N} dice with faces {a}, {b} and weights {p}, {q}', build, None)
    def build(w, st):
      D, vs, ps = w.die_exact('D', st, 2, INT, (1, 1))
      K = run(w, st, lambda s: w.I.call(w.RV and O(w.RV), [tuple_of(C(1), C(3)), tuple_of(C(2), C(1))], {}, s, w.fr)).val
      one = [it(tuple_of(add_all(sel([vs[i] for i in c], 1)), C(2 * n))) for c, n in outcomes(2, 3)]
      thr = [it(tuple_of(add_all(sel([vs[i] for i in c], 3)), C(n))) for c, n in outcomes(2, 3)]
      return [K, rolled(w, st, D, 3, fname == 'middle_X_of_X')], Dist(*one, *thr)
    case(fname, 'a die of 3 dice', build, None)
    case(fname, 'number of a number', lambda w, st: ([C(1), w.num('x')], AnyOf(Num(sym('x', INT)), Dist(it(tuple_of(sym('x', INT), ONE))))), None)
    def build(w, st):
      es = w.ranked('e', 3)
      return [C(1), w.seq_exact(st, [es[1], es[0], es[2]])], Dist(*[it(tuple_of(e, ONE)) for e in es])
    case(fname, '1 of a sequence, one die with its elements', build, None)
  nth('highest_X_of_X', lambda xs, k: sorted_desc(xs)[:k])
  nth('lowest_X_of_X', lambda xs, k: xs[:k])
  def mid(xs, k):
    n = len(xs)
    a = (n - k) // 2
    return sorted_desc(xs)[a:a + k]
  nth('middle_X_of_X', mid)

  # ---------------------------------------------------------------- explode
  def exploded(vs, ps, depth):
    """segments of the distribution; total weight P^(depth+1)"""
    P = add_all(ps)
    if depth <= 0:
      return [(v, p) for v, p in zip(vs, ps)]
    rest = exploded(vs, ps, depth - 1)
    pw = ONE
    for _ in range(depth):
      pw = mul(pw, P)
    return [(v, mul(p, pw)) for v, p in zip(vs[:-1], ps[:-1])] + [(add(vs[-1], x), mul(ps[-1], w_)) for x, w_ in rest]
  for n in (1, 2, 3):
    for depth in (1, 2, 3) if quick else (1, 2, 3, 4, 5):
      for how in ('setting', 'argument'):
        def build(w, st, n=n, depth=depth):
          D, vs, ps = w.die_exact('D', st, n)
          return [D], Dist(*[it(tuple_of(v, p)) for v, p in exploded(vs, ps, depth)])
        if how == 'setting':
          case('explode_X', f'{n} faces, depth {depth} by the setting', build, None, sets=[('explode depth', depth)])
        else:
          case('explode_X', f'{n} faces, depth {depth} by argument', build, None, kw={'depth': depth}, sets=[('explode depth', 5)])
  for n in (1, 2, 3):
    def build(w, st, n=n):
      D, vs, ps = w.die_exact('D', st, n)
      return [D], Dist(*[it(tuple_of(v, p)) for v, p in exploded(vs, ps, 2)])
    case('explode_X', f'{n} faces, default depth', build, None)
    case('explode_X', f'{n} faces, depth 0 by argument', lambda w, st, n=n: exact1(w, st, n, lambda vs, ps: Dist(*[it(tuple_of(v, p)) for v, p in zip(vs, ps)])), None, kw={'depth': 0})
  for order in ('highest first', 'lowest first'):
    for depth in (1, 2, 6, 12):
      def build(w, st, depth=depth):
        vs, ps = [C(i) for i in range(1, 4)], [ONE] * 3
        return [run(w, st, lambda s: w.I.call(w.pub('roll'), [C(3)], {}, s, w.fr)).val], Dist(*[it(tuple_of(v, p)) for v, p in exploded(vs, ps, depth)])
      case('explode_X', f'd3, depth {depth}, {order}', build, None, sets=[('explode depth', depth), ('position order', order)])
  for depth in (1, 2):
    def build(w, st, depth=depth):
      vs, ps = [C(2), C(3), C(4)], [C(1), C(2), C(1)]
      return [run(w, st, lambda s: w.I.call(w.pub('roll'), [C(2), C(2)], {}, s, w.fr)).val], Dist(*[it(tuple_of(v, p)) for v, p in exploded(vs, ps, depth)])
    case('explode_X', f'2d2 explodes on the largest total, depth {depth}', build, None, sets=[('explode depth', depth)])
    def build(w, st, depth=depth):
      es = w.ranked('e', 3)
      return [w.seq_exact(st, [es[2], es[0], es[1]])], Dist(*[it(tuple_of(v, p)) for v, p in exploded(es, [ONE] * 3, depth)])
    case('explode_X', f'sequence, depth {depth}', build, None, sets=[('explode depth', depth)])
    case('explode_X', f'number, depth {depth}', lambda w, st, depth=depth: ([w.num('x')], AnyOf(Dist(it(tuple_of(mul(C(depth + 1), sym('x', INT)), ONE))), Num(mul(C(depth + 1), sym('x', INT))))), None, sets=[('explode depth', depth)])
    def build(w, st, depth=depth):
      D = w.raw_rv(st, tuple_of(C(-3), C(-2), C(0)), tuple_of(C(1), C(2), C(3)))
      return [D], Dist(*[it(tuple_of(v, p)) for v, p in exploded([C(-3), C(-2), C(0)], [C(1), C(2), C(3)], depth)])
    case('explode_X', f'faces -3, -2, 0, depth {depth}', build, None, sets=[('explode depth', depth)])

  # ---------------------------------------------------------------- documented parameter types
  TYPES = {'absolute_X': 'N', 'X_contains_X': 'SN', 'count_X_in_X': 'SS', 'explode_X': 'D', 'highest_X_of_X': 'ND', 'lowest_X_of_X': 'ND', 'middle_X_of_X': 'ND',
           'highest_of_X_and_X': 'NN', 'lowest_of_X_and_X': 'NN', 'maximum_of_X': 'D', 'reverse_X': 'S', 'sort_X': 'S'}
  for fname, ts in TYPES.items():
    for i, t in enumerate(ts):
      if t == 'D':
        continue
      for kind, special in (('empty die', False), ('empty variant', True)):
        def build(w, st, i=i, ts=ts, special=special):
          args = [w.blank(st, special) if j == i else {'N': lambda: C(1), 'S': lambda: w.seq_exact(st, [w.num('q')]), 'D': lambda: w.die('A', st)}[x]() for j, x in enumerate(ts)]
          return args, BlankT(True)
        case(fname, f'{kind} as argument {i + 1} skips the call', build, None)
  return chk.finish()


def sorted_desc(xs):
  return list(xs)[::-1]


def exact1(w, st, n, spec, args=None, ty=INT):
  D, vs, ps = w.die_exact('D', st, n, ty)
  return (args(D) if args else [D]), spec(vs, ps)


def ranked_seq(w, st, pat, spec, kind='seq'):
  xs = w.ranked('e', max(pat) + 1)
  es = [xs[r] for r in pat]
  return [w.seq_exact(st, es) if kind == 'seq' else st.new('list', segs=tuple_of(*es))], spec(xs)
