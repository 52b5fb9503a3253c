"""C12: roll(n, d) for every kind of n and d"""
from .rolled import *


def main():
  chk = Check('C12', 'roll(n, d) is the distribution of n independent copies of d, for every kind of n and d')
  quick = chk.tier == 'quick'
  site = 'roller.roll'

  def nfold(n):
    """segments: n independent copies of any die A, values added"""
    us = [fresh() for _ in range(n)]
    v = add_all([fn('A.v', B(u), ty=INT) for u in us])
    p = ONE
    for u in us:
      p = mul(p, fn('A.p', B(u), ty=INT))
    seg = it(tuple_of(v, p))
    for u in reversed(us):
      seg = mk('for', (u,), dbase('A'), seg)
    return seg

  def neg_(x):
    return arith('sub', ZERO, x)

  def signed(n):
    def flip(x):
      if x.op == 'for':
        return mk('for', x.args[0], x.args[1], flip(x.args[2]))
      v, p = items_of(x.args[0].args)
      return it(tuple_of(neg_(v), p))
    if n == 0:
      return it(tuple_of(ZERO, ONE))
    return nfold(n) if n > 0 else flip(nfold(-n))

  def case(name, build, spec, sets=(), s=site):
    def f():
      w = chk.world()
      st = w.st.fork()
      for k, v in sets:
        w.setting(k, v, st)
      args = build(w, st)
      out = run(w, st, lambda q: w.I.call(w.pub('roll'), list(args), {}, q, w.fr))
      sp = spec(w, st, args)
      return check_out(chk, out, sp)
    chk.ob(name, f, s)

  def D(w, st):
    return w.die('A', st)

  # any die, exact number of copies
  for n in range(-4 if quick else -6, 5 if quick else 7):
    def spec(w, st, a, n=n):
      return Dist(signed(n))
    case(f'{n} copies of any die', lambda w, st, n=n: (C(n), D(w, st)), spec)
    if n in (0, 1, 2, -1, 3):
      case(f'sequence with sum {n} copies of any die', lambda w, st, n=n: (w.seq_exact(st, [C(5), C(n - 5)]), D(w, st)), spec)
      case(f'list with sum {n} copies of any die', lambda w, st, n=n: (st.new('list', segs=tuple_of(C(n))), D(w, st)), spec)
  case('one argument: the die itself', lambda w, st: (D(w, st),), lambda w, st, a: Dist(nfold(1)))
  case('float count is rounded up', lambda w, st: (C(1.5), D(w, st)), lambda w, st, a: Dist(nfold(2)))
  case('float count, whole', lambda w, st: (C(2.0), D(w, st)), lambda w, st, a: Dist(nfold(2)))
  for x, n in ((0.25, 1), (2.75, 3), (0.0, 0), (-0.5, 0), (-1.5, -1), (-1.0, -1), (-2.25, -2)):
    case(f'float count {x}', lambda w, st, x=x: (C(x), D(w, st)), lambda w, st, a, n=n: Dist(signed(n)))
  case('empty count sequence', lambda w, st: (w.seq_exact(st, []), D(w, st)), lambda w, st, a: Dist(it(tuple_of(ZERO, ONE))))

  # exact dice, more copies, with float faces and symbolic weights
  for k, n in [(1, 5), (1, 17), (2, 5), (2, 6), (2, 7), (2, 8), (3, 3)] + ([] if quick else [(2, 9), (2, 12), (3, 4), (3, 5)]):
    for ty in (INT, ANY):
      def f():
        w = chk.world()
        st = w.st.fork()
        A, vs, ps = w.die_exact('A', st, k, ty)
        out = run(w, st, lambda s: w.I.call(w.pub('roll'), [C(n), A], {}, s, w.fr))
        return check_out(chk, out, Dist(*bag_of(vs, ps, n, add_all)))
      chk.ob(f'{n} copies of a die with {k} faces{"" if ty is INT else ", float faces"}', f, site)

  # constant dice, many copies
  def conv(faces, n):
    cur = {0: 1}
    for _ in range(n):
      nx = {}
      for a, p in cur.items():
        for b, q in faces.items():
          nx[a + b] = nx.get(a + b, 0) + p * q
      cur = nx
    return cur
  for sides in (6, 2, 3, -4, 1, 0, 20, -1, 31):
    for n in (1, 2, 3, 5, 9, 11, -1, -2, -7):
      if abs(n) > 5 and abs(sides) > 10:
        continue
      faces = {i: 1 for i in (range(1, sides + 1) if sides > 0 else range(sides, 0))} or {0: 1}
      d = conv(faces, abs(n))
      if n < 0:
        d = {-a: p for a, p in d.items()}
      spec = lambda w, st, a, d=d: Dist(*[it(tuple_of(C(v), C(p))) for v, p in sorted(d.items())])
      case(f'{n} copies of d{sides}', lambda w, st, n=n, sides=sides: (C(n), C(sides)), spec)
      if n == 1:
        case(f'one argument d{sides}', lambda w, st, sides=sides: (C(sides),), spec)
        case(f'text 0d{sides}', lambda w, st, sides=sides: (C(f'0d{sides}'),), lambda w, st, a: Dist(it(tuple_of(ZERO, ONE))))
      if n in (1, 2, 3, 5, 11) and sides > 0:
        case(f'text {n}d{sides}', lambda w, st, n=n, sides=sides: (C(f'{n}d{sides}'),), spec)
        if n == 1:
          case(f'text d{sides}', lambda w, st, sides=sides: (C(f'd{sides}'),), spec)

  # a symbolic number of sides
  def sides(lo, hi):
    def f():
      w = chk.world()
      st = w.st.fork()
      k = w.num('k')
      st.assume(cmp('le', C(lo), k)) if lo is not None else st.assume(cmp('le', k, C(hi)))
      pre = cmp('le', C(lo), k) if lo is not None else cmp('le', k, C(hi))
      w.pre.append(pre)
      out = run(w, st, lambda s: w.I.call(w.pub('roll'), [k], {}, s, w.fr))
      u = fresh()
      a, b = (ONE, add(k, ONE)) if lo is not None else (k, ZERO)
      return check_out(chk, out, Dist(mk('for', (u,), mk('d.range', a, b, ONE), it(tuple_of(B(u), ONE)))))
    return f
  chk.ob('any positive number of sides', sides(1, None), site)
  chk.ob('any negative number of sides', sides(None, -1), site)

  # sequences of sides: elements equally likely (repeated ones counted)
  for n in (1, 2):
    for pat in [(0,), (0, 1), (1, 0), (0, 0), (0, 1, 1), (2, 0, 1), (0, 1, 0, 1)]:
      for kind in ('seq', 'list', 'tuple', 'iter'):
        if kind != 'seq' and (n > 1 or len(pat) > 2):
          continue

        def f():
          w = chk.world()
          st = w.st.fork()
          xs = w.ranked('x', max(pat) + 1, ANY)
          el = [xs[i] for i in pat]
          c = {'seq': lambda: w.seq_exact(st, el), 'list': lambda: st.new('list', segs=tuple_of(*el)), 'tuple': lambda: tuple_of(*el),
               'iter': lambda: st.new('iter', segs=tuple_of(*el))}[kind]()
          out = run(w, st, lambda s: w.I.call(w.pub('roll'), [C(n), c], {}, s, w.fr))
          return check_out(chk, out, Dist(*[it(tuple_of(add_all(t), ONE)) for t in itertools.product(el, repeat=n)]))
        chk.ob(f'{n} copies of {kind} of sides ordered {pat}', f, site)

  def anyseq():
    w = chk.world()
    st = w.st.fork()
    s_ = w.seq('S', st)
    MAYBE_EMPTY.discard('S')
    w.sizes['S'] = lambda rng, *a: rng.choice([1, 2, 3, 4])
    st.assume(cmp('le', ONE, card(dbase('S'))))
    out = run(w, st, lambda q: w.I.call(w.pub('roll'), [s_], {}, q, w.fr))
    u = fresh()
    return check_out(chk, out, Dist(mk('for', (u,), dbase('S'), it(tuple_of(fn('S.e', B(u), ty=INT), ONE)))))
  chk.ob('any non-empty sequence of sides', anyseq, site)
  case('float sides', lambda w, st: (ONE, C(2.5)), lambda w, st, a: Dist(it(tuple_of(C(2.5), ONE))))
  case('float sides, two', lambda w, st: (C(2), C(2.5)), lambda w, st, a: Dist(it(tuple_of(C(5.0), ONE))))

  # a die as count: mixture
  def mixture(counts, k, sides=None):
    def f():
      w = chk.world()
      st = w.st.fork()
      ps = [w.num(f'n{i}', lo=1) for i in range(len(counts))]
      N = w.raw_rv(st, tuple_of(*map(C, counts)), tuple_of(*ps))
      if sides is None:
        A, vs, qs = w.die_exact('A', st, k)
        arg = A
      else:
        vs, qs, arg = [C(i) for i in range(1, sides + 1)], [ONE] * sides, C(sides)
      out = run(w, st, lambda s: w.I.call(w.pub('roll'), [N, arg], {}, s, w.fr))
      T_ = add_all(qs)
      m = max(abs(c) for c in counts)
      segs = []
      for c, p in zip(counts, ps):
        sc = p
        for _ in range(m - abs(c)):
          sc = mul(sc, T_)
        for t in (itertools.product(range(len(vs)), repeat=abs(c))):
          x, q = ZERO, sc
          for i in t:
            x = add(x, vs[i])
            q = mul(q, qs[i])
          segs.append(it(tuple_of(x if c >= 0 else neg_(x), q)))
      return check_out(chk, out, Dist(*segs))
    chk.ob(f'die with faces {counts} as count of {"d%d" % sides if sides else "a die with %d faces" % k}', f, site)
  for counts in [(1,), (2,), (0,), (0, 1), (1, 2), (0, 2), (1, 3), (0, 1, 2), (1, 2, 3), (-1, 1), (-2, 0, 1)]:
    mixture(counts, 2)
    mixture(counts, 0, 3)
  mixture((1, 2), 3)

  def weighted(counts, wts, faces, fw):
    """everything constant: impossible counts, impossible faces, repeated totals"""
    def f():
      w = chk.world()
      st = w.st.fork()
      mkd = lambda a, b: w.I.call(O(w.RV), [tuple_of(*map(C, a)), tuple_of(*map(C, b))], {}, st, w.fr)
      N, A = mkd(counts, wts), mkd(faces, fw)
      out = run(w, st, lambda s: w.I.call(w.pub('roll'), [N, A], {}, s, w.fr))
      T_, m, d = sum(fw), max(map(abs, counts)), {}
      for c, p in zip(counts, wts):
        for t in itertools.product(list(zip(faces, fw)), repeat=abs(c)):
          v, q = sum(a for a, _ in t) * (1 if c >= 0 else -1), p * T_ ** (m - abs(c))
          for _, b in t:
            q *= b
          d[v] = d.get(v, 0) + q
      return check_out(chk, out, Dist(*[it(tuple_of(C(v), C(p))) for v, p in sorted(d.items())]))
    chk.ob(f'die with faces {counts} and weights {wts} as count of one with faces {faces} and weights {fw}', f, site)
  for counts, wts in [((1, 2, 3), (1, 0, 1)), ((0, 1), (0, 1)), ((0, 1), (1, 0)), ((1, 2, 3), (0, 0, 5)), ((-1, 0, 2), (2, 0, 3)), ((0, 1, 2, 3), (3, 1, 0, 2)), ((2, 4), (1, 3)), ((1,), (7,)), ((-3, -1), (1, 2)), ((1, 2, 3, 4, 5), (1, 1, 1, 1, 1))]:
    for faces, fw in [((1, 2), (1, 1)), ((1, 2, 3), (1, 0, 2)), ((-1, 0, 1), (1, 2, 1)), ((4,), (1,)), ((0, 5), (3, 1))]:
      weighted(counts, wts, faces, fw)

  # empty dice and sequences
  for n in ('num', 'seq', 'die', 'blank'):
    def arg(w, st, n=n):
      return {'num': lambda: C(3), 'seq': lambda: w.seq_exact(st, [C(2)]), 'die': lambda: w.die('N', st), 'blank': lambda: w.blank(st)}[n]()
    for sp in (False, True):
      case(f'{n} copies of the empty die{" variant" if sp else ""}', lambda w, st, sp=sp, arg=arg: (arg(w, st), w.blank(st, sp)), lambda w, st, a: BlankT(False))
    if n != 'blank':
      case(f'{n} copies of an empty sequence', lambda w, st, arg=arg: (arg(w, st), w.seq_exact(st, [])), lambda w, st, a: BlankT(False))
      case(f'{n} copies of an empty list', lambda w, st, arg=arg: (arg(w, st), st.new('list', segs=tup())), lambda w, st, a: BlankT(False))
  for sp in (False, True):
    for dk in ('die', 'num', 'seq'):
      case(f'empty die{" variant" if sp else ""} copies of {dk}', lambda w, st, sp=sp, dk=dk: (w.blank(st, sp), {'die': lambda: D(w, st), 'num': lambda: C(6), 'seq': lambda: w.seq_exact(st, [C(1), C(2)])}[dk]()),
           lambda w, st, a: BlankT(True))
  case('one argument: empty die', lambda w, st: (w.blank(st),), lambda w, st, a: BlankT(False))
  case('one argument: empty sequence', lambda w, st: (w.seq_exact(st, []),), lambda w, st, a: BlankT(False))

  # the roll remembers n and d for position access, and its length
  for k, n in [(2, 1), (2, 2), (2, 3), (3, 2), (2, 4), (2, 5), (1, 1), (1, 2), (1, 3), (1, 6)]:
    for what in ('len', 'position', 'positions'):
      def f():
        w = chk.world()
        st = w.st.fork()
        A, vs, ps = w.die_exact('A', st, k)
        R = run(w, st, lambda s: w.I.call(w.pub('roll'), [C(n), A], {}, s, w.fr)).val
        if what == 'len':
          out = run(w, st, lambda s: w.I.call(w.define('def L(x):\n  return len(x)\n', 'L', s), [R], {}, s, w.fr))
          return check_out(chk, out, Num(C(n)))
        sel = C(1) if what == 'position' else w.seq_exact(st, [C(1), C(n)])
        out = run(w, st, lambda s: w.I.binop('matmul', sel, R, s, w.fr))
        return check_out(chk, out, Dist(*bag_of(vs, ps, n, lambda xs: xs[-1] if what == 'position' else add(xs[-1], xs[0]))))
      chk.ob(f'{what} of {n} copies of a die with {k} faces', f, site)
  for k, n in [(2, 4), (3, 5), (2, 7)]:
    for sel in ((1,), (2,), (1, n), (n, 2)):
      def f():
        w = chk.world()
        st = w.st.fork()
        R = run(w, st, lambda s: w.I.call(w.pub('roll'), [C(n), C(k)], {}, s, w.fr)).val
        out = run(w, st, lambda s: w.I.binop('matmul', C(sel[0]) if len(sel) == 1 else w.seq_exact(st, [C(i) for i in sel]), R, s, w.fr))
        d = {}
        for t in itertools.product(range(1, k + 1), repeat=n):
          v = sum(sorted(t, reverse=True)[i - 1] for i in sel)
          d[v] = d.get(v, 0) + 1
        return check_out(chk, out, Dist(*[it(tuple_of(C(v), C(p))) for v, p in sorted(d.items())]))
      chk.ob(f'positions {sel} of {n}d{k}', f, site)
  for faces, weights in [((5,), (1,)), ((0,), (1,)), ((0, 1), (0, 1)), ((1, 2, 3), (1, 0, 2)), ((-2, 5), (3, 1)), ((1.5, 2.5), (1, 1)), ((-1, 0, 1), (1, 1, 1)), ((1, 2), (1, 7)), ((7, 8, 9), (2, 1, 2))]:
    for n in (1, 2, 3, 4):
      for sel in ((1,), (n,), (1, n), (n, n), 'len'):
        def f():
          w = chk.world(contract=False)
          st = w.st.fork()
          A = w.I.call(O(w.RV), [tuple_of(*map(C, faces)), tuple_of(*map(C, weights))], {}, st, w.fr)
          R = run(w, st, lambda s: w.I.call(w.pub('roll'), [C(n), A], {}, s, w.fr)).val
          if sel == 'len':
            out = run(w, st, lambda s: w.I.call(w.define('def L(x):\n  return len(x)\n', 'L', s), [R], {}, s, w.fr))
            return check_out(chk, out, Num(C(n)))
          out = run(w, st, lambda s: w.I.binop('matmul', C(sel[0]) if len(sel) == 1 else w.seq_exact(st, [C(i) for i in sel]), R, s, w.fr))
          d = {}
          for t in itertools.product(list(zip(faces, weights)), repeat=n):
            x = sorted([a for a, _ in t], reverse=True)
            v = sum(x[i - 1] for i in sel)
            q = 1
            for _, b in t:
              q *= b
            d[v] = d.get(v, 0) + q
          return check_out(chk, out, Dist(*[it(tuple_of(C(v), C(p))) for v, p in sorted(d.items())]))
        chk.ob(f'positions {sel} of {n} dice with faces {faces}, weights {weights}', f, site)
  for n, k, ty in [(2, 2, 'again'), (3, 2, 'again')]:
    def f():
      """a second roll of the same dice, after arithmetic on the first"""
      w = chk.world()
      st = w.st.fork()
      A, vs, ps = w.die_exact('A', st, k)
      I = w.I

      def go(s):
        r1 = I.call(w.pub('roll'), [C(n), A], {}, s, w.fr)
        I.binop('add', r1, C(5), s, w.fr)
        I.binop('mul', r1, r1, s, w.fr)
        return I.call(w.pub('roll'), [C(n), A], {}, s, w.fr)
      out = run(w, st, go)
      return check_out(chk, out, Dist(*bag_of(vs, ps, n, add_all)))
    chk.ob(f'rolling {n} copies of a die with {k} faces again', f, site)
  return chk.finish()
