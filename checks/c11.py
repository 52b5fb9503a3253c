"""C11: positions of rolled dice on every route, for both orders"""
from .rolled import *


def main():
  chk = Check('C11', 'position k of n dice is the k-th value of the roll sorted by the position order setting, on every route')
  quick = chk.tier == 'quick'
  site = 'randvar.RV.__rmatmul__'

  def pick(xs, k, order):
    """value at 1-based position k of ascending xs"""
    if not 1 <= k <= len(xs):
      return ZERO
    return xs[len(xs) - k] if order == 'highest first' else xs[k - 1]

  def one(kf, N, order, route, ks, ty=INT, consts=None, real=False):
    def f():
      w = chk.world()
      st = w.st.fork()
      w.setting('position order', order, st)
      D, vs, ps = w.die_exact('D', st, kf, ty, consts)
      R = rolled(w, st, D, N, real)
      if route == 'number':
        sel = C(ks[0])
      elif route == 'seq':
        sel = w.seq_exact(st, [C(k) for k in ks])
      elif route == 'list':
        sel = st.new('list', segs=tuple_of(*[C(k) for k in ks]))
      else:
        sel = tuple_of(*[C(k) for k in ks])
      if route == 'function':
        body = 'return ' + (' + '.join(f'({k} @ X)' for k in ks) or '0')
        p = make_probe(w, st, 'X: T_S', body=body)
        out = run(w, st, lambda s: w.I.call(p, [R], {}, s, w.fr))
      elif route == 'die function':
        body = 'return ' + (f'{ks[0]} @ X' if len(ks) == 1 else f'Seq({", ".join(map(str, ks))}) @ X')
        p = make_probe(w, st, 'X: T_D', body=body)
        out = run(w, st, lambda s: w.I.call(p, [R], {}, s, w.fr))
      else:
        out = run(w, st, lambda s: w.I.binop('matmul', sel, R, s, w.fr))
      spec = Dist(*bag_of(vs, ps, N, lambda xs: add_all([pick(xs, k, order) for k in ks])))
      if not any(1 <= k <= N for k in ks):
        spec = AnyOf(spec, Num(ZERO))
      return check_out(chk, out, spec)
    chk.ob(f'{route} {ks} of {N} dice with {kf} faces, {order}{" float faces" if ty is not INT else ""}{" weights " + str(consts) if consts else ""}{" via roll" if real else ""}', f, site)

  for order in ('highest first', 'lowest first'):
    for kf, N in [(1, 1), (2, 1), (3, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4)] + ([(2, 5), (4, 2)] if quick else [(2, 5), (4, 2), (3, 4), (4, 3), (2, 6), (5, 2)]):
      for k in range(-1, N + 3):
        one(kf, N, order, 'number', [k])
    for N in (1, 2, 3):
      for k in range(0, N + 2):
        one(2, N, order, 'seq', [k])
        one(2, N, order, 'list', [k])
        one(2, N, order, 'function', [k])
        one(2, N, order, 'die function', [k])
      for ks in ([1, 2], [2, 1], [1, 1], [1, 2, 3], [3, 1], [0, 1], [N, N + 1], [-1, 2], [2, 2, 1]):
        for kf in (2, 3):
          one(kf, N, order, 'seq', ks)
        one(2, N, order, 'list', ks)
        one(2, N, order, 'function', ks)
        one(2, N, order, 'die function', ks)
    for N in (4, 5) if quick else (4, 5, 6):
      for k in (1, 2, N, N + 1):
        one(2, N, order, 'function', [k])
        one(2, N, order, 'seq', [k])
      one(2, N, order, 'die function', [1])
      one(2, N, order, 'function', [1, N])
      one(2, N, order, 'seq', [2, N - 1])
    for k in (1, 2):
      one(2, 2, order, 'number', [k], real=True)
      one(3, 2, order, 'number', [k], ty=ANY)
      one(3, 2, order, 'seq', [1, 2], ty=ANY)
    one(2, 3, order, 'seq', [1, 2], real=True)
    for k in (1, 3, 7, 12, 13):
      one(2, 12, order, 'number', [k], consts=(1, 2))
    for k in (1, 2):
      one(20, 2, order, 'number', [k], consts=(1,) * 20)
    one(20, 2, order, 'seq', [1, 2], consts=(1,) * 20)
    one(3, 3, order, 'number', [2], consts=(1, 0, 2))
    one(3, 3, order, 'number', [3], consts=(1, 0, 2))
    one(3, 3, order, 'seq', [1, 3], consts=(2, 0, 2))
    one(2, 9, order, 'seq', [1, 2, 3, 4, 5, 6, 7, 8, 9], consts=(1, 1))
    one(2, 9, order, 'seq', [9, 1], consts=(1, 3))

  # a result of arithmetic is one die
  for order in ('highest first', 'lowest first'):
    for k in (0, 1, 2):
      def f():
        w = chk.world()
        st = w.st.fork()
        w.setting('position order', order, st)
        A, vs, ps = w.die_exact('A', st, 2)
        x = w.num('x')
        out = run(w, st, lambda s: w.I.binop('matmul', C(k), w.I.binop('add', A, x, s, w.fr), s, w.fr))
        d = Dist(*[it(tuple_of(add(v, x), p)) for v, p in zip(vs, ps)])
        return check_out(chk, out, d if k == 1 else AnyOf(Num(ZERO), Dist(it(tuple_of(ZERO, ONE)))))
      chk.ob(f'position {k} of a single derived die, {order}', f, site)
  # a die is no position
  for k in ('die', 'dief'):
    def f():
      w = chk.world()
      st = w.st.fork()
      A, Bd = w.die('A', st), w.die('B', st)
      out = run(w, st, lambda s: w.I.binop('matmul', A, Bd, s, w.fr))
      return check_out(chk, out, Raise())
    chk.ob(f'{k} as position rejected', f, site)
  return chk.finish()
