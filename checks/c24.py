"""C24: the sequences an uninterpreted function receives when rolled dice are enumerated, and their weights"""
from .rolled import *


def main():
  chk = Check('C24', 'every multiset of n faces is passed exactly once, sorted, weighing orderings times face weights')
  site = 'randvar.RV._get_expanded_possible_rolls'
  quick = chk.tier == 'quick'
  sizes = [(k, N) for k in (1, 2, 3, 4) for N in (1, 2, 3, 4, 5) if (k + N <= 7 or not quick)]
  sizes += [(1, 9), (2, 8), (3, 6)] if quick else [(1, 30), (2, 20), (3, 9), (5, 3), (6, 3)]

  def one(k, N, order, ty, consts=None, ann='T_S', deco='anydice_casting()', real=False, pos=0):
    def f():
      w = chk.world()
      st = w.st.fork()
      w.setting('position order', order, st)
      D, vs, ps = w.die_exact('D', st, k, ty, consts)
      R = rolled(w, st, D, N, real)
      seen_ = []

      def ret(s, seen, args):
        seen_.append((seen[pos], s.pc))
        return fn('g', *seen, ty=INT)
      z = w.num('z')
      p = make_probe(w, st, f'P: {ann}' if pos == 0 else f'Z: T_N, P: {ann}', ret=ret, decorator=deco)
      out = run(w, st, lambda s: w.I.call(p, ([z] if pos else []) + [R], {}, s, w.fr))
      srt = (lambda xs: xs[::-1]) if order == 'highest first' else (lambda xs: xs)
      pre = [num_(z)] if pos else []
      spec = Dist(*bag_of(vs, ps, N, lambda xs: g_(*pre, seq_(*[it(x) for x in srt(xs)]))))
      v = check_out(chk, out, spec)
      if v[0] == VIOLATED or out.raises:
        return v
      if not any(x.fb for x, _ in seen_) and len(seen_) != len(set(seen_)):
        dup = [x for x in seen_ if seen_.count(x) > 1][0][0]
        return VIOLATED, f'the roll {show(dup)[:120]} is enumerated more than once'
      return v
    chk.ob(f'{N} dice with {k} faces, {order}, {"float faces" if ty is not INT else "int faces"}{" weights " + str(consts) if consts else ""}{" via roll" if real else ""}{" second argument" if pos else ""} {deco}', f, site)

  for order in ('highest first', 'lowest first'):
    for k, N in sizes:
      one(k, N, order, INT)
    one(3, 2, order, ANY)
    one(2, 3, order, ANY)
    one(2, 3, order, INT, pos=1)
    one(2, 2, order, INT, deco='anydice_type_casting()')
    one(2, 2, order, INT, real=True)
    one(2, 3, order, INT, real=True)
    one(2, 25, order, INT, consts=(1, 1))
    one(2, 25, order, INT, consts=(2, 3))
    one(3, 4, order, INT, consts=(1, 0, 2))
    one(4, 3, order, INT, consts=(1, 1, 1, 1))
    one(24, 2, order, INT, consts=(1,) * 24)
  return chk.finish()
