"""C05: the casting decorator around an uninterpreted function that returns numbers, dice, sequences, nothing"""
import itertools
from .probe import *

DECOS = ['anydice_casting()', 'anydice_type_casting()']


def scaled(parts):
  """parts: [(weight, bag of (value, weight) pairs)] with exact sizes -> segments of the mixture in integer weights"""
  tot = []
  for _, bag in parts:
    t = ZERO
    for _, p in bag:
      t = add(t, p)
    tot.append(t)
  out = []
  for i, (w, bag) in enumerate(parts):
    f = w
    for j, t in enumerate(tot):
      if j != i:
        f = mul(f, t)
    for v, p in bag:
      out.append(it(tuple_of(v, mul(f, p))))
  return out


def main():
  chk = Check('C05', 'the result of a function over dice is the mixture of its results weighted by the product of the outcome weights')
  site = 'decorators.anydice_type_casting'

  def vp(n, u, ty=INT):
    return fn(n + '.v', B(u), ty=ty), fn(n + '.p', B(u), ty=INT)

  # -------- any dice, number results
  for nd in (1, 2, 3):
    for ty in ('N', 'S'):
      for deco in DECOS:
        for kw in range(0, nd + 1):
          for fl in ((INT, ANY) if kw == 0 else (INT,)):
            def f():
              w = chk.world()
              st = w.st.fork()
              names = 'ABC'[:nd]
              ds = [w.die(n, st, fl) for n in names]
              p = make_probe(w, st, ', '.join(f'{n}: T_{ty}' for n in 'PQR'[:nd]), decorator=deco)
              out = run(w, st, lambda s: w.I.call(p, ds[:nd - kw], dict(zip('PQR'[nd - kw:nd], ds[nd - kw:])), s, w.fr))
              us = [fresh() for _ in names]
              x = [vp(n, u, fl) for n, u in zip(names, us)]
              wt = x[0][1]
              for _, q in x[1:]:
                wt = mul(wt, q)
              seg = it(tuple_of(g_(*[num_(v) if ty == 'N' else seq_(it(v)) for v, _ in x]), wt))
              for n, u in reversed(list(zip(names, us))):
                seg = mk('for', (u,), dbase(n), seg)
              return check_out(chk, out, Dist(seg))
            chk.ob(f'{nd} dice as {ty}, {kw} by keyword, number results, {deco}{" float faces" if fl is not INT else ""}', f, site)

  # -------- a die next to arguments that need no enumeration
  for order in itertools.permutations(('die', 'int', 'seq')):
    def f():
      w = chk.world()
      st = w.st.fork()
      d, z = w.die('A', st), w.num('z')
      s_ = w.seq('S', st)
      terms = {'die': d, 'int': z, 'seq': s_}
      p = make_probe(w, st, ', '.join(f'{n}: T_{"S" if k == "seq" else "N"}' for n, k in zip('PQR', order)))
      out = run(w, st, lambda s: w.I.call(p, [terms[k] for k in order], {}, s, w.fr))
      u = fresh()
      v, q = vp('A', u)
      obs = {'die': num_(v), 'int': num_(z), 'seq': seq_(*w.seq_segs('S').args)}
      return check_out(chk, out, Dist(mk('for', (u,), dbase('A'), it(tuple_of(g_(*[obs[k] for k in order]), q)))))
    chk.ob(f'arguments {order}', f, site)

  # -------- results that are containers contribute their sum (any die, any length)
  for kind in ('seq', 'list', 'tuple', 'iter'):
    def f():
      w = chk.world()
      st = w.st.fork()
      d = w.die('A', st)

      def ret(s, seen, args):
        segs = w.seq_segs('R', deps=tuple(seen))
        if kind == 'seq':
          r = s.new('inst', w.Seq)
          w.I.call(O(Bound(w.Seq.lookup('__init__')[0], r)), [], {'_INTERNAL_SEQ_VALUE': segs}, s, w.fr)
          return r
        return segs if kind == 'tuple' else s.new(kind, segs=segs)
      p = make_probe(w, st, 'P: T_N', ret=ret)
      out = run(w, st, lambda s: w.I.call(p, [d], {}, s, w.fr))
      u, k = fresh(), fresh()
      v, q = vp('A', u)
      o = num_(v)
      return check_out(chk, out, Dist(mk('for', (u,), dbase('A'), it(tuple_of(
        mk('sum', (k,), dbase('R', o), fn('R.e', o, B(k), ty=INT), ty=INT), q)))))
    chk.ob(f'results given as {kind}', f, site)

  # -------- exact dice: every pattern of result kinds
  KINDS = ['num', 'float', 'die2', 'die1', 'None', 'blank', 'nullrv', 'seq']

  def pattern(pat, two=False, deco=DECOS[0], sets=(), uneven=False):
    def f():
      w = chk.world()
      st = w.st.fork()
      for k, v in sets:
        w.setting(k, v, st)
      n = len(pat)
      A, vs, ps = w.die_exact('A', st, n)
      rets, bags = [], []
      for i, k in enumerate(pat):
        if k in ('num', 'float'):
          x = w.num(f'r{i}', INT if k == 'num' else FLOAT)
          rets.append(x)
          bags.append([(x, ONE)])
        elif k in ('die2', 'die1'):
          D, dv, dp = w.die_exact(f'D{i}', st, int(k[-1]))
          rets.append(D)
          bags.append(list(zip(dv, dp)))
        elif k == 'None':
          rets.append(NONE_T)
          bags.append(None)
        elif k == 'seq':
          x, y = w.num(f'r{i}'), w.num(f's{i}')
          rets.append(w.seq_exact(st, [x, y]))
          bags.append([(add(x, y), ONE)])
        else:
          rets.append(w.blank(st, k == 'nullrv'))
          bags.append(None)

      def ret(s, seen, args):
        for x, r in zip(vs, rets):
          if args[0] is x:
            return r
        raise Unsupported('outcome not a face')
      p = make_probe(w, st, 'P: T_N', ret=ret, decorator=deco)
      out = run(w, st, lambda s: w.I.call(p, [A], {}, s, w.fr))
      keep = [(q, b) for q, b in zip(ps, bags) if b is not None]
      if not keep:
        return check_out(chk, out, BlankT(False))
      return check_out(chk, out, Dist(*scaled(keep)))
    chk.ob(f'results {pat}, {deco}{" " + str(sets) if sets else ""}', f, site)

  for n in (1, 2):
    for pat in itertools.product(KINDS, repeat=n):
      pattern(pat)
      if n == 1:
        pattern(pat, deco=DECOS[1])
  for pat in itertools.product(['num', 'die2', 'None', 'blank'], repeat=3):
    pattern(pat)
  for pat in [('die2',) * 4, ('die2', 'num', 'die2', 'die2'), ('num',) * 5, ('die2', 'None', 'die2', 'num', 'die2'), ('die1', 'die2') * 3,
              ('num', 'num', 'None', 'num', 'blank', 'num', 'num', 'die2'), ('num',) * 9 + ('die2',)]:
    pattern(pat)
  pattern(('die2', 'num'), sets=(('RV_IGNORE_ZERO_PROBS', True),))
  pattern(('None', 'num', 'blank'), sets=(('RV_IGNORE_ZERO_PROBS', True),))

  # -------- two enumerated dice with mixed results, each combination called exactly once
  for tys in ('NN', 'NS', 'SN', 'SS'):
    def f():
      w = chk.world()
      st = w.st.fork()
      A, av, ap = w.die_exact('A', st, 2)
      Bd, bv, bp = w.die_exact('B', st, 2)
      D, dv, dp = w.die_exact('D', st, 2)
      r = w.num('r')
      calls = []

      def val(x, s):
        if x.op == 'ref':
          return s.obj(x).f['_seq'].args[0].args[0]
        return x

      def ret(s, seen, args):
        i, j = av.index(val(args[0], s)), bv.index(val(args[1], s))
        calls.append((i, j, s.pc))
        return [[D, r], [NONE_T, D]][i][j]
      p = make_probe(w, st, f'P: T_{tys[0]}, Q: T_{tys[1]}', ret=ret)
      out = run(w, st, lambda s: w.I.call(p, [A, Bd], {}, s, w.fr))
      bd = list(zip(dv, dp))
      spec = Dist(*scaled([(mul(ap[0], bp[0]), bd), (mul(ap[0], bp[1]), [(r, ONE)]), (mul(ap[1], bp[1]), bd)]))
      v = check_out(chk, out, spec)
      if v[0] != VIOLATED and len(set(calls)) != len(calls) or {c[:2] for c in calls} != {(0, 0), (0, 1), (1, 0), (1, 1)}:
        return VIOLATED, f'function called for outcomes {[c[:2] for c in calls]} instead of each combination once'
      return v
    chk.ob(f'two dice as {tys}, die / number / nothing', f, site)

  # -------- any die, the result is a die that depends on the outcome in any way
  def f():
    w = chk.world()
    st = w.st.fork()
    d = w.die('A', st)
    p = make_probe(w, st, 'P: T_N', ret=lambda s, seen, args: w.die('R', s, deps=(args[0],)))
    out = run(w, st, lambda s: w.I.call(p, [d], {}, s, w.fr))
    u, k, k2, u2, k3 = fresh(), fresh(), fresh(), fresh(), fresh()
    v, q = vp('A', u)
    tot = mk('sum', (k2,), dbase('R', v), fn('R.p', v, B(k2), ty=INT), ty=INT)
    v2 = fn('A.v', B(u2), ty=INT)
    prod = mk('prod', (u2,), dbase('A'), mk('sum', (k3,), dbase('R', v2), fn('R.p', v2, B(k3), ty=INT), ty=INT), ty=INT)
    return check_out(chk, out, Dist(mk('for', (u,), dbase('A'), mk('for', (k,), dbase('R', v), it(tuple_of(
      fn('R.v', v, B(k), ty=INT), mul(q, mul(fn('R.p', v, B(k), ty=INT), arith('floordiv', prod, tot)))))))))
  chk.ob('any die, any die as result', f, site)

  # -------- n rolled dice as a sequence
  for N in (2, 3):
    for k in (1, 2):
      for order in ('highest first', 'lowest first'):
        def f():
          w = chk.world()
          st = w.st.fork()
          w.setting('position order', order, st)
          D, vs, ps = w.die_exact('D', st, k)
          R = run(w, st, lambda s: w.I.call(w.pub('roll'), [C(N), D], {}, s, w.fr)).val
          p = make_probe(w, st, 'P: T_S')
          out = run(w, st, lambda s: w.I.call(p, [R], {}, s, w.fr))
          segs = []
          for c in itertools.product(range(k), repeat=N):
            t = ONE
            for i in c:
              t = mul(t, ps[i])
            srt = sorted(c, reverse=order == 'highest first')
            segs.append(it(tuple_of(g_(seq_(*[it(vs[i]) for i in srt])), t)))
          return check_out(chk, out, Dist(*segs))
        chk.ob(f'{N} rolled dice with {k} faces as sequence, {order}', f, site)
  # -------- merging directly
  for wts in (None, 'list', 'iter', 'tuple'):
    for kind in ('list', 'tuple', 'iter'):
      def f():
        w = chk.world()
        st = w.st.fork()
        D, dv, dp = w.die_exact('D', st, 2)
        E, ev, ep = w.die_exact('E', st, 3)
        x = w.num('x')
        items = [D, x, NONE_T, E, w.blank(st)]
        ws = [w.num(f'w{i}', lo=1) for i in range(5)]
        mkc = lambda k, xs: tuple_of(*xs) if k == 'tuple' else st.new(k, segs=tuple_of(*xs))
        args = [mkc(kind, items)] + ([mkc(wts, ws)] if wts else [])
        out = run(w, st, lambda s: w.I.call(w.get('factory', 'merge_rvs'), args, {}, s, w.fr))
        if not wts:
          ws = [ONE] * 5
        return check_out(chk, out, Dist(*scaled([(ws[0], list(zip(dv, dp))), (ws[1], [(x, ONE)]), (ws[3], list(zip(ev, ep)))])))
      chk.ob(f'merge of a {kind} with weights {wts}', f, 'randvar.RV.from_rvs')
  return chk.finish()
