"""C25: what the pieces a translated program is built from mean at run time: ranges, sequences, constants, dice from sequences, digits, logic, equality of dice"""
import itertools
from .rolled import *


def main():
  chk = Check('C25', 'summaries of ranges, sequence and die construction, digit access, logic helpers and die equality equal their definitions')
  quick = chk.tier == 'quick'

  def call(w, f, *a):
    return lambda s: w.I.call(f, list(a), {}, s, w.fr)

  def src(w, st, text, name='f'):
    return w.define(text, name, st)

  # ---------------------------------------------------------------- ranges
  def rng_all():
    w = chk.world()
    st = w.st.fork()
    a, b = w.num('a'), w.num('b')
    out = run(w, st, call(w, src(w, st, 'def f(a, b):\n  return get_seq(myrange(a, b))\n'), a, b))
    return check_out(chk, out, SeqT(*w.I.iter_segs(mk('range', a, add(b, ONE), ONE), st, w.fr)))
  chk.ob('range of any bounds', rng_all, 'roller.myrange')
  for a, b in itertools.product((-3, -1, 0, 1, 2, 5), repeat=2):
    for how in ('get_seq(myrange(a, b))', 'get_seq([7, myrange(a, b), 7])', 'Seq(myrange(a, b))', 'get_seq(list(myrange(a, b)))'):
      def f():
        w = chk.world()
        st = w.st.fork()
        out = run(w, st, call(w, src(w, st, f'def f(a, b):\n  return {how}\n'), C(a), C(b)))
        xs = list(range(a, b + 1))
        if '7' in how:
          xs = [7] + xs + [7]
        return check_out(chk, out, SeqT(*[it(C(x)) for x in xs]))
      chk.ob(f'{how} with a={a}, b={b}', f, 'roller.myrange')
  for k in ('die', 'dief', 'blank', 'nullrv'):
    for side in (0, 1):
      def f():
        w = chk.world()
        st = w.st.fork()
        x = Opd(w, st, k, 'A').term
        out = run(w, st, call(w, w.pub('myrange'), *([x, C(3)] if side == 0 else [C(1), x])))
        return check_out(chk, out, Raise('TypeError'))
      chk.ob(f'{k} as {"end" if side else "start"} of a range', f, 'roller.myrange')

  # ---------------------------------------------------------------- sequences from anything but dice: every element, in order
  shapes = [(), ('x',), ('x', 'y'), ('x', 'x'), (['x', 'y'], 'z'), ('x', ['y', ['z', 'x']]), ([], 'x', [[]]), (('x', 'y'), ['z']), ({'seq': ['x', 'y']}, 'z'),
            ('z', {'seq': ['x', 'y']}, {'seq': ['x']}), ({'seq': []}, 'x'), ([{'seq': ['y', 'x']}, ('z',)], 'y'), ('x', 'y', 'z', 'x', 'y'), ({'iter': ['x', 'y']}, 'z'), ([[['x']]],)]

  def build(w, st, sh, v):
    if isinstance(sh, str):
      return v[sh]
    if isinstance(sh, dict):
      (k, e), = sh.items()
      e = [build(w, st, y, v) for y in e]
      return w.seq_exact(st, e) if k == 'seq' else st.new('iter', segs=tuple_of(*e))
    e = [build(w, st, y, v) for y in sh]
    return tuple_of(*e) if isinstance(sh, tuple) else st.new('list', segs=tuple_of(*e))

  def flat(sh):
    if isinstance(sh, str):
      return [sh]
    return [y for x in (next(iter(sh.values())) if isinstance(sh, dict) else sh) for y in flat(x)]
  for sh in shapes:
    for ty in (INT, ANY):
      for f_ in ('get_seq', 'Seq', 'iterate'):
        def f():
          w = chk.world()
          st = w.st.fork()
          v = {n: w.num(n, ty) for n in 'xyz'}
          args = [build(w, st, x, v) for x in sh]
          want = SeqT(*[it(v[n]) for n in flat(sh)])
          if f_ == 'iterate':
            g = src(w, st, 'def f(*a):\n  out = []\n  for x in get_seq(*a):\n    out.append(x)\n  return Seq(out)\n')
          else:
            g = w.pub(f_)
          return check_out(chk, run(w, st, call(w, g, *args)), want)
        chk.ob(f'{f_} of {sh}{"" if ty is INT else ", any numbers"}', f, 'factory.get_seq' if f_ != 'Seq' else 'seq.Seq.__init__')
  for kind in ('seq', 'list', 'tuple'):
    for f_ in ('get_seq', 'Seq'):
      for extra in ('', 'before', 'after', 'twice'):
        def f():
          w = chk.world()
          st = w.st.fork()
          t, x = Opd(w, st, kind, 'A').term, w.num('x')
          segs = w.seq_segs('A').args
          args, want = {'': ([t], segs), 'before': ([x, t], (it(x), *segs)), 'after': ([t, x], (*segs, it(x))), 'twice': ([t, t], (*segs, *segs))}[extra]
          return check_out(chk, run(w, st, call(w, w.pub(f_), *args)), SeqT(*want))
        chk.ob(f'{f_} of any {kind} {extra}', f, 'factory.get_seq' if f_ == 'get_seq' else 'seq.Seq.__init__')

  # ---------------------------------------------------------------- dice inside sequences give their faces
  for f_ in ('get_seq', 'Seq'):
    s_ = 'factory.get_seq' if f_ == 'get_seq' else 'seq.Seq.__init__'
    for ns in ((1,), (2,), (3,), (1, 1), (2, 1), (2, 2), (1, 3), (3, 2), (2, 2, 1)):
      for nested in (False, True):
        def f():
          w = chk.world()
          st = w.st.fork()
          ds, want = [], []
          for i, n in enumerate(ns):
            D, vs, ps = w.die_exact('ABC'[i], st, n)
            ds.append(D)
            want += vs
          args = [st.new('list', segs=tuple_of(*ds))] if nested else ds
          return check_out(chk, run(w, st, call(w, w.pub(f_), *args)), SeqT(*[it(v) for v in want]))
        chk.ob(f'{f_} of dice with {ns} faces{" in a list" if nested else ""}', f, s_)
    for what in ('same die twice', 'overlapping', 'with the empty die', 'only the empty die', 'impossible face'):
      def f():
        w = chk.world()
        st = w.st.fork()
        D, vs, ps = w.die_exact('A', st, 2)
        if what == 'same die twice':
          args, want = [D, D], vs + vs
        elif what == 'overlapping':
          e = w.raw_rv(st, tuple_of(vs[1], add(vs[1], ONE)), tuple_of(ONE, ONE))
          args, want = [D, e], vs + [vs[1], add(vs[1], ONE)]
        elif what == 'with the empty die':
          args, want = [D, w.blank(st)], vs
        elif what == 'only the empty die':
          args, want = [w.blank(st)], []
        else:
          args, want = [w.raw_rv(st, tuple_of(*vs), tuple_of(ZERO, ONE))], vs
        return check_out(chk, run(w, st, call(w, w.pub(f_), *args)), SeqT(*[it(v) for v in want]))
      chk.ob(f'{f_} of {what}', f, s_)
    # numbers and dice mixed: the collection of elements (their order is not promised)
    for sh in (('x', 2), (2, 'x'), ('x', 1, 'x', 2)):
      def f():
        w = chk.world()
        st = w.st.fork()
        x, args, el = w.num('x'), [], []
        for i, y in enumerate(sh):
          if y == 'x':
            args.append(x)
            el.append(x)
          else:
            D, vs, ps = w.die_exact('ABCD'[i], st, y)
            args.append(D)
            el += vs
        g = src(w, st, f'def f(*a):\n  s = {f_}(*a)\n  return s.sum() * 1000 + len(s)\n')
        return check_out(chk, run(w, st, call(w, g, *args)), Num(add(mul(add_all(el), C(1000)), C(len(el)))))
      chk.ob(f'{f_} of numbers and dice {sh}', f, s_)
  for bad in ('None', '{1: 2}.items', 'object'):
    for f_ in ('Seq',):
      def f():
        w = chk.world()
        st = w.st.fork()
        return check_out(chk, run(w, st, call(w, src(w, st, f'def f():\n  return {f_}(1, {bad})\n'))), Raise())
      chk.ob(f'{f_} rejects {bad}', f, 'seq.Seq.__init__')

  # ---------------------------------------------------------------- dice from constants and sequences
  makers = {'get_rv': lambda w: w.get('factory', 'get_rv'), 'RV.from_seq': None, 'roll': lambda w: w.pub('roll')}
  for ty, k in ((INT, 'int'), (FLOAT, 'float'), (BOOL, 'bool')):
    for f_ in ('get_rv', 'RV.from_const'):
      def f():
        w = chk.world()
        st = w.st.fork()
        x = w.num('x', ty)
        g = w.get('factory', 'get_rv') if f_ == 'get_rv' else src(w, st, 'def f(x):\n  return RV.from_const(x)\n')
        return check_out(chk, run(w, st, call(w, g, x)), Dist(it(tuple_of(b2i(x) if k == 'bool' else x, ONE))))
      chk.ob(f'{f_} of any {k}', f, 'factory.get_rv')
  for c in (0.1234567891, 1e-9, -2.5e-7, 10 ** 15 + 0.5, 2.675, -0.999999999, 10 ** 12, -(10 ** 9), 0.0, True, False):
    for f_ in ('get_rv', 'RV.from_const', 'RV.from_seq', 'roll'):
      def f():
        w = chk.world(contract=False)
        st = w.st.fork()
        g = w.get('factory', 'get_rv') if f_ == 'get_rv' else src(w, st, 'def f(x):\n  return ' + {'RV.from_const': 'RV.from_const(x)', 'RV.from_seq': 'RV.from_seq([x])', 'roll': 'roll([x])'}[f_] + '\n')
        return check_out(chk, run(w, st, call(w, g, C(c))), Dist(it(tuple_of(C(int(c) if c is True or c is False else c), ONE))))
      chk.ob(f'{f_} of {c}', f, 'factory.get_rv')
  for f_ in ('get_rv', 'RV.from_seq'):
    for kind in ('seq', 'list', 'tuple'):
      for pat in ((0,), (0, 1), (1, 0), (0, 0), (0, 1, 1), (2, 0, 1), (1, 1, 1), (0, 1, 0, 1), ()):
        def f():
          w = chk.world()
          st = w.st.fork()
          xs = w.ranked('x', max(pat) + 1, ANY) if pat else []
          el = [xs[i] for i in pat]
          c = {'seq': lambda: w.seq_exact(st, el), 'list': lambda: st.new('list', segs=tuple_of(*el)), 'tuple': lambda: tuple_of(*el)}[kind]()
          g = w.get('factory', 'get_rv') if f_ == 'get_rv' else src(w, st, 'def f(x):\n  return RV.from_seq(x)\n')
          return check_out(chk, run(w, st, call(w, g, c)), Dist(*[it(tuple_of(x, ONE)) for x in el or [ZERO]]))
        chk.ob(f'{f_} of {kind} ordered {pat}', f, 'randvar.RV.from_seq')
  for k in ('die', 'dief'):
    def f():
      w = chk.world()
      st = w.st.fork()
      a = Opd(w, st, k, 'A')
      return check_out(chk, run(w, st, call(w, w.get('factory', 'get_rv'), a.term)), Dist(bag_die('A', a.ty)))
    chk.ob(f'get_rv of a {k}', f, 'factory.get_rv')

  # ---------------------------------------------------------------- numbers: digits, length, logic
  nums = [0, 1, 5, 7, 10, 12, 21, 42, 100, 305, 999, 1000, 12345, 90210, 123456789]
  for n in nums:
    def f():
      w = chk.world()
      st = w.st.fork()
      k = w.num('k')
      out = run(w, st, call(w, w.pub('myMatmul'), k, C(n)))
      ds = str(n)
      cases = [(cmp('eq', k, C(i + 1)), Num(C(int(d)))) for i, d in enumerate(ds)]
      cases += [(cmp('lt', k, ONE), Num(ZERO)), (cmp('lt', C(len(ds)), k), Num(ZERO))]
      return check_out(chk, out, Cases(*cases), n=chk.nmodels * 3)
    chk.ob(f'k @ {n}', f, 'utils.mymatmul')
    for k in range(-1, len(str(n)) + 3):
      def f():
        w = chk.world()
        st = w.st.fork()
        return check_out(chk, run(w, st, call(w, w.pub('myMatmul'), C(k), C(n))), Num(C(int(str(n)[k - 1]) if 1 <= k <= len(str(n)) else 0)))
      chk.ob(f'{k} @ {n}', f, 'utils.mymatmul')
    for sg in (1, -1):
      def f():
        w = chk.world()
        st = w.st.fork()
        return check_out(chk, run(w, st, call(w, w.pub('myLen'), C(sg * n))), Num(C(len(str(n)))))
      chk.ob(f'# {sg * n}', f, 'utils.mylen')

  def helper(name, kinds, spec, site):
    def f():
      w = chk.world()
      st = w.st.fork()
      xs = [Opd(w, st, k, n) for k, n in zip(kinds, 'AB')]
      out = run(w, st, call(w, w.pub(name), *[x.term for x in xs]))
      return check_out(chk, out, spec(w, st, *xs))
    chk.ob(f'{name} of {", ".join(kinds)}', f, site)
  isz = lambda t: b2i(cmp('eq', t, ZERO))
  helper('myInvert', ['int'], lambda w, st, a: Num(isz(a.num)), 'utils.myinvert')
  helper('myInvert', ['seq'], lambda w, st, a: Num(isz(a.num)), 'utils.myinvert')
  helper('myInvert', ['seqf'], lambda w, st, a: Num(isz(a.num)), 'utils.myinvert')
  helper('myLen', ['seq'], lambda w, st, a: Num(card(dbase('A'))), 'utils.mylen')
  helper('myLen', ['die'], lambda w, st, a: Num(ONE), 'utils.mylen')
  for op, nm in (('bitand', 'myAnd'), ('bitor', 'myOr')):
    for ka in ('int', 'bool', 'seq', 'seqf', 'die', 'dief'):
      for kb in ('int', 'bool', 'seq', 'seqf', 'die', 'dief'):
        if ka == kb == 'dief' and quick:
          continue
        helper(nm, [ka, kb], lambda w, st, a, b, op=op: combine(a, b, lambda p, q: opterm(op, p, q)), f'utils.{nm.lower()}')
  for ka in ('int', 'float', 'seq', 'die', 'dief'):
    for kb in ('int', 'float', 'seq', 'die'):
      helper('true_div_X_X', [ka, kb], lambda w, st, a, b: combine(a, b, lambda p, q: opterm('truediv', p, q)), 'utils.true_div')
  # position access through the helper is the operator
  for n in (0, 1, 2, 3):
    for how in ('k', '{k}', '{k,l}'):
      def f():
        w = chk.world()
        st = w.st.fork()
        xs = [w.num(f'a{i}', ANY) for i in range(n)]
        A, k, l = w.seq_exact(st, xs), w.num('k'), w.num('l')
        ks = {'k': [k], '{k}': [k], '{k,l}': [k, l]}[how]
        from .c02 import _positions
        out = run(w, st, call(w, w.pub('myMatmul'), k if how == 'k' else w.seq_exact(st, ks), A))
        return check_out(chk, out, Cases(*_positions(xs, ks)), n=chk.nmodels * 3)
      chk.ob(f'{how} @ sequence of {n}, through the helper', f, 'utils.mymatmul')
  for k, n, order in itertools.product((0, 1, 2, 3), (1, 2), ('highest first', 'lowest first')):
    def f():
      w = chk.world()
      st = w.st.fork()
      w.setting('position order', order, st)
      A, vs, ps = w.die_exact('A', st, 2)
      R = w.I.call(w.pub('roll'), [C(n), A], {}, st, w.fr)
      out = run(w, st, call(w, w.pub('myMatmul'), C(k), R))
      pick = lambda xs: ZERO if not 1 <= k <= n else xs[n - k] if order == 'highest first' else xs[k - 1]
      spec = Dist(*bag_of(vs, ps, n, pick))
      return check_out(chk, out, spec if 1 <= k <= n else AnyOf(spec, Num(ZERO)))
    chk.ob(f'{k} @ {n} rolled dice through the helper, {order}', f, 'utils.mymatmul')

  # ---------------------------------------------------------------- the same die or not
  def eq_ob(name, src_, want):
    def f():
      w = chk.world(contract=False)
      st = w.st.fork()
      g = src(w, st, f'def f():\n  a = {src_[0]}\n  b = {src_[1]}\n  return (1 if RV.dices_are_equal(a, b) else 0) + (2 if RV.dices_are_equal(b, a) else 0)\n')
      return check_out(chk, run(w, st, call(w, g)), Num(C(3 if want else 0)))
    chk.ob(f'{name}: {src_[0]} and {src_[1]}', f, 'randvar.RV.dices_are_equal')
  dice = {'RV([1, 2], [1, 1])': ((1, 1), (2, 1)), 'RV([2, 1], [3, 3])': ((1, 1), (2, 1)), 'roll(2)': ((1, 1), (2, 1)), 'Seq(2, 1)': ((1, 1), (2, 1)), '[1, 2]': ((1, 1), (2, 1)),
          'RV([1, 2], [1, 2])': ((1, 1), (2, 2)), 'RV([1, 2, 2], [1, 1, 1])': ((1, 1), (2, 2)), 'Seq(2, 1, 2)': ((1, 1), (2, 2)), 'RV([1, 2], [2, 1])': ((1, 2), (2, 1)), 'RV([1, 3], [1, 1])': ((1, 1), (3, 1)),
          'roll(1)': ((1, 1),), '1': ((1, 1),), 'Seq(1)': ((1, 1),), '[1, 1]': ((1, 1),), 'roll(2, 1) - 1': ((1, 1),), '0': ((0, 1),), 'Seq()': ((0, 1),), 'roll(0, 6)': ((0, 1),), 'roll(0)': ((0, 1),),
          'BlankRV()': 'blank', 'BlankRV(_special_null=True)': 'blank', '1.5': ((1.5, 1),), 'RV([1.5], [4])': ((1.5, 1),), 'roll(3)': ((1, 1), (2, 1), (3, 1)), 'roll(2, 2)': ((2, 1), (3, 2), (4, 1)), 'roll(2) + roll(2)': ((2, 1), (3, 2), (4, 1)),
          'RV([1, 2, 3], [1, 2, 1])': ((1, 1), (2, 2), (3, 1)), 'RV([1, 2, 3], [2, 1, 2])': ((1, 2), (2, 1), (3, 2)), 'RV([1, 2, 3], [2, 1, 1])': ((1, 2), (2, 1), (3, 1)),
          'RV([1, 2, 3, 4], [1, 2, 2, 1])': ((1, 1), (2, 2), (3, 2), (4, 1)), 'RV([1, 2, 3, 4], [2, 1, 1, 2])': ((1, 2), (2, 1), (3, 1), (4, 2)), 'RV([1, 2, 3], [1, 0, 1])': ((1, 1), (2, 0), (3, 1)),
          'roll(2) * 2': ((2, 1), (4, 1)), 'RV([2, 3, 4], [1, 2, 2])': ((2, 1), (3, 2), (4, 2))}
  for (a, x), (b, y) in itertools.combinations_with_replacement(dice.items(), 2):
    eq_ob('same distribution' if x == y else 'different', (a, b), x == y)
  return chk.finish()
