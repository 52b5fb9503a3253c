import itertools
from .common import *
from .c01 import unary_thunk


def ref(w, st, src, *args):
  """reference result: a definition written from the property, analysed by the same interpreter"""
  s = st.fork()
  f = w.define(src, 'f', s)
  return Py(run(w, s, lambda q: w.I.call(f, list(args), {}, q, w.fr)))


def main():
  chk = Check('C02', 'summaries of all sequence operators equal sum arithmetic, element counts, position-wise comparison and 1-based access')
  # arithmetic and logic: the sum, on either side
  for op in ARITH + LOGIC:
    for a, b in [('seq', 'int'), ('seq', 'float'), ('int', 'seq'), ('float', 'seq'), ('seq', 'seq'), ('seqf', 'seqf'), ('seqf', 'int'),
                 ('seq', 'die'), ('die', 'seq'), ('seq', 'dief'), ('seq', 'bool'), ('bool', 'seq')]:
      if 'bool' in (a, b) and op in ARITH:
        continue
      binary_ob(chk, op, a, b, lambda w, x, y: combine(x, y, lambda p, q: opterm(op, p, q)))
  # against numbers: how many elements
  for op in CMP:
    for a, b in [('seq', 'int'), ('seq', 'float'), ('seqf', 'int'), ('int', 'seq'), ('float', 'seq')]:
      def f():
        w = chk.world()
        st = w.st.fork()
        x, y = Opd(w, st, a, 'A'), Opd(w, st, b, 'B')
        out = run(w, st, lambda s: apply_op(w, s, op, x.term, y.term))
        sq, nm = (x, y) if a.startswith('seq') else (y, x)
        u = fresh()
        e = fn(sq.name + '.e', B(u), ty=sq.ty)
        c = cmp(op, e, nm.num) if sq is x else cmp(op, nm.num, e)
        return check_out(chk, out, Num(mk('sum', (u,), dbase(sq.name), b2i(c), ty=INT)))
      chk.ob(f'{a} {SYMB[op]} {b}', f, 'Seq comparison with a number')
    for d in ('die', 'dief'):
      binary_ob(chk, op, 'seq', d, lambda w, x, y: combine(x, y, lambda p, q: opterm(op, p, q)))
      binary_ob(chk, op, d, 'seq', lambda w, x, y: combine(x, y, lambda p, q: opterm(op, p, q)))
  # two sequences, position by position, every pair of small lengths exactly
  top = 4 if chk.tier == 'quick' else 6
  for op in CMP:
    for n in range(top):
      for m in range(top):
        for other in ('seq', 'list'):
          if other == 'list' and (n, m) not in ((0, 0), (2, 2), (1, 2), (2, 1)):
            continue

          def f():
            w = chk.world()
            st = w.st.fork()
            xs = [w.num(f'a{i}', ANY) for i in range(n)]
            ys = [w.num(f'b{i}', ANY) for i in range(m)]
            A = w.seq_exact(st, xs)
            Bq = w.seq_exact(st, ys) if other == 'seq' else st.new('list', segs=tuple_of(*ys))
            out = run(w, st, lambda s: apply_op(w, s, op, A, Bq))
            base = 'eq' if op == 'ne' else op
            t = TRUE
            for i in range(max(n, m)):
              if i < n and i < m:
                t = and_(t, cmp(base, xs[i], ys[i]))
              elif i < n:    # right position missing: lower than any number
                t = and_(t, C(base in ('gt', 'ge')))
              else:
                t = and_(t, C(base in ('lt', 'le')))
            return check_out(chk, out, Num(not_(t) if op == 'ne' else t))
          chk.ob(f'sequences of lengths {n} {SYMB[op]} {m} ({other})', f, 'Seq._compare_to')
    def f():
      w = chk.world()
      st = w.st.fork()
      x, y = Opd(w, st, 'seq', 'A'), Opd(w, st, 'seq', 'B')
      out = run(w, st, lambda s: apply_op(w, s, op, x.term, y.term))
      base = '==' if op == 'ne' else SYMB[op]
      r = ref(w, st, 'from itertools import zip_longest\ndef f(a, b):\n  return ' + ('not ' if op == 'ne' else '') +
              f'all(p {base} q for p, q in zip_longest(a, b, fillvalue=float("-inf")))', w.seq_segs('A'), w.seq_segs('B'))
      return check_out(chk, out, r)
    chk.ob(f'sequences of any lengths {SYMB[op]}', f, 'Seq._compare_to')
  # one and the same sequence on both sides
  for op in CMP + ['add', 'sub', 'mul']:
    for n in range(top):
      def f():
        w = chk.world()
        st = w.st.fork()
        xs = [w.num(f'a{i}', ANY) for i in range(n)]
        A = w.seq_exact(st, xs)
        out = run(w, st, lambda s: apply_op(w, s, op, A, A))
        if op in CMP:
          base = 'eq' if op == 'ne' else op
          t = and_(TRUE, *[cmp(base, x, x) for x in xs])
          return check_out(chk, out, Num(not_(t) if op == 'ne' else t))
        tot = ZERO
        for x in xs:
          tot = add(tot, x)
        return check_out(chk, out, Num(opterm(op, tot, tot)))
      chk.ob(f'a sequence of {n} {SYMB[op]} itself', f, 'Seq._compare_to' if op in CMP else f'Seq.__{op}__')
  # the same elements in the same order
  for n in range(4):
    for m in range(4):
      for how in ('seq seq', 'list seq', 'seq list'):
        if how != 'seq seq' and (n, m) not in ((0, 0), (2, 2), (1, 2), (3, 2)):
          continue

        def f():
          w = chk.world()
          st = w.st.fork()
          xs = [w.num(f'a{i}') for i in range(n)]
          ys = [w.num(f'b{i}') for i in range(m)]
          mk_ = lambda k, q: w.seq_exact(st, q) if k == 'seq' else st.new('list', segs=tuple_of(*q))
          a, b = (mk_(k, q) for k, q in zip(how.split(), (xs, ys)))
          fn_ = w.I.getattr(w.get('seq', 'Seq'), 'seqs_are_equal', st, w.fr)
          out = run(w, st, lambda s: w.I.call(fn_, [a, b], {}, s, w.fr))
          return check_out(chk, out, Num(and_(TRUE, *[cmp('eq', x, y) for x, y in zip(xs, ys)]) if n == m else FALSE))
        chk.ob(f'equality of {how} of lengths {n} and {m}', f, 'Seq.seqs_are_equal')
  # text sequences: the same elements, as texts
  TEXT = '''
from .factory import get_seq as S
from .roller import roll
def sh(x):
  return [repr(y) for y in x]
'''
  for got, *wants in [("sh([1 @ S('a', 'b'), 2 @ S('a', 'b')])", "['a', 'b']"), ("[0 @ S('a', 'b'), 3 @ S('a', 'b'), -1 @ S('a')]", '[0, 0, 0]'), ("len(S('a', 2, 'b'))", '3'),
                    ("sh([S(1, 2) @ S('a', 'b')])", "['a + b + 0']", "['a + b']"), ("sh([S(2, 2) @ S('a', 'b')])", "['2*b + 0']", "['2*b']"), ("sh([S('a', 'b', 'a') + 1])", "['2*a + b + 1']"), ("sh([1 + S('a')])", "['a + 1']"),
                    ("sh([S('a', 'b').sum()])", "['a + b + 0']", "['a + b']"), ("S('a', 'b') == S('a', 'b')", 'True'), ("S('a', 'b') != S('a', 'b')", 'False'), ("S('a', 'b') == S('b', 'a')", 'False'),
                    ("S('a', 'b') != S('b', 'a')", 'True'), ("S('a') < S('b')", 'True'), ("S('a', 'b') < S('b', 'b')", 'False'), ("S('a', 'b') <= S('b', 'b')", 'True'), ("S('a') < S('a', 'b')", 'False'),
                    ("S('a') <= S('a', 'b')", 'True'), ("S('a', 'b') > S('a')", 'False'), ("S('a', 'b') >= S('a')", 'True'), ("S('a', 'b') > 5", '2'), ("S('a', 7, 'b', 3) > 5", '3'), ("S('a', 7, 3) == 7", '1'),
                    ("S('a', 'b', 'a') == (1 @ S('a'))", '2'), ("S('a', 'b', 'c') > (1 @ S('a'))", '2'), ("S('a', 1) < S(2, 2)", 'False'), ("S(1, 1) < S('a', 2)", 'True'), ("sh(S('x', 1, 'y'))", "['x', '1', 'y']"),
                    ("[sh(S('x', 'y'))[i] for i in (0, 1)]", "['x', 'y']"), ("sh([S('a', 'b')[1], S('a', 'b')[2]])", "['a', 'b']"), ("S('a')[0] == 0 and S('a')[2] == 0", 'True')]:
    def f():
      w = chk.world(contract=False)
      w.get('string_rvs', 'StringVal')
      st = w.st.fork()
      g = w.define(TEXT + f'def go():\n  return 1 if ({got}) in ({", ".join(wants)},) else 0\n', 'go', st)
      return check_out(chk, run(w, st, lambda s: w.I.call(g, [], {}, s, w.fr)), Num(ONE))
    chk.ob(f'{got} is {wants[0]}', f, 'string_rvs.StringSeq')
  # position access
  for n in range(top):
    for how in ('k @ s', 's[k]', '{k} @ s', '{k,l} @ s', '[k,l] @ s', '{} @ s'):
      def f():
        w = chk.world()
        st = w.st.fork()
        xs = [w.num(f'a{i}', ANY) for i in range(n)]
        A = w.seq_exact(st, xs)
        k, l = w.num('k', INT), w.num('l', INT)
        if how == 'k @ s':
          ks = [k]
          out = run(w, st, lambda s: w.I.binop('matmul', k, A, s, w.fr))
        elif how == 's[k]':
          ks = [k]
          out = run(w, st, lambda s: w.I.getitem(A, k, s, w.fr))
        else:
          ks = {'{k} @ s': [k], '{k,l} @ s': [k, l], '[k,l] @ s': [k, l], '{} @ s': []}[how]
          K = w.seq_exact(st, ks) if how[0] == '{' else st.new('list', segs=tuple_of(*ks))
          out = run(w, st, lambda s: w.I.binop('matmul', K, A, s, w.fr))
        return check_out(chk, out, Cases(*_positions(xs, ks)), n=chk.nmodels * 3)
      chk.ob(f'{how} with {n} elements', f, 'Seq position access')
  # length, logical not
  for name in ('len', 'invert'):
    def f():
      w = chk.world()
      st = w.st.fork()
      x = Opd(w, st, 'seq', 'A')
      out = run(w, st, unary_thunk(w, name, x.term))
      u = fresh()
      want = mk('sum', (u,), dbase('A'), ONE, ty=INT) if name == 'len' else b2i(cmp('eq', sum_of('A'), ZERO))
      return check_out(chk, out, Num(want))
    chk.ob(f'{name} seq', f, f'Seq {name}')
  return chk.finish()


def _positions(xs, ks):
  """every combination of positions in and outside the sequence"""
  n = len(xs)
  for c in itertools.product(range(n + 2), repeat=len(ks)):
    cond, t = TRUE, ZERO
    for k, j in zip(ks, c):
      if j < n:
        cond, t = and_(cond, cmp('eq', k, C(j + 1))), add(t, xs[j])
      else:
        cond = and_(cond, cmp('lt', k, ONE) if j == n else cmp('lt', C(n), k))
    yield cond, Num(t)
