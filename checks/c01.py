from .ctor import *

UNARY = ['neg', 'pos', 'abs', 'round', 'floor', 'ceil', 'trunc']


def unary_thunk(w, name, x):
  if name == 'neg':
    return lambda s: w.I.unop('neg', x, s, w.fr)
  if name == 'pos':
    return lambda s: w.I.unop('pos', x, s, w.fr)
  src = {'abs': 'def f(x): return abs(x)', 'round': 'def f(x): return round(x)', 'round1': 'def f(x): return round(x, 1)',
         'floor': 'import math\ndef f(x): return math.floor(x)', 'ceil': 'import math\ndef f(x): return math.ceil(x)',
         'trunc': 'import math\ndef f(x): return math.trunc(x)', 'invert': 'def f(x): return ~x', 'len': 'def f(x): return len(x)'}[name]

  def go(s):
    f = w.define(src, 'f', s)
    return w.I.call(f, [x], {}, s, w.fr)
  return go


def unary_term(w, st, name, v):
  """documented meaning on one face, built with the analyser's own number primitives"""
  if name == 'neg':
    return sub(ZERO, v)
  if name == 'pos':
    return v
  if name == 'round':   # a die rounds with n=0
    f = w.define('def g(x): return round(x, 0)', 'g', st)
    return w.I.call(f, [v], {}, st, w.fr)
  return unary_thunk(w, name, v)(st)


def main():
  chk = Check('C01', 'summary of A op B / A op x / x op A over all faces equals the independent product distribution of the documented operator; constructor keeps it')
  others = ['int', 'float', 'seq', 'list', 'tuple', 'die', 'dief']
  for op in BINARY:
    for kd in ('die', 'dief'):
      for o in others:
        if kd == 'dief' and o not in ('int', 'seq', 'dief'):
          continue
        binary_ob(chk, op, kd, o, lambda w, a, b: combine(a, b, lambda x, y: opterm(op, x, y)))
        if o not in ('die', 'dief'):
          binary_ob(chk, op, o, kd, lambda w, a, b: combine(a, b, lambda x, y: opterm(op, x, y)))
  for name in UNARY:
    for kd in ('die', 'dief'):
      def f():
        w = chk.world()
        st = w.st.fork()
        a = Opd(w, st, kd, 'A')
        out = run(w, st, unary_thunk(w, name, a.term))
        spec = Dist(bag_die('A', a.ty, lambda v: unary_term(w, st, name, v)))
        return check_out(chk, out, spec)
      chk.ob(f'{name} {kd}', f, f'RV unary {name}')
  # the same die on both sides is two independent rolls
  for op in BINARY:
    def f():
      w = chk.world()
      st = w.st.fork()
      a = Opd(w, st, 'die', 'A')
      out = run(w, st, lambda s: apply_op(w, s, op, a.term, a.term))
      return check_out(chk, out, Dist(bag2('A', INT, 'A', INT, lambda x, y: opterm(op, x, y))))
    chk.ob(f'A {SYMB[op]} A', f, 'RV operator on the same object')
  # numbers of mixed kinds, nearly equal, very large
  import operator as O_
  PY = {'add': O_.add, 'sub': O_.sub, 'mul': O_.mul, 'floordiv': O_.floordiv, 'mod': O_.mod, 'truediv': O_.truediv,
        'eq': O_.eq, 'ne': O_.ne, 'lt': O_.lt, 'le': O_.le, 'gt': O_.gt, 'ge': O_.ge, 'bitand': lambda x, y: 1 if x and y else 0, 'bitor': lambda x, y: 1 if x or y else 0}
  big = 10 ** 17 + 3
  DICE = [((1, 2, 3), (1, 2, 3)), ((1.0, 2.5), (1, 1)), ((-3, -1, 2), (1, 1, 2)), ((0.3, 1), (2, 1)), ((big, 7), (1, 3)), ((0.1 + 0.2, 5), (1, 1)), ((-2.5, 4), (3, 1))]
  NUMS = [1.0, 2, -3, 0.5, 0.3, big, 2.5, -1.0, 10 ** 17]
  def table(op, xs, ys):
    d = {}
    for x, p in xs:
      for y, q in ys:
        v = PY[op](x, y)
        v = int(v) if isinstance(v, bool) else v
        d[v] = d.get(v, 0) + p * q
    return Dist(*[it(tuple_of(C(v), C(p))) for v, p in sorted(d.items())])
  for op in BINARY:
    if op not in PY:
      continue
    for i, (v1, p1) in enumerate(DICE):
      for kind, b in [('die', x) for x in DICE[:i + 1]] + [('num', x) for x in NUMS] + [('rnum', x) for x in NUMS]:
        def f():
          w = chk.world()
          st = w.st.fork()
          R = lambda vs, ps: w.I.call(w.pub('RV'), [tuple_of(*map(C, vs)), tuple_of(*map(C, ps))], {}, st, w.fr)
          A = R(v1, p1)
          Bt = R(*b) if kind == 'die' else C(b)
          x, y = (Bt, A) if kind == 'rnum' else (A, Bt)
          xs, ys = list(zip(v1, p1)), list(zip(*b)) if kind == 'die' else [(b, 1)]
          if kind == 'rnum':
            xs, ys = ys, xs
          return check_out(chk, run(w, st, lambda s: apply_op(w, s, op, x, y)), table(op, xs, ys))
        chk.ob(f'{b if kind == "rnum" else (v1, p1)} {SYMB[op]} {(v1, p1) if kind == "rnum" else b}', f, 'RV operators')
  ctor_obligations(chk, 2)
  return chk.finish()
