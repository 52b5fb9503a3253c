from .common import *
from .c01 import unary_thunk

ANYBLANK = AnyOf(BlankT(False), BlankT(True))


def value_of(o):
  """the operand itself, a sequence being allowed to stand for its sum"""
  if o.isdie:
    return Dist(bag_die(o.name, o.ty))
  if o.kind in ('seq', 'list'):
    return AnyOf(Same(o.term), Num(o.num), SeqT(*_segs(o)))
  return Num(o.num)


def _segs(o):
  u = fresh()
  return [mk('for', (u,), dbase(o.name), it(fn(o.name + '.e', B(u), ty=o.ty)))]


def negated(o):
  if o.isdie:
    return Dist(bag_die(o.name, o.ty, lambda v: sub(ZERO, v)))
  return Num(sub(ZERO, o.num))


def main():
  chk = Check('C03', 'every operator slot of the empty die and of its variant, on both sides and against every operand kind, follows the fixed algebra')
  others = ['int', 'float', 'seq', 'die', 'dief', 'list']
  for k in others:
    for op in ARITH + CMP + LOGIC:
      if k == 'list' and op not in ('add', 'sub'):
        continue
      # plain empty die
      def right(w, a, b):   # x op empty
        if op in ('add', 'sub', 'bitor'):
          return value_of(a)
        return BlankT(False)

      def left(w, a, b):    # empty op x
        if op in ('add', 'bitor'):
          return value_of(b)
        if op == 'sub':
          return negated(b)
        return BlankT(False)
      special = lambda w, a, b: BlankT(True) if op in ARITH else Num(ONE)
      binary_ob(chk, op, k, 'blank', right)
      binary_ob(chk, op, 'blank', k, left)
      if k != 'list':
        binary_ob(chk, op, k, 'nullrv', special)
        binary_ob(chk, op, 'nullrv', k, special)
  for op in ARITH + CMP + LOGIC:
    binary_ob(chk, op, 'blank', 'blank', lambda w, a, b: BlankT(False))
    binary_ob(chk, op, 'nullrv', 'nullrv', lambda w, a, b: BlankT(True) if op in ARITH else Num(ONE))
    if op in ARITH:
      binary_ob(chk, op, 'blank', 'nullrv', lambda w, a, b: ANYBLANK)
      binary_ob(chk, op, 'nullrv', 'blank', lambda w, a, b: BlankT(True))
  for name in ('neg', 'pos', 'abs', 'round', 'round1', 'floor', 'ceil', 'trunc', 'invert', 'len'):
    for k in ('blank', 'nullrv'):
      def f():
        w = chk.world()
        st = w.st.fork()
        a = Opd(w, st, k, 'A')
        out = run(w, st, unary_thunk(w, name, a.term))
        if name == 'len':
          spec = Num(ONE if a.blank else ZERO)
        elif name == 'invert' and a.blank:
          spec = Num(ONE)
        else:
          spec = BlankT(a.blank)
        return check_out(chk, out, spec)
      chk.ob(f'{name} {k}', f, f'BlankRV {name}')
  # position access
  for k in ('blank', 'nullrv'):
    for pos in ('int', 'seq'):
      if k == 'nullrv' and pos == 'seq':
        continue

      def f():
        w = chk.world()
        st = w.st.fork()
        p, a = Opd(w, st, pos, 'K'), Opd(w, st, k, 'A')
        out = run(w, st, lambda s: w.I.binop('matmul', p.term, a.term, s, w.fr))
        if not a.blank:
          spec = BlankT(False)
        else:
          spec = Cases((cmp('eq', p.num, ONE), BlankT(True)), (TRUE, Num(ZERO)))
        return check_out(chk, out, spec, n=chk.nmodels * 3)
      chk.ob(f'{pos} @ {k}', f, 'BlankRV position access')
  # where the two variants come from
  def produced(name, thunk, special):
    def f():
      w = chk.world()
      st = w.st.fork()
      return check_out(chk, run(w, st, lambda s: thunk(w, s)), BlankT(special))
    chk.ob(name, f, name)
  roll = lambda w, s, *a: w.I.call(w.pub('roll'), list(a), {}, s, w.fr)
  produced('roll(n, empty)', lambda w, s: roll(w, s, w.num('n'), w.blank(s)), False)
  produced('roll(empty)', lambda w, s: roll(w, s, w.blank(s)), False)
  produced('roll(empty, d)', lambda w, s: roll(w, s, w.blank(s), w.die('A', s)), True)
  produced('roll(empty, sides)', lambda w, s: roll(w, s, w.blank(s), C(6)), True)
  produced('roll(n, empty sequence)', lambda w, s: roll(w, s, C(3), w.seq_exact(s, [])), False)
  probe = 'def f(X: T_N, Y=0):\n  return X\ng = anydice_casting()(f)'
  probes = 'def f(X: T_S, Y=0):\n  return X\ng = anydice_casting()(f)'
  produced('skipped call, number', lambda w, s: w.I.call(w.define(probe, 'g', s), [w.blank(s)], {}, s, w.fr), True)
  produced('skipped call, sequence', lambda w, s: w.I.call(w.define(probes, 'g', s), [w.blank(s)], {}, s, w.fr), True)
  return chk.finish()
