"""C26: the text a value shows in a name: how it was rolled"""
import itertools
from .rolled import *


def main():
  chk = Check('C26', 'the text of every value follows from how it was made: n d sides for rolls of plain dice, d{?} for anything else, {?} for sequences')
  quick = chk.tier == 'quick'

  def text(name, make, want, site='randvar.RV.__str__'):
    def f():
      w = chk.world()
      st = w.st.fork()
      v = make(w, st)
      out = run(w, st, lambda s: w.I.call(w.define('def f(x):\n  return f"{x}"\n', 'f', s), [v], {}, s, w.fr))
      o2 = run(w, st, lambda s: w.I.call(w.define('def f(x):\n  return str(x)\n', 'f', s), [v], {}, s, w.fr))
      for o in (out, o2):
        if o.val is None or o.raises:
          return VIOLATED, f'raises {o.raises[0].e if o.raises else ""}'
        if not is_c(o.val):
          return UNDECIDED, f'text {show(o.val)[:80]}'
        if cv(o.val) != want:
          return VIOLATED, f'expected the text {want!r}, the code gives {cv(o.val)!r}'
      return PROVEN, 'text as documented'
    chk.ob(name, f, site)

  def src(body, *names):
    """a value made by an expression over operands"""
    def make(w, st):
      vs = [operand(w, st, n, i) for i, n in enumerate(names)]
      g = w.define(f'def mk({", ".join("xyz"[:len(vs)])}):\n  return {body}\n', 'mk', st)
      return w.I.call(g, vs, {}, st, w.fr)
    return make

  def operand(w, st, kind, i):
    if isinstance(kind, (int, float)):
      return C(kind)
    if kind == 'exact':
      return w.die_exact('DEF'[i], st, 2)[0]
    return Opd(w, st, kind, 'ABC'[i]).term

  def nd(n, k):
    sign, cnt = '-' if n * k < 0 else '', str(abs(n)) if abs(n) > 1 else ''
    return f'{sign}{cnt}d{abs(k)}' if n * k else f'{cnt}d{{0..0}}'

  # ---- plain dice
  ns, ks = (-3, -2, -1, 0, 1, 2, 3, 10), (-6, -1, 0, 1, 2, 6, 20, 50)
  for n, k in itertools.product(ns, ks):
    if abs(n) > 3 and abs(k) > 6:
      continue
    text(f'roll({n}, {k})', src(f'roll({n}, {k})'), nd(n, k), 'roller._setup_str_LHS_RHS')
    if abs(k) <= 6 and abs(n) <= 3:
      text(f'roll({n}, roll({k}))', src(f'roll({n}, roll({k}))'), nd(n, k), 'roller._setup_str_LHS_RHS')
      text(f'roll({n}, roll(1, {k}))', src(f'roll({n}, roll(1, {k}))'), nd(n, k), 'roller._setup_str_LHS_RHS')
      text(f'roll(Seq(5, {n - 5}), {k})', src(f'roll(Seq(5, {n - 5}), {k})'), nd(n, k), 'roller._setup_str_LHS_RHS')
      text(f'roll([{n}], {k})', src(f'roll([{n}], {k})'), nd(n, k), 'roller._setup_str_LHS_RHS')
  for k in ks:
    text(f'roll({k})', src(f'roll({k})'), nd(1, k), 'roller._setup_str_LHS_RHS')
    text(f'roll(roll({k}))', src(f'roll(roll({k}))'), nd(1, k), 'roller._setup_str_LHS_RHS')
  for n, m, k in itertools.product((-2, 0, 1, 2), (-2, -1, 0, 2, 3), (-3, 0, 1, 4)):   # sides that are not one plain die
    cnt = str(abs(n)) if abs(n) > 1 else ''
    text(f'roll({n}, roll({m}, {k}))', src(f'roll({n}, roll({m}, {k}))'), 'd{0..0}' if n == 0 else f'{cnt}d{{?}}', 'roller._setup_str_LHS_RHS')
  for n, k in ((1, 6), (2, 6), (3, 4), (10, 2)):
    text(f'roll text {n}d{k}', src(f'roll("{n}d{k}")'), nd(n, k), 'roller._parse_from_str')

  # ---- custom dice: every kind of die that is not one plain roll
  custom = {'die': src('x', 'die'), 'dief': src('x', 'dief'), 'exact': src('x', 'exact'), 'sequence of sides': src('roll(Seq(1, 2, 2))'), 'list of sides': src('roll([1, 2, 2])'),
            'any sum': src('x + 1', 'die'), 'sum of rolls': src('roll(6) + roll(6)'), '2d3': src('roll(2, 3)'), 'd6 + 0': src('roll(6) + 0'), 'cut': src('roll(6).filter(3)'),
            'from_seq': src('RV.from_seq([1, 2, 3])'), 'from_const': src('RV.from_const(3)'), 'mixture': src('RV.from_rvs([roll(2), roll(2)])'), 'count die': src('roll(roll(2), roll(2, 2))')}
  for nm, mk_ in custom.items():
    if nm not in ('sequence of sides', 'list of sides', '2d3', 'count die'):
      text(nm, mk_, 'd{?}')
    for n in (-2, -1, 0, 1, 2, 3):
      if nm == 'die' and abs(n) > 2 or nm in ('count die', 'mixture', 'dief') and abs(n) > 1:
        continue

      def make(w, st, n=n, mk_=mk_):
        d = mk_(w, st)
        return w.I.call(w.pub('roll'), [C(n), d], {}, st, w.fr)
      text(f'{n} copies of {nm}', make, 'd{0..0}' if n == 0 else f'{abs(n) if abs(n) > 1 else ""}d{{?}}', 'roller._setup_str_LHS_RHS')
  text('sequence of sides', custom['sequence of sides'], 'd{?}')
  for n in (0, 1, 3):
    text(f'{n} copies of any sequence element', src(f'roll({n}, Seq(x, x))', 'int'), 'd{0..0}' if n == 0 else f'{n if n > 1 else ""}d{{?}}')
    text(f'{n} copies of nothing', src(f'roll({n}, Seq())'), 'd{}', 'blackrv.BlankRV.__str__')
    text(f'{n} copies of the empty die', src(f'roll({n}, x)', 'blank'), 'd{}', 'blackrv.BlankRV.__str__')

  # ---- results of operators are not rolls any more
  for op in BINARY:
    for ka, kb in (('die', 'int'), ('int', 'die'), ('die', 'seq'), ('seq', 'die'), ('die', 'die'), ('dief', 'float')):
      if op in ('floordiv', 'truediv', 'mod', 'pow') and ka != 'die':
        continue

      def make(w, st, op=op, ka=ka, kb=kb):
        return apply_op(w, st, op, Opd(w, st, ka, 'A').term, Opd(w, st, kb, 'B').term)
      text(f'{ka} {SYMB[op]} {kb}', make, 'd{?}', 'randvar.RV.__init__')
    sides = {'floordiv': '2', 'truediv': '2', 'mod': '2', 'pow': '2'}.get(op, 'roll(2)')
    py = SYMB[op]
    text(f'd6 {py} {sides}', src(f'roll(6) {py} {sides}'), 'd{?}', 'randvar.RV.__init__')
    text(f'2d2 {py} 1', src(f'roll(2, 2) {py} 1'), 'd{?}', 'randvar.RV.__init__')
  for nm, body in (('neg', '-x'), ('pos', '+x'), ('abs', 'abs(x)'), ('round', 'round(x)')):
    text(f'{nm} of any die', src(body, 'die'), 'd{?}', 'randvar.RV.__init__')
    if nm != 'pos':
      text(f'{nm} of 2d3', src(body.replace('x', 'roll(2, 3)')), 'd{?}', 'randvar.RV.__init__')
  for nm, body in (('position', '1 @ roll(3, 4)'), ('positions', 'Seq(1, 2) @ roll(3, 2)'), ('explode', 'explode_X(roll(2))'), ('highest', 'highest_X_of_X(1, roll(2, 3))'),
                   ('function', 'ff(roll(4))')):
    def make(w, st, body=body):
      g = w.define(f'@anydice_casting()\ndef ff(x: T_N):\n  return x + 1\n\ndef mk():\n  return {body}\n', 'mk', st)
      return w.I.call(g, [], {}, st, w.fr)
    text(f'result of {nm}', make, 'd{?}', 'randvar.RV.__init__')

  # ---- no die is described by how another one was rolled
  for nm, body in (('d6 rolled twice', '(roll(2, d), d)[1]'), ('d6 output', '(d.output(print_=False), d)[1]'), ('d6 summed', '(d + d, d)[1]'), ('d6 as argument', '(ff(d), d)[1]'), ('d6 again', '(roll(3, 6), roll(6))[1]'),
                   ('d6 as sides of a mixture', '(roll(roll(2), d), d)[1]')):
    def make(w, st, body=body):
      g = w.define(f'@anydice_casting()\ndef ff(x: T_N):\n  return x + 1\n\ndef mk():\n  d = roll(6)\n  return {body}\n', 'mk', st)
      return w.I.call(g, [], {}, st, w.fr)
    text(nm, make, 'd6', 'roller.roll')
  for nm, body, want in (('2d6 then 3d6', '(roll(2, 6), roll(3, 6))[0]', '2d6'), ('2d6 after 3d6', '(roll(3, 6), roll(2, 6))[1]', '2d6'), ('2d3 after list', '(roll(2, [1, 2, 3]), roll(2, 3))[1]', '2d3'),
                         ('list after 2d3', '(roll(2, 3), roll(2, [1, 2, 3]))[1]', '2d{?}'), ('2 d 2 after -2 d -2', '(roll(-2, -2), roll(2, 2))[1]', '2d2'), ('2d3 after use', '(roll(2, 3) + 1, roll(2, 3))[1]', '2d3')):
    text(nm, src(body), want, 'roller.roll')

  # rolls that show the same faces but were written differently, or share remembered parts: each keeps its own text
  alike = {'roll(2, 3)': '2d3', 'roll(2, [1, 2, 3])': '2d{?}', 'roll(2, roll(3))': '2d3', 'roll(2, roll(1, [1, 2, 3]))': '2d{?}', 'roll([2], Seq(3, 2, 1))': '2d{?}', 'roll(2, RV([1, 2, 3], [2, 2, 2]))': '2d{?}',
           'roll(4, 3)': '4d3', 'roll(5, Seq(1, 2, 3))': '5d{?}', 'roll(-2, 3)': '-2d3', 'roll(-2, -3)': '2d3', 'roll(1, roll(2, 3))': 'd{?}', 'roll(3) + roll(3)': 'd{?}', 'roll(2, roll(-1, -3))': '2d{?}'}
  for (x, tx), (y, ty) in itertools.permutations(alike.items(), 2):
    text(f'{x} before {y}', src(f'({x}, {y})[0]'), tx, 'roller.roll')
    text(f'{y} after {x}', src(f'({x}, {y})[1]'), ty, 'roller.roll')

  # ---- sequences, empty dice, numbers
  for k in ('seq', 'seqf'):
    text(f'any {k}', src('x', k), '{?}', 'seq.Seq.__str__')
  for body in ('Seq()', 'Seq(1, 2)', 'get_seq([1, [2, 3]])', 'get_seq(myrange(1, 3))', 'reverse_X(Seq(1, 2))', 'sort_X(Seq(1, 2))'):
    text(body, src(body), '{?}', 'seq.Seq.__str__')
  text('the empty die', src('x', 'blank'), 'd{}', 'blackrv.BlankRV.__str__')
  text('the variant of the empty die', src('x', 'nullrv'), 'd{?}', 'blackrv.BlankRV.__str__')
  for n in (-12, 0, 7, 100):
    text(f'number {n}', src('x', n), str(n))
  return chk.finish()
