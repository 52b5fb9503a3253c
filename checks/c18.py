"""C18: operators of a program become the operators of the documented meaning, grouped as the program groups them"""
from .lang import *

OPS = ['+', '-', '*', '/', '^', '@', '&', '|', '<', '>', '=', '!=', '<=', '>=']
REPS = ['|', '&', '<', '=', '-', '+', '/', '*', '^', '@']
UN = ['+', '-', '!', '#']
MODES = [(), ((OPI, True),), ((NLS, True),), ((FLC, True),), ((OPI, True), (NLS, True)), ((OPI, True), (NLS, True), (FLC, True))]


def programs(chk, progs, rule='translation'):
  """one obligation per program and flags"""
  seen = set()
  comp = []

  def ob(src, flags):
    def f():
      if not comp:
        comp.append(Compiler(chk))
      return judge(src, flags, comp[0].text(src, flags))
    fl = ' '.join(k[14:].lower() + ('' if v else '=off') for k, v in flags)
    chk.ob(f'{src!r}{" with " + fl if fl else ""}', f, 'compile_anydice')
  for src, flags in progs:
    if (src, flags) not in seen:
      seen.add((src, flags))
      ob(src, flags)


def expressions(deep):
  """(expression, all modes?)"""
  for o in OPS:
    yield f'A {o} B', 2
    yield f'A{o}B', 0
    yield f'1{o}2', 1
    yield f'1.5 {o} 2.5', 0
    yield f'{{1, 2}} {o} {{A, 3}}', 1
    yield f'"x" {o} "y"', 0
    yield f'[absolute A] {o} [absolute B]', 1
    yield f'{{A {o} B, C {o} 1}}', 1
    yield f'{{A {o} B..C {o} D}}', 1
    yield f'[absolute A {o} B]', 1
    yield f'[count A {o} B in C {o} D]', 1
    yield f'2dA {o} 3dB', 1
  for o1 in OPS:
    for o2 in OPS:
      r = 1 if o1 in REPS and o2 in REPS else 0
      yield f'A {o1} B {o2} C', r
      yield f'A {o1} (B {o2} C)', r
      yield f'(A {o1} B) {o2} C', r
  for o in OPS:
    r = 1
    for u in UN:
      for x in (f'{u}A {o} B', f'A {o} {u}B', f'{u}(A {o} B)', f'({u}A) {o} B', f'A {o} ({u}B)'):
        yield x, r
      for v in UN:
        yield f'{u}{v}A {o} B', 0
        yield f'A {o} {u} {v}B', 0
    for x in (f'dA {o} B', f'A {o} dB', f'A d B {o} C', f'A {o} B d C', f'A d (B {o} C)', f'(A {o} B) d C', f'd(A {o} B)', f'(A d B) {o} C', f'A {o} (B d C)', f'(dA) {o} B', f'A d B {o} C d D', f'dA {o} dB'):
      yield x, r
    for u in UN:
      for x in (f'{u}A d B {o} C', f'A {o} B d {u}C', f'A {o} {u}B d C', f'{u}(A d B) {o} C', f'{u}(dA) {o} B', f'd{u}A {o} B'):
        yield x, 0
  for u in UN:
    for x in (f'{u}A', f'{u}(A)', f'{u}1', f'{u}{{1,2}}', f'{u}"x"', f'{u}[absolute A]', f'{u}A d B', f'A d {u}B', f'd{u}A', f'{u}(A d B)', f'{u}(dA)', f'{u}((A))'):
      yield x, 1
    for v in UN:
      for x in (f'{u}{v}A', f'{u}({v}A)', f'{u}{v}(A + B)', f'{u}({v}A d B)', f'{u}A d {v}B', f'A d {u}{v}B'):
        yield x, 1
      for t in UN:
        yield f'{u}{v}{t}A', 0
        yield f'{u}({v}({t}A))', 0
  for x in ('dA', 'A d B', '2d6', 'd6', '(A)', '((A + B))', 'd{1,2}', '2d{1..3}', '{1,2}d{3,4}', 'dd', 'd(d6)', '(2d6)d4', '2d(d6)', '(dA) d B', 'A d (dB)', '(A d B) d C', 'A d (B d C)',
            '[absolute A] d [absolute B]', '1@2d6', '{1,2}@3d6', '1@2@3d6', 'A@B d C@D', '2d6@3', '(1@A)@B', '1@(A@B)', '#2d6', '#(2d6)', '#{1,2}@A', '1@#A', 'A@-B', '-A@B', '2^-A', '-2^A', '(-2)^2', '2^(-2)', '#A^2', '!A^2', 'A^!B',
            'd6 > 3 & d6 < 2 | d8 = 1', '1 + 2 * 3 ^ 4 @ A d B', 'A d B @ C ^ D * E + F < G & H | I', 'I | H & G < F + E * D ^ C @ B d A', 'A < B < C < D', 'A = B != C', 'A - B - C - D', 'A / B / C / D', 'A ^ B ^ C ^ D', 'A * B / C * D', 'A / B * C / D', 'A - B + C - D',
            'A @ B @ C @ D', '-A - -B - -C', '!!A', '!(A & B) | !C', '((A | B) & (C | D)) = E', 'A * -B', 'A / -(B * C)', 'A - (B - (C - D))', '((A - B) - C) - D', '-(-(-A))', '-(A ^ B)', '(-A) ^ B', 'A ^ (B * C) ^ D'):
    yield x, 2
  cl = ['|', '&', '<', '+', '-', '*', '/', '^', '@'] if deep else ['|', '&', '<', '-', '/', '^', '@']
  for o1 in cl:
    for o2 in cl:
      for o3 in cl:
        yield f'A {o1} B {o2} C {o3} D', 0
        yield f'A {o1} (B {o2} C) {o3} D', 0
        if deep:
          yield f'(A {o1} B) {o2} (C {o3} D)', 0
          yield f'A {o1} (B {o2} C {o3} D)', 0
          yield f'(A {o1} B {o2} C) {o3} D', 0
          yield f'A {o1} (B {o2} (C {o3} D))', 0
          yield f'((A {o1} B) {o2} C) {o3} D', 0
      for u in UN if deep else ('-', '!'):
        yield f'A {o1} {u}B {o2} C', 0
        yield f'A {o1} {u}(B {o2} C)', 0
        yield f'{u}(A {o1} B) {o2} C', 0
      yield f'A {o1} B d C {o2} D', 0
      yield f'A {o1} (B d C {o2} D)', 0
  if deep:
    for o1 in OPS:
      for o2 in OPS:
        for o3 in OPS:
          yield f'A {o1} B {o2} C {o3} D', 0


def main():
  chk = Check('C18', 'operators and grouping of the translation (grammar tables, actions and emission) against the documented precedence', parallel=8)
  deep = chk.tier == 'thorough'
  chk.total = 780.0
  progs = []
  for x, r in expressions(deep):
    ms = MODES if r == 2 or (deep and r == 1) else MODES[:2] if r == 1 else MODES[:1] if not deep else MODES[:2]
    for m in ms:
      progs.append((f'output {x}', m))
  for x in ('A + B * C', 'A ^ -B', '!A | B', '1 @ 2d6'):
    for t in ('X: {}\noutput X', 'if {} {{ output 1 }}', 'loop I over {{ {} }} {{ output I }}', 'function: f N {{ result: {} }} output [f 1]', 'set "x" to {} output 1', 'output {} named "x"', 'if A {{ }} else if {} {{ output 1 }}'):
      for m in MODES:
        progs.append((t.format(x), m))
  programs(chk, progs)
  tables(chk)

  # operators on numbers (the functions the flag makes programs use) and the same functions on dice
  def util(fname, name, build):
    def f():
      w = chk.world()
      w.pub(fname)
      st = w.st.fork()
      args, spec = build(w, st)
      st.pc = ()
      if spec is None:
        return UNDECIDED, 'the operator itself is undecided'
      return check_out(chk, run(w, st, lambda s: w.I.call(w.pub(fname), list(args), {}, s, w.fr)), spec)
    chk.ob(f'{fname}: {name}', f, fname)
  from .common import b2i
  x, y = sym('x', INT), sym('y', INT)
  nz = lambda t: cmp('ne', t, ZERO)
  util('myAnd', 'two numbers', lambda w, st: ([w.num('x'), w.num('y')], Num(b2i(and_(nz(x), nz(y))))))
  util('myOr', 'two numbers', lambda w, st: ([w.num('x'), w.num('y')], Num(b2i(or_(nz(x), nz(y))))))
  util('myInvert', 'number', lambda w, st: ([w.num('x')], Num(b2i(cmp('eq', x, ZERO)))))
  for a in (-2, 0, 1, 2, 3, 5):
    for b in (-1, 0, 1, 2, 3, 5):
      util('myAnd', f'{a} and {b}', lambda w, st, a=a, b=b: ([C(a), C(b)], Num(C(int(a != 0 and b != 0)))))
      util('myOr', f'{a} or {b}', lambda w, st, a=a, b=b: ([C(a), C(b)], Num(C(int(a != 0 or b != 0)))))
  for v in (0, 1, 7, 10, 99, 100, 12345, -1, -10, -123):
    util('myLen', f'number of digits of {v}', lambda w, st, v=v: ([C(v)], Num(C(len(str(abs(v)))))))
  for v in (0, 5, 10, 234, 98765):
    for p in (0, -1, 1, 2, 3, 5, 6):
      d = str(v)
      util('myMatmul', f'digit {p} of {v}', lambda w, st, v=v, p=p, d=d: ([C(p), C(v)], Num(C(int(d[p - 1]) if 0 < p <= len(d) else 0))))

  def like(fname, pyop, kinds):
    """same result as the operator itself"""
    def build(w, st):
      from .common import Opd
      args = [Opd(w, st, k, n).term for k, n in zip(kinds, 'AB')]
      o = run(w, st.fork(), lambda s: w.I.binop(pyop, args[0], args[1], s, w.fr))
      return args, o
    def f():
      from .c07 import same
      w = chk.world()
      w.pub(fname)
      st = w.st.fork()
      args, o = build(w, st)
      o2 = run(w, st.fork(), lambda s: w.I.call(w.pub(fname), list(args), {}, s, w.fr))
      if o.val is None or o2.val is None:
        return (PROVEN, 'both raise') if o.val is None and o2.val is None else (VIOLATED, f'{fname} and the operator disagree about rejecting')
      return same(obs(w, o), obs(w, o2), o.st, o2.st, chk, w)
    chk.ob(f'{fname} of {" and ".join(kinds)} is the operator itself', f, fname)

  def obs(w, o):
    from .c07 import OBS
    return run(w, o.st, lambda s: w.I.call(w.define(OBS, 'obs', s), [o.val], {}, s, w.fr)).val
  for fname, op in (('myAnd', 'bitand'), ('myOr', 'bitor'), ('myMatmul', 'matmul')):
    for ks in (('die', 'die'), ('die', 'int'), ('int', 'die'), ('seq', 'int'), ('int', 'seq'), ('seq', 'die')):
      if op != 'matmul' or ks in (('int', 'seq'), ('int', 'die'), ('seq', 'die')):
        like(fname, op, ks)
  return chk.finish(level='other')


LEVEL = {'|': 1, '&': 2, '<': 3, '>': 3, '=': 3, '!=': 3, '<=': 3, '>=': 3, '+': 4, '-': 4, '*': 5, '/': 5, '^': 6, '@': 7, 'd': 8}


def tables(chk):
  """every choice between grouping to the left and reading on, in every state of the LALR(1) automaton of the grammar, whatever surrounds it"""
  def f(o1, o2):
    c = Compiler(chk)
    if c.text('output A + 1')[0] != 'text':
      return UNDECIDED, 'the grammar rejects everything'
    from engine.plymodel import LexSpec, YaccSpec
    lx = [s for s in c.w.ply.specs.values() if isinstance(s, LexSpec)]
    ya = [s for s in c.w.ply.specs.values() if isinstance(s, YaccSpec)]
    if len(lx) != 1 or len(ya) != 1:
      return UNDECIDED, 'no grammar found'
    lx, ya = lx[0], ya[0]

    def toks(text):
      out = []
      while text:
        for rx, tok, fn_ in lx.rules['INITIAL']:
          m = rx.match(text)
          if m:
            out.append('D_OP' if m.group() == 'd' and 'D_OP' in lx.tokens else tok)
            text = text[m.end():]
            break
        else:
          return None
      return tuple(out)
    t1, t2 = toks(o1), toks(o2)
    if t1 is None or t2 is None:
      return UNDECIDED, 'operator is not a token'
    n, bad = 0, []
    for i, ker in enumerate(ya.states):
      done = [p for p, d in ker if d == len(ya.prods[p].rhs) and len(ya.prods[p].rhs) == len(t1) + 2 and ya.prods[p].rhs[1:-1] == t1
              and ya.prods[p].rhs[0] in ya.nonterms and ya.prods[p].rhs[-1] in ya.nonterms]
      if not done or t2[0] not in ya.trans[i]:
        continue
      n += 1
      a = ya.action[i].get(t2[0])
      want = 'reduce' if LEVEL[o1] >= LEVEL[o2] else 'shift'
      if a is None or a[0] != want:
        bad.append(f'state {i}: after A {o1} B, before {o2}: {a and a[0]} instead of {want}')
    if bad:
      return VIOLATED, '; '.join(bad[:3])
    return PROVEN, f'{n} states with this choice'
  for o1 in LEVEL:
    for o2 in LEVEL:
      chk.ob(f'in every context, A {o1} B {o2} C groups {"left" if LEVEL[o1] >= LEVEL[o2] else "right"}', lambda o1=o1, o2=o2: f(o1, o2), 'precedence')
