"""C17: every construct translates, in every mode, to well-formed Python of the same structure"""
import itertools
from .lang import *
from .c18 import programs

ALL = [tuple((f, True) for f, on in zip((NLS, OPI, FLC), bits) if on) for bits in itertools.product((0, 1), repeat=3)]
TERMS = ['1', '007', '1.50', 'A', '(A)', '(A + 1)', '"x"', '"x[A]y"', '{}', '{1}', '{1, 2}', '{1..3}', '{A, 1..B, "x"}', '[absolute A]', '[f]', '[f A 1]', '[A]', '-A', '+1', '!A', '#A', '--1', 'd6', '2d6', 'A d B', 'A + B', 'A >= B', 'A @ 2d6', '[f {1, [f d6 1]} (A)]', '{{1}, {}}']
PRE = 'function: f { result: 1 } function: f N K { result: N } function: X { result: X }\n'
SLOTS = ['output {}', 'output {} named "x"', 'A: {}\noutput 1', 'if {} {{ output 1 }}', 'if 1 {{ }} else if {} {{ output 1 }}', 'loop I over {} {{ output I }}', 'set "x" to {}\noutput 1', 'function: g {{ result: {} }} output [g]', 'output [absolute {}]',
         'output [f {} 1]', 'output {{{}}}', 'output {{1, {}, 2}}', 'output {{{}..3}}', 'output {{1..{}}}', 'output ({})', 'output 1 + {}', 'output {} + 1', 'output 1 = {} & 2', 'output [f 1 ({})]']
TSLOT = ['output -{}', 'output #{}', 'output !{}', 'output d{}', 'output {} d 6', 'output 2 d {}', 'output 2 d {} + 1', 'output [f {} {}]']
SIMPLE = ['A: 1', 'output A', 'output A named "n"', 'set "x" to A', 'set "x" to "y"']


def blocks(depth, fn):
  """container statements with a hole"""
  yield 'loop I over {{1..3}} {{ {} }}'
  yield 'if A {{ {} }}'
  yield 'if A {{ B: 1 }} else {{ {} }}'
  yield 'if A {{ }} else if B {{ {} }}'
  yield 'if A {{ {} }} else {{ }}'
  yield 'function: g {{ {} }}'
  yield 'function: h N M:s {{ {} }}'


def structures(deep):
  """(program, all modes?)"""
  cont = list(blocks(0, 0))
  for s in SIMPLE:
    yield s + '\noutput 1', 2
    yield 'output 1 ' + s, 1
  for a in SIMPLE + [c.format('C: 2') for c in cont] + [c.format('') for c in cont]:
    for b in SIMPLE + [c.format('D: 3') for c in cont]:
      yield f'{a} {b} output 1', 0
  for c in cont:
    yield c.format('') + ' output 1', 2
    yield c.format('') + '\n' + c.format('') + ' output 1', 1
    yield c.format('A: 1 B: 2') + ' output 1', 2
    yield c.format('output 1'), 2
    yield c.format('output 1') + ' output 2', 1
    for s in SIMPLE:
      yield c.format(s) + ' output 1', 1
    for c2 in cont:
      for body in ('', 'A: 1', 'output A output B', 'A: 1 set "x" to A'):
        yield c.format(c2.format(body)) + ' output 1', 2 if body == 'A: 1' else 1
      yield c.format('A: 1 ' + c2.format('B: 2') + ' C: 3') + ' output 1', 2
      yield c.format(c2.format('') + ' ' + c2.format('B: 2')) + ' output 1', 1
      for c3 in cont:
        yield c.format(c2.format(c3.format('A: 1'))) + ' output 1', 1 if deep else 0
        yield c.format('A: 1 ' + c2.format('B: 2 ' + c3.format('') + ' C: 3') + ' D: 4') + ' output 1', 1 if deep else 0
        if deep:
          for c4 in cont:
            yield c.format(c2.format(c3.format(c4.format('A: 1') + ' B: 2') + ' C: 3')) + ' output 1', 0
  # results anywhere inside functions
  for c in cont:
    yield 'function: k N { ' + c.format('result: N') + ' } output [k 1]', 2
    yield 'function: k N { ' + c.format('result: N') + ' result: 2 } output [k 1]', 1
    yield 'function: k N { result: 1 ' + c.format('result: N') + ' } output [k 1]', 1
    for c2 in cont:
      yield 'function: k N { ' + c.format(c2.format('result: N')) + ' } output [k 1]', 0
  # conditionals
  for n in range(5 if deep else 4):
    for els in ('', ' else { }', ' else { E: 9 }', ' else { if Z { E: 9 } }', ' else { if Z { E: 9 } else { F: 8 } }', ' else { if Z { } F: 8 }', ' else { F: 8 if Z { } }', ' else { if Y { } if Z { } }', ' else { output A }'):
      for b in ('', 'A: {0}', 'A: {0} B: {0}'):
        yield 'if A = 0 { ' + b.format(0) + ' }' + ''.join(f' else if A = {i} {{ {b.format(i)} }}' for i in range(1, n + 1)) + els + ' output 1', 1
  yield 'if A { } if B { } output 1', 2
  yield 'if A { if B { } } else { } output 1', 2
  yield 'if A { } else { if B { } else { } } output 1', 2
  # parameters
  for ps in ('', 'N', 'N:n', 'N:s', 'N:d', 'N M', 'N:n M', 'N M:s', 'N:s M:d', 'N N', 'N:n N:s', 'N N:d', 'N:d N', 'N M N', 'N M N M', 'N N N', 'N x M', 'x N y', 'N:s over M to K:d', 'N:n M:s N:d K'):
    yield f'function: q {ps} {{ result: 1 }} output 1', 2
    yield f'function: q {ps} {{ result: N + M }} output 1', 1
    yield f'function: q {ps} {{ A: N }} output 1', 1
    if ps and ps[0].isupper():
      yield f'function: {ps} {{ result: N }} output 1', 2
  for w in RESERVED + ('d', 'a', 'x'):
    yield f'function: {w} {{ result: 1 }} output 1', 2
    yield f'function: a {w} N {{ result: 1 }} output 1', 1
    if w != 'd':
      yield f'function: {w} {{ result: 1 }} output [{w}]', 2
      yield f'function: {w} N a {{ result: 1 }} output [{w} 1 a]', 1
      yield f'function: N {w} M {{ result: 1 }} output [1 {w} 2]', 1
  for a, b in (('f N', 'f 1'), ('f N M', 'f 1 2'), ('N f', '1 f'), ('f N g', 'f A g'), ('N', '1'), ('N M', '1 A'), ('f', 'f'), ('f N M', 'f A B'), ('f N M', 'f (A) (B)'), ('f N M', 'f {1} d6'), ('f N M', 'f 1 d6'), ('f N g M', 'f -A g #B'), ('f N', 'f A d B'), ('f N', 'f "x"'),
               ('f N', 'f [f [f 1]]'), ('f N M', 'f [f 1 2] [f 3 4]'), ('N f', '[1 f] f'), ('f N', 'f A > B'), ('f N M', 'f {1..2} {3}'), ('N M', '[1 2] [3 4]')):
    yield f'function: {a} {{ result: 1 }} output [{b}]', 2
    yield f'output [{b}] function: {a} {{ result: 1 }}', 1
    yield f'function: {a} {{ result: 1 }} A: [{b}] if [{b}] {{ output [{b}] }} loop I over {{[{b}]}} {{ }}', 1
  # literals
  for v in ('0', '00', '000', '1', '01', '007', '10', '100', '0010', '9' * 30, '0' * 20 + '7', '123456789012345678901234567890', '1.0', '0.0', '0.5', '00.5', '1.50', '01.50', '10.05', '1.000', '12.34', '0.1', '100.001', '08', '09', '08.09', '1.2'):
    for t in ('output {}', 'output -{}', 'output d{}', 'output {}d6', 'output {{{}..{}}}', 'A: {}\noutput A', 'output {} + {}', 'output {}^{}', 'output [f {} {}]'):
      yield PRE * ('[f' in t) + t.format(v, v), 2 if t == 'output {}' else 0
  # whitespace, comments and empty programs
  for x in ('output 1', '\n\noutput 1\n\n', ' \t output\t1', 'output\n1', '\\c\\output 1', 'output \\ c \\ 1', 'output 1 \\ } \\', 'A:\n1 output\nA', 'output 1output 2', 'A:1B:2output A', 'output A B:2', 'if A{output 1}else{output 2}', 'if A{}else if B{}else{}output 1', 'function:f N:s{result:N}output[f 1]',
            'loop I over{1,2}{output I}', 'output 2d6', 'output 2 d 6', 'output 2d 6', 'output d6', 'output{1..2}', 'output"x"', 'output 1named"x"', 'set"x"to 1output 1', 'set"x"to"y"output 1', 'output 1 \\a\\\\b\\', 'output 1\\\n\n\\+2', 'output AA_B __: 1', 'output _', 'A_: 1 _A: 2 output A_ + _A'):
    yield x, 2
  for v in TERMS:
    for s in SLOTS:
      yield (PRE if '[f' in v + s or '[A]' in v else '') + s.format(v), 2 if s == SLOTS[0] else 1 if s in SLOTS[:8] and deep else 0
    for s in TSLOT:
      if v[0] in '1007A({["-+!#':
        yield PRE + s.format(v if v not in ('A d B', 'A + B', 'A >= B', 'A @ 2d6', '2d6', 'd6') else '1', '2'), 0
  for a in TERMS:
    for b in TERMS:
      yield PRE + f'output {{{a}, {b}}}', 0
      if deep or a in TERMS[::3]:
        yield PRE + f'A: {a} output {b} named "x"', 0
        yield PRE + f'if {a} {{ output {b} }} else if {b} {{ A: {a} }} else {{ set "x" to {b} }}', 1 if deep else 0
  for x in ('"a"', '"a[A]"', '"[A]"', '"[A][B]"', '"a[A]b[B]c"', '"a" "b"', '"[A]" "b"'):
    for t in ('output 1 named {}', 'set {} to 1 output 1', 'set "a" to {} output 1', 'output {}', 'A: {} output A', 'output [f {} 1]', 'if {} {{ output 1 }}', 'loop I over {} {{ output I }}'):
      yield PRE + t.format(x), 1


def main():
  chk = Check('C17', 'structure, well-formedness and literals of the translation, per grammar construct, nesting and mode', parallel=8)
  deep = chk.tier == 'thorough'
  chk.total = 780.0
  progs = []
  for p, r in structures(deep):
    ms = ALL if r == 2 or (r and deep) else (ALL[0], ALL[4], ALL[7]) if r == 1 else (ALL[0],) if not deep else (ALL[0], ALL[7])
    progs += [(p, m) for m in ms]
  programs(chk, progs)
  return chk.finish(level='other')
