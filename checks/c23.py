"""C23: the scope table of the non-local-scope mode"""
from .lang import *
from .c18 import programs
from .c17 import structures, blocks

N = ((NLS, True),)
MODES = [N, ((NLS, True), (OPI, True)), ((NLS, True), (FLC, True)), ((NLS, True), (OPI, True), (FLC, True))]
USES = ['{}', '-{}', '+{}', '!{}', '#{}', '({})', 'd{}', '{} d 6', '2 d {}', '{} d {}', '{{{}}}', '{{{}, 1}}', '{{1..{}}}', '{{{}..3}}', '{{{{{}}}, {}}}', '[absolute {}]', '[count {} in {}]', '[f {} 1]', '[f [f {} 1] {}]', '"[{}]"', '"x[{}]y[{}]"', '--{}', '-({} + 1)', '#({} d 2)', '[f 1 {{{}, 2}}]', '[f "[{}]" 1]', '1 @ {}', '{} @ 2d6'] + \
    [f'{{}} {o} {{}}' for o in ('+', '-', '*', '/', '^', '@', '&', '|', '<', '>', '=', '!=', '<=', '>=')]
SLOTS = ['output {}', 'output {} named "x"', 'output 1 named "[V]" A: {}', 'A: {}', 'V: {}', 'if {} {{ A: V }}', 'if 1 {{ }} else if {} {{ A: V }}', 'if 1 {{ }} else {{ A: {} }}', 'loop I over {} {{ A: I + V }}', 'loop V over {} {{ A: V }}', 'set "x" to {}', 'set "[V]" to {}', 'function: g {{ result: {} }}', 'function: g V {{ result: {} }}', 'function: g A:n V:s {{ B: {} result: B }}', 'function: g V V {{ result: {} }}',
         'function: g {{ loop V over {} {{ result: V }} }}', 'function: g {{ if {} {{ V: 1 }} result: V }}', 'loop I over {{1}} {{ loop J over {} {{ A: I + J + V }} }}', 'function: g {{ function: h {{ result: {} }} result: [h] }}', 'output [g {}] function: g K:n {{ result: K + V }}']


def main():
  chk = Check('C23', 'every access of a program variable goes through the scope table, every call passes it, every user function copies it', parallel=8)
  deep = chk.tier == 'thorough'
  chk.total = 780.0
  progs = []
  PRE = 'V: 1 function: f N M { result: N + V } '
  for i, u in enumerate(USES):
    for j, s in enumerate(SLOTS):
      x = u.format('V', 'V')
      ms = MODES if deep or j == 0 else MODES[:1]
      progs += [(PRE + s.format(x) + ' output V', m) for m in ms]
      if deep:
        progs.append((s.format(u.format('V', 'W')) + ' function: f N M { } output W', N))
  # parameters
  for ps, call in (('N', '1'), ('N:n', 'V'), ('N:s', '{V}'), ('N:d', 'dV'), ('N M', '1 V'), ('N:s M:d K', 'V 2 3'), ('N N', '1 2'), ('N:n N:s', '1 V'), ('N M N', '1 2 3'), ('N N N', '1 2 3'), ('V', 'V'), ('V V', 'V V'), ('V:n W:s V:d', 'V W V'), ('T_N', '1'), ('T_S T_D:s', '1 2'), ('N x M', '1 x 2'), ('', ''), ('N M N M', '1 2 3 4'), ('_', '1'), ('X X_X', '1 2')):
    for body in ('', 'result: 1', 'result: N', 'V: 2 result: V', 'N: 3 result: N + M', 'loop N over {1, 2} { V: N } result: V', 'result: "[N][V][M]"', '[p]: 1'[:0] + 'A: N B: V C: W', 'if N { N: 1 } else { V: N } result: V + N', 'function: q N { result: N + V } result: [q N]', 'result: [p ' + call + ']'):
      for m in MODES if deep or body == 'N: 3 result: N + M' else MODES[:1]:
        progs.append((f'V: 1 W: 2 function: p {ps} {{ {body} }} output [p {call}] + V', m))
        if ps and ps[0].isupper():
          progs.append((f'V: 1 function: {ps} p {{ {body} }} output [{call} p] + V', m))
  # functions without parameters, nested calls, calls of library functions, calls before definitions
  for t in ('function: f { V: V + 1 result: V } V: 1 A: [f] output A + V', 'V: 1 output [f] function: f { result: V }', 'function: f { result: [g] } function: g { result: V } V: 5 output [f]', 'function: f N { result: [absolute N] } output [f -1]', 'output [absolute [absolute -1]]', 'function: f { } output {[f], [f]..[f]}', 'function: f { } output d[f] + [f]d[f]',
            'function: f { } set "x" to [f] output 1', 'function: f { } loop I over [f] { A: [f] } output 1', 'function: f { } if [f] { A: 1 } else if [f] { B: 2 } output 1', 'function: f N:s { V: N result: V } V: 1 A: [f {2}] output A named "[V]"', 'loop I over {1..3} { loop I over {I} { A: I } B: I } output I', 'loop I over {1..3} { function: f { result: I } output [f] }', 'function: f N { loop N over {1..N} { V: N } result: N } output [f 3]',
            'function: absolute N { result: N + V } V: 1 output [absolute 2]', 'function: roll N { V: N result: V } output [roll 2] + d6', 'function: vars N { V: N result: V } output [vars 2]', 'function: f VARS { result: VARS } output [f 1]', 'VARS: 1 output VARS', 'function: vars { result: 1 } output [vars]', 'function: copy { result: 1 } output [copy]', 'function: X { V: X result: V } output [1]', 'A: B: '[:0] + 'A: B B: A output A named "[A][B]"', 'output "[A]" A: "[A]"', 'if A { B: A } else if B { A: B } else { C: C } output C',
            'function: f { result: 1 if V { result: V } } output [f]', 'function: f { output V named "[V]" set "[V]" to V } A: [f] output A', 'T_N: 1 loop T_N over {T_N} { output T_N named "[T_N]" } function: g T_N:n T_D:s T_N:d { result: T_N + T_D } output [g T_N T_N T_N]', 'function: f N M { result: [f M N] } output [f [f 1 2] [f 3 4]]'):
    for m in MODES:
      progs.append((t, m))
  for i, (p, r) in enumerate(structures(deep)):
    if deep or i % 5 == 0 and r:
      progs.append((p, N))
  # without the flag no table is used
  for m in ((), ((OPI, True),), ((NLS, False),), ((NLS, False), (FLC, True))):
    progs.append(('V: 1 function: f N V { V: N result: V } loop V over {V} { A: "[V]" } output [f V 1]', m))
  programs(chk, progs)
  return chk.finish(level='other')
