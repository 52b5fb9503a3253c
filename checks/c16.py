"""C16: only whole, valid programs compile; compiling executes nothing and changes nothing"""
import ast as pyast
import os
from .lang import *
from .c18 import programs
from .c17 import ALL, TERMS

GOOD = ['output 1', 'A: 1 output A named "x[A]y"', 'function: f N M:s { result: N + M } output [f 1 {2}]', 'loop I over {1..3} { output I }', 'if A = 1 { output 1 } else if B { output 2 } else { output 3 }', 'set "position order" to "lowest first" output 2d6',
        'output [absolute -1] + 1.5 * (2 @ 3d6)', 'output !{1, 2} \\ text \\ output #A']
PUNCT = '+-*/^:<>=@#|&!.,(){}[]'
ILLEGAL = ['$', '%', ';', '~', '`', '?', "'", '\r', '\x00', '\x0b', '\x0c', '\xa0', '\u2003', '\x85', '\ufeff', '\u2028', '\xe9', '\u0661', '\u00b2', '\uff21', '\uff11', '\u4e2d', '\U0001d7d8', '\u0130', '\x7f', '\x1b']
BADLEX = ILLEGAL + ['"', '\\', '"x', '\\x']
REST = ['=', '}', '{', ')', '(', ']', '[', ',', '.', '..', '5', 'x', 'A', 'd', ':', 'output', 'else', 'else { }', 'named', 'named "x"', 'result', 'result: 1', 'to', 'over', 'loop', 'if', 'function', 'set', '"s"', '+', '*', '!', '#', '!=', '+ +', 'function: f', 'if 1', '{ }', 'A:', 'A: 1 2', 'B 1', '[]', '[f', '{1', '(1', '1 2', 'named A', '1..2',
        'function: f {', 'function: { }', 'function f { }', 'loop over {1} { }', 'loop I {1} { }', 'loop I over { }', 'loop I over {1} }', 'loop i over {1} { }', 'if { }', 'if 1 { } else', 'if 1 { } else if { }', 'if 1 { } else if 1', 'else if 1 { }', 'if 1 { } else { } else { }', 'if 1 { } else { } else if 1 { }',
        'set x to 1', 'set "x" 1', 'set "x" to', 'output', 'output named "x"', 'output 1 named', 'output 1 named 1', 'output 1 named x', 'output "x" named', 'a: 1', '1: 1', 'A = 1', 'A: ', '"x": 1', 'A: B: 1', '1', '"x"', '{1}', '[absolute 1]', 'A + 1', 'function: f N:x { }', 'function: f N: { }', 'function: f N:1 { }', 'function: f N:N { }', 'function: f 1 { }', 'function: f + { }', 'function: f N:dd { }', 'function: f N:nn { }', 'function: f N:output { }', 'function: f "x" { }',
        'output {1,}', 'output {,1}', 'output {1,,2}', 'output {1..}', 'output {..1}', 'output {1..2..3}', 'output {1...3}', 'output 1..2', 'output (1..2)', 'output [f 1..2]', 'output ()', 'output []', 'output [1 + ]', 'output 1.', 'output .5', 'output 1.2.3', 'output 1 .. 2', 'output A.5', 'output 1.A', 'output 1.d6', 'output d', 'output 2d', 'output d6d6', 'output 1d2d3', 'output dd6', 'output - ', 'output 1 -', 'output * 1', 'output 1 * * 2', 'output 1 = = 2', 'output 1 == 2', 'output 1 =< 2', 'output 1 => 2', 'output 1 ! = 2', 'output 1 > = 2', 'output 1 < > 2', 'output 1 <> 2', 'output 1 && 2', 'output 1 || 2', 'output 1 | | 2', 'output 1 !2', 'output 1 # 2', 'output 2#2', 'output @ 1', 'output 1 @', 'output ^ 2', 'output 1 ** 2', 'output 1 // 2', 'output 1 ! 2', 'output A B', 'output 1 2', 'output "a" 1', 'output 1 "a"', 'output (1) (2)', 'output {1} {2}', 'output a', 'output f', 'output absolute 1', 'output [d 1]', 'output [f d]', 'output [1 d]', 'output [a d 6]', 'output [absolute 1] [absolute 2]', 'output [absolute, 1]', 'output [absolute: 1]',
        'result: 1', 'if 1 { result: 1 }', 'loop I over {1} { result: 1 }', 'function: f { } result: 1', 'function: f { result: 1 } result: 1', 'function: f { result 1 }', 'function: f { result: }', 'function: f { result: 1', 'if 1 { function: f { } result: 1 }']
CALLS = [('[f]', ''), ('[f 1]', ''), ('[f 1]', 'function: f { }'), ('[f]', 'function: f N { }'), ('[f 1 2]', 'function: f N { }'), ('[f 1 g]', 'function: f N { }'), ('[f 1]', 'function: N f { }'), ('[g 1]', 'function: f N { }'), ('[f 1 1]', 'function: f N x { }'), ('[1]', ''), ('[1 2]', 'function: X { }'), ('[x]', 'function: X { }'),
         ('[absolute]', ''), ('[absolute 1 2]', ''), ('[absolut 1]', ''), ('[1 absolute]', ''), ('[absolute x 1]', ''), ('[true div 1]', ''), ('[true div 1 2 3]', ''), ('[highest of 1]', ''), ('[highest 1 of]', ''), ('[count 1 in]', ''), ('[contains 1 1]', ''), ('[list 1]', ''), ('[list]', ''), ('[print 1]', ''), ('[exec "x"]', ''), ('[eval 1]', ''), ('[len 1]', ''), ('[roll 1]', ''), ('[math]', ''), ('[random]', ''), ('[open "x"]', ''),
         ('[f 1]', 'function: g N { result: [f N] }'), ('1', 'function: g N { result: [h N] }'), ('[f 1 [g 2]]', 'function: f N M { }'), ('[f [g 1] 2]', 'function: f N M { }'), ('{[q]}', ''), ('{1..[q]}', ''), ('-[q]', ''), ('#[q]', ''), ('d[q]', ''), ('1 + [q]', ''), ('[absolute [q]]', ''), ('[q] named "x"', ''), ('([q])', ''), ('1', 'A: [q]'), ('1', 'if [q] { }'), ('1', 'if 1 { } else if [q] { }'), ('1', 'if 1 { } else { A: [q] }'), ('1', 'loop I over [q] { }'), ('1', 'loop I over {1} { A: [q] }'), ('1', 'set "x" to [q]'),
         ('1', 'function: f { result: [q] }'), ('[dummy 1]', 'function: f N N { }'), ('[vars]', ''), ('[output 1]', ''), ('[output]', ''), ('[function 1]', ''), ('[f absolute 1]', 'function: absolute N { }'), ('[myrange 1 2]', ''), ('[get seq 1]', ''), ('[f f]', 'function: f { }'), ('[f f 1]', 'function: f N { }'), ('[f x]', 'function: x { }'), ('[f absolute 1]', '')]
GOODCALLS = [('[f]', 'function: f { }'), ('[f 1]', 'function: f N { }'), ('[f 1 g]', 'function: f N:s g { }'), ('[1]', 'function: N { }'), ('[1 f]', 'function: N f { }'), ('[f [f 1]]', 'function: f N { result: [f N] }'), ('1', 'function: f { result: [g] } function: g { result: [f] }'), ('1', 'if 1 { function: f { } } A: [f]'), ('1', 'function: f { function: g { } } A: [g]')] + \
    [(f'[{c}]', '') for c in ('absolute 1', '1 contains 2', 'count 1 in 2', 'explode 1', 'highest 1 of 2', 'lowest 1 of 2', 'middle 1 of 2', 'highest of 1 and 2', 'lowest of 1 and 2', 'maximum of 1', 'reverse 1', 'sort 1', 'true div 1 2')]


def tokens_of(src):
  import re as r
  return r.findall(r'"[^"]*"|\\[^\\]*\\|!=|\.\.|[0-9]+|[a-z]+|[A-Z_]+|\S', src)


def corrupted(deep):
  for g in GOOD:
    ts = tokens_of(g)
    for i in range(len(ts) + 1):
      if i < len(ts):
        yield ' '.join(ts[:i] + ts[i + 1:])
        yield ' '.join(ts[:i] + [ts[i]] * 2 + ts[i + 1:])
        if i + 1 < len(ts):
          yield ' '.join(ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:])
        yield ' '.join(ts[:i])
        yield ' '.join(ts[i:])
        for c in ('}', ')', '=', 'x', '5') if not deep else REST[:22]:
          yield ' '.join(ts[:i] + [c] + ts[i + 1:])
      for c in ('}', '{', ')', '=', 'output', 'A', '5') if not deep else REST[:30]:
        yield ' '.join(ts[:i] + [c] + ts[i:])
      for c in ILLEGAL[:1] + ILLEGAL[-2:] if not deep else ILLEGAL:
        yield ' '.join(ts[:i]) + c + ' '.join(ts[i:])


def lexical(deep):
  for c in BADLEX:
    for t in ('{}output 1', 'output 1{}', 'output {}1', 'output 1 {}+ 1', 'output 1\n{}', '{}\noutput 1', 'A: 1{} output A', 'output A{}A', 'output 1{}2', 'output{} 1', 'output {{1{},2}}', '{}', 'output 1 \\ {} \\', 'function: f{} {{ }} output 1', 'output "a" {}', 'if 1 {{ {} }} output 1'):
      yield t.format(c)
    if c not in '"\\':
      yield f'output "{c}"'
      yield f'output 1 named "a{c}b"'
  for c in map(chr, range(32, 127)):
    yield f'output 1 {c}'
    yield f'{c} output 1'
    yield f'output 1 + {c}'
    if c not in '"\\':
      yield f'output "{c}"'
    yield f'output 1 \\{c}\\'
  for x in ('"', '"a', 'output "a', 'output "a\n"', 'output "a\nb"', 'output 1 named "', 'output 1 named "a', 'output 1 "', 'output "a" named "', 'output "a""', '\\', 'output 1 \\', 'output 1 \\ a', 'output 1 \\ a\n b', '\\\\ output 1', '\\ \\ \\ output 1', 'output 1 \\ " \\', 'output "\\"', 'output "\\ a', 'output "a\\" \\ " \\',
            'output "[', 'output "[A', 'output "[A]', 'output "[A]" "', 'output """', 'output ""', 'output "" "a"', 'output 1 named ""', 'set "" to 1 output 1', 'output 1 "a\n', 'output "a\n" output 1', '"\noutput 1', 'output 1\n"', '"output 1', 'output 1 named "x\n'):
    yield x
  for x in ('', ' ', '\n', '\t', ' \n\t ', '\\c\\', ' \\ \\ ', 'A: 1', 'function: f { }', 'if 1 { }', 'set "x" to 1', 'function: f { result: 1 } A: [f]', 'loop I over {1} { }', 'function: output { } A: [output]', 'A: "output 1"', '\\ output 1 \\', 'output', 'named', 'output named'):
    yield x


def main():
  chk = Check('C16', 'gates of compilation: invalid texts raise, valid ones do not; no execution, no effect on settings, flags or later compilations', parallel=8)
  deep = chk.tier == 'thorough'
  chk.total = 780.0
  progs = [(g, m) for g in GOOD for m in ALL]
  progs += [(p, ()) for p in corrupted(deep)] + [(p, ()) for p in lexical(deep)]
  for r in REST:
    ms = ((), ((NLS, True),)) if deep or r.startswith(('result', 'function', 'if')) else ((),)
    progs += [(p, m) for p in ([r] if r.strip() else []) + [f'output 1 {r}', f'{r} output 1', f'output 1 {r} output 2', f'function: f {{ {r} }} output 1', f'if 1 {{ {r} }} output 1'] for m in ms]
  for call, pre in CALLS + GOODCALLS:
    for m in ((), ((NLS, True),), ((FLC, True),), ((OPI, True),), ((FEC, True),), ((FLC, True), (NLS, True)), ((FEC, False),)):
      progs.append((f'{pre} output {call}', m))
      progs.append((f'output {call} {pre}', m))
  for c1 in ('', 'output 1'):
    for t in ('if 1 {{ {} }}', 'function: f {{ {} }}', 'loop I over {{1}} {{ {} }}', 'if 1 {{ }} else {{ {} }}', 'if 1 {{ }} else if 1 {{ {} }}', 'if 1 {{ if 1 {{ {} }} }}', 'function: f {{ if 1 {{ {} }} }}'):
      for m in ALL:
        progs.append((t.format(c1), m))
        progs.append((t.format(c1 and c1 + ' named "x"'), m))
  for v in (True, False, 1, 0):
    for n in ('unknown', 'NON_LOCAL_SCOPE', NLS + ' ', NLS.lower(), '', '__class__'):
      progs.append(('output 1', ((n, v),)))
      progs.append(('output 1', ((NLS, True), (n, v))))
      progs.append(('output 1', ((OPI, False), (n, v), (FLC, True))))
    for f in (NLS, OPI, FLC, FEC):
      progs.append(('output 1', ((f, v),)))
  programs(chk, progs)

  # effects
  comp = []

  def compiler():
    if not comp:
      comp.append(Compiler(chk))
    return comp[0]

  def settings_of(c, st):
    w = c.w
    out = {}
    for name, m in w.I.modules.items():
      if getattr(m, "env", None) is not None:
        env = st.heap[m.env].f
        if 'SETTINGS' in env and env['SETTINGS'].op == 'ref':
          out[name or 'package'] = (env['SETTINGS'], st.obj(env['SETTINGS']).f.get('map'))
    return out

  FORBID = {'exec': 'executes text', 'eval': 'evaluates text', 'open': 'opens a file', 'input': 'reads input', '__import__': 'imports', 'breakpoint': 'stops', 'exit': 'exits', 'quit': 'exits'}

  def effect_of(c, st0, o, fl=None):
    """None, or what a compilation changed"""
    ends = ([o.st] if o.val is not None else []) + [r.st for r in o.raises]
    for st in ends:
      ev = st.heap[prims.EVENTS].f['segs'].args[len(st0.heap[prims.EVENTS].f['segs'].args):]
      for e in ev:
        t = e.args[0]
        if t.op == 'tup' and is_c(t.args[0].args[0]):
          kind = cv(t.args[0].args[0])
          if kind == 'file':
            return 'writes a file'
          if kind == 'call' and len(t.args) > 1 and is_o(t.args[1].args[0]) and getattr(ov(t.args[1].args[0]), 'name', None) in FORBID:
            n = ov(t.args[1].args[0]).name
            return f'{FORBID[n]} ({n})'
      a, b = settings_of(c, st0), settings_of(c, st)
      for k in a:
        if k not in b or a[k] != b[k]:
          return f'changes the settings of {k}'
      if fl is not None and st.obj(fl).f.get('map') != st0.obj(fl).f.get('map'):
        return 'changes the flags it was given'
    return None

  def effect(src, flags):
    def f():
      c = compiler()
      w = c.w
      w.get('settings', 'SETTINGS')
      st0 = w.st.fork()
      fl = c.flags(st0, flags) if flags is not None else NONE_T
      st = st0.fork()
      o = run(w, st, lambda s: w.I.call(c.f, [C(src), fl], {}, s, w.fr))
      what = effect_of(c, st0, o, fl if flags is not None else None)
      if what:
        return VIOLATED, f'compiling {src!r} {what}'
      return PROVEN, 'settings, flags and events compared'
    chk.ob(f'effects of compiling {src!r} {"with " + str(len(flags)) + " flags" if flags is not None else "without flags"}', f, 'compile_anydice')
  BAD = ['output 1 $', 'output "x', 'output 1 +', 'output 1 } 2', 'A: 1', 'output [nope]', 'output 1 result: 2', 'function: roll { } output 1', 'output 1 \\', 'set "position order" to 7 output 1', 'output [f 1] $ "', 'if 1 { output 1', 'function: f N:x { } output 1', '']
  CODE = ['output [exec "print(1)"] function: exec X { }', 'set "position order" to "lowest first" output 1', 'set "maximum function depth" to 3 output [f 1] function: f N { result: [f N] }', 'set "explode depth" to 9 output [explode d6]', 'loop I over {1..3} { set "RV_TRUNC" to "True" output I }', 'function: output { result: 1 } output [output]', 'function: f N N { result: 1 } output [f 1 2]']
  FL = [None, (), ((NLS, True),), ((OPI, True), (NLS, True), (FLC, True), (FEC, True)), ((FEC, False), (NLS, False)), (('unknown', True), (NLS, True))]
  for p in GOOD + BAD + CODE:
    for fl in FL:
      effect(p, fl)

  # history: a compilation does not influence the next one
  FIRST = [(p, ()) for p in BAD[:-1] + CODE + GOOD[1:4]] + [('function: f N { result: N } output [f 1]', ()), ('function: g { } output [g]', ((NLS, True),)), ('function: roll N { } output [roll 1]', ()), ('output 1', ((FEC, False),)), ('output [nope]', ((FEC, False),)), ('A: 1 @ 2 output !A', ((OPI, True),)), ('function: X X { } output 1', ())]
  NEXT = [('output 1', ()), ('output [f 1]', ()), ('output [g]', ()), ('A: 1', ()), ('output 1 $', ()), ('output 1 +', ()), ('output "x', ()), ('A: B @ 2 output !A', ()), ('function: f N M { result: N } output [f 1 2] + [absolute 1]', ()), ('output [roll 1]', ()), ('output x"', ()), ('output 1 result: 1', ()), ('if 1 { output "a[B]" }', ((NLS, True),))]

  def history(a, b):
    def f():
      c = compiler()
      st = c.w.st.fork()
      fl = c.flags(st, a[1])
      fl2 = c.flags(st, b[1])
      o = run(c.w, st, lambda s: c.w.I.call(c.f, [C(a[0]), fl], {}, s, c.w.fr))
      st2 = o.st if o.val is not None else o.raises[0].st
      o2 = run(c.w, st2.fork(), lambda s: c.w.I.call(c.f, [C(b[0]), fl2], {}, s, c.w.fr))
      v = judge(b[0], b[1], c.result(o2))
      if v[0] == VIOLATED:
        return VIOLATED, f'after compiling {a[0]!r}: {v[1]}'
      return v
    chk.ob(f'{b[0]!r} after {a[0]!r}', f, 'compile_anydice')
  for a in FIRST:
    for b in NEXT:
      history(a, b)
  for a in ('output 1', 'output "a', 'output 1 +'):     # the same flags dict used twice
    def again(a=a):
      c = compiler()
      st = c.w.st.fork()
      fl = c.flags(st, ((NLS, True), (OPI, True)))
      o = run(c.w, st, lambda s: c.w.I.call(c.f, [C(a), fl], {}, s, c.w.fr))
      st2 = o.st if o.val is not None else o.raises[0].st
      src = 'A: 1 @ 2 output A'
      o2 = run(c.w, st2.fork(), lambda s: c.w.I.call(c.f, [C(src), fl], {}, s, c.w.fr))
      return judge(src, ((NLS, True), (OPI, True)), c.result(o2))
    chk.ob(f'the same flags again after {a!r}', again, 'compile_anydice')
  return chk.finish(level='other')
