"""C19: text of a program stays text"""
from .lang import *
from .c18 import programs
from .c16 import tokens_of
from engine import rxset
from engine.plymodel import LexSpec, YaccSpec

CTX = ['output {}', 'output 1 named {}', 'set {} to 1 output 1', 'set "x" to {} output 1', 'T: {} output T', 'function: f N {{ result: N }} output [f {}]', 'output {{{}, 1}}', 'output {{1, {}, "y"}}', 'if {} = 1 {{ output 1 }}', 'loop I over {{{}}} {{ output I }}', 'function: f {{ result: {} }} output [f]', 'output {} + {}', 'output #{}', 'output "a" = {}', 'output [absolute {}]', 'output {} named {}', 'output d{}', 'output ({})']
SPECIAL = ['\\', '{', '}', '[', ']', "'", '\r', '\0', '\t', 'A', '_', 'a', 'n', 'x', 'N', 'u', '0', '#', '%', '$', ' ', ':', '!', '=', '(', ')', ';', ',', '.', '\x85', '\u2028', '\x0c', '\x0b', '\x1c', '\x7f', '\ufeff', '\U0001f600', '"'[:0]]
SPECIAL = [s for s in SPECIAL if s]
CORE = ['\\', '{', '}', '[', ']', 'A', "'", '\r', '\0', 'n', 'x0', '[A]', 'N{DIGIT ONE}']
EVIL = ['{exit()}', '{{A}}', '{A}', '{{{A}}}', '{A!r}', '{A:>10}', '{{', '}}', '{', '}', '}{', '{}', '{{}}', '{0}', '\\', '\\\\', '\\\\\\', '\\n', '\\x41', '\\u0041', '\\N{DIGIT ONE}', '\\{', '\\}', '\\[A]', '\\[', '[\\', "'", "''", "'''", "\\'", '%s', '%(A)s', '$A', '${A}', '#', '# comment', 'f', "f'", "'+exit()+'", "'); exit(); ('", '\\r', '\r', '\rexit()', 'a\rb', '\0', 'a\0b', '\\0',
        '[A]', '[A][B]', '[A] [B]', 'x[A]y[B]z', '[[A]]', '[[A]', '[A]]', '[A', 'A]', '[', ']', '[]', '[a]', '[A1]', '[1]', '[A B]', '[ A]', '[A ]', '[A][', '[[', ']]', '[[[', '[A[B]]', '[_]', '[A_B]', '[__]', '[-A]', '[A.B]', '[A"'[:-1], '{[A]}', '[{A}]', '[A]{', '{[A]', '}[A]', '[A]}', '\\[A]\\', "'[A]'", '[T_N]', '[T_S]x[T_D]', '\t', ' ', '  ', ' [A] ', '\x85', '\u2028', '\u2029', '\x1c', '\x0c', '\x0b', '\ufeff', 'é', '漢字', '😀', '\u202e', '\xa0', 'lambda: 0', 'vars', "vars['A']", '{vars}', '{output(1)}', 'output 1', 'named', 'to', '=', '!=', '..', 'd', '007', '1.50', 'A', 'named "x'[:-3],
        ' leading', 'trailing ', 'a  b', '\t\t', 'UPPER lower 123', '1 d 6', '((', '))', ')', '(', ',', ', named=1', ': ', '; ', '//', '/*', '--', '<b>', '&amp;', '`', '~', '@', '^', '|', '*', '?', '+1', 'e\u0301', 'ÿ', '\x01', '\x1b[0m', '\x7f', '\x80', 'İ', 'ß', 'ﬁ', '１']


def main():
  chk = Check('C19', 'text of string literals reaches the translation unchanged and inert: regular-expression alphabets of the token rules, and escaping of every character and of combinations of special characters', parallel=8)
  deep = chk.tier == 'thorough'
  chk.total = 780.0
  N = ((NLS, True),)
  progs = []
  for s in EVIL:
    for i, t in enumerate(CTX):
      progs.append((t.format(f'"{s}"', f'"{s}"'), ()))
      if deep or i < 2:
        progs.append((t.format(f'"{s}"', f'"{s}"'), N))
    if '\\' not in s:
      progs.append((f'output 1 \\{s}\\', ()))
      progs.append((f'output \\ "{s}" \\ 1', ()))
  for a in SPECIAL:
    for b in SPECIAL:
      progs.append((f'output "{a}{b}"', ()))
      progs.append((f'output "p{a}[A]{b}q"', N if deep else ()))
      if deep:
        progs.append((f'output 1 named "{a} {b}" set "{b}{a}" to "{a}" output "{a}"', N))
  for a in CORE:
    for b in CORE:
      for c in CORE:
        progs.append((f'output "{a}{b}{c}"', ()))
        if deep:
          for d in CORE:
            progs.append((f'output "{a}{b}{c}{d}"', ()))
  for s in ('x', '[A]', '{', '\\', '\r', "'", 'x[A]{B}\\'):
    for t in CTX:
      progs.append((t.format(f'"{s}"', f'"{s}"'), ((OPI, True), (NLS, True), (FLC, True))))
      progs.append((t.format(f'"{s}"', f'"{s}"'), ((FLC, True),)))
    for n in (2, 3, 4, 7):
      progs.append((f'output "{s * n}"', ()))
      progs.append((f'output "{"".join(s + str(i) for i in range(n))}"', N))
  # every character
  step = 4096
  for lo in list(range(0, 0xd800, step)) + list(range(0xe000, 0x110000, step)):
    hi = min(lo + step, 0xd800 if lo < 0xd800 else 0x110000)
    if not deep and lo >= 0x20000 and lo % 0x20000:
      continue
    progs.append((('all', lo, hi), ()))
  plain = [p for p in progs if isinstance(p[0], str)]
  programs(chk, plain)
  comp = []

  def compiler():
    if not comp:
      comp.append(Compiler(chk))
    return comp[0]

  def every(lo, hi):
    def f():
      body = ''.join(chr(i) for i in range(lo, hi) if chr(i) not in '"\n[]A')
      src = f'output "{body}" named "x{body[::-1]}"'
      v = judge(src, (), compiler().text(src))
      return (v[0], v[1][:200])
    chk.ob(f'every character from U+{lo:04X} to U+{hi - 1:04X} inside a string', f, 'compile_anydice')
  for p in progs:
    if not isinstance(p[0], str):
      every(p[0][1], p[0][2])

  # the token rules
  def lexspec():
    c = compiler()
    if c.text('output 1')[0] != 'text':
      return None
    lx = [s for s in c.w.ply.specs.values() if isinstance(s, LexSpec)]
    return lx[0] if len(lx) == 1 else None

  def alphabet(sample, allowed, what):
    def f():
      lx = lexspec()
      if lx is None:
        return UNDECIDED, 'no lexer found'
      for rx, tok, fn in lx.rules['INITIAL']:
        m = rx.match(sample)
        if m and m.end() == len(sample):
          al, first, empty = rxset.of(rx)
          extra = rxset.minus(al, allowed)
          if extra:
            # is it really consumable there?
            for a, b in extra:
              for ch in {chr(a), chr(b - 1), chr((a + b) // 2)}:
                for w in (ch, sample + ch, ch + sample, sample + ch + sample):
                  m2 = rx.match(w)
                  if m2 and ch in m2.group():
                    return VIOLATED, f'the rule {rx.pattern!r} of {what} also accepts {w!r}'
            return UNDECIDED, f'the rule {rx.pattern!r} may accept {rxset.show(extra)}'
          return PROVEN, f'{rx.pattern!r} consists of {rxset.show(al)} only'
      return UNDECIDED, f'no rule for {sample!r}'
    chk.ob(f'{what} consist of their own characters only', f, 'tokens')
  alphabet('7', rxset.chars('0123456789'), 'numbers')
  alphabet('x', rxset.chars('abcdefghijklmnopqrstuvwxyz'), 'lowercase words')
  alphabet('X', rxset.chars('ABCDEFGHIJKLMNOPQRSTUVWXYZ_'), 'variables')

  ALPHA = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_ \t\n"\\+-*/^:<>=@#|&!.,(){}[]'

  def first():
    lx = lexspec()
    if lx is None:
      return UNDECIDED, 'no lexer found'
    bad = []
    for rx, tok, fn in lx.rules['INITIAL']:
      al, fi, empty = rxset.of(rx)
      ex = rxset.minus(fi, rxset.chars(ALPHA))
      if ex:
        bad.append((rx.pattern, ex))
    if bad:
      for p, ex in bad:
        c = chr(ex[0][0])
        src = f'output 1 {c} '
        v = judge(src, (), compiler().text(src))
        if v[0] == VIOLATED:
          return v
      return UNDECIDED, f'the rule {bad[0][0]!r} may start with {rxset.show(bad[0][1])}'
    ig = set(lx.ignore['INITIAL']) - set(' \t')
    if ig - set('\n'):
      return VIOLATED, f'ignored characters {sorted(ig)!r}'
    return PROVEN, f'{len(lx.rules["INITIAL"])} rules'
  chk.ob('no token outside of strings starts with a character foreign to the language', first, 'tokens')

  def instring():
    lx = lexspec()
    if lx is None:
      return UNDECIDED, 'no lexer found'
    sts = [s for s in lx.stateinfo if s != 'INITIAL']
    n = 0
    for s in sts:
      if lx.ignore.get(s):
        return VIOLATED, f'characters {lx.ignore[s]!r} of strings are dropped'
      for rx, tok, fn in lx.rules[s]:
        n += 1
        al, fi, empty = rxset.of(rx)
        if rx.match('"'):
          continue
        for q in '"\n':
          if not rxset.minus(rxset.chars(q), al):
            for w in (q, 'x' + q, '[' + q, '[A' + q):
              m = rx.match(w)
              if m and q in m.group():
                return VIOLATED, f'the rule {rx.pattern!r} takes {q!r} into a string'
            return UNDECIDED, f'the rule {rx.pattern!r} may take {q!r} into a string'
    return PROVEN, f'{n} rules of {len(sts)} states'
  chk.ob('no rule of the string states runs over a quote or a line end', instring, 'tokens')
  return chk.finish(level='other')
