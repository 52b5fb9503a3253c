"""which characters a regular expression can consume: first characters and whole alphabet (over-approximation)"""
import re
try:
  from re import _parser as sre_parse, _constants as sc
except ImportError:   # older pythons
  import sre_parse
  import sre_constants as sc

TOP = 0x110000
ALLC = ((0, TOP),)


def norm(rs):
  out = []
  for a, b in sorted(rs):
    if a >= b:
      continue
    if out and a <= out[-1][1]:
      out[-1] = (out[-1][0], max(out[-1][1], b))
    else:
      out.append((a, b))
  return tuple(out)


def neg(rs):
  out, p = [], 0
  for a, b in norm(rs):
    out.append((p, a))
    p = b
  out.append((p, TOP))
  return norm(out)


def minus(x, y):
  n = neg(y)
  return norm([(max(a, c), min(b, d)) for a, b in x for c, d in n])


def chars(s):
  return norm([(ord(c), ord(c) + 1) for c in s])


def show(rs, n=6):
  out = [repr(chr(a)) + (f'..{chr(b - 1)!r}' if b > a + 1 else '') for a, b in rs[:n]]
  return ', '.join(out) + (' ...' if len(rs) > n else '')


_CAT = {}


def category(cat):
  if cat not in _CAT:
    p = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[cat]
    m = re.compile(p).match
    _CAT[cat] = norm([(i, i + 1) for i in range(TOP) if m(chr(i))])
  return _CAT[cat]


def fold(rs, flags):
  if not flags & re.I:
    return rs
  out = list(rs)
  small = [(a, b) for a, b in rs if b - a <= 4096]
  for a, b in small:
    for i in range(a, b):
      c = chr(i)
      for d in {c.lower(), c.upper()}:
        out += [(ord(e), ord(e) + 1) for e in d]
  return norm(out)


def one(op, av, flags):
  """set of characters of a one-character node, or None"""
  if op is sc.LITERAL:
    return fold(((av, av + 1),), flags)
  if op is sc.NOT_LITERAL:
    return neg(((av, av + 1),))
  if op is sc.ANY:
    return ALLC if flags & re.S else neg(((10, 11),))
  if op is sc.IN:
    rs, no = [], False
    for o, v in av:
      if o is sc.NEGATE:
        no = True
      elif o is sc.LITERAL:
        rs.append((v, v + 1))
      elif o is sc.RANGE:
        rs.append((v[0], v[1] + 1))
      elif o is sc.CATEGORY:
        rs += category(v)
    rs = fold(norm(rs), flags)
    return neg(rs) if no else rs
  if op is sc.CATEGORY:
    return category(av)
  return None


REP = [getattr(sc, n) for n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT') if hasattr(sc, n)]


def analyse(seq, flags):
  """(alphabet, first characters, may be empty)"""
  alpha, first, empty = [], [], True
  for op, av in seq:
    s = one(op, av, flags)
    if s is not None:
      a, f, e = s, s, False
    elif op in REP:
      lo, hi, sub = av
      a, f, e = analyse(sub, flags)
      e = e or lo == 0
    elif op is sc.SUBPATTERN:
      a, f, e = analyse(av[-1], flags)
    elif hasattr(sc, 'ATOMIC_GROUP') and op is sc.ATOMIC_GROUP:
      a, f, e = analyse(av, flags)
    elif op is sc.BRANCH:
      rs = [analyse(x, flags) for x in av[1]]
      a, f, e = norm([y for r in rs for y in r[0]]), norm([y for r in rs for y in r[1]]), any(r[2] for r in rs)
    elif op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
      a, f, e = (), (), True
    elif op is sc.GROUPREF:
      a, f, e = (), ALLC, True
    else:
      a, f, e = ALLC, ALLC, True
    alpha += a
    if empty:
      first += f
    empty = empty and e
  return norm(alpha), norm(first), empty


def of(rx):
  """(alphabet, first characters, may match nothing) of a compiled pattern"""
  return analyse(sre_parse.parse(rx.pattern, rx.flags), rx.flags)
