"""C21: text values form one consistent value type"""
import itertools
from .rolled import *

HEAD = '''
from .factory import get_seq

def t(s):
  return list(get_seq(s))[0]
'''


def groupings(xs):
  """all ways to add the listed addends in this order"""
  if len(xs) == 1:
    yield xs[0]
    return
  for i in range(1, len(xs)):
    for a in groupings(xs[:i]):
      for b in groupings(xs[i:]):
        yield f'({a} + {b})'


def has_text(e):
  return 't(' in e


def shown(addends):
  """the documented description of a sum: texts in order with their coefficients, the number last"""
  co, const, num = {}, ZERO, False
  for a in addends:
    if a.startswith('t('):
      k = a[3:-2]
      co[k] = co.get(k, 0) + 1
    else:
      num = True
      const = add(const, sym(a, INT) if a.isalpha() else C(eval(a)))
  from engine.prims import concat
  s = ' + '.join(k if co[k] == 1 else f'{co[k]}*{k}' for k in sorted(co))
  return concat(C(s), C(' + '), mk('str', const, ty=STR) if not is_c(const) else C(str(cv(const)))) if num else C(s)


def main():
  chk = Check('C21', 'equal texts hash equally, texts are totally ordered above all numbers, sums of texts are commutative and associative', parallel=8)
  quick = chk.tier == 'quick'
  w0 = chk.world()
  S = w0.cls('string_rvs', 'StringVal')
  site = {n: method_site(w0, S, n) for n in ('__add__', '__eq__', '__hash__', '__lt__', '__repr__')}

  def env():
    w = chk.world(contract=False)
    w.get('string_rvs', 'StringVal')
    st = w.st.fork()
    return w, st

  def call(w, st, src, args=(), params=''):
    g = w.define(HEAD + f'def go({params}):\n  {src}\n', 'go', st)
    return run(w, st, lambda s: w.I.call(g, list(args), {}, s, w.fr))

  # ---------------------------------------------------------------- sums
  SUMS = [("t('a')", "t('b')"), ("t('b')", "t('a')", "t('a')"), ("t('x')", 'n'), ("t('x')", 'n', 'k'), ("t('b')", 'n', "t('a')"), ("t('b')", "t('a')", "t('b')", 'n'),
          ("t('a')", "t('a')", "t('a')", "t('a')"), ("t('c')", "t('a')", "t('b')"), ("t('Z')", "t('z')", 'n'), ("t('10')", "t('9')", "t('10')"), ("t('a b')", "t('a')", 'n', "t('a b')"),
          ("t('_')", "t('a')", 'n'), ("t('~')", 'n', "t('~')", 'k'), ("t('x')", '0'), ("t('x')", '-1', "t('y')"), ("t('x')", '2', '-2', "t('w')"),
          ("t('')", "t('a')"), ("t('é')", "t('z')", 'n')]
  if not quick:
    SUMS += [("t('b')", 'n', "t('a')", 'k', "t('b')"), ("t('c')", "t('b')", "t('a')", "t('c')", 'n')]
  for addends in SUMS:
    forms = []
    for perm in sorted(set(itertools.permutations(addends))):
      for e in groupings(list(perm)):
        if e not in forms:
          forms.append(e)
    forms.sort(key=len)
    base = forms[0]
    # the description of one, then each other form against it
    def f(addends=addends, base=base):
      w, st = env()
      out = call(w, st, f'return repr({base})', [w.num('n'), w.num('k')], 'n, k')
      return check_out(chk, out, Term(shown(addends)))
    chk.ob(f'description of {" + ".join(addends)}', f, site['__add__'])
    step = max(1, len(forms) // (40 if quick else 150))
    for e in forms[1::step]:
      def f(e=e, base=base):
        w, st = env()
        out = call(w, st, f'a = {e}; b = {base}; return (1 if a == b and b == a and not a != b and not a < b and not a > b and a <= b and a >= b else 0) + (10 if repr(a) == repr(b) else 0)', [w.num('n'), w.num('k')], 'n, k')
        r = check_out(chk, out, Num(C(11)))
        if r[0] != PROVEN:
          return r
        w, st = env()
        h = call(w, st, f'return hash({e}) - hash({base})', [w.num('n'), w.num('k')], 'n, k')
        return check_out(chk, h, Num(ZERO))
      chk.ob(f'{e} is {base}', f, site['__add__'])
  # a value that is used in several sums
  for x in ("t('a')", "t('a') + n", "t('a') + t('b')", "t('a') + t('b') + t('c') + n", "n + t('a')", "t('a') + 2", "t('b') + t('a') + t('b') + 1.5"):
    for y in ('k', '5', "t('a')", "(t('c') + k)", 'x', '2.5', "t('')"):
      for src in ('x + {y}', '{y} + x', 'x + {y} + {y}', '{y} + ({y} + x)'):
        def f():
          w, st = env()
          e = src.format(y=y)
          out = call(w, st, f'x = {x}; r = repr(x); h = hash(x); u = {e}; v = {e}; z = {x}; return (1 if u == v and repr(u) == repr(v) and hash(u) == hash(v) else 0) + (10 if x == z and repr(x) == r and hash(x) == h else 0)', [w.num('n'), w.num('k')], 'n, k')
          return check_out(chk, out, Num(C(11)))
        chk.ob(f'{src.format(y=y)} twice with x = {x}', f, site['__add__'])
  # the same coefficient as a whole and as a fractional number
  for a, b in (("t('x') + 2", "t('x') + 2.0"), ("t('x') + 1.5 + 0.5", "2 + t('x')"), ("t('x') + True", "t('x') + 1"), ("t('x') + 0.5 + t('x') + 0.5", "1 + t('x') + t('x')")):
    def f():
      w, st = env()
      out = call(w, st, f'a = {a}; b = {b}; return ((1 if a == b and not a != b and not a < b and not a > b and a <= b and a >= b else 0) + (0 if hash(a) == hash(b) else 10))')
      return check_out(chk, out, Num(ONE))
    chk.ob(f'{a} equals {b} and hashes the same', f, site['__hash__'])

  # ---------------------------------------------------------------- one order
  TEXTS = ["t('a')", "t('b')", "t('a') + t('b')", "t('a') + t('a')", "t('a') + n", "t('a') + k", "t('b') + n", "t('a') + t('b') + n", "t('a') + t('b') + t('b')", "t('A')", "t('_')", "t('~')",
           "t('a') + t('c')", "t('a') + t('a') + t('c')", "t('10')", "t('9')", "t('')", "t('ab')", "t('é')", "t('b') + t('~') + k", "t('z') + 0", "t('z')"]

  def cmp_sum(op):
    return f'(1 if a {op} b else 0)'

  for i, a in enumerate(TEXTS):
    for b in TEXTS[i:]:
      def f(a=a, b=b):
        w, st = env()
        args = [w.num('n'), w.num('k')]
        c = cmp_sum
        out = call(w, st, f'a = {a}; b = {b}; return {c("<")} + {c("==")} + {c(">")}', args, 'n, k')
        r = by_order(chk, out, Num(ONE))
        for got, want in (('<=', '{} + {}'.format(c('<'), c('=='))), ('>=', '{} + {}'.format(c('>'), c('=='))), ('!=', '1 - ' + c('=='))):
          if r[0] != PROVEN:
            return r
          w, st = env()
          out = call(w, st, f'a = {a}; b = {b}; return {c(got)} - ({want})', args, 'n, k')
          r = by_order(chk, out, Num(ZERO))
          if r[0] != PROVEN:
            return r[0], f'{got}: {r[1]}'
        for got, want in (('(1 if b > a else 0)', c('<')), ('(1 if b == a else 0)', c('==')), ('(1 if b <= a else 0)', c('>='))):
          w, st = env()
          out = call(w, st, f'a = {a}; b = {b}; return {got} - {want}', args, 'n, k')
          r = by_order(chk, out, Num(ZERO))
          if r[0] != PROVEN:
            return r[0], f'{got}: {r[1]}'
        return r
      chk.ob(f'exactly one of <, ==, > between {a} and {b}', f, site['__lt__'])
  # equality is that of the coefficients, hence equal only if the descriptions are
  for i, a in enumerate(TEXTS):
    for b in TEXTS[i:]:
      def f(a=a, b=b):
        w, st = env()
        args = [w.num('n'), w.num('k')]
        out = call(w, st, f'a = {a}; b = {b}; return 1 if a == b else 0', args, 'n, k')
        ca, cb = coefs(a), coefs(b)
        same = and_(*[cmp('eq', ca[k], cb[k]) for k in ca]) if set(ca) == set(cb) else FALSE
        r = check_out(chk, out, Num(b2i(same)))
        if r[0] != PROVEN:
          return r
        w, st = env()   # equal implies equal hashes
        out = call(w, st, f'a = {a}; b = {b}; return 1 if a == b and hash(a) != hash(b) else 0', args, 'n, k')
        return check_out(chk, out, Num(ZERO))
      chk.ob(f'{a} equals {b} exactly with the same coefficients', f, site['__eq__'])
  # the order is transitive: its rank function over a pool of texts
  POOL = ["t('a')", "t('b')", "t('a') + t('b')", "t('a') + t('a')", "t('a') + 1", "t('a') + 2.5", "t('a') - 0" if False else "t('a') + -3", "t('b') + 1", "t('A') + t('a')", "t('_')", "t('~')", "t('10')", "t('9')", "t('')",
          "t('a') + t('b') + t('b')", "t('a') + t('a') + t('b')", "t('ab')", "t('a') + t('ab')", "t('b') + t('~')", "t('a') + 1 + t('~')"]
  for i, a in enumerate(POOL):
    def f(a=a):
      w, st = env()
      pool = ', '.join(POOL)
      src = f'a = {a}; P = [{pool}]; return sum(1 if (a < y and y < z and not a < z) or (a <= y and y <= z and not a <= z) or (a > y and y > z and not a > z) or (a == y and (a < z) != (y < z)) else 0 for y in P for z in P)'
      return check_out(chk, call(w, st, src), Num(ZERO))
    chk.ob(f'order around {a} is transitive', f, site['__lt__'])

  # ---------------------------------------------------------------- above every number
  for a in TEXTS:
    for ty in (INT, FLOAT, BOOL):
      for src, want in (('a > x', 1), ('a >= x', 1), ('a < x', 0), ('a <= x', 0), ('a == x', 0), ('a != x', 1), ('x < a', 1), ('x <= a', 1), ('x > a', 0), ('x >= a', 0), ('x == a', 0), ('x != a', 1)):
        if ty is not INT and src in ('a >= x', 'a <= x', 'x >= a', 'x <= a') and a != TEXTS[0]:
          continue
        def f(a=a, src=src, want=want, ty=ty):
          w, st = env()
          out = call(w, st, f'a = {a}; return 1 if {src} else 0', [w.num('n'), w.num('k'), w.num('x', ty)], 'n, k, x')
          return check_out(chk, out, Num(C(want)))
        chk.ob(f'{a}: {src} is {bool(want)} for every {sorted(ty)[0]}', f, site['__lt__'])
  # dice of texts group equal texts
  for src, want in (("roll(2, Seq('x', 'y'))", 3), ("roll(3, Seq('y', 'x'))", 4), ("RV.from_seq(Seq(t('a') + t('b'), t('b') + t('a')))", 1), ("RV.from_seq(Seq(1, '1', 1.0))", 2),
                    ("RV.from_seq(Seq(t('a') + 1, 1 + t('a'), t('a') + 1.0))", 1), ("RV.from_seq(Seq('b', 'a', 'b', 'a'))", 2)):
    def f():
      w, st = env()
      g = w.define(HEAD + f'from .factory import get_seq as Seq\ndef go():\n  return len(({src}).vals)\n', 'go', st)
      return check_out(chk, run(w, st, lambda s: w.I.call(g, [], {}, s, w.fr)), Num(C(want)))
    chk.ob(f'{src} has {want} different faces', f, site['__eq__'])
  return chk.finish()


def by_order(chk, out, spec):
  """decided for every mutual order of the unknown numbers"""
  r = check_out(chk, out, spec)
  if r[0] != UNDECIDED:
    return r
  n, k = sym('n', INT), sym('k', INT)
  for x, y in ((n, k), (n, ZERO), (k, ZERO)):
    rs = []
    for c in (cmp('lt', x, y), cmp('eq', x, y), cmp('lt', y, x)):
      try:
        rs.append(prove(out, spec, facts=[c]))
      except (NotDist, TooBig, KeyError, Unsupported):
        rs.append(False)
    if all(rs):
      return PROVEN, 'normal forms equal in every order of the numbers'
  return r


def coefs(e):
  out = {}
  for a in e.split(' + '):
    if a.startswith('t('):
      out[a[3:-2]] = add(out.get(a[3:-2], ZERO), ONE)
    else:
      out['#'] = add(out.get('#', ZERO), sym(a, INT) if a.isalpha() else C(eval(a)))
  return out
