"""The constructor contract of a die, decided on the real constructor by order-type enumeration:
for every weak ordering of n symbolic faces the stored faces are the distinct ones ascending and the stored
weights the grouped weights divided by their common divisor."""
import itertools
from .common import *


def weak_orders(n):
  """all rank patterns (r0..rn-1) whose ranks are 0..k contiguous"""
  for pat in itertools.product(range(n), repeat=n):
    if set(pat) == set(range(max(pat) + 1)):
      yield pat


def canon_obs(m, st, o):
  """evaluate the stored fields in a finite model and say what is not canonical"""
  vals, probs = m.ev(o.f['vals'], {}), m.ev(o.f['probs'], {})
  if not isinstance(vals, tuple) or not isinstance(probs, tuple):
    raise Unknown('fields')
  if len(vals) != len(probs):
    return f'{len(vals)} faces but {len(probs)} weights'
  if not vals:
    return 'no face at all'
  if any(a >= b for a, b in zip(vals, vals[1:])):
    return f'faces {vals} are not strictly ascending'
  if any(isinstance(v, bool) for v in vals):
    return f'truth values stored as faces {vals}'
  if any(not isinstance(p, int) or isinstance(p, bool) or p < 0 for p in probs):
    return f'weights {probs} are not non-negative integers'
  if math.gcd(*probs) > 1:
    return f'weights {probs} are not in lowest terms'
  t = o.f.get('sum_probs', NONE_T)
  if t is not NONE_T:
    s = m.ev(t, {})
    if s is not None and s != sum(probs):
      return f'stored total {s} of weights {probs} is stale'
  return None


def expect_fields(chk, w, out, want_vals, want_probs, n=12):
  """the object returned by the constructor has exactly these fields"""
  if any(True for _ in out.raises) and out.val is None:
    return VIOLATED, f'raises {out.raises[0].e}'
  if out.val is None or out.val.op != 'ref':
    return UNDECIDED, f'not a die object: {out.val}'
  o = out.st.obj(out.val)
  vals, probs = o.f.get('vals'), o.f.get('probs')
  if vals is None or probs is None:
    return UNDECIDED, 'no vals/probs fields'
  wv_, wp = tuple_of(*want_vals), tuple_of(*want_probs)
  if not out.raises and vals is wv_ and o.f.get('sum_probs', NONE_T) is NONE_T:
    try:
      if probs is wp or (probs.op == 'tup' and len(probs.args) == len(wp.args) and all(
          a.op == 'it' and nf_equal(over_itself(a.args[0]), b.args[0]) for a, b in zip(probs.args, wp.args))):
        return PROVEN, 'stored fields equal the canonical form'
    except TooBig:
      pass
  for m in w.models(n, chk.seed):
    for r in out.raises:
      if m.ev(and_(*r.pc), {}):
        return VIOLATED, f'raises {r.e} for {show_model(m)}'
    bad = canon_obs(m, out.st, o)
    a, b = m.ev(vals, {}), m.ev(probs, {})
    c, d = m.ev(wv_, {}), m.ev(wp, {})
    if bad is None and (a != c or b != d or any(type(x) is not type(y) and bool in (type(x), type(y)) for x, y in zip(a, c))):
      bad = f'faces {a} weights {b}, expected {c} {d}'
    if bad:
      return VIOLATED, f'{bad} for {show_model(m)}'
  return UNDECIDED, 'agrees in finite models only'


def over_itself(t):
  """a positive weight divided by itself is 1"""
  def go(x):
    if x.op == 'floordiv' and nf_equal(*x.args):
      return ONE
    if x.op == 'ite' and x.args[0].op == 'lt' and x.args[0].args[0] is ONE and nf_equal(x.args[0].args[1], x.args[2]) and go(x.args[1]) is ONE:
      return ONE
    return None
  return go(t) or t


def lowest(ps):
  if all(is_c(p) for p in ps):
    g = math.gcd(*[cv(p) for p in ps])
    return [C(cv(p) // g) if g > 1 else p for p in ps]
  if len(ps) == 1:
    return [ONE]
  g = mk('gcd', *ps, ty=INT)
  return [ite(cmp('lt', ONE, g), arith('floordiv', p, g), p) for p in ps]


def container(w, st, kind, vals):
  if kind == 'list':
    return st.new('list', segs=tuple_of(*vals))
  if kind == 'tuple':
    return tuple_of(*vals)
  return st.new('iter', segs=tuple_of(*vals))


def ctor_obligations(chk, nmax=3, kinds=(('list', 'list'),), settings=True):
  def build(w, st, vals, probs, kinds=('list', 'list'), **kw):
    v, p = container(w, st, kinds[0], vals), container(w, st, kinds[1], probs)
    return run(w, st, lambda s: w.I.call(O(w.RV), [v, p], {k: C(x) for k, x in kw.items()}, s, w.fr))

  w0 = chk.world(contract=False)
  site = method_site(w0, w0.RV, '__init__')

  def case(name, mk_):
    def f():
      w = chk.world(contract=False)
      st = w.st.fork()
      return mk_(w, st)
    chk.ob('constructor: ' + name, f, site)

  for n in range(1, nmax + 1):
    for pat in weak_orders(n):
      perms = list(itertools.permutations(range(n))) if len(set(pat)) < n else [tuple(range(n))]
      if n > 3:
        perms = perms[:1] + perms[-1:]
      for perm in perms:
        def f(w, st, n=n, pat=pat, perm=perm, kd=('list', 'list')):
          xs = w.ranked('x', max(pat) + 1, ANY)
          ps = w.ranked('p', n, INT, lo=1)
          vals = [xs[r] for r in pat]
          probs = [ps[i] for i in perm]
          out = build(w, st, vals, probs, kd)
          groups = []
          for r in range(max(pat) + 1):
            t = ZERO
            for i in range(n):
              if pat[i] == r:
                t = add(t, probs[i])
            groups.append(t)
          return expect_fields(chk, w, out, xs, lowest(groups))
        case(f'faces ordered {pat}, weights {perm}', f)
        if n == 2:
          for kd in (('tuple', 'tuple'), ('iter', 'iter'), ('list', 'iter')):
            case(f'faces ordered {pat}, weights {perm}, given as {kd}', lambda w, st, f=f, kd=kd: f(w, st, kd=kd))

  # many faces: size thresholds in the code are reached
  for n in (24,):
    for shape in ('ascending', 'descending', 'pairs'):
      def f(w, st, n=n, shape=shape):
        k = n if shape != 'pairs' else n // 2
        xs = w.ranked('x', k, ANY)
        ps = w.ranked('q', n, INT, lo=1)
        for i in range(n):   # ascending weights, all but the last two with a common factor
          w.syms[f'q{i}'] = lambda m, rng, i=i: (2 * i + 2 if i < n - 2 else 2 * i + m._h('q').choice([1, 2])) * m._h('k').choice([1, 2, 3])
        vals = xs if shape == 'ascending' else xs[::-1] if shape == 'descending' else xs + xs
        out = build(w, st, vals, ps)
        groups = [ps[i] if shape == 'ascending' else ps[n - 1 - i] if shape == 'descending' else add(ps[i], ps[i + k]) for i in range(k)]
        return expect_fields(chk, w, out, xs, lowest(groups))
      case(f'{n} faces, {shape}', f)

  def consts(name, vals, probs, wv_, wp, sets=(), kw=None, raises=None):
    def f(w, st):
      for k, v in sets:
        w.setting(k, v, st)
      out = build(w, st, [v if isinstance(v, T) else C(v) for v in vals], [v if isinstance(v, T) else C(v) for v in probs], **(kw or {}))
      if raises:
        if out.val is None and out.raises and all(r.e.exc == raises for r in out.raises):
          return PROVEN, 'rejected'
        if out.val is not None and not out.raises:
          return VIOLATED, 'accepted instead of rejected'
        return UNDECIDED, 'mixed outcome'
      return expect_fields(chk, w, out, [v if isinstance(v, T) else C(v) for v in wv_], [C(v) for v in wp])
    case(name, f)
  if not settings:
    return
  T_, Z = 'RV_TRUNC', 'RV_IGNORE_ZERO_PROBS'
  consts('no faces gives the constant 0', [], [], [0], [1])
  consts('truth values become numbers', [True, False], [1, 1], [0, 1], [1, 1])
  consts('truth values merge with numbers', [True, 1, 2], [1, 1, 2], [1, 2], [1, 1])
  consts('lowest terms', [1, 2, 3], [6, 10, 4], [1, 2, 3], [3, 5, 2])
  consts('lowest terms after grouping', [1, 1, 2], [3, 3, 2], [1, 2], [3, 1])
  consts('single face has weight 1', [7], [9], [7], [1])
  consts('floats kept', [1.5, -0.5], [1, 3], [-0.5, 1.5], [3, 1])
  consts('zero weights kept by default', [1, 2, 3], [1, 0, 1], [1, 2, 3], [1, 0, 1])
  consts('zero weights dropped on request', [1, 2, 3], [1, 0, 1], [1, 3], [1, 1], sets=[(Z, True)])
  consts('zero weights dropped on request, first and last', [1, 2, 3], [0, 2, 0], [2], [1], sets=[(Z, True)])
  consts('zero weight grouped with a positive one stays', [1, 1, 2], [0, 2, 2], [1, 2], [1, 1], sets=[(Z, True)])
  consts('all weights zero, dropped', [1, 2], [0, 0], [0], [1], sets=[(Z, True)])
  consts('truncated on request', [1.5, -1.5, 0.25], [1, 1, 2], [-1, 0, 1], [1, 2, 1], sets=[(T_, True)])
  consts('truncation merges faces', [1.25, 1.5, 2.5], [1, 1, 2], [1, 2], [1, 1], sets=[(T_, True)])
  consts('truncate argument', [1.5, 2.5], [1, 1], [1, 2], [1, 1], kw={'truncate': True})
  consts('truncate=False wins over the setting', [1.5, 2.5], [1, 1], [1.5, 2.5], [1, 1], sets=[(T_, True)], kw={'truncate': False})
  consts('truncate=True and setting off', [2.75, 2.25], [1, 3], [2], [1], sets=[(T_, False)], kw={'truncate': True})
  consts('negative weight rejected', [1, 2], [1, -1], [], [], raises='AssertionError')
  consts('fractional weight rejected', [1, 2], [1, 0.5], [], [], raises='AssertionError')
  consts('more faces than weights rejected', [1, 2], [1], [], [], raises='AssertionError')
  consts('more weights than faces rejected', [1], [1, 1], [], [], raises='AssertionError')
