"""Normal forms of terms (polynomials over canonical atoms, indicator algebra for conditions)
and of distributions (bags of weighted values)."""
from fractions import Fraction
import itertools
import math
from .terms import *
from . import terms as tm

ONEP = {(): Fraction(1)}


def padd(a, b, k=1):
  r = dict(a)
  for m, c in b.items():
    c2 = r.get(m, 0) + k * c
    if c2 == 0:
      r.pop(m, None)
    else:
      r[m] = c2
  return r


def _is_ind(a):
  return a.startswith('[')


def mmul(a, b):
  d = dict(a)
  for k, e in b:
    d[k] = d.get(k, 0) + e
  out = []
  for k, e in d.items():
    if e == 0:
      continue
    if _is_ind(k) and e > 0:
      e = 1
    out.append((k, e))
  return tuple(sorted(out))


def pmul(a, b):
  r = {}
  for m1, c1 in a.items():
    tick()
    for m2, c2 in b.items():
      m = mmul(m1, m2)
      c = r.get(m, 0) + c1 * c2
      if c == 0:
        r.pop(m, None)
      else:
        r[m] = c
  if len(r) > 4000:
    raise TooBig()
  return r


class TooBig(Exception):
  pass


def pdiv(a, b):
  """exact quotient of two polynomials without indicator atoms or negative exponents, else None"""
  if not b or len(a) > 400 or len(b) > 40:
    return None
  atoms = sorted({k for m in list(a) + list(b) for k, _ in m})
  if any(_is_ind(k) for k in atoms) or any(e < 0 or e != int(e) for m in list(a) + list(b) for _, e in m):
    return None
  pos = {k: i for i, k in enumerate(atoms)}

  def key(m):
    v = [0] * len(atoms)
    for k, e in m:
      v[pos[k]] = e
    return tuple(v)
  lb = max(b, key=key)
  kb = key(lb)
  q, r = {}, dict(a)
  for _ in range(1000):
    if not r:
      return q
    lr = max(r, key=key)
    kr = key(lr)
    d = [x - y for x, y in zip(kr, kb)]
    if min(d, default=0) < 0:
      return None
    m = tuple((k, e) for k, e in zip(atoms, d) if e)
    c = r[lr] / b[lb]
    q = padd(q, {m: c})
    r = padd(r, pmul({m: c}, b), -1)
  return None


def pconst(c):
  c = Fraction(c)
  return {(): c} if c else {}


def patom(s, e=1):
  return {((s, e),): Fraction(1)}


def pstr(p):
  return ' + '.join(f'{c}*' + '*'.join(f'{k}^{e}' if e != 1 else k for k, e in m) for m, c in sorted(p.items())) or '0'


def is_const(p):
  return all(m == () for m in p)


def no_ind(d):
  """condition that none of a sum of weighted indicators holds"""
  if len(d) > 8 or () in d or not all(c > 0 and all(k.startswith('[') and e == 1 for k, e in m) for m, c in d.items()):
    return None
  r = ONEP
  for m in d:
    r = pmul(r, padd(ONEP, {m: Fraction(1)}, -1))
  return r


class NF:
  def __init__(self, binder_names=None, doms=None):
    self.env = dict(binder_names or {})  # uid -> name
    self.depth = 0

  # ---- scoped binder
  def scoped(self, uids, f):
    old = {u: self.env.get(u) for u in uids}
    for u in uids:
      self.env[u] = f'⟨{self.depth}⟩'
      self.depth += 1
    try:
      return f()
    finally:
      for u in uids:
        self.depth -= 1
        if old[u] is None:
          self.env.pop(u, None)
        else:
          self.env[u] = old[u]

  def bname(self, uids):
    return [f'⟨{self.depth + i}⟩' for i in range(len(uids))]

  # ---- conditions -> indicator polynomials
  def ind(self, t):
    o = t.op
    if o == 'c':
      return pconst(1 if cv(t) else 0)
    if o == 'not':
      return padd(ONEP, self.ind(t.args[0]), -1)
    if o == 'and':
      r = ONEP
      for a in t.args:
        r = pmul(r, self.ind(a))
      return r
    if o == 'or':
      r = ONEP
      for a in t.args:
        r = pmul(r, padd(ONEP, self.ind(a), -1))
      return padd(ONEP, r, -1)
    if o == 'ite':
      c = self.ind(t.args[0])
      return padd(pmul(c, self.ind(t.args[1])), pmul(padd(ONEP, c, -1), self.ind(t.args[2])))
    if o == 'eq':
      a, b = t.args
      if isnum(a) and isnum(b):
        d = padd(self.poly(a), self.poly(b), -1)
        if is_const(d):
          return pconst(0 if d else 1)
        r = no_ind(d) or no_ind({m: -c for m, c in d.items()})
        if r is not None:
          return r
        if t.args[0].ty == BOOL and t.args[1].ty == BOOL:
          pass
        lead = sorted(m for m in d if m != ())[0]
        k = d[lead]
        d = {m: c / k for m, c in d.items()}
        return patom(f'[eq0 {pstr(d)}]')
      x, y = sorted((self.s(a), self.s(b)))
      if x == y:
        return ONEP
      return patom(f'[eq {x} {y}]')
    if o in ('lt', 'le'):
      a, b = t.args
      if isnum(a) and isnum(b):
        d = padd(self.poly(b), self.poly(a), -1)   # d > 0 or d >= 0
        ints = a.ty <= {'int', 'bool'} and b.ty <= {'int', 'bool'}
        if is_const(d):
          v = d.get((), 0)
          return pconst(1 if (v > 0 if o == 'lt' else v >= 0) else 0)
        r = no_ind(d) if o == 'lt' else no_ind({m: -c for m, c in d.items()})
        if r is not None:
          return padd(ONEP, r, -1) if o == 'lt' else r
        lead = sorted(m for m in d if m != ())[0]
        k = d[lead]
        kind = 'gt0' if o == 'lt' else 'ge0'
        neg = k < 0
        if ints and all(c.denominator == 1 for c in d.values()):
          if o == 'lt':
            d = padd(d, pconst(1), -1)
          kind = 'ge0'
          g = 0
          for m, c in d.items():
            if m != ():
              g = math.gcd(g, int(c))
          if neg:
            # d >= 0  <=>  not(-d-1 >= 0)
            d = padd({m: -c for m, c in d.items()}, pconst(1), -1)
          c0 = d.get((), Fraction(0))
          d = {m: c / g for m, c in d.items() if m != ()}
          c1 = Fraction(math.floor(c0 / g))
          if c1:
            d[()] = c1
        else:
          if neg:
            kind = 'ge0' if kind == 'gt0' else 'gt0'
          d = {m: c / k for m, c in d.items()}
        p = patom(f'[{kind} {pstr(d)}]')
        return padd(ONEP, p, -1) if neg else p
      return patom(f'[{o} {self.s(a)} {self.s(b)}]')
    if o in ('any', 'all'):
      u, dom, body = t.args
      if o == 'any':
        return padd(ONEP, self.ind(mk('all', u, dom, not_(body), ty=BOOL)), -1)
      ds = self.s(dom)
      p = self.scoped(u, lambda: self.ind(body))
      if p == ONEP:
        return ONEP
      return patom(f'[all {"".join(self.bname(u))} in {ds}: {pstr(p)}]')
    if t.ty == BOOL:
      return patom(f'[{self.raw(t)}]')
    if isnum(t):
      return padd(ONEP, self.ind(cmp('eq', t, ZERO)), -1)
    return patom(f'[truth {self.s(t)}]')

  # ---- numeric terms -> polynomials
  def extreme(self, o, a, b):
    """larger ('max2') or smaller of two numbers"""
    pa, pb = self.poly(a), self.poly(b)
    d = padd(pa, pb, -1)
    if is_const(d):
      return pa if (d.get((), 0) >= 0) == (o == 'max2') else pb
    if d[sorted(m for m in d if m != ())[0]] < 0:
      a, b, pa, pb = b, a, pb, pa
      d = padd(pa, pb, -1)
    up = pmul(self.ind(tm.cmp('le', b, a)), d)   # a - b where it is not negative
    return padd(pb, up) if o == 'max2' else padd(pa, up, -1)

  def poly(self, t):
    tick()
    o = t.op
    if o == 'c':
      v = cv(t)
      if isinstance(v, bool):
        return pconst(int(v))
      if isinstance(v, int):
        return pconst(v)
      if isinstance(v, float) and math.isfinite(v):
        return pconst(Fraction(v))
      return patom(repr(v))
    if o == 'add':
      return padd(self.poly(t.args[0]), self.poly(t.args[1]))
    if o == 'sub':
      return padd(self.poly(t.args[0]), self.poly(t.args[1]), -1)
    if o == 'neg':
      return {m: -c for m, c in self.poly(t.args[0]).items()}
    if o == 'pos':
      return self.poly(t.args[0])
    if o == 'mul':
      return pmul(self.poly(t.args[0]), self.poly(t.args[1]))
    if o == 'b2i':
      return self.ind(t.args[0])
    if t.ty == BOOL:
      return self.ind(t)
    if o == 'int' and t.args[0].ty is not None and t.args[0].ty <= {'int', 'bool'}:
      return self.poly(t.args[0])
    if o == 'ite' and isnum(t.args[1]) and isnum(t.args[2]):
      c = t.args[0]
      if c.op in ('lt', 'le') and isnum(c.args[0]) and isnum(c.args[1]):   # the larger or smaller of two numbers
        x, y, a, b = (self.poly(z) for z in (*c.args, *t.args[1:]))
        if (a == y and b == x) or (a == x and b == y):
          return self.extreme('max2' if a == y else 'min2', *c.args)
      c = self.ind(t.args[0])
      return padd(pmul(c, self.poly(t.args[1])), pmul(padd(ONEP, c, -1), self.poly(t.args[2])))
    if o in ('max2', 'min2') and isnum(t.args[0]) and isnum(t.args[1]):
      return self.extreme(o, *t.args)
    if o == 'pow':
      e = t.args[1]
      if is_c(e) and isinstance(cv(e), int) and 0 <= cv(e) <= 6:
        r = ONEP
        p = self.poly(t.args[0])
        for _ in range(cv(e)):
          r = pmul(r, p)
        return r
      return patom(f'pow({pstr(self.poly(t.args[0]))}; {pstr(self.poly(e))})') if isnum(t.args[0]) and isnum(e) else patom(self.raw(t))
    if o == 'sqrt' and isnum(t.args[0]):
      return patom(f'sqrt({pstr(self.poly(t.args[0]))})')
    if o == 'truediv':
      return pmul(self.poly(t.args[0]), self.inv(self.poly(t.args[1])))
    if o == 'floordiv':
      a, b = t.args
      if self.exact_div(a, b):
        return pmul(self.poly(a), self.inv(self.poly(b)))
      if isnum(a) and isnum(b) and a.ty <= {'int', 'bool'} and b.ty <= {'int', 'bool'}:
        q = pdiv(self.poly(a), self.poly(b))
        if q is not None and all(c.denominator == 1 for c in q.values()):
          return q
      if isnum(a) and isnum(b):
        return patom(f'fdiv({pstr(self.poly(a))}; {pstr(self.poly(b))})')
      return patom(self.raw(t))
    if o == 'mod' and isnum(t.args[0]) and isnum(t.args[1]) and all(a.ty <= {'int', 'bool'} for a in t.args):
      a, b = t.args   # ints: a % b = a - b*(a//b)
      return padd(self.poly(a), pmul(self.poly(b), self.poly(arith('floordiv', a, b))), -1)
    if o in ('sum', 'prefix'):
      u, dom, body = t.args[:3]
      if o == 'sum' and dom.op in ('d.faces', 'd.group'):
        x = unfold_sum(t)
        if x is not None:
          return self.poly(x)
      extra = ''.join('|' + self.s(x) for x in t.args[3:])
      ds = self.s(dom)
      bn = self.bname(u)
      p = self.scoped(u, lambda: self.poly(body))
      r = {}
      for m, c in p.items():
        dep = tuple((k, e) for k, e in m if any(b in k for b in bn))
        ind = tuple((k, e) for k, e in m if not any(b in k for b in bn))
        if not dep and o == 'sum':
          a = patom(f'card({ds})')
        else:
          a = patom(f'{o}({ds}{extra}: {pstr({dep: Fraction(1)})})')
        r = padd(r, pmul({ind: c}, a))
      return r
    if o == 'prod':
      u, dom, body = t.args[:3]
      ds = self.s(dom)
      p = self.scoped(u, lambda: self.poly(body))
      if len(p) == 1:
        (m, c), = p.items()
        if c == 1:
          r = ONEP
          for k, e in m:
            r = pmul(r, {((f'prod({ds}: {k})', e),): Fraction(1)})
          return r
      return patom(f'prod({ds}: {pstr(p)})')
    return patom(self.raw(t))

  def inv(self, p):
    if len(p) == 1:
      (m, c), = p.items()
      return {tuple(sorted((k, -e) for k, e in m)): 1 / c}
    if not p:
      return patom('1/0')
    # factor out the common monomial
    ms = [dict(m) for m in p]
    cm = tuple(sorted((a, e) for a, e in {a: min(d.get(a, 0) for d in ms) for d in ms for a in d}.items() if e))
    q = {mmul(m, tuple((a, -e) for a, e in cm)): c for m, c in p.items()}
    k = q[sorted(q)[0]]
    q = {m: c / k for m, c in q.items()}
    base = {((f'({pstr(q)})', -1),): 1 / k}
    return pmul(base, {tuple((a, -e) for a, e in cm): Fraction(1)})

  def exact_div(self, a, b):
    if a.op == 'prod':
      u, dom, body = a.args[:3]
      for x in b.fb:
        try:
          if pstr(self.poly(tm.subst(body, {u[0]: B(x)}))) == pstr(self.poly(b)):
            return True
        except TooBig:
          pass
    return False

  # ---- anything -> canonical string
  def s(self, t):
    if not isinstance(t, T):
      return repr(t)
    if isnum(t) and t.op not in ('sym', 'b', 'fn'):
      return '{' + pstr(self.poly(t)) + '}'
    return self.raw(t)

  def raw(self, t):
    if not isinstance(t, T):
      return repr(t)
    o = t.op
    if o == 'c':
      return repr(cv(t))
    if o == 'b':
      return self.env.get(t.args[0], f'⟪{t.args[0]}⟫')
    if o == 'sym':
      return '$' + str(t.args[0])
    if o == 'o':
      v = ov(t)
      return f'<{getattr(v, "name", None) or v}>'
    if o == 'fn':
      return f'{t.args[0]}[{",".join(self.s(a) for a in t.args[1:])}]'
    if o in ('eq', 'lt', 'le', 'not', 'and', 'or', 'any', 'all'):
      return '{' + pstr(self.ind(t)) + '}'
    if o == 'if':
      return f'if({pstr(self.ind(t.args[0]))}: {", ".join(self.s(a) for a in t.args[1:])})'
    if o in BINDERS:
      ds = self.s(t.args[1])
      return f'{o}({ds}: ' + self.scoped(t.args[0], lambda: ', '.join(self.s(a) for a in t.args[2:])) + ')'
    if o == 'ite':
      c = self.ind(t.args[0])
      nc = padd(ONEP, c, -1)
      a, b = self.s(t.args[1]), self.s(t.args[2])
      x, y = pstr(c), pstr(nc)
      if y < x:
        x, a, b = y, b, a
      return f'ite({x}, {a}, {b})'
    if o in ('max2', 'min2', 'gcd', 'lcm', 'setof'):
      return f'{o}({", ".join(sorted(self.s(a) for a in t.args))})'
    return f'{o}({", ".join(self.s(a) for a in t.args)})'


def nf(t):
  return NF().s(t)


def equal(a, b):
  if a is b:
    return True
  try:
    return nf(a) == nf(b)
  except TooBig:
    return False


# ---------------------------------------------------------------- distributions
def flat_mul(t):
  if t.op == 'mul':
    return flat_mul(t.args[0]) + flat_mul(t.args[1])
  return [t]


class Branch:
  __slots__ = ('binders', 'guard', 'val', 'w', 'divs')

  def __init__(self, binders, guard, val, w, divs=()):
    self.binders, self.guard, self.val, self.w, self.divs = binders, guard, val, w, divs  # divs: closed common divisors still owed


class NotDist(Exception):
  pass


def branches(segs, binders=(), guard=TRUE):
  out = []
  for s in segs:
    if s.op == 'it':
      v = s.args[0]
      if v.op != 'tup' or len(v.args) != 2:
        raise NotDist(show(v))
      out.append(Branch(binders, guard, v.args[0].args[0], v.args[1].args[0]))
    elif s.op == 'for':
      u, dom = s.args[0], s.args[1]
      body = s.args[2:]
      if any(u[0] == b for b, _ in binders):
        n = fresh()
        body = tuple(subst(x, {u[0]: B(n)}) for x in body)
        u = (n,)
      out.extend(branches(body, binders + ((u[0], dom),), guard))
    elif s.op == 'if':
      out.extend(branches(s.args[1:], binders, and_(guard, s.args[0])))
    else:
      raise NotDist(show(s))
  return out


def expand(br, depth=0):
  """unfold binders ranging over the faces of a derived die into the bag that die was built from"""
  if depth > 40:
    return [br]
  # split on ite values
  if br.val.op == 'ite' and not (br.val.args[1].ty is not None and isnum(br.val)):
    c, a, b = br.val.args
    return expand(Branch(br.binders, and_(br.guard, c), a, br.w, br.divs), depth + 1) + expand(Branch(br.binders, and_(br.guard, not_(c)), b, br.w, br.divs), depth + 1)
  for k, (u, dom) in enumerate(br.binders):
    if dom.op in ('d.rev', 'd.sorted'):   # same elements, other order
      inner = dom.args[0] if dom.op == 'd.rev' else dom.args[1]
      return expand(Branch(br.binders[:k] + ((u, inner),) + br.binders[k + 1:], br.guard, br.val, br.w, br.divs), depth + 1)
    if dom.op not in ('d.faces', 'd.group'):
      continue
    face, facew = ('face', 'facew') if dom.op == 'd.faces' else ('gkey', 'gval')
    fs = flat_mul(br.w)
    isW = lambda f: f.op == facew and f.args[0] is dom and f.args[1] is B(u)
    n = sum(1 for f in fs if isW(f))
    if n != 1:
      continue
    rest = [f for f in fs if not isW(f)]
    chk = tuple_of(br.val, br.guard, *rest, *[d for _, d in br.binders[k + 1:]])
    hole = sym('#face')
    chk2 = tm.replace(chk, lambda x: hole if x.op == face and x.args[0] is dom and x.args[1] is B(u) else None)
    if u in chk2.fb:
      continue
    out = []
    for b2 in branches(dom.args[0].args):
      ren = {x: fresh() for x, _ in b2.binders}
      m = {x: B(n) for x, n in ren.items()}
      v2, w2, g2 = subst(b2.val, m), subst(b2.w, m), subst(b2.guard, m)
      nb = []
      mm = {}
      for x, d in b2.binders:
        nb.append((ren[x], subst(d, mm)))
        mm[x] = B(ren[x])
      rep = lambda x: v2 if x.op == face and x.args[0] is dom and x.args[1] is B(u) else None
      neww, divs = w2, br.divs
      if dom.op == 'd.faces':
        gd = mk('gcdw', dom, ty=INT)
        if dom.fb:
          neww = mk('truediv', w2, gd, ty=FLOAT)
        else:
          divs = divs + (gd,)
      for f in rest:
        neww = mul(neww, tm.replace(f, rep))
      binders = br.binders[:k] + tuple(nb) + tuple((x, tm.replace(d, rep)) for x, d in br.binders[k + 1:])
      nbr = Branch(binders, and_(tm.replace(br.guard, rep), g2), tm.replace(br.val, rep), neww, divs)
      out.extend(expand(nbr, depth + 1))
    return out
  return [br]


def settle(br, owed=()):
  """divide the weight by the common divisors it owes beyond the ones every branch owes"""
  ds, w = list(br.divs), br.w
  for d in owed:
    ds.remove(d)
  for d in ds:
    w = mul(w, mk('truediv', ONE, d, ty=FLOAT))
  return Branch(br.binders, br.guard, br.val, w)


def unfold_sum(t):
  """a sum over the faces of a derived die, linear in their weights, as sums over the bag the die was built from"""
  (u,), dom, body = t.args[:3]
  if body.op in ('add', 'sub'):
    xs = [unfold_sum(mk('sum', (u,), dom, b, ty=t.ty)) for b in body.args]
    return None if None in xs else arith(body.op, *xs)
  brs = expand(Branch(((u, dom),), TRUE, ZERO, body))
  if any(x is dom for b in brs for _, x in b.binders):
    return None
  r = ZERO
  for b in brs:
    x = settle(b).w
    x = x if b.guard is TRUE else tm.ite(b.guard, x, ZERO)
    for i, d in reversed(b.binders):
      x = mk('sum', (i,), d, x, ty=t.ty)
    r = add(r, x)
  return r


def _canon_branch(br):
  """-> (key string, weight poly, binder names)"""
  ids = [u for u, _ in br.binders]
  best = None
  n = len(ids)
  perms = list(itertools.permutations(range(n))) if n <= 4 else [tuple(range(n))]
  for perm in perms:
    # domain dependencies must respect order
    names = {ids[p]: f'‹{k}›' for k, p in enumerate(perm)}
    x = NF(names)
    w = pmul(x.poly(br.w), x.ind(br.guard)) if br.guard is not TRUE else x.poly(br.w)
    key = ' '.join(f'‹{k}›∈{x.s(br.binders[p][1])}' for k, p in enumerate(perm)) + ' : ' + x.s(br.val)
    cand = (key, pstr(w), w)
    if best is None or cand[:2] < best[:2]:
      best = cand
  return best


def dist_nf(segs):
  acc = {}
  brs = [b for br in branches(segs) for b in expand(br) if b.guard is not FALSE]
  owed = []
  if brs:
    for d in dict.fromkeys(brs[0].divs):
      owed += [d] * min(b.divs.count(d) for b in brs)
  for b in brs:
      key, _, w = _canon_branch(settle(b, owed))
      acc[key] = padd(acc.get(key, {}), w)
  acc = {k: w for k, w in acc.items() if w}
  # strip the common factor that does not depend on any binder
  ms = [{a: e for a, e in m if '‹' not in a} for w in acc.values() for m in w]
  cm = tuple((a, -e) for a, e in sorted({a: min(d.get(a, 0) for d in ms) for d in ms for a in d}.items()) if e)
  lead = None
  out = {}
  for k in sorted(acc):
    w = {mmul(m, cm): c for m, c in acc[k].items()}
    if lead is None:
      lead = w[sorted(w)[0]]
    out[k] = {m: c / lead for m, c in w.items()}
  return tuple((k, pstr(w)) for k, w in sorted(out.items()))
