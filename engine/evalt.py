"""Finite models of terms.  Used only as a second opinion: normal forms that differ are reported
as a violation only if a small model separates the two summaries."""
from fractions import Fraction
import math
import operator
import random
from .terms import *
from . import terms as tm


class EvErr(Exception):
  """the term denotes an error (division by zero, index out of range ...)"""


class EvZero(EvErr):
  pass


class Unknown(Exception):
  """the term cannot be evaluated in a finite model"""


class FMap:
  __slots__ = ('items',)

  def __init__(self, d):
    self.items = tuple(d.items())

  def __hash__(self):
    return hash(self.items)

  def __eq__(self, o):
    return isinstance(o, FMap) and self.items == o.items

  def __bool__(self):
    return bool(self.items)

  def __len__(self):
    return len(self.items)


class Model:
  """arrays: name -> callable(rng, *idx)->value or list; sizes: dom name -> callable or int"""

  def __init__(self, seed, arrays=None, sizes=None, syms=None, funcs=None, consts=()):
    self.consts = list(consts)   # constants the compared terms mention: corner cases worth interpreting
    self.rng = random.Random(seed)
    self.seed = seed
    self.arrays = dict(arrays or {})
    self.sizes = dict(sizes or {})
    self.syms = dict(syms or {})
    self.funcs = dict(funcs or {})
    self.cache = {}
    self.dcache = {}

  def _h(self, *k):
    return random.Random(repr((self.seed,) + k))

  def size(self, name, deps):
    k = ('size', name, deps)
    if k not in self.cache:
      s = self.sizes.get(name)
      if callable(s):
        s = s(self._h(*k), *deps)
      rng = self._h('sz', *k)
      lens = [c for c in self.consts if isinstance(c, int) and 3 < c <= 7]
      if s is None:
        s = self._h(*k).randint(1, 3)
        if lens and rng.random() < 0.3:
          s = rng.choice(lens)
      elif lens and callable(self.sizes.get(name)) and rng.random() < 0.25:
        s = rng.choice(lens)
      self.cache[k] = s
    return self.cache[k]

  def arr(self, name, idx, ty):
    k = ('arr', name, idx)
    if k not in self.cache:
      a = self.arrays.get(name)
      if a is None:
        v = self.default(self._h(*k), ty)
      elif callable(a):
        v = a(self, self._h(*k), *idx)
      else:
        v = a
        for i in idx:
          v = v[i]
      self.cache[k] = v
    return self.cache[k]

  def default(self, rng, ty):
    if ty is None:
      raise Unknown('untyped')
    t = sorted(ty)[rng.randrange(len(ty))]
    cs = [c for c in self.consts if type(c).__name__ == t]
    if cs and rng.random() < 0.35:
      return rng.choice(cs)
    if t == 'int':
      return rng.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5])
    if t == 'float':
      return rng.choice([-2.5, -1.5, -0.5, -0.25, 0.5, 0.75, 1.25, 2.75, 3.5])
    if t == 'bool':
      return rng.choice([True, False])
    if t == 'str':
      return rng.choice(['a', 'b', 'zz', 'q'])
    raise Unknown(f'type {t}')

  def sym(self, t):
    k = ('sym', t.args[0])
    if k not in self.cache:
      s = self.syms.get(t.args[0])
      if callable(s):
        v = s(self, self._h(*k))
      elif s is not None:
        v = s
      elif t.args[0] in _positive() and t.ty is not None and 'int' in t.ty:
        v = self._h(*k).randint(_positive()[t.args[0]], _positive()[t.args[0]] + 5)
      else:
        v = self.default(self._h(*k), t.ty)
      self.cache[k] = v
    return self.cache[k]

  # ------------------------------------------------------------
  def dom(self, d, env):
    """list of binder values in iteration order"""
    key = (d, tuple(sorted((u, env[u]) for u in d.fb if u in env)))
    r = self.dcache.get(key)
    if r is None:
      r = self._dom(d, env)
      self.dcache[key] = r
    return r

  def _dom(self, d, env):
    o = d.op
    if o == 'd.base':
      return list(range(self.size(d.args[0], tuple(self.ev(x, env) for x in d.args[1:]))))
    if o == 'd.range':
      a, b, s = (self.ev(x, env) for x in d.args)
      if not all(isinstance(x, int) for x in (a, b, s)) or s == 0:
        raise EvErr('range')
      r = range(a, b, s)
      if len(r) > 400:
        raise Unknown('long range')
      return list(r)
    if o == 'd.rev':
      return self.dom(d.args[0], env)[::-1]
    if o == 'd.sorted':
      (u,), inner, key, rev = d.args
      xs = self.dom(inner, env)
      ks = []
      for x in xs:
        e = dict(env)
        e[u] = x
        ks.append((self.ev(key, e), x))
      try:
        ks = sorted(ks, key=lambda p: p[0], reverse=bool(cv(rev)) if isinstance(rev, T) and is_c(rev) else bool(self.ev(rev, env)))
      except TypeError:
        raise EvErr('sort')
      return [x for _, x in ks]
    if o == 'd.faces':
      return list(range(len(self.faces(d, env)[0])))
    if o == 'd.seq':   # positions of a sequence value
      return list(range(len(self.ev(d.args[0], env))))
    if o == 'd.zipl':
      return list(range(max(len(self.ev(x, env)) for x in d.args)))
    if o == 'd.zip':
      return list(range(min(len(self.ev(x, env)) for x in d.args)))
    if o == 'd.last':
      return list(range(len(self.group(d, env)[0])))
    if o == 'd.group':  # distinct keys of a bag in first-occurrence order
      return list(range(len(self.group(d, env)[0])))
    raise Unknown(o)

  def group(self, d, env):
    key = ('g', d, tuple(sorted((u, env[u]) for u in d.fb if u in env)))
    if key in self.dcache:
      return self.dcache[key]
    acc = {}
    for k, w in self.seq(d.args[-1].args, env):
      acc[k] = acc.get(k, 0) + w if d.op == 'd.group' else w
    r = (list(acc), list(acc.values()))
    self.dcache[key] = r
    return r

  def faces(self, d, env):
    key = ('f', d, tuple(sorted((u, env[u]) for u in d.fb if u in env)))
    if key in self.dcache:
      return self.dcache[key]
    r = canon(self.seq(d.args[0].args, env))
    self.dcache[key] = r
    return r

  def seq(self, segs, env):
    out = []
    for s in segs:
      if s.op == 'it':
        out.append(self.ev(s.args[0], env))
      elif s.op == 'for':
        u = s.args[0][0]
        for x in self.dom(s.args[1], env):
          e = dict(env)
          e[u] = x
          out.extend(self.seq(s.args[2:], e))
          if len(out) > 60000:
            raise Unknown('big')
      elif s.op == 'if':
        if truthy(self.ev(s.args[0], env)):
          out.extend(self.seq(s.args[1:], env))
      elif s.op == 'carry':
        v = self.ev(s.args[0], env)
        if not isinstance(v, tuple):
          raise Unknown('carry')
        out.extend(v)
      else:
        raise Unknown(s.op)
    return out

  def fmap(self, t, env):
    base = t.args[0]
    d = {}
    if base.op == 'c':
      pass
    elif base.op == 'b':
      v = env.get(base.args[0])
      if not isinstance(v, FMap):
        raise Unknown('map')
      d = dict(v.items)
    elif base.op in ('mbag', 'mstore'):
      self._fill(d, 'acc' if base.op == 'mbag' else 'put', base.args[0].args, env)
    elif base.op == 'mrel':
      v = env.get(base.args[0].args[0])
      if not isinstance(v, FMap):
        raise Unknown('map')
      d = dict(v.items)
      self._fill(d, cv(base.args[1]), base.args[2].args, env)
    elif base.op == 'mterm':
      d = dict(self.ev(base.args[0], env).items)
    else:
      raise Unknown(base.op)
    for e in t.args[1:]:
      d[self.ev(e.args[0], env)] = self.ev(e.args[1], env)
    return FMap(d)

  def _fill(self, d, kind, segs, env):
    for k, w in self.seq(segs, env):
      d[k] = d.get(k, 0) + w if kind == 'acc' else w

  def ev(self, t, env):
    tick()
    if not isinstance(t, T):
      return t
    o = t.op
    a = t.args
    if o == 'c':
      return cv(t)
    if o == 'b':
      if a[0] not in env:
        raise Unknown('free binder')
      return env[a[0]]
    if o == 'sym':
      return self.sym(t)
    if o == 'fn':
      return self.arr(a[0], tuple(self.ev(x, env) for x in a[1:]), t.ty)
    if o in _BIN:
      x, y = self.ev(a[0], env), self.ev(a[1], env)
      if o == 'pow' and isinstance(x, (int, float)) and isinstance(y, (int, float)) and (abs(y) > 300 or abs(x) > 1e6):
        raise Unknown('big pow')
      try:
        r = _BIN[o](x, y)
      except (ZeroDivisionError, TypeError, ValueError, OverflowError) as e:
        raise (EvZero if isinstance(e, ZeroDivisionError) else EvErr)(str(e))
      if isinstance(r, complex):
        raise Unknown('complex')
      return r
    if o == 'ite':
      return self.ev(a[1] if truthy(self.ev(a[0], env)) else a[2], env)
    if o == 'not':
      return not truthy(self.ev(a[0], env))
    if o == 'and':
      return all(truthy(self.ev(x, env)) for x in a)
    if o == 'or':
      return any(truthy(self.ev(x, env)) for x in a)
    if o == 'b2i':
      return int(truthy(self.ev(a[0], env)))
    if o == 'tup':
      return tuple(self.seq(a, env))
    if o == 'seq':
      return tuple(self.seq(a, env))
    if o in ('sum', 'prod', 'any', 'all', 'max', 'min'):
      u, d, body = a[0][0], a[1], a[2]
      vals = []
      for x in self.dom(d, env):
        e = dict(env)
        e[u] = x
        v = self.ev(body, e)
        if o == 'any' and truthy(v):
          return True
        if o == 'all' and not truthy(v):
          return False
        vals.append(v)
      if o == 'any':
        return False
      if o == 'all':
        return True
      try:
        if o == 'sum':
          r = 0
          for v in vals:
            r = r + v
          return r
        if o == 'prod':
          return math.prod(vals)
        return (max if o == 'max' else min)(vals)
      except (TypeError, ValueError) as ex:
        raise EvErr(str(ex))
    if o == 'prefix':
      u, d, body, upto = a[0][0], a[1], a[2], self.ev(a[3], env)
      r = 0
      for x in self.dom(d, env):
        e = dict(env)
        e[u] = x
        r = r + self.ev(body, e)
        if x == upto:
          return r
      raise EvErr('prefix')
    if o == 'fold':   # (u, lv), dom, init, body
      (u, lv), d, init, body = a[0], a[1], a[2], a[3]
      r = self.ev(init, env)
      for x in self.dom(d, env):
        e = dict(env)
        e[u] = x
        e[lv] = r
        r = self.ev(body, e)
      return r
    if o == 'mfold':   # (u, lv...), dom, index, inits, posts
      uids, d = a[0], a[1]
      key = ('mfold', uids, d, a[3], a[4], tuple(sorted((u, env[u]) for u in t.fb if u in env)))
      if key not in self.dcache:
        cur = [self.ev(x, env) for x in a[3].args]
        for x in self.dom(d, env):
          e = dict(env)
          e[uids[0]] = x
          for lv, v in zip(uids[1:], cur):
            e[lv] = v
          cur = [self.ev(p, e) for p in a[4].args]
        self.dcache[key] = cur
      return self.dcache[key][cv(a[2])]
    if o == 'map':
      return self.fmap(t, env)
    if o in ('mhas', 'msel', 'mget0'):
      m, k = dict(self.ev(a[0], env).items), self.ev(a[1], env)
      if o == 'mhas':
        return k in m
      if o == 'mget0':
        return m.get(k, 0)
      if k not in m:
        raise EvErr('key')
      return m[k]
    if o == 'mitems':
      return tuple(self.ev(a[0], env).items)
    if o == 'last':
      u, d, init, body = a[0][0], a[1], a[2], a[3]
      xs = self.dom(d, env)
      if not xs:
        return self.ev(init, env)
      e = dict(env)
      e[u] = xs[-1]
      return self.ev(body, e)
    if o == 'first':   # (u), dom, guard, value
      u, d, g, v = a[0][0], a[1], a[2], a[3]
      for x in self.dom(d, env):
        e = dict(env)
        e[u] = x
        if truthy(self.ev(g, e)):
          return self.ev(v, e)
      raise EvErr('first')
    if o == 'card':
      return len(self.dom(a[0], env))
    if o == 'len':
      x = a[0]
      if x.op in ('tup', 'seq'):
        return len(self.seq(x.args, env))
      v = self.ev(x, env)
      try:
        return len(v)
      except TypeError:
        raise EvErr('len')
    if o in ('sel', 'strsel'):
      s, i = self.ev(a[0], env), self.ev(a[1], env)
      try:
        return s[i]
      except (IndexError, TypeError):
        raise EvErr('index')
    if o == 'seli':   # element of positions domain with default
      s, i = self.ev(a[0], env), self.ev(a[1], env)
      return s[i] if i < len(s) else self.ev(a[2], env)
    if o == 'in':
      x, s = self.ev(a[0], env), self.ev(a[1], env)
      try:
        return x in s
      except TypeError:
        raise EvErr('in')
    if o == 'face':
      return self.faces(a[0], env)[0][self.ev(a[1], env)]
    if o == 'facew':
      return self.faces(a[0], env)[1][self.ev(a[1], env)]
    if o == 'gcdw':
      raw = self.seq(a[0].args[0].args, env)
      return math.gcd(*[w for _, w in raw]) or 1
    if o == 'gkey':
      return self.group(a[0], env)[0][self.ev(a[1], env)]
    if o == 'gval':
      return self.group(a[0], env)[1][self.ev(a[1], env)]
    if o == 'posof':
      return self.dom(a[0], env).index(self.ev(a[1], env))
    if o == 'isinst':
      v = self.ev(a[0], env)
      if not isinstance(v, (int, float, str, bool, type(None), tuple)):
        raise Unknown('isinst')
      names = a[1]
      n = type(v).__name__
      n = {'NoneType': 'none'}.get(n, n)
      return n in names or (n == 'bool' and 'int' in names)
    if o == 'sorted':
      v = self.ev(a[0], env)
      try:
        return tuple(sorted(v, reverse=truthy(self.ev(a[1], env))))
      except TypeError:
        raise EvErr('sorted')
    if o == 'comb':
      n, k = self.ev(a[0], env), self.ev(a[1], env)
      if not (isinstance(n, int) and isinstance(k, int)) or n < 0 or k < 0:
        raise EvErr('comb')
      return math.comb(n, k)
    if o == 'factorial':
      n = self.ev(a[0], env)
      if not isinstance(n, int) or n < 0:
        raise EvErr('factorial')
      return math.factorial(n)
    if o == 'concat':
      return ''.join(self.ev(x, env) for x in a)
    if o == 'joinfor':   # (u), dom, body string
      u, d, sep, body = a[0][0], a[1], self.ev(a[2], env), a[3]
      out = []
      for x in self.dom(d, env):
        e = dict(env)
        e[u] = x
        out.append(self.ev(body, e))
      return sep.join(out)
    if o == 'fmt':
      try:
        return format(self.ev(a[0], env), self.ev(a[1], env))
      except (TypeError, ValueError) as ex:
        raise EvErr(str(ex))
    if o in ('strip', 'strslice', 'strop', 'repl') and all(isinstance(x, (T, str)) for x in a):
      xs = [x if isinstance(x, str) else self.ev(x, env) for x in a]
      try:
        if o == 'strip':
          return getattr(xs[0], xs[1])(*xs[2:])
        if o == 'strslice':
          return xs[0][xs[1]:xs[2]:xs[3]]
        if o == 'repl':
          return xs[0].replace(xs[1], xs[2])
        return getattr(xs[1], xs[0])(*xs[2:])
      except (TypeError, ValueError, AttributeError) as ex:
        raise EvErr(str(ex))
    if o == 'strmul':
      return self.ev(a[0], env) * self.ev(a[1], env)
    if o in _UN:
      v = self.ev(a[0], env)
      try:
        return _UN[o](v)
      except (TypeError, ValueError, OverflowError) as ex:
        raise EvErr(str(ex))
    if o == 'round2':
      try:
        return round(self.ev(a[0], env), self.ev(a[1], env))
      except (TypeError, ValueError, OverflowError) as ex:
        raise EvErr(str(ex))
    if o == 'id' and isinstance(a[0], T) and a[0].op == 'ref':
      return 2 ** 40 + 16 * a[0].args[0]
    if o == 'hash':
      try:
        return hash(self.ev(a[0], env))
      except TypeError as ex:
        raise EvErr(str(ex))
    if o == 'max2':
      return max(self.ev(x, env) for x in a)
    if o == 'min2':
      return min(self.ev(x, env) for x in a)
    if o == 'gcd':
      return math.gcd(*[self.ev(x, env) for x in a])
    if o == 'lcm':
      return math.lcm(*[self.ev(x, env) for x in a])
    if o in ('gcdall', 'lcmall'):
      vals = self.seq(a[0].args, env)
      return (math.gcd if o == 'gcdall' else math.lcm)(*vals)
    if o == 'mathfn':
      try:
        return getattr(math, a[0])(*[self.ev(x, env) for x in a[1:]])
      except (TypeError, ValueError, OverflowError) as ex:
        raise EvErr(str(ex))
    if o == 'app' and a[0] in self.funcs:
      return self.funcs[a[0]](self, *[self.ev(x, env) for x in a[1:]])
    raise Unknown(o)


def truthy(v):
  return bool(v)


def canon(pairs):
  acc = {}
  for v, w in pairs:
    if isinstance(v, bool):
      v = int(v)
    if not isinstance(w, (int, Fraction)) or isinstance(w, bool):
      if isinstance(w, float) and w == int(w):
        w = int(w)
      elif isinstance(w, float):
        w = Fraction(w)
    acc[v] = acc.get(v, 0) + w
  try:
    ks = sorted(acc)
  except TypeError:
    raise EvErr('unorderable faces')
  ws = [acc[k] for k in ks]
  den = 1
  for w in ws:
    if isinstance(w, Fraction):
      den = den * w.denominator // math.gcd(den, w.denominator)
  ws = [int(w * den) for w in ws]
  g = math.gcd(*ws) if ws else 1
  if g > 1:
    ws = [w // g for w in ws]
  if not ks:
    return [0], [1]
  return ks, ws


_BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'floordiv': operator.floordiv, 'mod': operator.mod, 'pow': operator.pow,
        'eq': operator.eq, 'lt': operator.lt, 'le': operator.le}


def _tdiv(x, y):
  if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and not isinstance(x, bool):
    return Fraction(x) / Fraction(y)
  return x / y


_BIN['truediv'] = _tdiv


def _int(v):
  return int(v)


_UN = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
       'int': _int, 'float': lambda v: float(v), 'str': lambda v: str(float(v)) if isinstance(v, Fraction) else str(v), 'sqrt': math.sqrt, 'lower': lambda s: s.lower(), 'repr': lambda v: repr(float(v)) if isinstance(v, Fraction) else repr(v), 'bool': bool}


def close(x, y):
  if isinstance(x, tuple) and isinstance(y, tuple):
    return len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
  num = (int, float, Fraction)
  if isinstance(x, num) and isinstance(y, num):
    if isinstance(x, float) or isinstance(y, float):
      try:
        fx, fy = float(x), float(y)
      except OverflowError:
        return x == y
      if math.isinf(fx) or math.isinf(fy) or math.isnan(fx) or math.isnan(fy):
        return fx == fy or (math.isnan(fx) and math.isnan(fy))
      return abs(fx - fy) <= 1e-9 * max(1.0, abs(fx), abs(fy))
    return x == y
  return type(x) is type(y) and x == y


def dist_close(p, q):
  """p, q: lists of (value, weight)"""
  a, b = _norm(p), _norm(q)
  if len(a) != len(b):
    return False
  return all(close(x, y) and close(v, w) for (x, v), (y, w) in zip(a, b))


def _norm(pairs):
  ks, ws = canon(pairs)
  # merge numerically equal faces
  tot = sum(ws)
  out = []
  for k, w in zip(ks, ws):
    if w == 0:
      continue
    if out and close(out[-1][0], k):
      out[-1] = (out[-1][0], out[-1][1] + Fraction(w, tot))
    else:
      out.append((k, Fraction(w, tot)))
  return out


def _positive():
  from .interp import POSITIVE
  return POSITIVE
