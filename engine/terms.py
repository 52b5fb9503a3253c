"""Value-number terms: hash-consed, immutable descriptions of what an abstract value is,
as a function of the analysed inputs.  Everything the abstract interpreter manipulates is a T."""
import time
from fractions import Fraction
import itertools

NUM = frozenset({'int', 'float'})
INT = frozenset({'int'})
FLOAT = frozenset({'float'})
BOOL = frozenset({'bool'})
STR = frozenset({'str'})
NONE = frozenset({'none'})

# ops whose first argument is a tuple of bound binder ids
BINDERS = {'for', 'sum', 'prod', 'any', 'all', 'max', 'min', 'prefix', 'd.sorted', 'd.filter', 'd.map',
           'fold', 'mfold', 'first', 'last', 'joinfor', 'forset', 'd.bag'}


class T:
  __slots__ = ('op', 'args', 'ty', 'fb', '_h', 'meta')

  def __repr__(self):
    return show(self)

  def __hash__(self):
    return self._h

  def __eq__(self, o):
    return self is o


_tab = {}
_meta = {}


class Unsupported(Exception):
  """the analysis cannot decide this construct"""

  def __init__(self, msg, node=None):
    self.node = node
    super().__init__(msg)


class Clock:
  """time limit of the obligation being decided"""
  until = None
  n = 0


def tick():
  Clock.n += 1
  if not Clock.n & 1023 and Clock.until is not None and time.monotonic() > Clock.until:
    raise Unsupported('time limit of an obligation')


def mk(op, *args, ty=None):
  tick()
  k = (op, args, ty)
  t = _tab.get(k)
  if t is not None:
    return t
  t = T.__new__(T)
  t.op, t.args, t.ty, t._h = op, args, ty, hash((op, args, ty))
  fb = set()
  if op == 'b':
    fb.add(args[0])
  else:
    for a in args:
      if isinstance(a, T):
        fb |= a.fb
    if op in BINDERS:
      fb -= set(args[0])
      # the domain lies outside the scope
      if isinstance(args[1], T):
        fb |= args[1].fb
  t.fb = frozenset(fb)
  t.meta = None
  _tab[k] = t
  return t


_TYN = {int: 'int', float: 'float', bool: 'bool', str: 'str', type(None): 'none'}


class _Key:
  """type-exact constant key (1, 1.0 and True differ)"""
  __slots__ = ('v', 'k')

  def __init__(self, v):
    self.v = v
    self.k = (type(v).__name__, repr(v))

  def __hash__(self):
    return hash(self.k)

  def __eq__(self, o):
    return isinstance(o, _Key) and self.k == o.k


def C(v):
  n = _TYN.get(type(v))
  return mk('c', _Key(v), ty=frozenset({n}) if n else frozenset({type(v).__name__}))


TRUE, FALSE, NONE_T = C(True), C(False), C(None)
ZERO, ONE = C(0), C(1)


class _PyKey:
  __slots__ = ('v',)

  def __init__(self, v):
    self.v = v

  def __hash__(self):
    return id(self.v)

  def __eq__(self, o):
    return isinstance(o, _PyKey) and self.v is o.v


_keep = []


def O(v):
  """wrap an analyser-level object (function, class, module, builtin)"""
  t = mk('o', _PyKey(v))
  _keep.append(v)
  return t


def is_c(t):
  return t.op == 'c'


def cv(t):
  return t.args[0].v


def is_o(t):
  return t.op == 'o'


def ov(t):
  return t.args[0].v


_uid = itertools.count(1)


def fresh():
  return next(_uid)


def B(uid):
  return mk('b', uid, ty=INT)


def sym(name, ty=INT):
  return mk('sym', name, ty=ty)


def fn(name, *args, ty=INT):
  """uninterpreted input array / function application"""
  return mk('fn', name, *args, ty=ty)


# ---------------------------------------------------------------- constructors
def tyjoin(a, b):
  if a is None or b is None:
    return None
  return a | b


def arith_ty(op, a, b):
  if a.ty is None or b.ty is None:
    return None
  if op == 'truediv':
    return FLOAT
  s = set()
  for x in a.ty:
    for y in b.ty:
      if x in ('int', 'bool') and y in ('int', 'bool'):
        if op == 'pow':
          s |= {'int', 'float'}
        else:
          s.add('int')
      elif x in ('int', 'bool', 'float') and y in ('int', 'bool', 'float'):
        s.add('float')
      else:
        return None
  return frozenset(s)


import operator as _op
_FOLD = {'add': _op.add, 'sub': _op.sub, 'mul': _op.mul, 'floordiv': _op.floordiv, 'truediv': _op.truediv,
         'mod': _op.mod, 'pow': _op.pow, 'lt': _op.lt, 'le': _op.le, 'eq': _op.eq}


def isnum(t):
  return t.ty is not None and t.ty <= {'int', 'float', 'bool'}


def arith(op, a, b):
  if is_c(a) and is_c(b):
    try:
      return C(_FOLD[op](cv(a), cv(b)))
    except Exception:
      pass
  if op == 'add':
    if is_c(b) and cv(b) == 0 and type(cv(b)) is int and isnum(a) and 'bool' not in a.ty:
      return a
    if is_c(a) and cv(a) == 0 and type(cv(a)) is int and isnum(b) and 'bool' not in b.ty:
      return b
  elif op == 'sub':
    if is_c(b) and cv(b) == 0 and type(cv(b)) is int and isnum(a) and 'bool' not in a.ty:
      return a
  elif op == 'mul':
    if is_c(b) and cv(b) == 1 and type(cv(b)) is int and isnum(a) and 'bool' not in a.ty:
      return a
    if is_c(a) and cv(a) == 1 and type(cv(a)) is int and isnum(b) and 'bool' not in b.ty:
      return b
  return mk(op, a, b, ty=arith_ty(op, a, b))


def add(a, b): return arith('add', a, b)
def sub(a, b): return arith('sub', a, b)
def mul(a, b): return arith('mul', a, b)


_INFS = (float('inf'), float('-inf'))


def cmp(op, a, b):
  """op in eq ne lt le gt ge; canonical ops: eq lt le not"""
  if op == 'ne':
    return not_(cmp('eq', a, b))
  if op == 'gt':
    return cmp('lt', b, a)
  if op == 'ge':
    return cmp('le', b, a)
  if is_c(a) and is_c(b):
    try:
      return C(bool(_FOLD[op](cv(a), cv(b))))
    except Exception:
      pass
  # numbers handled by the analysis are finite
  for x, y, left in ((a, b, True), (b, a, False)):
    if is_c(y) and isinstance(cv(y), float) and cv(y) in _INFS and isnum(x) and not is_c(x):
      if op == 'eq':
        return FALSE
      return C((cv(y) > 0) == left)
  if a is b and isnum(a):
    return TRUE if op in ('eq', 'le') else FALSE
  if op == 'eq' and is_c(a) and not is_c(b):
    a, b = b, a
  # distribute over ite with constant arms (bool-like)
  if a.op == 'ite' and is_c(b) and is_c(a.args[1]) and is_c(a.args[2]):
    return ite(a.args[0], cmp(op, a.args[1], b), cmp(op, a.args[2], b))
  if b.op == 'ite' and is_c(a) and is_c(b.args[1]) and is_c(b.args[2]):
    return ite(b.args[0], cmp(op, a, b.args[1]), cmp(op, a, b.args[2]))
  return mk(op, a, b, ty=BOOL)


def not_(a):
  if is_c(a):
    return C(not cv(a))
  if a.op == 'not':
    return a.args[0]
  if a.op == 'lt' and _ordered(a):
    return mk('le', a.args[1], a.args[0], ty=BOOL)
  if a.op == 'le' and _ordered(a):
    return mk('lt', a.args[1], a.args[0], ty=BOOL)
  return mk('not', a, ty=BOOL)


def _ordered(a):
  return all(x.ty is not None and (x.ty <= {'int', 'float', 'bool'} or x.ty <= {'str'}) for x in a.args)


def and_(*xs):
  out = []
  for x in xs:
    if x.op == 'and':
      out.extend(x.args)
    else:
      out.append(x)
  r = []
  for x in out:
    if is_c(x):
      if not cv(x):
        return FALSE
      continue
    if x in r:
      continue
    if not_(x) in r:
      return FALSE
    r.append(x)
  if not r:
    return TRUE
  if len(r) == 1:
    return r[0]
  return mk('and', *r, ty=BOOL)


def or_(*xs):
  out = []
  for x in xs:
    if x.op == 'or':
      out.extend(x.args)
    else:
      out.append(x)
  r = []
  for x in out:
    if is_c(x):
      if cv(x):
        return TRUE
      continue
    if x in r:
      continue
    if not_(x) in r:
      return TRUE
    r.append(x)
  if not r:
    return FALSE
  if len(r) == 1:
    return r[0]
  return mk('or', *r, ty=BOOL)


def ite(c, a, b):
  if is_c(c):
    return a if cv(c) else b
  if a is b:
    return a
  if c.op == 'not':
    return ite(c.args[0], b, a)
  if a.op == 'ite' and a.args[0] is c:
    a = a.args[1]
  if b.op == 'ite' and b.args[0] is c:
    b = b.args[2]
  if a is b:
    return a
  if a is TRUE and b is FALSE:
    return c
  if a is FALSE and b is TRUE:
    return not_(c)
  if a.ty == BOOL and b.ty == BOOL:
    if a is TRUE:
      return or_(c, b)
    if b is FALSE:
      return and_(c, a)
    if a is FALSE:
      return and_(not_(c), b)
    if b is TRUE:
      return or_(not_(c), a)
    if a is c:
      return or_(c, b)
    if b is c:
      return and_(c, a)
    nc = not_(c)
    if a is nc:
      return and_(nc, b)
    if b is nc:
      return or_(nc, a)
  # ite(in(k,M), sel+v, v)
  if a.op == 'add' and b in a.args:
    other = a.args[0] if a.args[1] is b else a.args[1]
    if other.op == 'msel':
      return add(ite(c, other, ZERO), b)
  if c.op == 'min' or c.op == 'mhas':
    if a.op == 'msel' and b is ZERO and a.args == c.args:
      return mk('mget0', *a.args, ty=a.ty)
  return mk('ite', c, a, b, ty=tyjoin(a.ty, b.ty))


def tup(*segs):
  return mk('tup', *segs, ty=frozenset({'tuple'}))


def it(v):
  return mk('it', v)


def tuple_of(*vals):
  return tup(*[it(v) for v in vals])


def for_(uid, dom, *segs):
  return mk('for', (uid,), dom, *segs)


def if_(cond, *segs):
  return mk('if', cond, *segs)


def dbase(name, *deps):
  return mk('d.base', name, *deps)


# ---------------------------------------------------------------- substitution
def subst(t, m):
  """substitute binder ids by terms (m: uid -> T); refs are left alone"""
  if not isinstance(t, T) or not (t.fb & m.keys()):
    return t
  if t.op == 'b':
    return m.get(t.args[0], t)
  if t.op in BINDERS:
    uids = t.args[0]
    m2 = {k: v for k, v in m.items() if k not in uids}
    dom = subst(t.args[1], m)
    # avoid capture
    clash = set()
    for v in m2.values():
      clash |= v.fb
    ren = {}
    for u in uids:
      if u in clash:
        ren[u] = fresh()
    if ren:
      m2 = dict(m2)
      for u, n in ren.items():
        m2[u] = B(n)
      uids = tuple(ren.get(u, u) for u in uids)
    rest = tuple(subst(a, m2) for a in t.args[2:])
    return mk(t.op, uids, dom, *rest, ty=t.ty)
  return rebuild(t, [subst(a, m) for a in t.args])


_REB = {}


def rebuild(t, args):
  f = _REB.get(t.op)
  if f:
    return f(*args)
  return mk(t.op, *args, ty=t.ty)


for _n in ('add', 'sub', 'mul', 'floordiv', 'truediv', 'mod', 'pow'):
  _REB[_n] = (lambda n: lambda a, b: arith(n, a, b))(_n)
for _n in ('eq', 'lt', 'le'):
  _REB[_n] = (lambda n: lambda a, b: cmp(n, a, b))(_n)
_REB['not'] = not_
_REB['and'] = and_
_REB['or'] = or_
_REB['ite'] = ite


def replace(t, f):
  """bottom-up replacement: f(term) -> term or None"""
  memo = {}

  def go(x):
    if not isinstance(x, T):
      return x
    r = memo.get(x)
    if r is not None:
      return r
    r = f(x)
    if r is None:
      args = tuple(go(a) for a in x.args)
      if all(p is q for p, q in zip(args, x.args)):
        r = x
      elif x.op in BINDERS:
        r = mk(x.op, *args, ty=x.ty)
      else:
        r = rebuild(x, args)
    memo[x] = r
    return r
  return go(t)


def mentions(t, pred):
  seen = set()
  st = [t]
  while st:
    x = st.pop()
    if not isinstance(x, T) or x in seen:
      continue
    seen.add(x)
    if pred(x):
      return True
    st.extend(x.args)
  return False


def subterms(t):
  seen = set()
  st = [t]
  while st:
    x = st.pop()
    if not isinstance(x, T) or x in seen:
      continue
    seen.add(x)
    yield x
    st.extend(x.args)


_INF = {'add': '+', 'sub': '-', 'mul': '*', 'floordiv': '//', 'truediv': '/', 'mod': '%', 'pow': '**', 'eq': '==', 'lt': '<', 'le': '<='}


def show(t, d=0):
  if not isinstance(t, T):
    return repr(t) if not isinstance(t, tuple) else str(t)
  if d > 12:
    return '…'
  s = lambda x: show(x, d + 1)
  o = t.op
  if o == 'c':
    return repr(cv(t))
  if o == 'sym':
    return str(t.args[0])
  if o == 'b':
    return f'i{t.args[0]}'
  if o == 'o':
    return getattr(ov(t), 'name', None) or str(ov(t))
  if o == 'fn':
    return f'{t.args[0]}[{",".join(s(a) for a in t.args[1:])}]'
  if o in _INF:
    return f'({s(t.args[0])} {_INF[o]} {s(t.args[1])})'
  if o == 'it':
    return s(t.args[0])
  if o == 'tup':
    return '(' + ', '.join(s(a) for a in t.args) + ')'
  if o == 'for':
    return f'[{", ".join(s(a) for a in t.args[2:])} for i{t.args[0][0]} in {s(t.args[1])}]'
  if o == 'if':
    return f'[{", ".join(s(a) for a in t.args[1:])} if {s(t.args[0])}]'
  if o == 'ite':
    return f'({s(t.args[1])} if {s(t.args[0])} else {s(t.args[2])})'
  if o in BINDERS:
    return f'{o}[i{",i".join(map(str, t.args[0]))} in {s(t.args[1])}]({", ".join(s(a) for a in t.args[2:])})'
  return f'{o}({", ".join(s(a) for a in t.args)})'
