"""Abstract interpreter over the repository's syntax trees.

Every value is a term (terms.T); control-flow joins produce gated terms (ite) instead of enumerating
paths; loops over collections of unknown size are analysed once for a generic element and closed into
sum/product/any/all/collection terms.  No repository code is imported or executed."""
import ast
import builtins as pybuiltins
import os
import math
from .terms import *
from . import terms as tm
from .nf import NF, padd, pconst, is_const, TooBig, pstr, equal as nf_equal
from fractions import Fraction


class PyRaise(Exception):
  """the analysed program raises here, on every path of the current state"""

  def __init__(self, exc, site=None, msg=None, val=None):
    super().__init__(f'{exc} at {site}: {msg}')
    self.exc, self.site, self.msg, self.val = exc, site, msg, val


UNDEF = mk('undef')
NOTIMPL = O(NotImplemented)
POISON = mk('poison')


# ---------------------------------------------------------------- analyser-level objects
class ModuleObj:
  def __init__(self, name, path=None, env=None, tree=None):
    self.name, self.path, self.env, self.tree = name, path, env, tree
    self.loaded = False


class ExtModule:
  def __init__(self, name):
    self.name = name


class FuncObj:
  def __init__(self, name, node, env, module, owner=None, defaults=(), kwdefaults=None, annotations=None):
    self.name, self.node, self.env, self.module, self.owner = name, node, env, module, owner
    self.defaults, self.kwdefaults = defaults, kwdefaults or {}
    self.annotations = annotations or {}
    self.qual = (owner.name + '.' if owner else '') + name
    body = node.body if isinstance(node.body, list) else [node.body]
    self.locals, self.globals, self.nonlocals = scope_of(node)
    self.is_gen = not isinstance(node, ast.Lambda) and has_yield(body)

  @property
  def where(self):
    return f'{self.module.path}:{self.node.lineno} {self.qual}'


class ClassObj:
  def __init__(self, name, bases, module, node=None):
    self.name, self.bases, self.module, self.node = name, bases, module, node
    self.attrs = {}
    self.abstract_kind = None

  def mro(self):
    out = [self]
    for b in self.bases:
      if isinstance(b, ClassObj):
        for c in b.mro():
          if c in out:
            out.remove(c)
          out.append(c)
    return out

  def lookup(self, name):
    for c in self.mro():
      if name in c.attrs:
        return c.attrs[name], c
    return None, None

  def is_sub(self, other):
    return other in self.mro()


class Bound:
  def __init__(self, func, self_t):
    self.func, self.self_t = func, self_t
    self.name = f'bound {getattr(func, "name", func)}'


class BuiltinType:
  def __init__(self, name):
    self.name = name


class Builtin:
  def __init__(self, name, impl):
    self.name, self.impl = name, impl


class StaticM:
  def __init__(self, f):
    self.f = f


class ClassM:
  def __init__(self, f):
    self.f = f


class Prop:
  def __init__(self, f):
    self.f = f


class EnumMember:
  def __init__(self, cls, name, value):
    self.cls, self.name, self.value = cls, f'{cls.name}.{name}', value
    self.mname = name


class Opaque:
  """a callable or object the analysis knows nothing about"""

  def __init__(self, name, handler=None, sink=False):
    self.name, self.handler, self.sink = name, handler, sink


class InstDict:
  """the __dict__ of an instance (a live view)"""

  def __init__(self, ref):
    self.ref = ref


class TypeVarObj:
  def __init__(self, name):
    self.name = name


def scope_of(node):
  loc, glo, nonl = set(), set(), set()
  a = node.args
  for x in a.posonlyargs + a.args + a.kwonlyargs:
    loc.add(x.arg)
  if a.vararg:
    loc.add(a.vararg.arg)
  if a.kwarg:
    loc.add(a.kwarg.arg)

  class Vis(ast.NodeVisitor):
    def visit_FunctionDef(self, n):
      loc.add(n.name)
      for d in n.decorator_list:
        self.visit(d)

    def visit_ClassDef(self, n):
      loc.add(n.name)

    def visit_Lambda(self, n):
      pass

    def comp(self, n):
      # comprehension targets are local to the comprehension; walrus leaks
      for x in ast.walk(n):
        if isinstance(x, ast.NamedExpr):
          loc.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Name(self, n):
      if isinstance(n.ctx, (ast.Store, ast.Del)):
        loc.add(n.id)

    def visit_Global(self, n):
      glo.update(n.names)

    def visit_Nonlocal(self, n):
      nonl.update(n.names)

    def visit_Import(self, n):
      for al in n.names:
        loc.add((al.asname or al.name).split('.')[0])
    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
      if n.name:
        loc.add(n.name)
      self.generic_visit(n)
  v = Vis()
  if isinstance(node, ast.Lambda):
    v.visit(node.body)
  else:
    for s in node.body:
      v.visit(s)
  loc -= glo | nonl
  return loc, glo, nonl


def has_yield(body):
  st = list(body)
  while st:
    n = st.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
      continue
    st.extend(ast.iter_child_nodes(n))
  return False


# ---------------------------------------------------------------- state
class Obj:
  __slots__ = ('kind', 'cls', 'f', 'tok')

  def __init__(self, kind, cls, f, tok):
    self.kind, self.cls, self.f, self.tok = kind, cls, f, tok


_tok = 0


def newtok():
  global _tok
  _tok += 1
  return _tok


EVENTS = 0


class State:
  def __init__(self):
    self.heap = {}
    self.facts = []
    self.pc = ()
    self.open = {}
    self.tok = newtok()
    self.dead = False
    self.next = None

  def fork(self):
    s = State.__new__(State)
    s.heap = dict(self.heap)
    s.facts = list(self.facts)
    s.pc = self.pc
    s.open = dict(self.open)
    s.dead = self.dead
    s.tok = newtok()
    self.tok = newtok()
    s.next = self.next
    return s

  def become(self, o):
    self.heap, self.facts, self.pc, self.open, self.dead = o.heap, o.facts, o.pc, o.open, o.dead
    self.tok = newtok()
    o.tok = newtok()

  def new(self, kind, cls=None, **f):
    oid = self.next()
    self.heap[oid] = Obj(kind, cls, f, self.tok)
    return mk('ref', oid)

  def obj(self, ref):
    return self.heap[ref.args[0]]

  def w(self, oid):
    o = self.heap[oid]
    if o.tok != self.tok:
      o = Obj(o.kind, o.cls, dict(o.f), self.tok)
      self.heap[oid] = o
    return o

  def set(self, ref, k, v):
    self.w(ref.args[0] if isinstance(ref, T) else ref).f[k] = v

  # ---- facts
  def assume(self, c):
    """returns False if c contradicts known facts"""
    if c is TRUE:
      return True
    if c is FALSE:
      return False
    if c.op == 'and':
      ok = True
      for x in c.args:
        ok = self.assume(x) and ok
      return ok
    d = decide(c, self)
    if d is False:
      return False
    if d is None:
      self.facts.append(c)
    return True


POSITIVE = {}     # fn/sym name -> lower bound (int)
RANKS = {}        # T -> rank (known total order)
INJECTIVE = set()  # fn names injective in their last index
BIG = 10 ** 24


def lower(mono_key):
  """lower bound of an atom string, if known"""
  k = mono_key
  if k.startswith('['):
    return 0
  if k.startswith('card('):
    return POSITIVE.get('card', 0)
  base = k.split('[', 1)[0].lstrip('$')
  if base in POSITIVE:
    return POSITIVE[base]
  if k.startswith('sum(') or k.startswith('prefix('):
    inner = k.split(': ', 1)[1].rstrip(')') if ': ' in k else ''
    b2 = inner.replace('1*', '').split('[', 1)[0]
    if b2 in POSITIVE and POSITIVE[b2] >= 0:
      return 0
  return None


def _minval(p):
  """lower bound of a polynomial from atom bounds, or None"""
  tot = Fraction(0)
  for m, c in p.items():
    if m == ():
      tot += c
      continue
    if c < 0:
      return None
    v = Fraction(1)
    for k, e in m:
      lb = lower(k)
      if lb is None or lb < 0 or e < 0:
        return None
      v *= Fraction(lb) ** e
    tot += c * v
  return tot


def _cmp_poly(c):
  """canonical (kind, poly) with meaning poly >= 0 / > 0 / == 0"""
  if c.op not in ('eq', 'lt', 'le'):
    return None
  a, b = c.args
  if not (isnum(a) and isnum(b)):
    return None
  x = NF()
  try:
    d = padd(x.poly(b), x.poly(a), -1)
  except TooBig:
    return None
  ints = a.ty <= {'int', 'bool'} and b.ty <= {'int', 'bool'}
  if c.op == 'eq':
    return ('eq', d, ints)
  if c.op == 'lt':
    if ints:
      return ('ge', padd(d, pconst(1), -1), ints)
    return ('gt', d, ints)
  return ('ge', d, ints)


def _diffconst(a, b):
  d = padd(a, b, -1)
  return d.get((), Fraction(0)) if is_const(d) else None


def decide(c, st):
  if is_c(c):
    return bool(cv(c))
  o = c.op
  if o == 'not':
    d = decide(c.args[0], st)
    return None if d is None else not d
  if o == 'and':
    ds = [decide(x, st) for x in c.args]
    if False in ds:
      return False
    return True if all(d is True for d in ds) else None
  if o == 'or':
    ds = [decide(x, st) for x in c.args]
    if True in ds:
      return True
    return False if all(d is False for d in ds) else None
  if o == 'ite':
    d = decide(c.args[0], st)
    if d is not None:
      return decide(c.args[1] if d else c.args[2], st)
    a, b = decide(c.args[1], st), decide(c.args[2], st)
    return a if a == b else None
  if o in ('any', 'all'):
    u, dom, body = c.args[0][0], c.args[1], c.args[2]
    d = decide(body, st)
    if o == 'all' and d is True:
      return True
    if o == 'any' and d is False:
      return False
    if d is not None and nonempty(dom):
      return d
  if o in ('eq', 'lt', 'le'):
    a, b = c.args
    if a in RANKS and b in RANKS:
      ra, rb = RANKS[a], RANKS[b]
      if isinstance(ra, tuple) == isinstance(rb, tuple):
        if not isinstance(ra, tuple) or ra[0] == rb[0]:
          return ra == rb if o == 'eq' else ra < rb if o == 'lt' else ra <= rb
    if a.op in ('add', 'mul') or b.op in ('add', 'mul'):
      r = _cancel_addends(a, b)
      if r is not None:
        x, y = r
        if x == y:
          return o != 'lt'
        if all(p <= q for p, q in zip(x, y)):
          return o != 'eq'
        if all(p >= q for p, q in zip(x, y)):
          return False
    # huge constants: weights are assumed to stay below the rescaling limit
    for x, y, left in ((a, b, True), (b, a, False)):
      if is_c(y) and isinstance(cv(y), (int, float)) and abs(cv(y)) >= BIG and abs(cv(y)) != float('inf') and isnum(x):
        if o == 'eq':
          return False
        return (cv(y) > 0) if left else (cv(y) < 0)
    for x, y, left in ((a, b, True), (b, a, False)):   # length of a range
      if x.op == 'card' and x.args[0].op == 'd.range' and cv_one(x.args[0].args[2]) and not (y.op == 'card'):
        p, q = x.args[0].args[:2]
        lt = decide(cmp('lt', p, q), st)
        if lt is not None:
          z = sub(q, p) if lt else ZERO
          return decide(cmp(o, z, y) if left else cmp(o, y, z), st)
    for x, y, left in ((a, b, True), (b, a, False)):
      if is_c(y) and isinstance(cv(y), (int, float)) and x.op in ('sum', 'card', 'add', 'mul', 'prod'):
        lo = term_lower(x)
        if lo is not None and lo >= cv(y):
          if lo > cv(y):
            return (not left) if o != 'eq' else False
          if left and o == 'lt':
            return False
          if not left and o == 'le':
            return True
    cp = _cmp_poly(c)
    if cp:
      kind, d, ints = cp
      neg = {m: -v for m, v in d.items()}
      if is_const(d):
        v = d.get((), 0)
        return v == 0 if kind == 'eq' else v > 0 if kind == 'gt' else v >= 0
      facts = []
      for f in st.facts:
        g = f
        flip = False
        if f.op == 'not':
          g, flip = f.args[0], True
        fp = _cmp_poly(g)
        if fp:
          facts.append((fp[0], fp[1], flip))
      for fk, fd, flip in facts:
        if flip:
          if fk == 'eq' and kind == 'eq' and (padd(fd, d, -1) == {} or padd(fd, d) == {}):
            return False
          continue
        if fk == 'eq':   # fd == 0
          for e in (fd, {m: -v for m, v in fd.items()}):
            k = _diffconst(d, e)   # d = e + k = k
            if k is not None:
              return k == 0 if kind == 'eq' else k > 0 if kind == 'gt' else k >= 0
          continue
        # fd >= 0 (or > 0)
        k = _diffconst(d, fd)   # d = fd + k
        if k is not None:
          if kind == 'ge' and k >= 0:
            return True
          if kind == 'gt' and (k > 0 or (k == 0 and fk == 'gt')):
            return True
          if kind == 'eq' and (k > 0 or (k == 0 and fk == 'gt')):
            return False
        k = _diffconst(neg, fd)  # -d = fd + k >= k
        if k is not None:
          if kind == 'ge' and (k > 0 or (k == 0 and fk == 'gt')):
            return False
          if kind == 'gt' and k >= 0:
            return False
          if kind == 'eq' and (k > 0 or (k == 0 and fk == 'gt')):
            return False
      lo = _minval(d)
      if lo is not None:
        if kind == 'ge' and lo >= 0:
          return True
        if kind == 'gt' and lo > 0:
          return True
        if kind == 'eq' and lo > 0:
          return False
      lo = _minval(neg)
      if lo is not None:   # d <= -lo
        if kind == 'ge' and lo > 0:
          return False
        if kind == 'gt' and lo >= 0:
          return False
        if kind == 'eq' and lo > 0:
          return False
  nc = not_(c)
  for f in st.facts:
    if f is c:
      return True
    if f is nc:
      return False
  return None


def _cancel_addends(a, b):
  """sums of symbols of one ranked group -> their sorted ranks (same number on both sides), after cancelling"""
  def flat(t):
    if t.op == 'add':
      return [y for x in t.args for y in flat(x)]
    if t.op == 'mul' and len(t.args) == 2 and is_c(t.args[0]) and cv(t.args[0]) in (2, 3, 4):
      return flat(t.args[1]) * cv(t.args[0])
    return [t]
  fa, fb = flat(a), flat(b)
  for x in list(fa):
    if x in fb:
      fa.remove(x)
      fb.remove(x)
  if len(fa) != len(fb) or not all(x in RANKS and isinstance(RANKS[x], tuple) for x in fa + fb) or len({RANKS[x][0] for x in fa + fb}) > 1:
    return None
  return sorted(RANKS[x] for x in fa), sorted(RANKS[x] for x in fb)


def term_lower(t):
  """a lower bound of a numeric term, or None"""
  o = t.op
  if o == 'c':
    v = cv(t)
    return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None
  if o == 'card':
    return 1 if nonempty(t.args[0]) else 0
  if o == 'sym':
    return POSITIVE.get(t.args[0])
  if o == 'fn':
    return POSITIVE.get(t.args[0])
  if o in ('sum', 'prod'):
    lo = term_lower(t.args[2])
    if lo is None or lo < 0:
      return None
    if o == 'prod':
      return 1 if lo >= 1 else 0
    return lo if nonempty(t.args[1]) else 0
  if o in ('add', 'mul'):
    ls = [term_lower(x) for x in t.args]
    if None in ls or (o == 'mul' and min(ls) < 0):
      return None
    return sum(ls) if o == 'add' else math.prod(ls)
  if o == 'ite':
    a, b = term_lower(t.args[1]), term_lower(t.args[2])
    return None if a is None or b is None else min(a, b)
  return None


def nonempty(dom):
  if dom.op == 'd.base':
    return dom.args[0] not in MAYBE_EMPTY
  if dom.op in ('d.rev',):
    return nonempty(dom.args[0])
  if dom.op in ('d.sorted',):
    return nonempty(dom.args[1])
  if dom.op == 'd.faces':
    return True
  if dom.op in ('d.group', 'd.last'):
    return segs_nonempty(dom.args[-1].args)
  if dom.op == 'd.range' and dom.args[0] is ZERO and dom.args[2] is ONE and dom.args[1].op == 'card':
    return nonempty(dom.args[1].args[0])
  return False


def segs_nonempty(segs):
  return any(s.op == 'it' or (s.op == 'for' and nonempty(s.args[1]) and segs_nonempty(s.args[2:])) for s in segs)


MAYBE_EMPTY = set()


# ---------------------------------------------------------------- segment helpers
def segs_exact(segs):
  return all(s.op == 'it' for s in segs)


def items_of(segs):
  return [s.args[0] for s in segs]


def map_segs(segs, f):
  out = []
  for s in segs:
    if s.op == 'it':
      out.append(it(f(s.args[0])))
    elif s.op == 'for':
      out.append(mk('for', s.args[0], s.args[1], *map_segs(s.args[2:], f)))
    elif s.op == 'if':
      out.append(mk('if', s.args[0], *map_segs(s.args[1:], f)))
    else:
      raise Unsupported(f'map over {s.op}')
  return tuple(out)


def leaf_types(segs):
  ty = frozenset()
  for s in segs:
    if s.op == 'it':
      t = s.args[0].ty
      if t is None:
        return None
      ty |= t
    else:
      t = leaf_types(s.args[2:] if s.op == 'for' else s.args[1:])
      if t is None:
        return None
      ty |= t
  return ty


def single_for(segs):
  """[x for b in D] with one plain item -> (uid, dom, leaf)"""
  if len(segs) == 1 and segs[0].op == 'for':
    body = segs[0].args[2:]
    if len(body) == 1 and body[0].op == 'it':
      return segs[0].args[0][0], segs[0].args[1], body[0].args[0]
  return None


def count_segs(segs):
  n = ZERO
  for s in segs:
    if s.op == 'it':
      n = add(n, ONE)
    elif s.op == 'if':
      n = add(n, ite(s.args[0], count_segs(s.args[1:]), ZERO))
    elif s.op == 'for':
      inner = count_segs(s.args[2:])
      u, dom = s.args[0], s.args[1]
      if is_c(inner):
        n = add(n, arith('mul', inner, card(dom)))
      else:
        n = add(n, mk('sum', u, dom, inner, ty=INT))
    else:
      raise Unsupported(f'len of {s.op}')
  return n


def card(dom):
  if dom.op == 'd.range' and is_c(dom.args[2]) and cv(dom.args[2]) == 1:
    a, b, _ = dom.args
    if is_c(a) and is_c(b):
      return C(max(0, cv(b) - cv(a)))
  if dom.op == 'd.rev':
    return card(dom.args[0])
  if dom.op == 'd.sorted':
    return card(dom.args[1])
  return mk('card', dom, ty=INT)


def cv_one(x):
  return is_c(x) and cv(x) == 1


POSITIONAL = ('d.base', 'd.faces', 'd.seq', 'd.group', 'd.last')   # binders count 0, 1, 2, ...


def range_dom(a, b, s):
  """range(0, card(dom)) is the domain itself"""
  if is_c(a) and cv(a) == 0 and is_c(s) and cv(s) == 1 and b.op == 'card' and b.args[0].op in POSITIONAL:
    return b.args[0]
  return mk('d.range', a, b, s)


def merge_tup(c, a, b):
  sa, sb = list(a.args), list(b.args)
  i = 0
  while i < len(sa) and i < len(sb) and sa[i] is sb[i]:
    i += 1
  ra, rb = sa[i:], sb[i:]
  if len(ra) == len(rb) and segs_exact(ra) and segs_exact(rb):
    return mk('tup', *sa[:i], *[it(phi(c, x.args[0], y.args[0])) for x, y in zip(ra, rb)], ty=a.ty)
  out = list(sa[:i])
  if ra:
    out.append(if_(c, *ra))
  if rb:
    out.append(if_(not_(c), *rb))
  return mk('tup', *out, ty=a.ty)


def phi(c, a, b):
  if a is b:
    return a
  if is_c(c):
    return a if cv(c) else b
  if a.op == 'tup' and b.op == 'tup':
    return merge_tup(c, a, b)
  if a.op == 'map' and b.op == 'map':
    return merge_map(c, a, b)
  return ite(c, a, b)


def merge_map(c, a, b):
  if a.args[0] is b.args[0] and len(a.args) == len(b.args) and all(x.args[0] is y.args[0] for x, y in zip(a.args[1:], b.args[1:])):
    if a.args[0].op == 'mbag' and len(a.args) == 2:
      r = acc_more(a, b) or acc_more(b, a)
      if r is not None:
        return r
    return mk('map', a.args[0], *[mk('e', x.args[0], phi(c, x.args[1], y.args[1])) for x, y in zip(a.args[1:], b.args[1:])])
  r = acc_join(c, a, b) or acc_join(not_(c), b, a)
  if r is not None:
    return r
  return mk('ite', c, a, b)


def acc_join(c, a, b):
  """if k in d: d[k] += w else: d[k] = w, where k may equal stored keys: the bag of all stored pairs"""
  from .nf import equal, TooBig
  if a.args[0] is not b.args[0]:
    return None
  ea, eb = a.args[1:], b.args[1:]
  empty = a.args[0] is C('empty')
  if not empty or len(eb) != len(ea) + 1 or not ea or any(x.args[0] is not y.args[0] for x, y in zip(ea, eb)):
    return None
  k, w = eb[-1].args
  if not isnum(k) or not isnum(w) or any(not isnum(y.args[0]) or not isnum(y.args[1]) for y in eb):
    return None
  atoms = set(c.args) if c.op == 'or' else {c}
  conds = [cmp('eq', y.args[0], k) for y in eb[:-1]]
  conds = [x if x in atoms else FALSE for x in conds]   # keys known to differ never match
  live = [x for x in conds if x is not FALSE]
  if set(live) != atoms:
    return None
  for i, (x, y) in enumerate(zip(ea, eb)):
    for j in range(len(conds)):
      if conds[j] is FALSE:
        continue
      m = {q: C(False) for q in live}
      m[conds[j]] = C(True)
      got = tm_replace(x.args[1], m)
      want = add(y.args[1], w) if j == i else y.args[1]
      try:
        if not equal(got, want):
          return None
      except TooBig:
        return None
  return mk('map', mk('mbag', tup(*[it(tuple_of(*e.args)) for e in eb])))


def num_bag_total(segs, k):
  t = ZERO
  for s in segs:
    if s.op == 'it':
      kk, w = (x.args[0] for x in s.args[0].args)
      t = add(t, ite(cmp('eq', kk, k), w, ZERO))
    elif s.op == 'for':
      inner = num_bag_total(s.args[2:], k)
      t = add(t, mk('sum', s.args[0], s.args[1], inner, ty=inner.ty))
    else:
      t = add(t, ite(s.args[0], num_bag_total(s.args[1:], k), ZERO))
  return t


def acc_more(a, b):
  """a: total + w stored when the key is there, b: w stored when it is not"""
  from .nf import equal, TooBig
  k, v = a.args[1].args
  w = b.args[1].args[1]
  if not isnum(k) or not isnum(v) or not isnum(w):
    return None
  segs = a.args[0].args[0].args
  try:
    if not equal(v, add(num_bag_total(segs, k), w)):
      return None
  except TooBig:
    return None
  return mk('map', mk('mbag', tup(*segs, it(tuple_of(k, w)))))


def tm_replace(t, m):
  from . import terms as _tm
  return _tm.replace(t, lambda x: m.get(x))


def same_cond(a, b):
  if a is b:
    return True
  sa = set(a.args) if a.op == 'or' else {a}
  sb = set(b.args) if b.op == 'or' else {b}
  return sa == sb


def strip_not(l):
  return l.args[0] if l.op == 'not' else l


def same_atom(l1, l2):
  return l1 is l2 or not_(l1) is l2


def join_states(c, s1, s2):
  """merge two live states (c true in s1)"""
  r = s1.fork()
  for oid, o2 in s2.heap.items():
    o1 = s1.heap.get(oid)
    if o1 is None:
      r.heap[oid] = o2
      continue
    if o1 is o2:
      continue
    f = {}
    diff = False
    for k in list(o1.f) + [k for k in o2.f if k not in o1.f]:
      a, b = o1.f.get(k, UNDEF), o2.f.get(k, UNDEF)
      if a is b:
        f[k] = a
      else:
        f[k] = phi(c, a, b)
        diff = True
    if o1.cls is not o2.cls:
      raise Unsupported('class change')
    if diff:
      r.heap[oid] = Obj(o1.kind, o1.cls, f, r.tok)
  fs = set(s2.facts)
  nf = [f for f in s1.facts if f in fs]
  # facts implied on both sides under the gate
  for f in s1.facts:
    if f not in fs and not same_atom(f, c):
      nf.append(or_(not_(c), f))
  for f in s2.facts:
    if f not in s1.facts and not same_atom(f, c):
      nf.append(or_(c, f))
  r.facts = nf[-60:]
  r.open = {k: v for k, v in s1.open.items()}
  n = 0
  while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
    n += 1
  r.pc = s1.pc[:n]
  r.dead = False
  return r


def join_many(entries, k):
  """entries: list of (pc, [values], state); returns ([values], state).  pcs agree up to index k"""
  if len(entries) == 1:
    return entries[0][1], entries[0][2]
  pcs = [e[0] for e in entries]
  if all(len(p) > k for p in pcs) and all(same_atom(p[k], pcs[0][k]) for p in pcs):
    lit = pcs[0][k]
    A = [e for e in entries if e[0][k] is lit]
    Bn = [e for e in entries if e[0][k] is not lit]
    if not Bn:
      return join_many(entries, k + 1)
    va, sa = join_many(A, k + 1)
    vb, sb = join_many(Bn, k + 1)
    st = join_states(lit, sa, sb)
    return [phi(lit, x, y) for x, y in zip(va, vb)], st
  e = entries[0]
  cond = and_(*e[0][k:])
  vb, sb = join_many(entries[1:], k)
  if cond is TRUE:
    return e[1], e[2]
  st = join_states(cond, e[2], sb)
  return [phi(cond, x, y) for x, y in zip(e[1], vb)], st


class Frame:
  def __init__(self, func, env):
    self.func, self.env = func, env
    self.rets = []
    self.loops = []
    self.yields = None
    self.yield_hook = None


class LoopCtx:
  def __init__(self):
    self.brk, self.cont = [], []


class RaiseRec:
  def __init__(self, pc, e, st):
    self.pc, self.e, self.st = pc, e, st


def exc_matches(name, handler_name):
  a, b = getattr(pybuiltins, name, None), getattr(pybuiltins, handler_name, None)
  if isinstance(a, type) and isinstance(b, type):
    return issubclass(a, b)
  return name == handler_name
