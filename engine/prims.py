"""Abstract transfer functions of the Python built-ins and standard-library functions the repository uses."""
import builtins as pybuiltins
import itertools
import math
import operator as pyop
from .interp import *
from . import terms as tm

BUILTINS = {}
STR_EXCLUDES = {}   # symbolic string name -> characters it cannot contain (callable or str)
STR_FACTS = {}      # symbolic string name -> dict of facts ('nonempty': True)


def bi(name, segs=False):
  def deco(f):
    f.takes_segs = segs
    BUILTINS[name] = f
    return f
  return deco


TYPES = ('int', 'float', 'bool', 'str', 'tuple', 'list', 'dict', 'set', 'frozenset', 'type', 'object', 'range', 'bytes', 'complex')


def builtin_env(I):
  env = {}
  for t in TYPES:
    env[t] = O(BuiltinType(t))
  for n, v in vars(pybuiltins).items():
    if isinstance(v, type) and issubclass(v, BaseException):
      env[n] = O(BuiltinType(n))
  for n, f in BUILTINS.items():
    env[n] = O(Builtin(n, f))
  env['NotImplemented'] = NOTIMPL
  env['__debug__'] = TRUE
  for n in ('exec', 'eval', 'open', 'input', '__import__', 'compile', 'globals', 'locals', 'breakpoint', 'dir', 'memoryview', 'bytearray', 'exit', 'quit'):
    env[n] = O(Opaque(n))
  return env


def event(I, st, kind, *vals):
  o = st.w(EVENTS)
  o.f['segs'] = tup(*o.f['segs'].args, it(tuple_of(C(kind), *vals)))


# ---------------------------------------------------------------- strings
def concat(*parts):
  out = []
  for p in parts:
    ps = p.args if p.op == 'concat' else (p,)
    for x in ps:
      if is_c(x) and isinstance(cv(x), str):
        if cv(x) == '':
          continue
        if out and is_c(out[-1]):
          out[-1] = C(cv(out[-1]) + cv(x))
          continue
      out.append(x)
  if not out:
    return C('')
  if len(out) == 1:
    return out[0]
  return mk('concat', *out, ty=STR)


def to_str(I, x, st, fr):
  if x.op == 'ite':
    return I.cases(x, st, lambda a, s: to_str(I, a, s, fr))
  if x.ty == STR:
    return x
  if is_c(x):
    return C(str(cv(x)))
  if isnum(x):
    if x.ty == BOOL:
      return mk('str', x, ty=STR)
    return mk('str', x, ty=STR)
  if x.op == 'ref':
    o = st.obj(x)
    if o.kind == 'inst':
      for nm in ('__str__', '__repr__'):
        f, _ = o.cls.lookup(nm)
        if f is not None:
          return I.call(I.bind(f, x, o.cls, st), [], {}, st, fr)
      return mk('strobj', C(o.cls.name), ty=STR)
    return mk('strobj', C(o.kind), ty=STR)
  if is_o(x):
    return C(f'<{getattr(ov(x), "name", "?")}>')
  return mk('strobj', x, ty=STR)


def to_repr(I, x, st, fr):
  if x.op == 'ite':
    return I.cases(x, st, lambda a, s: to_repr(I, a, s, fr))
  if is_c(x):
    return C(repr(cv(x)))
  if x.op == 'ref' and st.obj(x).kind == 'inst':
    o = st.obj(x)
    f, _ = o.cls.lookup('__repr__')
    if f is not None:
      return I.call(I.bind(f, x, o.cls, st), [], {}, st, fr)
  if isnum(x):
    return mk('str', x, ty=STR)
  if x.ty == STR:
    return mk('repr', x, ty=STR)
  return mk('strobj', x, ty=STR)


def to_format(I, x, spec, st, fr):
  if x.op == 'ite':
    return I.cases(x, st, lambda a, s: to_format(I, a, spec, s, fr))
  if x.op == 'ref' and st.obj(x).kind == 'inst':
    o = st.obj(x)
    f, _ = o.cls.lookup('__format__')
    if f is not None:
      return I.call(I.bind(f, x, o.cls, st), [spec], {}, st, fr)
    if is_c(spec) and cv(spec) == '':
      return to_str(I, x, st, fr)
    raise PyRaise('TypeError', I.site(fr, None), 'unsupported format string')
  if is_c(spec) and cv(spec) == '':
    return to_str(I, x, st, fr)
  if is_c(x) and is_c(spec):
    try:
      return C(format(cv(x), cv(spec)))
    except (TypeError, ValueError) as e:
      raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
  if x is NONE_T or x.op == 'tup':
    raise PyRaise('TypeError', I.site(fr, None), 'unsupported format string')
  return mk('fmt', x, spec, ty=STR)


def lacks(t, ch):
  """symbolic string t provably does not contain the substring ch"""
  if is_c(t):
    return ch not in cv(t)
  if t.op == 'concat':
    if len(ch) == 1:
      return all(lacks(x, ch) for x in t.args)
    return False
  if t.op == 'sym' or t.op == 'fn':
    ex = STR_EXCLUDES.get(t.args[0])
    if ex is None:
      return False
    return ex(ch) if callable(ex) else any(c in ex for c in ch)
  if t.op in ('repl',):
    inner, old, new = t.args
    if is_c(new) and is_c(old) and ch not in cv(new):
      if ch == cv(old):
        return True
      return len(ch) == 1 and lacks(inner, ch)
    return False
  if t.op in ('str', 'fmt') and isnum(t.args[0]):
    return all(not (c.isdigit() or c in '+-.einfaEx %,█') for c in ch) if t.op == 'str' else ch in '\n{}"'
  if t.op in ('lower', 'strip', 'strslice'):
    return lacks(t.args[0], ch)
  if t.op == 'joinfor':
    return len(ch) == 1 and lacks(t.args[2], ch) and lacks(t.args[3], ch)
  return False


def parts_of(t):
  return t.args if t.op == 'concat' else (t,)


def _cstr(t):
  return is_c(t) and isinstance(cv(t), str)


def str_replace(I, s, self, a, k, fr):
  old, new = a[0], a[1]
  if all(_cstr(x) for x in (self, old, new)):
    return C(cv(self).replace(cv(old), cv(new)))
  if not _cstr(old):
    raise Unsupported('replace with symbolic pattern')
  if lacks(self, cv(old)):
    return self
  if self.op == 'concat' and len(cv(old)) == 1:
    return concat(*[str_replace(I, s, x, a, k, fr) for x in self.args])
  return mk('repl', self, old, new, ty=STR)


def str_split(I, s, self, a, k, fr):
  sep = a[0] if a else k.get('sep', NONE_T)
  mx = a[1] if len(a) > 1 else k.get('maxsplit', C(-1))
  if _cstr(self):
    return s.new('list', segs=tup(*[it(C(x)) for x in cv(self).split(cv(sep), cv(mx))]))
  if not _cstr(sep) or cv(mx) != -1 or (len(cv(sep)) != 1 and not all(lacks(p, cv(sep)[0]) or _cstr(p) for p in parts_of(self))):
    raise Unsupported('split of a symbolic string')
  sp = cv(sep)
  out = [[]]
  for p in parts_of(self):
    if _cstr(p):
      xs = cv(p).split(sp)
      out[-1].append(C(xs[0]))
      for x in xs[1:]:
        out.append([C(x)])
    elif lacks(p, sp):
      out[-1].append(p)
    else:
      raise Unsupported(f'split of {show(p)[:50]} at {sp!r}')
  return s.new('list', segs=tup(*[it(concat(*x)) for x in out]))


def str_strip(I, s, self, a, k, fr, which='strip'):
  if _cstr(self):
    return C(getattr(cv(self), which)(*[cv(x) for x in a if x is not NONE_T]))
  chars = cv(a[0]) if a and a[0] is not NONE_T else ' \t\n\r\x0b\x0c'
  ps = list(parts_of(self))
  if which in ('strip', 'lstrip'):
    while ps:
      if _cstr(ps[0]):
        x = cv(ps[0]).lstrip(chars)
        if x == '':
          ps.pop(0)
          continue
        ps[0] = C(x)
        break
      if STR_FACTS.get(ps[0].args[0] if ps[0].op == 'sym' else None, {}).get('token'):
        break
      return mk('strip', self, C(which), C(chars), ty=STR)
  if which in ('strip', 'rstrip'):
    while ps:
      if _cstr(ps[-1]):
        x = cv(ps[-1]).rstrip(chars)
        if x == '':
          ps.pop()
          continue
        ps[-1] = C(x)
        break
      if STR_FACTS.get(ps[-1].args[0] if ps[-1].op == 'sym' else None, {}).get('token'):
        break
      return mk('strip', self, C(which), C(chars), ty=STR)
  return concat(*ps)


def str_join(I, s, self, a, k, fr):
  segs = I.norm_segs(I.iter_segs(a[0], s, fr), s)

  def conv(x):
    if x.op == 'ite' and x.ty != STR:
      raise Unsupported('join of gated value')
    if x.ty != STR:
      if isnum(x) or x is NONE_T or x.op in ('ref', 'tup', 'o'):
        raise PyRaise('TypeError', I.site(fr, None), 'sequence item: expected str instance')
      raise Unsupported(f'join of {show(x)[:40]}')
    return x
  if segs_exact(segs):
    parts = []
    for i, x in enumerate(items_of(segs)):
      if i:
        parts.append(self)
      parts.append(conv(x))
    return concat(*parts)
  anchor = next((i for i, x in enumerate(segs) if x.op == 'it'), None)
  if anchor is not None and all(x.op == 'it' or single_for((x,)) or (x.op == 'if' and segs_exact(x.args[1:])) for x in segs):
    # some element is always there: every other one brings its separator along
    out = []
    for i, x in enumerate(segs):
      pre, post = ((), (self,)) if i < anchor else ((self,), ()) if i > anchor else ((), ())
      if x.op == 'it':
        out.append(concat(*pre, conv(x.args[0]), *post))
      elif x.op == 'if':
        out.append(ite(x.args[0], concat(*[z for y in items_of(x.args[1:]) for z in (*pre, conv(y), *post)]), C('')))
      else:
        sf = single_for((x,))
        out.append(mk('joinfor', (sf[0],), sf[1], C(''), concat(*pre, conv(sf[2]), *post), ty=STR))
    return concat(*out)
  out = []
  for i, x in enumerate(segs):
    sf = single_for((x,))
    if x.op == 'it':
      if i:
        out.append(self)
      out.append(conv(x.args[0]))
    elif sf and (len(segs) == 1 or (_cstr(self) and cv(self) == '')):
      if i:
        out.append(self)
      out.append(mk('joinfor', (sf[0],), sf[1], self, conv(sf[2]), ty=STR))
    elif x.op == 'if' and _cstr(self) and cv(self) == '' and segs_exact(x.args[1:]):
      out.append(ite(x.args[0], concat(*[conv(y) for y in items_of(x.args[1:])]), C('')))
    else:
      raise Unsupported('join of a collection of unknown shape')
  return concat(*out)


def _const_method(name, tyname='bool'):
  def f(I, s, self, a, k, fr):
    if _cstr(self) and all(is_c(x) for x in a):
      try:
        r = getattr(cv(self), name)(*[cv(x) for x in a])
      except (TypeError, ValueError) as e:
        raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
      if isinstance(r, (tuple, list)):
        segs = tup(*[it(C(x)) for x in r])
        return segs if isinstance(r, tuple) else s.new('list', segs=segs)
      return C(r)
    if all(isinstance(x, T) and (x.ty is not None) for x in [self, *a]):
      return mk('strop', name, self, *a, ty=frozenset({tyname}))
    raise Unsupported(f'str.{name}')
  return f


def str_case(name):
  def f(I, s, self, a, k, fr):
    if _cstr(self):
      return C(getattr(cv(self), name)())
    return mk('lower' if name == 'lower' else 'strop', *((self,) if name == 'lower' else (name, self)), ty=STR)
  return f


def str_starts(name):
  def f(I, s, self, a, k, fr):
    if a[0].op == 'tup' and segs_exact(a[0].args) and len(a) == 1:
      return or_(*[f(I, s, self, [x], k, fr) for x in items_of(a[0].args)])
    if _cstr(self) and all(map(is_c, a)):
      return C(getattr(cv(self), name)(*map(cv, a)))
    if not _cstr(a[0]) and a[0].ty != STR:
      raise PyRaise('TypeError', I.site(fr, None), f'{name} argument')
    p = parts_of(self)
    if _cstr(a[0]) and len(a) == 1:
      x = p[0] if name == 'startswith' else p[-1]
      if _cstr(x) and len(cv(x)) >= len(cv(a[0])):
        return C(getattr(cv(x), name)(cv(a[0])))
      if cv(a[0]) and not _cstr(x) and lacks(x, cv(a[0])[0 if name == 'startswith' else -1]) and STR_FACTS.get(x.args[0] if x.op == 'sym' else None, {}).get('nonempty'):
        return FALSE
    return mk('strop', name, self, *a, ty=BOOL)
  return f


def str_format(I, s, self, a, k, fr):
  if not _cstr(self):
    raise Unsupported('format of symbolic string')
  import string
  out = []
  auto = 0
  for lit, field, spec, conv in string.Formatter().parse(cv(self)):
    out.append(C(lit))
    if field is None:
      continue
    if field == '':
      v = a[auto]
      auto += 1
    elif field.isdigit():
      v = a[int(field)]
    elif field in k:
      v = k[field]
    else:
      raise Unsupported('format field')
    if conv == 'r':
      v = to_repr(I, v, s, fr)
    elif conv == 's':
      v = to_str(I, v, s, fr)
    out.append(to_format(I, v, C(spec or ''), s, fr))
  return concat(*out)


def str_translate(I, s, self, a, k, fr):
  if not _cstr(self):
    raise Unsupported('translate of symbolic string')
  out = []
  for ch in cv(self):
    v = dict_get0(I, s, a[0], C(ord(ch)))
    if v is None:
      out.append(C(ch))
    elif v is NONE_T:
      continue
    elif is_c(v) and isinstance(cv(v), int):
      out.append(C(chr(cv(v))))
    elif v.ty == STR:
      out.append(v)
    else:
      raise Unsupported('translate')
  return concat(*out)


def dict_get0(I, s, d, key):
  """value of a key of a dictionary with constant keys, None if it is not there"""
  if d.op != 'ref' or s.obj(d).kind != 'dict':
    raise Unsupported('translate table')
  for x in map_items(I, s, s.obj(d).f['map']):
    if x.op != 'it' or not is_c(x.args[0].args[0].args[0]):
      raise Unsupported('translate table')
    if cv(x.args[0].args[0].args[0]) == cv(key):
      return x.args[0].args[1].args[0]
  return None


def str_maketrans(I, st, a, k, fr):
  r = st.new('dict', map=mk('map', C('empty')), default=NONE_T)
  if len(a) == 1:
    for x in map_items(I, st, st.obj(a[0]).f['map']):
      if x.op != 'it' or not is_c(x.args[0].args[0].args[0]):
        raise Unsupported('maketrans')
      key = cv(x.args[0].args[0].args[0])
      dict_put(I, st, r, C(ord(key) if isinstance(key, str) else key), x.args[0].args[1].args[0])
    return r
  if not all(_cstr(x) for x in a):
    raise Unsupported('maketrans')
  for key, v in str.maketrans(*[cv(x) for x in a]).items():
    dict_put(I, st, r, C(key), NONE_T if v is None else C(v))
  return r



STR_METHODS = {
  'translate': str_translate,
  'replace': str_replace, 'split': str_split, 'join': str_join, 'format': str_format,
  'strip': lambda I, s, o, a, k, fr: str_strip(I, s, o, a, k, fr, 'strip'),
  'lstrip': lambda I, s, o, a, k, fr: str_strip(I, s, o, a, k, fr, 'lstrip'),
  'rstrip': lambda I, s, o, a, k, fr: str_strip(I, s, o, a, k, fr, 'rstrip'),
  'lower': str_case('lower'), 'upper': str_case('upper'), 'title': str_case('title'), 'capitalize': str_case('capitalize'), 'casefold': str_case('casefold'),
  'startswith': str_starts('startswith'), 'endswith': str_starts('endswith'),
  'splitlines': lambda I, s, o, a, k, fr: str_split(I, s, o, [C('\n')], {}, fr) if not _cstr(o) else s.new('list', segs=tup(*[it(C(x)) for x in cv(o).splitlines()])),
}
for _n in ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isidentifier', 'isascii'):
  STR_METHODS[_n] = _const_method(_n)
for _n in ('count', 'find', 'rfind', 'index'):
  STR_METHODS[_n] = _const_method(_n, 'int')
for _n in ('rjust', 'ljust', 'center', 'zfill', 'removeprefix', 'removesuffix', 'expandtabs'):
  STR_METHODS[_n] = _const_method(_n, 'str')
for _n in ('partition', 'rpartition', 'rsplit'):
  STR_METHODS[_n] = _const_method(_n, 'tuple')


# ---------------------------------------------------------------- collections
def new_list(st, segs):
  return st.new('list', segs=tup(*segs))


def alpha(I, segs, st):
  """rename the binders of a segment list"""
  out = []
  for s in segs:
    if s.op == 'for':
      n = fresh()
      u = s.args[0][0]
      body = tuple(I.subst_val(x, {u: B(n)}, st) for x in s.args[2:])
      out.append(mk('for', (n,), s.args[1], *alpha(I, body, st)))
    elif s.op == 'if':
      out.append(mk('if', s.args[0], *alpha(I, s.args[1:], st)))
    else:
      out.append(s)
  return tuple(out)


def mapsegs(I, st, fr, segs, f):
  """new list of f(elem, state) for every element, through the loop machinery"""
  lst = new_list(st, ())

  def body(x, s):
    v = f(x, s)
    s.set(lst, 'segs', tup(*s.obj(lst).f['segs'].args, it(v)))
  I.loop(tup(*segs), st, fr, body)
  return st.obj(lst).f['segs'].args


def reduce_(I, st, fr, segs, f, init):
  env = st.new('env')
  st.set(env, 'acc', init)

  def body(x, s):
    s.set(env, 'acc', f(s.obj(env).f['acc'], x, s))
  I.loop(tup(*segs), st, fr, body)
  v = st.obj(env).f['acc']
  if v is POISON:
    raise Unsupported('accumulation over a collection of unknown size')
  return v


@bi('len')
def b_len(I, st, a, k, fr):
  x = a[0]
  if x.op == 'ite':
    return I.cases(x, st, lambda y, s: b_len(I, s, [y], k, fr))
  if is_o(x) and isinstance(ov(x), InstDict):
    x = instdict_snapshot(I, st, ov(x))
  if _cstr(x):
    return C(len(cv(x)))
  if x.op == 'tup':
    return count_segs(I.norm_segs(x.args, st))
  if x.op == 'ref':
    o = st.obj(x)
    if o.kind == 'list':
      return count_segs(I.norm_segs(o.f['segs'].args, st))
    if o.kind == 'set':
      return set_len(I, st, x, fr)
    if o.kind == 'dict':
      m = o.f['map']
      if m.op == 'map' and m.args[0] is C('empty'):
        return C(len(m.args) - 1)
      ks = dict_keys(I, st, x)
      return count_segs(ks)
    if o.kind == 'inst':
      f, _ = o.cls.lookup('__len__')
      if f is not None:
        return I.call(I.bind(f, x, o.cls, st), [], {}, st, fr)
    raise PyRaise('TypeError', I.site(fr, None), f'object of type {I.tyname(x, st)} has no len()')
  if x.op == 'range':
    p, q, s_ = x.args
    if s_ is ONE:
      if all(map(is_c, x.args)):
        return C(len(range(cv(p), cv(q), cv(s_))))
      return ite(cmp('lt', p, q), sub(q, p), ZERO)
    return count_segs(I.iter_segs(x, st, fr))
  if x.ty == STR:
    return mk('len', x, ty=INT)
  if isnum(x) or x is NONE_T or is_o(x):
    raise PyRaise('TypeError', I.site(fr, None), 'object has no len()')
  return mk('len', x, ty=INT)


def set_len(I, st, x, fr):
  segs = st.obj(x).f['segs'].args
  d = dedupe(I, st, segs, fr)
  if d is None:
    return count_segs(distinct_segs(I, st, segs, fr))
  return C(len(d))


def dedupe(I, st, segs, fr):
  segs = I.norm_segs(segs, st)
  if not segs_exact(segs):
    return None
  out = []
  for x in items_of(segs):
    for y in out:
      d = decide(eq_t(I, x, y, st, fr), st)
      if d is None:
        return None
      if d:
        break
    else:
      out.append(x)
  return out


def distinct_segs(I, st, segs, fr):
  """the elements of a set: every value once"""
  segs = I.norm_segs(segs, st)
  if distinct(segs):
    return segs
  if segs_exact(segs):
    out = []
    for x in items_of(segs):
      c = FALSE
      for y in out:
        c = or_(c, and_(y[0], eq_t(I, x, y[1], st, fr)))
      c = decided(not_(c), st)
      if c is not FALSE:
        out.append((c, x))
    return tuple(it(x) if c is TRUE else if_(c, it(x)) for c, x in out)
  ty = leaf_types(segs)
  if ty is None:
    raise Unsupported('elements of a set of unknown values')

  def pair(xs):
    return tuple(it(tuple_of(x.args[0], ONE)) if x.op == 'it' else mk(x.op, *x.args[:2 if x.op == 'for' else 1], *pair(x.args[2 if x.op == 'for' else 1:])) for x in xs)
  d = mk('d.group', tup(*pair(segs)))
  u = fresh()
  return (mk('for', (u,), d, it(mk('gkey', d, B(u), ty=ty))),)


def distinct(segs):
  """no two elements can be equal"""
  if not segs:
    return True
  if len(segs) > 1:
    return False
  s = segs[0]
  if s.op == 'it':
    return True
  if s.op == 'if':
    return distinct(s.args[1:])
  if s.op != 'for' or len(s.args) != 3:
    return False
  (u,), x = s.args[0], s.args[2]
  while x.op == 'if' and len(x.args) == 2:
    x = x.args[1]
  if x.op != 'it':
    return False
  x = x.args[0]
  if s.args[1].op == 'd.range' and x is B(u):
    return True
  return (x.op == 'fn' and x.args[0] in INJECTIVE or x.op in ('face', 'gkey') and x.args[0] is s.args[1]) and x.args[-1] is B(u)


def decided(c, st):
  d = decide(c, st)
  return c if d is None else C(d)


def eq_t(I, a, b, st, fr):
  if a is b and not (a.ty is not None and 'float' in a.ty and a.op == 'c'):
    return TRUE
  return I.truth(I.cmpop('eq', a, b, st, fr), st, fr)


def sum_segs(I, segs, st, fr, acc):
  for s in segs:
    if s.op == 'it':
      acc = I.binop('add', acc, s.args[0], st, fr)
    elif s.op == 'for':
      ty = leaf_types(s.args[2:])
      if ty is None or not ty <= {'int', 'float', 'bool'}:
        # non-numeric elements: generic reduction
        acc = reduce_(I, st, fr, (s,), lambda p, x, q: I.binop('add', p, x, q, fr), acc)
        continue
      inner = sum_segs(I, s.args[2:], st, fr, ZERO)
      acc = I.binop('add', acc, mk('sum', s.args[0], s.args[1], inner, ty=inner.ty), st, fr)
    elif s.op == 'if':
      ty = leaf_types(s.args[1:])
      if ty is None or not ty <= {'int', 'float', 'bool'} or not isnum(acc):
        cur = acc
        acc = I.split(s.args[0], st, lambda q: sum_segs(I, s.args[1:], q, fr, cur), lambda q: cur)
        continue
      inner = sum_segs(I, s.args[1:], st, fr, ZERO)
      acc = I.binop('add', acc, ite(s.args[0], inner, ZERO), st, fr)
    else:
      raise Unsupported(f'sum of {s.op}')
  return acc


@bi('sum')
def b_sum(I, st, a, k, fr):
  start = a[1] if len(a) > 1 else k.get('start', ZERO)
  return sum_segs(I, I.norm_segs(I.iter_segs(a[0], st, fr), st), st, fr, start)


def key_term(I, st, fr, x, key):
  return x if key is NONE_T else I.call(key, [x], {}, st, fr)


def order_known(I, st, fr, keys):
  """permutation sorting keys ascending (stable), or None"""
  idx = []
  for i, x in enumerate(keys):
    pos = len(idx)
    for j in range(len(idx)):
      c = I.truth(I.cmpop('lt', x, keys[idx[j]], st, fr), st, fr)
      d = decide(c, st)
      if d is None:
        return None
      if d:
        pos = j
        break
    idx.insert(pos, i)
  return idx


@bi('sorted')
def b_sorted(I, st, a, k, fr):
  segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
  key = k.get('key', NONE_T)
  rev = I.truth(k.get('reverse', FALSE), st, fr)
  return new_list(st, sort_segs(I, st, fr, segs, key, rev))


def sort_segs(I, st, fr, segs, key, rev):
  if segs_exact(segs):
    xs = items_of(segs)
    ks = [key_term(I, st, fr, x, key) for x in xs]
    p = order_known(I, st, fr, ks) if is_c(rev) else None
    if p is not None:
      if cv(rev):
        # stable descending
        p2 = order_known(I, st, fr, ks[::-1])
        p = [len(ks) - 1 - i for i in p2][::-1]
      return tuple(it(xs[i]) for i in p)
    if key is NONE_T and all(isnum(x) for x in xs):
      t = mk('sorted', tup(*segs), rev)
      ty = frozenset().union(*[x.ty for x in xs])
      return tuple(it(mk('sel', t, C(i), ty=ty)) for i in range(len(xs)))
    raise Unsupported('sorting elements of unknown order')
  sf = single_for(segs)
  if sf:
    u, dom, leaf = sf
    kt = key_term(I, st, fr, leaf, key)
    return (mk('for', (u,), mk('d.sorted', (u,), dom, kt, rev), it(leaf)),)
  if key is NONE_T:
    ty = leaf_types(segs)
    t = mk('sorted', tup(*segs), rev)
    u = fresh()
    return (mk('for', (u,), mk('d.seq', t), it(mk('sel', t, B(u), ty=ty))),)
  raise Unsupported('sorting a collection of unknown shape')


def zip_segs(I, st, fr, lists, strict=False):
  lists = [I.norm_segs(x, st) for x in lists]
  if all(segs_exact(x) for x in lists):
    if strict and len(set(len(x) for x in lists)) > 1:
      raise PyRaise('AssertionError', I.site(fr, None), 'collections of different length')
    n = min((len(x) for x in lists), default=0)
    return tuple(it(tup(*[x[i] for x in lists])) for i in range(n))
  sfs = [single_for(x) for x in lists]
  if all(sfs):
    d0 = sfs[0][1]
    if all(x[1] is d0 for x in sfs):
      u = fresh()
      return (mk('for', (u,), d0, it(tuple_of(*[I.subst_val(x[2], {x[0]: B(u)}, st) for x in sfs]))),)
    tys = [leaf_types(x) for x in lists]
    ns = [count_segs(x) for x in lists]
    if None in tys or strict and not all(decide(cmp('eq', ns[0], n), st) is True for n in ns[1:]):
      raise Unsupported('zip of collections over different domains')
    u, ts = fresh(), [tup(*x) for x in lists]
    return (mk('for', (u,), mk('d.zip', *ts), it(tuple_of(*[mk('sel', t, B(u), ty=ty) for t, ty in zip(ts, tys)]))),)
  # identical shapes, segment by segment
  n = len(lists[0])
  if all(len(x) == n for x in lists):
    out = []
    for i in range(n):
      row = [x[i] for x in lists]
      if all(r.op == 'it' for r in row):
        out.append(it(tup(*row)))
        continue
      if all(r.op == 'for' for r in row) and all(r.args[1] is row[0].args[1] for r in row):
        u = fresh()
        inner = zip_segs(I, st, fr, [tuple(I.subst_val(y, {r.args[0][0]: B(u)}, st) for y in r.args[2:]) for r in row])
        out.append(mk('for', (u,), row[0].args[1], *inner))
        continue
      if all(r.op == 'if' for r in row) and all(r.args[0] is row[0].args[0] for r in row):
        out.append(mk('if', row[0].args[0], *zip_segs(I, st, fr, [r.args[1:] for r in row])))
        continue
      raise Unsupported('zip of differently shaped collections')
    return tuple(out)
  raise Unsupported('zip of differently shaped collections')


@bi('zip', segs=True)
def b_zip(I, st, a, k, fr):
  if isinstance(a, T):   # zip(*collection)
    segs = I.norm_segs(a.args, st)
    sf = single_for(segs)
    if sf:
      u, dom, leaf = sf
      if leaf.op == 'tup' and segs_exact(leaf.args):
        return I.split(TRUE if nonempty(dom) else I.nonempty_segs(segs), st,
                       lambda s: s.new('iter', segs=tup(*[it(tup(mk('for', (u,), dom, it(x)))) for x in items_of(leaf.args)])),
                       lambda s: s.new('iter', segs=tup()))
    w = pair_width(segs)
    if w:
      if not segs_nonempty(segs):
        return I.split(I.nonempty_segs(segs), st,
                       lambda s: s.new('iter', segs=tup(*[it(tup(*map_segs(segs, lambda v, i=i: v.args[i].args[0]))) for i in range(w)])),
                       lambda s: s.new('iter', segs=tup()))
      return st.new('iter', segs=tup(*[it(tup(*map_segs(segs, lambda v, i=i: v.args[i].args[0]))) for i in range(w)]))
    raise Unsupported('zip(*collection of unknown size)')
  lists = [I.iter_segs(x, st, fr) for x in a]
  return st.new('iter', segs=tup(*zip_segs(I, st, fr, lists)))


def pair_width(segs):
  w = None
  for s in segs:
    if s.op == 'it':
      v = s.args[0]
      if v.op != 'tup' or not segs_exact(v.args):
        return None
      x = len(v.args)
    else:
      x = pair_width(s.args[2:] if s.op == 'for' else s.args[1:])
    if x is None or (w is not None and w != x):
      return None
    w = x
  return w


@bi('enumerate')
def b_enumerate(I, st, a, k, fr):
  start = a[1] if len(a) > 1 else k.get('start', ZERO)
  segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
  if segs_exact(segs):
    return st.new('iter', segs=tup(*[it(tuple_of(arith('add', C(i), start), x)) for i, x in enumerate(items_of(segs))]))
  sf = single_for(segs)
  if sf:
    u, dom, leaf = sf
    pos = B(u) if dom.op in POSITIONAL else mk('posof', dom, B(u), ty=INT)
    return st.new('iter', segs=tup(mk('for', (u,), dom, it(tuple_of(add(pos, start), leaf)))))
  # running counter
  cnt = st.new('env')
  st.set(cnt, 'n', start)
  lst = new_list(st, ())

  def body(x, s):
    n = s.obj(cnt).f['n']
    s.set(lst, 'segs', tup(*s.obj(lst).f['segs'].args, it(tuple_of(n, x))))
    s.set(cnt, 'n', add(n, ONE))
  I.loop(tup(*segs), st, fr, body)
  return st.new('iter', segs=st.obj(lst).f['segs'])


def minmax(name):
  def f(I, st, a, k, fr):
    key = k.get('key', NONE_T)
    if len(a) > 1:
      segs = tuple(it(x) for x in a)
    else:
      segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
    if not segs:
      if 'default' in k:
        return k['default']
      raise PyRaise('ValueError', I.site(fr, None), f'{name}() arg is an empty sequence')
    if segs_exact(segs):
      xs = items_of(segs)
      best = xs[0]
      for x in xs[1:]:
        kb, kx = key_term(I, st, fr, best, key), key_term(I, st, fr, x, key)
        c = I.truth(I.cmpop('gt' if name == 'max' else 'lt', kx, kb, st, fr), st, fr)
        d = decide(c, st)
        if d is None:
          if key is NONE_T and isnum(best) and isnum(x):
            best = mk(name + '2', best, x, ty=tyjoin(best.ty, x.ty))
          else:
            best = phi(c, x, best)
        elif d:
          best = x
      return best
    sf = single_for(segs)
    if sf and key is NONE_T and 'default' not in k and isnum(sf[2]):
      return mk(name, (sf[0],), sf[1], sf[2], ty=sf[2].ty)
    raise Unsupported(f'{name} over a collection of unknown size')
  return f


bi('max')(minmax('max'))
bi('min')(minmax('min'))


def anyall(name):
  def cond(I, st, fr, segs):
    c = FALSE if name == 'any' else TRUE
    comb = or_ if name == 'any' else and_
    for s in segs:
      if s.op == 'it':
        c = comb(c, I.truth(s.args[0], st, fr))
      elif s.op == 'for':
        inner = cond(I, st, fr, s.args[2:])
        if is_c(inner):
          if name == 'any' and inner is FALSE or name == 'all' and inner is TRUE:
            continue
        c = comb(c, mk(name, s.args[0], s.args[1], inner, ty=BOOL))
      elif s.op == 'if':
        inner = cond(I, st, fr, s.args[1:])
        c = comb(c, and_(s.args[0], inner) if name == 'any' else or_(not_(s.args[0]), inner))
      else:
        raise Unsupported(f'{name} over {s.op}')
    return c

  def f(I, st, a, k, fr):
    return cond(I, st, fr, I.norm_segs(I.iter_segs(a[0], st, fr), st))
  return f


bi('any')(anyall('any'))
bi('all')(anyall('all'))


def num_unary(name, opname, dunder=None, cf=None, rty=None):
  def f(I, st, a, k, fr):
    x = a[0]
    if x.op == 'ite' and not isnum(x):
      return I.cases(x, st, lambda y, s: f(I, s, [y] + list(a[1:]), k, fr))
    if x.op == 'ref' and st.obj(x).kind == 'inst' and dunder:
      c = st.obj(x).cls
      g, _ = c.lookup(dunder)
      if g is not None:
        return I.call(I.bind(g, x, c, st), list(a[1:]), k, st, fr)
    if is_c(x) and isinstance(cv(x), (int, float)) and len(a) == 1:
      try:
        return C(cf(cv(x)))
      except Exception as e:
        raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
    if not isnum(x):
      if x.op in ('ref', 'tup', 'o') or x is NONE_T or x.ty == STR:
        raise PyRaise('TypeError', I.site(fr, None), f'bad operand type for {name}')
      raise Unsupported(f'{name} of {show(x)[:40]}')
    if rty == INT and x.ty <= {'int'}:
      return x
    if opname == 'abs':
      return mk('abs', x, ty=INT if x.ty <= {'int', 'bool'} else x.ty)
    return mk(opname, x, ty=rty)
  return f


bi('abs')(num_unary('abs', 'abs', '__abs__', abs))
_floor = num_unary('floor', 'floor', '__floor__', math.floor, INT)
_ceil = num_unary('ceil', 'ceil', '__ceil__', math.ceil, INT)
_trunc = num_unary('trunc', 'trunc', '__trunc__', math.trunc, INT)


@bi('round')
def b_round(I, st, a, k, fr):
  x = a[0]
  nd = a[1] if len(a) > 1 else k.get('ndigits', NONE_T)
  if x.op == 'ite' and not isnum(x):
    return I.cases(x, st, lambda y, s: b_round(I, s, [y] + list(a[1:]), k, fr))
  if x.op == 'ref' and st.obj(x).kind == 'inst':
    c = st.obj(x).cls
    g, _ = c.lookup('__round__')
    if g is not None:
      return I.call(I.bind(g, x, c, st), list(a[1:]), k, st, fr)
  if is_c(x) and is_c(nd) and isinstance(cv(x), (int, float)):
    return C(round(cv(x), cv(nd)) if nd is not NONE_T else round(cv(x)))
  if not isnum(x):
    raise PyRaise('TypeError', I.site(fr, None), 'round')
  if nd is NONE_T:
    if x.ty <= {'int'}:
      return x
    return mk('round', x, ty=INT)
  return mk('round2', x, nd, ty=x.ty)


@bi('pow')
def b_pow(I, st, a, k, fr):
  return I.binop('pow', a[0], a[1], st, fr)


@bi('divmod')
def b_divmod(I, st, a, k, fr):
  return tuple_of(I.binop('floordiv', a[0], a[1], st, fr), I.binop('mod', a[0], a[1], st, fr))


@bi('print')
def b_print(I, st, a, k, fr):
  event(I, st, 'print', *a)
  return NONE_T


@bi('callable')
def b_callable(I, st, a, k, fr):
  x = a[0]
  if is_o(x):
    return C(not isinstance(ov(x), (EnumMember, ModuleObj, ExtModule)))
  if x.op == 'ref' and st.obj(x).kind == 'inst':
    return C(st.obj(x).cls.lookup('__call__')[0] is not None)
  if x.op in ('ref', 'tup', 'c') or isnum(x) or x.ty == STR:
    return FALSE
  if x.op == 'anyval':
    return mk('callable', x, ty=BOOL)
  raise Unsupported('callable')


@bi('hash')
def b_hash(I, st, a, k, fr):
  x = a[0]
  if x.op == 'ref' and st.obj(x).kind == 'inst':
    c = st.obj(x).cls
    g, _ = c.lookup('__hash__')
    if g is not None:
      return I.call(I.bind(g, x, c, st), [], {}, st, fr)
  if x.op == 'ref' and st.obj(x).kind in ('list', 'dict', 'set'):
    raise PyRaise('TypeError', I.site(fr, None), 'unhashable type')
  return mk('hash', freeze(x, st), ty=INT)


def freeze(x, st):
  return x


@bi('id')
def b_id(I, st, a, k, fr):
  return mk('id', a[0], ty=INT)


@bi('repr')
def b_repr(I, st, a, k, fr):
  return to_repr(I, a[0], st, fr)


@bi('ord')
def b_ord(I, st, a, k, fr):
  if _cstr(a[0]):
    return C(ord(cv(a[0])))
  return mk('ord', a[0], ty=INT)


@bi('chr')
def b_chr(I, st, a, k, fr):
  if is_c(a[0]):
    return C(chr(cv(a[0])))
  return mk('chr', a[0], ty=STR)


@bi('format')
def b_format(I, st, a, k, fr):
  return to_format(I, a[0], a[1] if len(a) > 1 else C(''), st, fr)


@bi('iter')
def b_iter(I, st, a, k, fr):
  x = a[0]
  if len(a) > 1:   # iter(callable, sentinel)
    def step():
      v = I.call(x, [], {}, st, fr)
      c = I.truth(I.cmpop('eq', v, a[1], st, fr), st, fr)
      same = decide(c, st)
      if same is None:
        raise Unsupported('iter() with a sentinel that may or may not be reached')
      if same:
        raise PyRaise('StopIteration', I.site(fr, None))
      return v
    return st.new('iter', segs=tup(*I.drain(step, 'StopIteration')))
  if x.op == 'ref' and st.obj(x).kind == 'iter':
    return x
  return st.new('iter', segs=tup(*I.iter_segs(x, st, fr)))


@bi('next')
def b_next(I, st, a, k, fr):
  x = a[0]
  if x.op == 'ref' and st.obj(x).kind == 'iter':
    segs = I.norm_segs(st.obj(x).f['segs'].args, st)
    if not segs:
      if len(a) > 1:
        return a[1]
      raise PyRaise('StopIteration', I.site(fr, None))
    if segs[0].op == 'it':
      st.set(x, 'segs', tup(*segs[1:]))
      return segs[0].args[0]
    if len(segs) == 1 and segs[0].op == 'for':
      body = segs[0].args[2:]
      u, dom = segs[0].args[0], segs[0].args[1]
      if len(body) == 1 and body[0].op == 'if' and segs_exact(body[0].args[1:]) and len(body[0].args) == 2 and len(a) > 1:
        v = body[0].args[1].args[0]
        if v.ty is not None and a[1].ty is not None:
          c = body[0].args[0]
          return ite(mk('any', u, dom, c, ty=BOOL), mk('first', u, dom, c, v, ty=v.ty), a[1])
    if len(segs) == 1 and segs[0].op == 'if' and len(a) > 1 and segs_exact(segs[0].args[1:]):
      return phi(segs[0].args[0], segs[0].args[1].args[0], a[1])
    if len(a) > 1 and all(s.op in ('it', 'if') and (s.op == 'it' or (len(s.args) == 2 and s.args[1].op == 'it')) for s in segs):
      v = a[1]
      for s in reversed(segs):
        v = s.args[0] if s.op == 'it' else phi(s.args[0], s.args[1].args[0], v)
      return v
  raise Unsupported('next')


@bi('reversed')
def b_reversed(I, st, a, k, fr):
  segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
  return st.new('iter', segs=tup(*rev_segs(segs)))


def rev_segs(segs):
  out = []
  for s in reversed(segs):
    if s.op == 'for':
      d = s.args[1]
      d = d.args[0] if d.op == 'd.rev' else mk('d.rev', d)
      out.append(mk('for', s.args[0], d, *rev_segs(s.args[2:])))
    elif s.op == 'if':
      out.append(mk('if', s.args[0], *rev_segs(s.args[1:])))
    elif s.op == 'it':
      out.append(s)
    else:
      raise Unsupported('reversing')
  return tuple(out)


@bi('map')
def b_map(I, st, a, k, fr):
  if len(a) == 2:
    segs = I.iter_segs(a[1], st, fr)
    return st.new('iter', segs=tup(*mapsegs(I, st, fr, segs, lambda x, s: I.call(a[0], [x], {}, s, fr))))
  segs = zip_segs(I, st, fr, [I.iter_segs(x, st, fr) for x in a[1:]])
  return st.new('iter', segs=tup(*mapsegs(I, st, fr, segs, lambda x, s: I.call(a[0], items_of(x.args), {}, s, fr))))


@bi('filter')
def b_filter(I, st, a, k, fr):
  pred, segs = a[0], I.iter_segs(a[1], st, fr)
  lst = new_list(st, ())

  def body(x, s):
    c = I.truth(x if pred is NONE_T else I.call(pred, [x], {}, s, fr), s, fr)
    I.branch(c, s, lambda q: q.set(lst, 'segs', tup(*q.obj(lst).f['segs'].args, it(x))), lambda q: None)
  I.loop(tup(*segs), st, fr, body)
  return st.new('iter', segs=st.obj(lst).f['segs'])


@bi('getattr')
def b_getattr(I, st, a, k, fr):
  if not _cstr(a[1]):
    raise Unsupported('getattr with computed name')
  return I.getattr(a[0], cv(a[1]), st, fr, a[2] if len(a) > 2 else None)


@bi('setattr')
def b_setattr(I, st, a, k, fr):
  if not _cstr(a[1]):
    raise Unsupported('setattr with computed name')
  I.setattr(a[0], cv(a[1]), a[2], st, fr)
  return NONE_T


@bi('hasattr')
def b_hasattr(I, st, a, k, fr):
  miss = mk('missing')
  if a[0].op == 'ite':
    return I.cases(a[0], st, lambda y, s: b_hasattr(I, s, [y, a[1]], k, fr))
  r = I.getattr(a[0], cv(a[1]), st, fr, miss)
  return FALSE if r is miss else TRUE


@bi('vars')
def b_vars(I, st, a, k, fr):
  if len(a) == 1 and a[0].op == 'ref' and st.obj(a[0]).kind == 'inst':
    return O(InstDict(a[0]))
  raise Unsupported('vars()')


@bi('delattr')
def b_delattr(I, st, a, k, fr):
  if not _cstr(a[1]):
    raise Unsupported('delattr with computed name')
  delattr_(I, st, a[0], cv(a[1]), fr)
  return NONE_T


# ---------------------------------------------------------------- __dict__ of instances
def inst_field(st, ref, name):
  """own attribute or None"""
  v = st.obj(ref).f.get(name)
  if v is None or v is UNDEF:
    return None
  if v is POISON:
    raise Unsupported(f'attribute {name} after a loop')
  if v.op == 'ite' and tm.mentions(v, lambda x: x is UNDEF):
    raise Unsupported(f'attribute {name} possibly undefined')
  return v


def _attr_name(k):
  if not _cstr(k):
    raise Unsupported('__dict__ with a computed name')
  return cv(k)


def delattr_(I, st, o, name, fr):
  if o.op == 'ref' and st.obj(o).kind == 'inst':
    if inst_field(st, o, name) is None:
      raise PyRaise('AttributeError', I.site(fr, None), name)
    st.set(o, name, UNDEF)
    return
  raise Unsupported('del attribute')


def instdict_snapshot(I, st, x):
  r = st.new('dict', map=mk('map', C('empty')), default=NONE_T)
  for n in list(st.obj(x.ref).f):
    v = inst_field(st, x.ref, n)
    if v is not None:
      dict_put(I, st, r, C(n), v)
  return r


def instdict_method(I, x, name):
  if name == 'get':
    def m(I, st, a, k, fr):
      v = inst_field(st, x.ref, _attr_name(a[0]))
      return v if v is not None else a[1] if len(a) > 1 else NONE_T
  elif name == 'setdefault':
    def m(I, st, a, k, fr):
      n = _attr_name(a[0])
      v = inst_field(st, x.ref, n)
      if v is None:
        v = a[1] if len(a) > 1 else NONE_T
        st.set(x.ref, n, v)
      return v
  elif name == 'pop':
    def m(I, st, a, k, fr):
      n = _attr_name(a[0])
      v = inst_field(st, x.ref, n)
      if v is not None:
        st.set(x.ref, n, UNDEF)
        return v
      if len(a) > 1:
        return a[1]
      raise PyRaise('KeyError', I.site(fr, None), n)
  elif name == 'update':
    def m(I, st, a, k, fr):
      if a:
        y = a[0]
        if is_o(y) and isinstance(ov(y), InstDict):
          y = instdict_snapshot(I, st, ov(y))
        if not (y.op == 'ref' and st.obj(y).kind == 'dict'):
          raise Unsupported('__dict__.update')
        for n, v in dict_to_kwargs(I, st, y, fr).items():
          st.set(x.ref, n, v)
      for n, v in k.items():
        st.set(x.ref, n, v)
      return NONE_T
  elif name in ('keys', 'items', 'values', 'copy', '__iter__', '__len__', '__contains__'):
    def m(I, st, a, k, fr):
      d = instdict_snapshot(I, st, x)
      if name == 'copy':
        return d
      return I.call(I.getattr(d, name, st, fr), a, k, st, fr)
  else:
    return None
  return m


@bi('staticmethod')
def b_static(I, st, a, k, fr):
  return O(StaticM(a[0]))


@bi('classmethod')
def b_class(I, st, a, k, fr):
  return O(ClassM(a[0]))


@bi('property')
def b_prop(I, st, a, k, fr):
  return O(Prop(a[0]))


@bi('super')
def b_super(I, st, a, k, fr):
  raise Unsupported('super with arguments')


@bi('issubclass')
def b_issub(I, st, a, k, fr):
  if is_o(a[0]) and is_o(a[1]) and isinstance(ov(a[0]), ClassObj) and isinstance(ov(a[1]), ClassObj):
    return C(ov(a[0]).is_sub(ov(a[1])))
  raise Unsupported('issubclass')


ITER_KINDS = ('Iterable', 'Collection', 'Container', 'Sequence', 'Iterator', 'Mapping', 'Sized', 'Hashable', 'Generator', 'Callable')


@bi('isinstance')
def b_isinstance(I, st, a, k, fr):
  return isinst(I, st, a[0], a[1], fr)


def isinst(I, st, x, t, fr):
  if x.op == 'ite' and not (x.ty is not None):
    c, p, q = x.args
    return ite(c, isinst(I, st, p, t, fr), isinst(I, st, q, t, fr))
  if t.op in ('tup', 'union'):
    ts = items_of(t.args) if t.op == 'tup' else t.args
    if x.ty is not None and isnum(x):   # the listed types cover everything the number can be
      names = {ov(y).name for y in ts if is_o(y) and isinstance(ov(y), BuiltinType)}
      if 'int' in names:
        names.add('bool')
      if x.ty <= names:
        return TRUE
    return or_(*[isinst(I, st, x, y, fr) for y in ts])
  if not is_o(t):
    raise Unsupported('isinstance with unknown type')
  t = ov(t)
  if isinstance(t, BuiltinType):
    return isinst_builtin(I, st, x, t.name)
  if isinstance(t, ClassObj):
    if x.op == 'ref':
      o = st.obj(x)
      return C(o.kind == 'inst' and o.cls.is_sub(t))
    if is_o(x) and isinstance(ov(x), EnumMember):
      return C(ov(x).cls.is_sub(t))
    if x.op in ('app', 'anyval'):
      return mk('isinst', x, (t.name,), ty=BOOL)
    return FALSE
  if isinstance(t, Opaque):
    n = t.name.split('.')[-1]
    if n in ITER_KINDS:
      return iterable_kind(I, st, x, n)
    if n in ('Number', 'Real', 'Rational', 'Integral', 'Complex'):
      if x.op in ('ref', 'tup', 'o') or x is NONE_T or x.ty == STR:
        return FALSE
      if isnum(x):
        if n in ('Number', 'Real', 'Complex'):
          return TRUE
        return isinst_builtin(I, st, x, 'int')
  if isinstance(t, ExtModule):
    raise PyRaise('TypeError', I.site(fr, None), 'isinstance arg 2')
  raise Unsupported(f'isinstance with {getattr(t, "name", t)}')


def iterable_kind(I, st, x, n):
  need = {'Iterable': ('__iter__',), 'Collection': ('__iter__', '__len__', '__contains__'), 'Container': ('__contains__',), 'Sequence': ('#no',), 'Iterator': ('__next__',),
          'Mapping': ('#no',), 'Sized': ('__len__',), 'Hashable': ('__hash__',), 'Generator': ('#no',), 'Callable': ('__call__',)}[n]
  if x.op == 'ref':
    o = st.obj(x)
    if o.kind == 'inst':
      return C(all(o.cls.lookup(m)[0] is not None for m in need))
    if n in ('Iterable',):
      return TRUE
    if n in ('Collection', 'Container', 'Sized'):
      return C(o.kind in ('list', 'set', 'dict'))
    if n == 'Sequence':
      return C(o.kind == 'list')
    if n == 'Mapping':
      return C(o.kind == 'dict')
    if n in ('Iterator', 'Generator'):
      return C(o.kind == 'iter')
    return FALSE
  if x.op in ('tup', 'range') or x.ty == STR:
    return C(n in ('Iterable', 'Collection', 'Container', 'Sequence', 'Sized', 'Hashable'))
  if isnum(x) or x is NONE_T:
    return C(n == 'Hashable')
  if is_o(x):
    if isinstance(ov(x), ClassObj) and getattr(ov(x), 'isenum', False):
      return C(n in ('Iterable', 'Callable', 'Hashable'))
    return C(n in ('Callable', 'Hashable'))
  if x.op in ('app', 'anyval'):
    return mk('isinst', x, (n,), ty=BOOL)
  raise Unsupported(f'isinstance {n}')


def isinst_builtin(I, st, x, n):
  if n == 'object':
    return TRUE
  if x.op == 'ref':
    o = st.obj(x)
    if o.kind == 'inst':
      return C(any(isinstance(b, BuiltinType) and b.name == n for c in o.cls.mro() for b in c.bases))
    return C(o.kind == n)
  if x.op == 'tup':
    return C(n == 'tuple')
  if x.op == 'range':
    return C(n == 'range')
  if x.op == 'exc':
    return C(exc_matches(x.args[0], n))
  if x.op == 'o':
    return C(n == 'type' and isinstance(ov(x), (ClassObj, BuiltinType)))
  if x.ty is not None:
    m = {'int': {'int', 'bool'}, 'float': {'float'}, 'bool': {'bool'}, 'str': {'str'}}.get(n, {n})
    if x.ty <= m:
      return TRUE
    if not (x.ty & m):
      return FALSE
    if x.op == 'ite':
      return ite(x.args[0], isinst_builtin(I, st, x.args[1], n), isinst_builtin(I, st, x.args[2], n))
    return mk('isinst', x, (n,), ty=BOOL)
  if x.op in ('app', 'anyval'):
    return mk('isinst', x, (n,), ty=BOOL)
  raise Unsupported(f'isinstance({show(x)[:40]}, {n})')


# ---------------------------------------------------------------- constructors of built-in types
def call_type(I, name, st, a, k, fr):
  x = a[0] if a else None
  if x is not None and x.op == 'ite' and not isnum(x) and name in ('int', 'float', 'bool', 'str', 'tuple', 'list', 'set', 'type', 'frozenset'):
    return I.cases(x, st, lambda y, s: call_type(I, name, s, [y] + list(a[1:]), k, fr))
  if name == 'int':
    if x is None:
      return ZERO
    if is_c(x):
      try:
        return C(int(cv(x)))
      except (TypeError, ValueError, OverflowError) as e:
        raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
    if isnum(x):
      if x.ty == BOOL:
        return mk('b2i', x, ty=INT)
      if x.ty <= {'int'}:
        return x
      return mk('int', x, ty=INT)
    if x.ty == STR:
      if x.op == 'str' and x.args[0].ty == INT:
        return x.args[0]
      return mk('int', x, ty=INT)
    if x.op == 'ref' and st.obj(x).kind == 'inst':
      for d in ('__int__', '__index__', '__trunc__'):
        f, _ = st.obj(x).cls.lookup(d)
        if f is not None:
          return I.call(I.bind(f, x, st.obj(x).cls, st), [], {}, st, fr)
    raise PyRaise('TypeError', I.site(fr, None), 'int() argument')
  if name == 'float':
    if x is None:
      return C(0.0)
    if is_c(x):
      try:
        return C(float(cv(x)))
      except (TypeError, ValueError, OverflowError) as e:
        raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
    if isnum(x) or x.ty == STR:
      return mk('float', x, ty=FLOAT)
    raise PyRaise('TypeError', I.site(fr, None), 'float() argument')
  if name == 'bool':
    return FALSE if x is None else I.truth(x, st, fr)
  if name == 'str':
    return C('') if x is None else to_str(I, x, st, fr)
  if name == 'tuple':
    if x is None:
      return tup()
    if x.op == 'tup':
      return x
    return tup(*I.norm_segs(I.iter_segs(x, st, fr), st))
  if name == 'list':
    return new_list(st, () if x is None else I.norm_segs(I.iter_segs(x, st, fr), st))
  if name in ('set', 'frozenset'):
    segs = () if x is None else I.norm_segs(I.iter_segs(x, st, fr), st)
    d = dedupe(I, st, segs, fr)
    return st.new('set', segs=tup(*[it(y) for y in d]) if d is not None else tup(*segs))
  if name == 'dict':
    r = st.new('dict', map=mk('map', C('empty')), default=NONE_T)
    if x is not None:
      dict_update(I, st, r, x, fr)
    for kk, v in k.items():
      dict_put(I, st, r, C(kk), v)
    return r
  if name == 'range':
    xs = [ints(I, y, st, fr) for y in a]
    if len(xs) == 1:
      return mk('range', ZERO, xs[0], ONE)
    if len(xs) == 2:
      return mk('range', xs[0], xs[1], ONE)
    return mk('range', *xs)
  if name == 'type':
    if x.op == 'ref':
      o = st.obj(x)
      return O(o.cls) if o.kind == 'inst' else I.builtin_env.get(o.kind, O(Opaque('type')))
    if x.op == 'tup':
      return I.builtin_env['tuple']
    if x.ty is not None and len(x.ty) == 1:
      n = list(x.ty)[0]
      if n in I.builtin_env:
        return I.builtin_env[n]
    if is_o(x) and isinstance(ov(x), EnumMember):
      return O(ov(x).cls)
    return mk('typeof', x)
  if name == 'object':
    return st.new('inst', ClassObj('object', [], None))
  if name.endswith(('Error', 'Exception', 'Warning')) or name in ('StopIteration', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit'):
    return mk('exc', name)
  raise Unsupported(f'call of {name}')


def ints(I, x, st, fr):
  if isnum(x):
    if x.ty <= {'int', 'bool'}:
      return x
    if not (x.ty & {'int', 'bool'}):
      raise PyRaise('TypeError', I.site(fr, None), 'float cannot be interpreted as an integer')
    return x
  if x.op == 'ite':
    return x
  if x.op in ('ref', 'tup', 'o') or x is NONE_T or x.ty == STR:
    raise PyRaise('TypeError', I.site(fr, None), 'cannot be interpreted as an integer')
  raise Unsupported('range bound')


def type_attr(I, x, name):
  if name == '__name__':
    return C(x.name)
  if x.name == 'dict' and name == 'fromkeys':
    def fk(I, st, a, k, fr):
      r = st.new('dict', map=mk('map', C('empty')), default=NONE_T)
      for s in I.iter_segs(a[0], st, fr):
        if s.op != 'it':
          raise Unsupported('fromkeys')
        dict_put(I, st, r, s.args[0], a[1] if len(a) > 1 else NONE_T)
      return r
    return O(Builtin('dict.fromkeys', fk))
  kind = {'str': 'str', 'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'set': 'set', 'int': 'num', 'float': 'num'}.get(x.name)
  if kind:
    m = method(I, kind, name)
    if m is not None:
      return O(Builtin(f'{kind}.{name}', lambda I2, s, a, k, fr, m=m: m(I2, s, a[0], a[1:], k, fr)))
  if x.name == 'str' and name == 'maketrans':
    return O(Builtin('str.maketrans', str_maketrans))
  if x.name == 'object' and name in ('__setattr__',):
    return O(Builtin('object.__setattr__', lambda I2, s, a, k, fr: (I2.setattr(a[0], cv(a[1]), a[2], s, fr), NONE_T)[1]))
  if x.name == 'object' and name == '__new__':
    return O(Builtin('object.__new__', lambda I2, s, a, k, fr: s.new('inst', ov(a[0]))))
  return None


# ---------------------------------------------------------------- dicts
EMPTY = C('empty')


def _ents(m):
  return m.args[1:]


def keq(I, st, a, b):
  """TRUE/FALSE/None"""
  if a is b:
    return True
  if is_o(a) or is_o(b):
    return False
  if is_c(a) and is_c(b):
    try:
      return bool(cv(a) == cv(b))
    except Exception:
      return None
  if a.op == 'tup' and b.op == 'tup':
    return tup_eq(I, st, a, b)
  if a.op == 'ref' or b.op == 'ref':
    if a.op == 'ref' and b.op == 'ref':
      ca, cb = I.inst_cls(a, st), I.inst_cls(b, st)
      if ca is not None and cb is not None:
        return decide(I.truth(I.cmpop('eq', a, b, st, I.frame), st, I.frame), st)
      return False
    return False
  if a is NONE_T or b is NONE_T:
    x = b if a is NONE_T else a
    if x.ty is not None and 'none' not in x.ty:
      return False
  if a.ty is not None and b.ty is not None:
    na, nb = bool(a.ty & NUMTY), bool(b.ty & NUMTY)
    if na != nb and (a.ty <= NUMTY or not na) and (b.ty <= NUMTY or not nb):
      return False
    return decide(cmp('eq', a, b) if isnum(a) and isnum(b) else value_cmp(I, 'eq', a, b, st, I.frame), st)
  return None


NUMTY = {'int', 'float', 'bool'}


def tup_eq(I, st, a, b):
  if segs_exact(a.args) and segs_exact(b.args):
    if len(a.args) != len(b.args):
      return False
    rs = [keq(I, st, x, y) for x, y in zip(items_of(a.args), items_of(b.args))]
    if False in rs:
      return False
    return True if all(r is True for r in rs) else None
  return None


class UnknownRelation(Unsupported):
  pass


def map_put(I, st, m, k, v):
  if m.op == 'ite':
    return phi(m.args[0], map_put(I, st, m.args[1], k, v), map_put(I, st, m.args[2], k, v))
  ents = list(_ents(m))
  out = []
  done = False
  rel = [keq(I, st, e.args[0], k) for e in ents]
  if None in rel and True not in rel and m.args[0] is EMPTY:
    conds = [value_eq(I, st, e.args[0], k) if r is None else FALSE for e, r in zip(ents, rel)]
    if decide(or_(*conds), st) is True:   # the key is one of the stored ones
      return mk('map', EMPTY, *[e if c is FALSE else mk('e', e.args[0], phi(c, v, e.args[1])) for e, c in zip(ents, conds)])
  if None in rel and True not in rel and m.args[0] is EMPTY:
    r = acc_store(m, rel, k, v)
    if r is not None:
      return r
  if None in rel and True not in rel and can_flush(m) and isnum(k) and isnum(v):
    m = flush_bag(m)
    ents = []
  for e in ents:
    d = keq(I, st, e.args[0], k)
    if d is True:
      out.append(mk('e', e.args[0], v))
      done = True
    elif d is False:
      out.append(e)
    else:
      # unknown relation between the keys: keep both, later wins only if equal
      raise UnknownRelation('dict store with keys of unknown relation')
  if not done:
    out.append(mk('e', k, v))
  return mk('map', m.args[0], *out)


def acc_store(m, rel, k, v):
  """d[k] = (d[k] + w if k is there else w), where k may equal stored keys: the bag of all stored pairs"""
  from .nf import equal, TooBig
  ents = m.args[1:]
  if not isnum(k) or not isnum(v) or any(not isnum(x) for e in ents for x in e.args):
    return None
  conds = [FALSE if r is False else cmp('eq', e.args[0], k) for e, r in zip(ents, rel)]
  live = [c for c in conds if c is not FALSE]
  off = {c: FALSE for c in live}
  w = tm_replace(v, off)
  if tm.mentions(w, lambda x: x in off):
    return None
  try:
    for e, c in zip(ents, conds):
      if c is FALSE:
        continue
      if not equal(tm_replace(v, {**off, c: TRUE}), add(e.args[1], w)):
        return None
  except TooBig:
    return None
  return mk('map', mk('mbag', tup(*[it(tuple_of(*e.args)) for e in ents], it(tuple_of(k, w)))))


def can_flush(m):
  return m.args[0].op == 'mbag' and bool(_ents(m)) and all(isnum(x) for e in _ents(m) for x in e.args)


def flush_bag(m):
  """an accumulating map with overwritten keys (pairwise distinct), as accumulation"""
  segs = m.args[0].args[0].args
  new = [it(tuple_of(e.args[0], sub(e.args[1], num_bag_total(segs, e.args[0])))) for e in _ents(m)]
  return mk('map', mk('mbag', tup(*segs, *new)))


def dict_put(I, st, d, k, v):
  m = st.obj(d).f['map']
  try:
    st.set(d, 'map', map_put(I, st, m, k, v))
  except UnknownRelation:
    if not small_map(m):
      raise
    _put_split(I, st, d, m, k, v)


def small_map(m):
  if m.op == 'ite':
    return small_map(m.args[1]) and small_map(m.args[2])
  return m.op == 'map' and m.args[0] is EMPTY and len(m.args) <= 6


def _put_split(I, st, d, m, k, v):
  """store under a key that may or may not be one of a few known ones: one path per case"""
  if m.op == 'ite':
    I.branch(m.args[0], st, lambda s: _put_split(I, s, d, m.args[1], k, v), lambda s: _put_split(I, s, d, m.args[2], k, v))
    return
  ents = _ents(m)

  def go(i, s):
    if i == len(ents):
      s.set(d, 'map', mk('map', EMPTY, *ents, mk('e', k, v)))
      return
    e = ents[i]
    r = keq(I, s, e.args[0], k)
    c = C(r) if r is not None else value_eq(I, s, e.args[0], k)
    I.branch(c, s, lambda q: q.set(d, 'map', mk('map', EMPTY, *ents[:i], mk('e', e.args[0], v), *ents[i + 1:])), lambda q: go(i + 1, q))
  go(0, st)


def map_has(I, st, m, k):
  if m.op == 'ite':
    return ite(m.args[0], map_has(I, st, m.args[1], k), map_has(I, st, m.args[2], k))
  c = FALSE
  for e in _ents(m):
    d = keq(I, st, e.args[0], k)
    if d is True:
      return TRUE
    if d is None:
      c = or_(c, value_eq(I, st, e.args[0], k))
  base = m.args[0]
  if base is EMPTY:
    return c
  if base.op == 'b':
    return or_(c, mk('mhas', mk('map', base), k, ty=BOOL))
  if base.op in ('mbag', 'mstore'):
    h = bag_has(I, st, base, k)
    return or_(c, h)
  raise Unsupported('membership in unknown map')


def value_eq(I, st, a, b):
  r = value_cmp(I, 'eq', a, b, st, I.frame) if not (isnum(a) and isnum(b)) else cmp('eq', a, b)
  return r


def bag_has(I, st, base, k):
  def go(segs):
    c = FALSE
    for s in segs:
      if s.op == 'it':
        c = or_(c, value_eq(I, st, s.args[0].args[0].args[0], k))
      elif s.op == 'for':
        inner = go(s.args[2:])
        c = or_(c, mk('any', s.args[0], s.args[1], inner, ty=BOOL))
      elif s.op == 'if':
        c = or_(c, and_(s.args[0], go(s.args[1:])))
    return c
  # key known to be one of the stored ones
  if stored_value(I, st, base, k) is not None:
    return TRUE
  return go(base.args[0].args)


def stored_value(I, st, base, k):
  """value stored for key k when k is syntactically the key of a stored entry and keys are injective"""
  if base.op != 'mstore':
    return None
  sf = single_for(base.args[0].args)
  if sf is None:
    return None
  u, dom, leaf = sf
  key, val = items_of(leaf.args)
  if key.op == 'fn' and key.args[0] in INJECTIVE and key.args[-1] is B(u) and k.op == 'fn' and k.args[0] == key.args[0] and k.args[1:-1] == key.args[1:-1]:
    idx = k.args[-1]
    if idx.op == 'b' and st.open.get(idx.args[0]) is dom or idx.op != 'b':
      return tm.subst(val, {u: idx})
  if key is B(u) and k.op == 'b' and st.open.get(k.args[0]) is dom:
    return tm.subst(val, {u: k})
  return None


def map_get(I, st, m, k, fr, default=None, missing=None):
  """value at k; default T when absent, else KeyError"""
  if m.op == 'ite':
    c, a, b = m.args
    return I.split(c, st, lambda s: map_get(I, s, a, k, fr, default, missing), lambda s: map_get(I, s, b, k, fr, default, missing))
  ents = list(_ents(m))
  for e in reversed(ents):
    d = keq(I, st, e.args[0], k)
    if d is True:
      return e.args[1]
  for i, e in enumerate(ents):
    d = keq(I, st, e.args[0], k)
    if d is None:
      rest = mk('map', m.args[0], *(ents[:i] + ents[i + 1:]))
      c = value_eq(I, st, e.args[0], k)
      return I.split(c, st, lambda s: e.args[1], lambda s: map_get(I, s, rest, k, fr, default, missing))
  base = m.args[0]
  if base is EMPTY:
    if default is not None:
      return default
    if missing is not None:
      return missing(st)
    raise PyRaise('KeyError', I.site(fr, None), show(k)[:80])
  if base.op == 'b':
    bm = mk('map', base)
    if default is ZERO:
      return mk('mget0', bm, k, ty=None if base.ty is None else None) if False else mk('mget0', bm, k, ty=INT)
    if default is not None and (default is NONE_T or is_c(default)):
      return I.split(mk('mhas', bm, k, ty=BOOL), st, lambda s: mk('msel', bm, k, ty=INT), lambda s: default)
    if default is not None or missing is not None:
      raise Unsupported('lookup in loop-carried map')
    return mk('msel', bm, k, ty=INT)
  if base.op == 'mstore':
    v = stored_value(I, st, base, k)
    if v is not None:
      return v
  if base.op == 'mbag' and default is ZERO:
    return bag_total(I, st, base, k)
  if base.op == 'mbag' and default is None and missing is None:
    return bag_total(I, st, base, k)
  if base.op == 'mbag' and (default is NONE_T or default is not None and is_c(default)):
    return I.split(bag_has(I, st, base, k), st, lambda s: bag_total(I, s, base, k), lambda s: default)
  raise Unsupported('lookup in a map of unknown contents')


def bag_total(I, st, base, k):
  def go(segs):
    t = ZERO
    for s in segs:
      if s.op == 'it':
        kk, w = items_of(s.args[0].args)
        t = add(t, ite(value_eq(I, st, kk, k), w, ZERO))
      elif s.op == 'for':
        inner = go(s.args[2:])
        t = add(t, mk('sum', s.args[0], s.args[1], inner, ty=inner.ty))
      elif s.op == 'if':
        t = add(t, ite(s.args[0], go(s.args[1:]), ZERO))
    return t
  return go(base.args[0].args)


def map_items(I, st, m):
  """segments of (key, value) pairs in insertion order"""
  if m.op == 'ite':
    c, a, b = m.args
    return (if_(c, *map_items(I, st, a)), if_(not_(c), *map_items(I, st, b)))
  base = m.args[0]
  ents = tuple(it(tuple_of(*e.args)) for e in _ents(m))
  if base is EMPTY:
    return ents
  if base.op == 'mbag':
    if can_flush(m):
      base, ents = flush_bag(m).args[0], ()
    if ents:
      raise Unsupported('items of a mixed map')
    d = mk('d.group', base.args[0])
    u = fresh()
    kty, wty = pair_types(base.args[0].args)
    return (mk('for', (u,), d, it(tuple_of(mk('gkey', d, B(u), ty=kty), mk('gval', d, B(u), ty=wty)))),)
  if base.op == 'mstore':
    sf = single_for(base.args[0].args)
    if sf and not ents:
      u, dom, leaf = sf
      key = leaf.args[0].args[0]
      if key is B(u) or key.op == 'fn' and key.args[0] in INJECTIVE and key.args[-1] is B(u):
        return base.args[0].args
    if not ents:
      d = mk('d.last', base.args[0])
      u = fresh()
      kty, wty = pair_types(base.args[0].args)
      return (mk('for', (u,), d, it(tuple_of(mk('gkey', d, B(u), ty=kty), mk('gval', d, B(u), ty=wty)))),)
    raise Unsupported('items of an overwritten map')
  if base.op == 'mterm' and not ents:
    t = mk('mitems', base.args[0])
    u = fresh()
    el = mk('sel', t, B(u))
    return (mk('for', (u,), mk('d.seq', t), it(tuple_of(mk('sel', el, ZERO, ty=base.args[1]), mk('sel', el, ONE, ty=base.args[2])))),)
  raise Unsupported('items of a loop-carried map')


def pair_types(segs):
  ks, ws = frozenset(), frozenset()
  for s in segs:
    if s.op == 'it':
      k, w = items_of(s.args[0].args)
      if k.ty is None or w.ty is None:
        return (None if k.ty is None else k.ty), (w.ty or INT)
      ks, ws = ks | k.ty, ws | w.ty
    else:
      a, b = pair_types(s.args[2:] if s.op == 'for' else s.args[1:])
      if a is None:
        return None, b
      ks, ws = ks | a, ws | b
  return ks, ws


def map_extend(init, kind, seg):
  """fold of a loop that accumulates into / stores into a map"""
  op = 'mbag' if kind == 'acc' else 'mstore'
  if init.op == 'ite':
    raise Unsupported('loop over a gated map')
  base = init.args[0]
  segs = []
  if base is EMPTY:
    segs = [it(tuple_of(*e.args)) for e in _ents(init)]
    if segs and kind != 'acc':
      raise Unsupported('stores into a non-empty map')
    return mk('map', mk(op, tup(*segs, seg)))
  if base.op == op == 'mbag':
    segs = list(base.args[0].args) + [it(tuple_of(*e.args)) for e in _ents(init)]
    return mk('map', mk(op, tup(*segs, seg)))
  if base.op == 'b' and not _ents(init):
    # nested loop inside a generic iteration: keep the extension relative to the carried map
    return mk('map', mk('mrel', base, C(kind), tup(seg)))
  if base.op == 'mrel' and base.args[1] is C(kind) and not _ents(init):
    return mk('map', mk('mrel', base.args[0], base.args[1], tup(*base.args[2].args, seg)))
  raise Unsupported('map updated in nested loops')


def dict_update(I, st, d, src, fr):
  if src.op == 'ref' and st.obj(src).kind == 'dict':
    m0, m1 = st.obj(d).f['map'], st.obj(src).f['map']
    if m0.op == 'map' and m0.args[0] is EMPTY and len(m0.args) == 1:
      st.set(d, 'map', m1)
      return
    segs = map_items(I, st, m1)
  elif src.op == 'ref' and st.obj(src).kind == 'inst':
    raise Unsupported('dict from object')
  else:
    segs = I.iter_segs(src, st, fr)

  def body(x, s):
    kk, v = I.unpack(x, 2, s, fr)
    dict_put(I, s, d, kk, v)
  I.loop(tup(*segs), st, fr, body)


def dict_keys(I, st, d):
  return tuple(map_segs(map_items(I, st, st.obj(d).f['map']), lambda p: p.args[0].args[0]))


def dict_nonempty(I, st, d):
  m = st.obj(d).f['map']

  def go(m):
    if m.op == 'ite':
      return ite(m.args[0], go(m.args[1]), go(m.args[2]))
    if len(m.args) > 1:
      return TRUE
    if m.args[0] is EMPTY:
      return FALSE
    if m.args[0].op in ('mbag', 'mstore'):
      return I.nonempty_segs(m.args[0].args[0].args)
    raise Unsupported('truth of a map')
  return go(m)


def dict_to_kwargs(I, st, d, fr):
  if d.op != 'ref' or st.obj(d).kind != 'dict':
    raise Unsupported('** of non-dict')
  m = st.obj(d).f['map']
  if m.op != 'map' or m.args[0] is not EMPTY:
    raise Unsupported('** of a map of unknown contents')
  out = {}
  for e in _ents(m):
    if not _cstr(e.args[0]):
      raise Unsupported('** with computed key')
    out[cv(e.args[0])] = e.args[1]
  return out


def d_get(I, s, o, a, k, fr):
  dflt = a[1] if len(a) > 1 else k.get('default', NONE_T)
  return map_get(I, s, s.obj(o).f['map'], a[0], fr, default=dflt)


def d_pop(I, s, o, a, k, fr):
  m = s.obj(o).f['map']

  def go(m, st):
    if m.op == 'ite':
      c, x, y = m.args
      r1, m1 = go(x, st)
      r2, m2 = go(y, st)
      return phi(c, r1, r2), phi(c, m1, m2)
    if m.args[0] is not EMPTY:
      raise Unsupported('pop from unknown map')
    for i, e in enumerate(_ents(m)):
      d = keq(I, st, e.args[0], a[0])
      if d is None:
        raise Unsupported('pop of unknown key')
      if d:
        ents = list(_ents(m))
        ents.pop(i)
        return e.args[1], mk('map', EMPTY, *ents)
    if len(a) > 1:
      return a[1], m
    raise PyRaise('KeyError', I.site(fr, None), show(a[0]))
  r, m2 = go(m, s)
  if m2 is not m:
    s.set(o, 'map', m2)
  return r


def d_items(I, s, o, a, k, fr):
  return new_view(s, map_items(I, s, s.obj(o).f['map']))


def new_view(s, segs):
  return s.new('list', segs=tup(*segs))


def d_keys(I, s, o, a, k, fr):
  return new_view(s, dict_keys(I, s, o))


def d_values(I, s, o, a, k, fr):
  return new_view(s, map_segs(map_items(I, s, s.obj(o).f['map']), lambda p: p.args[1].args[0]))


def d_copy(I, s, o, a, k, fr):
  f = dict(s.obj(o).f)
  return s.new('dict', **f)


def d_update(I, s, o, a, k, fr):
  for x in a:
    dict_update(I, s, o, x, fr)
  for kk, v in k.items():
    dict_put(I, s, o, C(kk), v)
  return NONE_T


def d_clear(I, s, o, a, k, fr):
  s.set(o, 'map', mk('map', EMPTY))
  return NONE_T


def d_setdefault(I, s, o, a, k, fr):
  m = s.obj(o).f['map']
  has = map_has(I, s, m, a[0])
  dv = a[1] if len(a) > 1 else NONE_T

  def yes(q):
    return map_get(I, q, q.obj(o).f['map'], a[0], fr)

  def no(q):
    dict_put(I, q, o, a[0], dv)
    return dv
  return I.split(has, s, yes, no)


def d_popitem(I, s, o, a, k, fr):
  raise Unsupported('popitem')


DICT_METHODS = {'get': d_get, 'pop': d_pop, 'items': d_items, 'keys': d_keys, 'values': d_values, 'copy': d_copy, 'update': d_update,
                'clear': d_clear, 'setdefault': d_setdefault, 'popitem': d_popitem,
                '__contains__': lambda I, s, o, a, k, fr: map_has(I, s, s.obj(o).f['map'], a[0]),
                '__getitem__': lambda I, s, o, a, k, fr: getitem(I, s, o, a[0], fr),
                'most_common': lambda I, s, o, a, k, fr: (_ for _ in ()).throw(Unsupported('most_common')),
                '__setitem__': lambda I, s, o, a, k, fr: (setitem(I, s, o, a[0], a[1], fr), NONE_T)[1]}


# ---------------------------------------------------------------- list / tuple / set methods
def l_append(I, s, o, a, k, fr):
  s.set(o, 'segs', tup(*s.obj(o).f['segs'].args, it(a[0])))
  return NONE_T


def l_extend(I, s, o, a, k, fr):
  segs = I.iter_segs(a[0], s, fr)
  s.set(o, 'segs', tup(*s.obj(o).f['segs'].args, *segs))
  return NONE_T


def l_insert(I, s, o, a, k, fr):
  segs = I.norm_segs(s.obj(o).f['segs'].args, s)
  if is_c(a[0]) and cv(a[0]) == 0:
    s.set(o, 'segs', tup(it(a[1]), *segs))
    return NONE_T
  if not segs_exact(segs) or not is_c(a[0]):
    raise Unsupported('insert')
  xs = list(segs)
  xs.insert(cv(a[0]), it(a[1]))
  s.set(o, 'segs', tup(*xs))
  return NONE_T


def l_pop(I, s, o, a, k, fr):
  segs = I.norm_segs(s.obj(o).f['segs'].args, s)
  if not segs_exact(segs):
    raise Unsupported('pop')
  xs = list(segs)
  i = cv(a[0]) if a else -1
  if not xs or not -len(xs) <= i < len(xs):
    raise PyRaise('IndexError', I.site(fr, None), 'pop')
  v = xs.pop(i)
  s.set(o, 'segs', tup(*xs))
  return v.args[0]


def l_count(I, s, o, a, k, fr):
  segs = o.args if o.op == 'tup' else s.obj(o).f['segs'].args

  def go(segs):
    t = ZERO
    for x in segs:
      if x.op == 'it':
        t = add(t, ite(eq_t(I, x.args[0], a[0], s, fr), ONE, ZERO))
      elif x.op == 'for':
        t = add(t, mk('sum', x.args[0], x.args[1], go(x.args[2:]), ty=INT))
      else:
        t = add(t, ite(x.args[0], go(x.args[1:]), ZERO))
    return t
  return go(segs)


def l_index(I, s, o, a, k, fr):
  segs = o.args if o.op == 'tup' else s.obj(o).f['segs'].args
  if not segs_exact(segs):
    raise Unsupported('index')
  for i, x in enumerate(items_of(segs)):
    d = decide(eq_t(I, x, a[0], s, fr), s)
    if d is None:
      raise Unsupported('index of unknown')
    if d:
      return C(i)
  raise PyRaise('ValueError', I.site(fr, None), 'not in list')


def l_sort(I, s, o, a, k, fr):
  segs = I.norm_segs(s.obj(o).f['segs'].args, s)
  s.set(o, 'segs', tup(*sort_segs(I, s, fr, segs, k.get('key', NONE_T), I.truth(k.get('reverse', FALSE), s, fr))))
  return NONE_T


def l_reverse(I, s, o, a, k, fr):
  s.set(o, 'segs', tup(*rev_segs(s.obj(o).f['segs'].args)))
  return NONE_T


def l_remove(I, s, o, a, k, fr):
  i = cv(l_index(I, s, o, a, k, fr))
  xs = list(s.obj(o).f['segs'].args)
  xs.pop(i)
  s.set(o, 'segs', tup(*xs))
  return NONE_T


def l_clear(I, s, o, a, k, fr):
  s.set(o, 'segs', tup())
  return NONE_T


def l_copy(I, s, o, a, k, fr):
  return s.new(s.obj(o).kind, segs=s.obj(o).f['segs'])


LIST_METHODS = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'count': l_count, 'index': l_index, 'sort': l_sort,
                'reverse': l_reverse, 'remove': l_remove, 'clear': l_clear, 'copy': l_copy,
                '__len__': lambda I, s, o, a, k, fr: b_len(I, s, [o], {}, fr),
                '__contains__': lambda I, s, o, a, k, fr: contains(I, o, a[0], s, fr)}


def s_add(I, s, o, a, k, fr):
  segs = s.obj(o).f['segs'].args
  if segs_exact(segs):
    unknown = False
    for x in items_of(segs):
      d = decide(eq_t(I, x, a[0], s, fr), s)
      if d:
        return NONE_T
  s.set(o, 'segs', tup(*segs, it(a[0])))
  return NONE_T


def s_update(I, s, o, a, k, fr):
  for y in a:
    for x in I.iter_segs(y, s, fr):
      if x.op == 'it':
        s_add(I, s, o, [x.args[0]], k, fr)
      else:
        s.set(o, 'segs', tup(*s.obj(o).f['segs'].args, x))
  return NONE_T


def s_discard(I, s, o, a, k, fr):
  segs = s.obj(o).f['segs'].args
  if not segs_exact(segs):
    raise Unsupported('discard')
  out = []
  for x in segs:
    d = decide(eq_t(I, x.args[0], a[0], s, fr), s)
    if d is None:
      raise Unsupported('discard')
    if not d:
      out.append(x)
  s.set(o, 'segs', tup(*out))
  return NONE_T


def set_binop(I, s, opn, x, y, fr):
  sx = x if isinstance(x, tuple) else I.iter_segs(x, s, fr)
  sy = I.iter_segs(y, s, fr)
  ytmp = s.new('set', segs=tup(*sy))
  xtmp = s.new('set', segs=tup(*sx))
  if opn == 'or':
    r = s.new('set', segs=tup(*sx))
    s_update(I, s, r, [ytmp], {}, fr)
    return r
  out = new_list(s, ())

  def body(v, q):
    c = contains(I, ytmp, v, q, fr)
    if opn == 'sub':
      c = not_(c)
    I.branch(c, q, lambda z: l_append(I, z, out, [v], {}, fr), lambda z: None)
  I.loop(tup(*sx), s, fr, body)
  if opn == 'xor':
    raise Unsupported('set xor')
  return s.new('set', segs=s.obj(out).f['segs'])


def set_sub(I, s, o, a, k, fr):   # o <= a
  c = TRUE
  other = a[0] if a[0].op == 'ref' else s.new('set', segs=tup(*I.iter_segs(a[0], s, fr)))

  def go(segs):
    c = TRUE
    for x in segs:
      if x.op == 'it':
        c = and_(c, contains(I, other, x.args[0], s, fr))
      elif x.op == 'for':
        c = and_(c, mk('all', x.args[0], x.args[1], go(x.args[2:]), ty=BOOL))
      else:
        c = and_(c, or_(not_(x.args[0]), go(x.args[1:])))
    return c
  return go(s.obj(o).f['segs'].args)


def set_disjoint(I, s, o, a, k, fr):
  r = set_binop(I, s, 'and', o, a[0], fr)
  return not_(I.nonempty_segs(s.obj(r).f['segs'].args))


SET_METHODS = {'add': s_add, 'update': s_update, 'discard': s_discard, 'remove': s_discard, 'copy': l_copy, 'clear': l_clear,
               'union': lambda I, s, o, a, k, fr: set_binop(I, s, 'or', o, a[0], fr),
               'difference': lambda I, s, o, a, k, fr: set_binop(I, s, 'sub', o, a[0], fr),
               'intersection': lambda I, s, o, a, k, fr: set_binop(I, s, 'and', o, a[0], fr),
               'issubset': set_sub, 'issuperset': lambda I, s, o, a, k, fr: set_sub(I, s, s.new('set', segs=tup(*I.iter_segs(a[0], s, fr))), [o], k, fr),
               'isdisjoint': set_disjoint,
               '__contains__': lambda I, s, o, a, k, fr: contains(I, o, a[0], s, fr)}

NUM_METHODS = {
  'is_integer': lambda I, s, o, a, k, fr: C(float(cv(o)).is_integer()) if is_c(o) else cmp('eq', o, mk('int', o, ty=INT)),
  'bit_length': lambda I, s, o, a, k, fr: C(cv(o).bit_length()) if is_c(o) else mk('bitlen', o, ty=INT),
}
for _n, _o in (('__add__', 'add'), ('__sub__', 'sub'), ('__mul__', 'mul'), ('__floordiv__', 'floordiv'), ('__truediv__', 'truediv'), ('__pow__', 'pow'), ('__mod__', 'mod')):
  NUM_METHODS[_n] = (lambda o_: lambda I, s, o, a, k, fr: arith(o_, o, a[0]) if isnum(a[0]) else NOTIMPL)(_o)
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
  NUM_METHODS[f'__{_n}__'] = (lambda o_: lambda I, s, o, a, k, fr: cmp(o_, o, a[0]) if isnum(a[0]) else NOTIMPL)(_n)
NUM_METHODS['__neg__'] = lambda I, s, o, a, k, fr: I.unop('neg', o, s, fr)
NUM_METHODS['__abs__'] = lambda I, s, o, a, k, fr: b_abs_(I, s, o, fr)


def b_abs_(I, s, o, fr):
  return BUILTINS['abs'](I, s, [o], {}, fr)


ITER_METHODS = {'__next__': lambda I, s, o, a, k, fr: b_next(I, s, [o], {}, fr), '__iter__': lambda I, s, o, a, k, fr: o}


def method(I, kind, name):
  return {'list': LIST_METHODS, 'tuple': {n: LIST_METHODS[n] for n in ('count', 'index')}, 'set': SET_METHODS, 'dict': DICT_METHODS,
          'str': STR_METHODS, 'num': NUM_METHODS, 'iter': ITER_METHODS, 'range': {}, 'env': {}}.get(kind, {}).get(name)


# ---------------------------------------------------------------- operators on containers
def seq_kind(v, st):
  if v.op == 'tup':
    return 'tuple'
  if v.op == 'ref' and st.obj(v).kind in ('list', 'set', 'dict'):
    return st.obj(v).kind
  if v.ty == STR:
    return 'str'
  return None


def seq_binop(I, opn, a, b, st, fr):
  ka, kb = seq_kind(a, st), seq_kind(b, st)
  if opn == 'add':
    if ka == kb == 'str':
      return concat(a, b)
    if ka == kb == 'tuple':
      return tup(*a.args, *b.args)
    if ka == kb == 'list':
      return new_list(st, st.obj(a).f['segs'].args + st.obj(b).f['segs'].args)
    return None
  if opn == 'mul':
    if ka in ('list', 'tuple', 'str') and isnum(b):
      return repeat(I, st, a, ka, b, fr)
    if kb in ('list', 'tuple', 'str') and isnum(a):
      return repeat(I, st, b, kb, a, fr)
    return None
  if ka == 'set' and kb == 'set':
    m = {'sub': 'sub', 'bitand': 'and', 'bitor': 'or', 'bitxor': 'xor'}.get(opn)
    if m:
      return set_binop(I, st, m, a, b, fr)
  if ka == 'dict' and kb == 'dict' and opn == 'bitor':
    r = d_copy(I, st, a, [], {}, fr)
    dict_update(I, st, r, b, fr)
    return r
  if ka == 'str' and opn == 'mod':
    if _cstr(a):
      args = items_of(b.args) if b.op == 'tup' and segs_exact(b.args) else [b]
      import re
      out, pos, i = [], 0, 0
      for m in re.finditer(r'%([#0\- +]*\d*(?:\.\d+)?)([srdifg%])', cv(a)):
        out.append(C(cv(a)[pos:m.start()]))
        pos = m.end()
        if m.group(2) == '%':
          out.append(C('%'))
          continue
        v = args[i]
        i += 1
        if m.group(2) == 's' and not m.group(1):
          out.append(to_str(I, v, st, fr))
        elif m.group(2) == 'r':
          out.append(to_repr(I, v, st, fr))
        else:
          out.append(mk('fmt', v, C(m.group(1) + m.group(2)), ty=STR))
      out.append(C(cv(a)[pos:]))
      return concat(*out)
    raise Unsupported('% on symbolic string')
  if is_o(a) and is_o(b) and opn == 'bitor':
    return mk('union', a, b)
  if a.op == 'union' and opn == 'bitor':
    return mk('union', *a.args, b)
  if opn == 'bitor' and (is_o(a) or is_o(b)):
    return O(Opaque('generic'))
  return None


def repeat(I, st, a, kind, n, fr):
  if kind == 'str':
    if is_c(a) and is_c(n):
      return C(cv(a) * cv(n))
    return mk('strmul', a, n, ty=STR)
  segs = a.args if kind == 'tuple' else st.obj(a).f['segs'].args
  if is_c(n):
    if cv(n) * len(segs) > 4000:
      raise Unsupported('long repetition')
    out = segs * max(0, cv(n))
  else:
    if any(s.fb for s in segs) and False:
      raise Unsupported('repeat')
    u = fresh()
    dom = n.args[0] if n.op == 'card' else range_dom(ZERO, n, ONE)
    out = (mk('for', (u,), dom, *segs),)
  return tup(*out) if kind == 'tuple' else new_list(st, out)


def as_segs(v, st):
  return v.args if v.op == 'tup' else st.obj(v).f['segs'].args


def seqs_eq(I, a, b, st, fr):
  """a, b: segment tuples"""
  a, b = I.norm_segs(a, st), I.norm_segs(b, st)
  if a == b:
    return TRUE
  if segs_exact(a) and segs_exact(b):
    if len(a) != len(b):
      return FALSE
    return and_(*[eq_t(I, x, y, st, fr) for x, y in zip(items_of(a), items_of(b))])
  fa, fb = single_for(a), single_for(b)
  if fa and fb and fa[1] is fb[1]:
    u = fresh()
    x = I.subst_val(fa[2], {fa[0]: B(u)}, st)
    y = I.subst_val(fb[2], {fb[0]: B(u)}, st)
    if x is y:
      return TRUE
    return mk('all', (u,), fa[1], eq_t(I, x, y, st, fr), ty=BOOL)
  return mk('seqeq', tup(*a), tup(*b), ty=BOOL)


def value_cmp(I, opn, a, b, st, fr):
  if opn == 'ne':
    return not_(value_cmp(I, 'eq', a, b, st, fr))
  ka, kb = seq_kind(a, st), seq_kind(b, st)
  if opn == 'eq':
    if a is b:
      return TRUE
    if ka in ('tuple', 'list') and ka == kb:
      return seqs_eq(I, as_segs(a, st), as_segs(b, st), st, fr)
    if ka == 'set' and kb == 'set':
      return and_(set_sub(I, st, a, [b], {}, fr), set_sub(I, st, b, [a], {}, fr))
    if ka == 'dict' and kb == 'dict':
      return maps_eq(I, st.obj(a).f['map'], st.obj(b).f['map'], st, fr)
    if ka == 'str' and kb == 'str':
      if is_c(a) and is_c(b):
        return C(cv(a) == cv(b))
      return str_eq(a, b)
    if a.op in ('o',) or b.op in ('o',):
      if a.op == 'o' and b.op == 'o':
        x, y = ov(a), ov(b)
        if isinstance(x, Bound) and isinstance(y, Bound):
          return C(x.func is y.func and x.self_t is y.self_t)
        return C(x is y)
      if a.op in ('app', 'anyval') or b.op in ('app', 'anyval'):
        return mk('eq', *sorted((a, b), key=id), ty=BOOL)
      return FALSE
    if a is NONE_T or b is NONE_T:
      x = a if b is NONE_T else b
      if x.op in ('ref', 'tup', 'range') or (x.ty is not None and 'none' not in x.ty):
        return FALSE
      return mk('isnone', x, ty=BOOL)
    if ka is not None and kb is not None and ka != kb:
      return FALSE
    if (ka is not None and isnum(b)) or (kb is not None and isnum(a)):
      return FALSE
    if a.op == 'range' and b.op == 'range':
      return and_(*[cmp('eq', x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'range' or b.op == 'range':
      return FALSE
    if a.op in ('exc',) or b.op in ('exc',):
      return C(a is b)
    if a.ty is not None and b.ty is not None and isnum(a) and b.ty == STR or isnum(b) and a.ty == STR:
      return FALSE
    return mk('eq', a, b, ty=BOOL)
  # ordering
  if ka == kb == 'str':
    if is_c(a) and is_c(b):
      return C({'lt': pyop.lt, 'le': pyop.le, 'gt': pyop.gt, 'ge': pyop.ge}[opn](cv(a), cv(b)))
    return cmp(opn, a, b)
  if ka == kb and ka in ('tuple', 'list'):
    xa, xb = as_segs(a, st), as_segs(b, st)
    if segs_exact(xa) and segs_exact(xb):
      return lex(I, opn, items_of(xa), items_of(xb), st, fr)
    raise Unsupported('ordering of sequences')
  if ka == kb == 'set':
    if opn == 'le':
      return set_sub(I, st, a, [b], {}, fr)
    if opn == 'ge':
      return set_sub(I, st, b, [a], {}, fr)
    raise Unsupported('set order')
  known = lambda v: v.op in ('ref', 'tup', 'o', 'range') or v is NONE_T or v.ty is not None
  if known(a) and known(b):
    raise PyRaise('TypeError', I.site(fr, None), f"'{opn}' not supported between {I.tyname(a, st)} and {I.tyname(b, st)}")
  raise Unsupported(f'{opn} on {show(a)[:30]}, {show(b)[:30]}')


def str_eq(a, b):
  if is_c(a):
    a, b = b, a
  if is_c(b):
    v = cv(b)
    if v == '' and _str_nonempty(a):
      return FALSE
    # a fixed part of a cannot occur in b
    for p in parts_of(a):
      if _cstr(p) and cv(p) not in v:
        return FALSE
    if len(v) >= 1 and all(lacks(p, v[0]) for p in parts_of(a)):
      return FALSE
    for ch in v:
      if all(not _cstr(p) and lacks(p, ch) for p in parts_of(a)):
        return FALSE
    alpha_ = STR_FACTS.get(a.args[0] if a.op == 'sym' else None, {}).get('not_in')
    if alpha_ and v in alpha_:
      return FALSE
  else:
    if a.op == 'sym' and b.op == 'sym' and STR_FACTS.get(a.args[0], {}).get('distinct') and STR_FACTS.get(b.args[0], {}).get('distinct'):
      return FALSE
  return mk('eq', a, b, ty=BOOL)


def _str_nonempty(a):
  for p in parts_of(a):
    if _cstr(p) and cv(p):
      return True
    if p.op == 'sym' and STR_FACTS.get(p.args[0], {}).get('nonempty'):
      return True
    if p.op == 'str':
      return True
  return False


def lex(I, opn, xs, ys, st, fr):
  strict = opn in ('lt', 'gt')
  base = opn[0]
  if not xs or not ys:
    r = {'lt': len(xs) < len(ys), 'le': len(xs) <= len(ys), 'gt': len(xs) > len(ys), 'ge': len(xs) >= len(ys)}[opn]
    return C(r)
  e = eq_t(I, xs[0], ys[0], st, fr)
  d = decide(e, st)
  if d is True:
    return lex(I, opn, xs[1:], ys[1:], st, fr)
  f = I.truth(I.cmpop(opn if d is False else ('lt' if base == 'l' else 'gt'), xs[0], ys[0], st, fr), st, fr)
  if d is False:
    return f
  if is_c(f) and cv(f):
    return TRUE
  return or_(f, and_(e, lex(I, opn, xs[1:], ys[1:], st, fr)))


def maps_eq(I, m1, m2, st, fr):
  if m1 is m2:
    return TRUE
  if m1.op == 'ite':
    return ite(m1.args[0], maps_eq(I, m1.args[1], m2, st, fr), maps_eq(I, m1.args[2], m2, st, fr))
  if m2.op == 'ite':
    return maps_eq(I, m2, m1, st, fr)
  if m1.args[0] is EMPTY and m2.args[0] is EMPTY:
    if len(m1.args) != len(m2.args):
      return FALSE
    c = TRUE
    for e in _ents(m1):
      hit = None
      for f in _ents(m2):
        d = keq(I, st, e.args[0], f.args[0])
        if d is None:
          return mk('mapeq', m1, m2, ty=BOOL)
        if d:
          hit = f
      if hit is None:
        return FALSE
      c = and_(c, eq_t(I, e.args[1], hit.args[1], st, fr))
    return c
  return mk('mapeq', m1, m2, ty=BOOL)


def contains(I, coll, x, st, fr):
  if coll.op == 'ite':
    return I.cases(coll, st, lambda c, s: contains(I, c, x, s, fr))
  if is_o(coll) and isinstance(ov(coll), InstDict):
    return C(inst_field(st, ov(coll).ref, _attr_name(x)) is not None)
  if coll.op == 'ref':
    o = st.obj(coll)
    if o.kind == 'dict':
      return map_has(I, st, o.f['map'], x)
    if o.kind in ('list', 'set', 'iter'):
      return any_eq(I, o.f['segs'].args, x, st, fr)
    if o.kind == 'inst':
      f, _ = o.cls.lookup('__contains__')
      if f is not None:
        return I.truth(I.call(I.bind(f, coll, o.cls, st), [x], {}, st, fr), st, fr)
      return any_eq(I, I.iter_segs(coll, st, fr), x, st, fr)
  if coll.op == 'tup':
    return any_eq(I, coll.args, x, st, fr)
  if coll.op == 'range':
    a, b, s = coll.args
    if s is ONE and isnum(x):
      c = and_(cmp('le', a, x), cmp('lt', x, b))
      if x.ty <= {'int', 'bool'}:
        return c
      return and_(c, cmp('eq', x, mk('int', x, ty=INT)))
    raise Unsupported('in range')
  if _cstr(coll) and _cstr(x):
    return C(cv(x) in cv(coll))
  if coll.ty == STR:
    if _cstr(x):
      if lacks(coll, cv(x)):
        return FALSE
      if any(_cstr(p) and cv(x) in cv(p) for p in parts_of(coll)):
        return TRUE
    if x.ty == STR:
      return mk('strin', x, coll, ty=BOOL)
  if isnum(coll) or coll is NONE_T:
    raise PyRaise('TypeError', I.site(fr, None), 'argument is not iterable')
  if is_o(coll) and isinstance(ov(coll), ClassObj) and getattr(ov(coll), 'isenum', False):
    return any_eq(I, I.iter_segs(coll, st, fr), x, st, fr)
  raise Unsupported(f'membership in {show(coll)[:50]}')


def any_eq(I, segs, x, st, fr):
  c = FALSE
  for s in segs:
    if s.op == 'it':
      c = or_(c, eq_t(I, s.args[0], x, st, fr))
      if c is TRUE:
        return c
    elif s.op == 'for':
      inner = any_eq(I, s.args[2:], x, st, fr)
      if inner is not FALSE:
        c = or_(c, mk('any', s.args[0], s.args[1], inner, ty=BOOL))
    elif s.op == 'if':
      c = or_(c, and_(s.args[0], any_eq(I, s.args[1:], x, st, fr)))
    else:
      raise Unsupported(f'membership in {s.op}')
  return c


# ---------------------------------------------------------------- subscripts
def norm_index(i, n):
  return i + n if i < 0 else i


def index_segs(I, st, segs, k, fr, what):
  segs = I.norm_segs(segs, st)
  if segs_exact(segs):
    xs = items_of(segs)
    if is_c(k):
      if not isinstance(cv(k), int):
        raise PyRaise('TypeError', I.site(fr, None), f'{what} indices must be integers')
      i = cv(k)
      if not -len(xs) <= i < len(xs):
        raise PyRaise('IndexError', I.site(fr, None), f'{what} index out of range')
      return xs[i]
    if not xs:
      raise PyRaise('IndexError', I.site(fr, None), f'{what} index out of range')
    if 'float' in k.ty and not (k.ty & {'int', 'bool'}):
      raise PyRaise('TypeError', I.site(fr, None), f'{what} indices must be integers')
    # negative indices count from the end
    n = len(xs)
    oob = or_(cmp('lt', k, C(-n)), cmp('le', C(n), k))
    d = decide(oob, st)
    if d is True:
      raise PyRaise('IndexError', I.site(fr, None), f'{what} index out of range')
    if d is None:
      s2 = st.fork()
      s2.pc = s2.pc + (oob,)
      if s2.assume(oob):
        I.record_raise(PyRaise('IndexError', I.site(fr, None), f'{what} index out of range'), s2)
      st.assume(not_(oob))
    nonneg = decide(cmp('le', ZERO, k), st)
    v = None
    for i in reversed(range(n)):
      c = cmp('eq', k, C(i))
      if nonneg is not True:
        c = or_(c, cmp('eq', k, C(i - n)))
      dd = decide(c, st)
      if dd is True:
        return xs[i]
      if dd is False:
        continue
      v = xs[i] if v is None else phi(c, xs[i], v)
    if v is None:
      raise PyRaise('IndexError', I.site(fr, None), f'{what} index out of range')
    return v
  sf = single_for(segs)
  if sf:
    u, dom, leaf = sf
    if k.op == 'b' and st.open.get(k.args[0]) is dom:
      return I.subst_val(leaf, {u: k}, st)
    if dom.op == 'd.rev' and k.op == 'b' and st.open.get(k.args[0]) is dom.args[0]:
      pass
    if dom.op in POSITIONAL or (dom.op == 'd.range' and is_c(dom.args[0]) and cv(dom.args[0]) == 0 and dom.args[2] is ONE) or dom.op == 'd.rev' and dom.args[0].op in POSITIONAL:
      base = dom if dom.op != 'd.rev' else dom.args[0]
      n = card(base) if base.op in POSITIONAL else base.args[1]
      if is_c(k):
        idx = k if cv(k) >= 0 else add(n, k)
        if not (cv(k) in (0, -1) and nonempty(dom)):
          oob = cmp('le', n, idx) if cv(k) >= 0 else cmp('lt', idx, ZERO)
          if decide(oob, st) is not False:
            s2 = st.fork()
            s2.pc = s2.pc + (oob,)
            if s2.assume(oob):
              I.record_raise(PyRaise('IndexError', I.site(fr, None), f'{what} index out of range'), s2)
            st.assume(not_(oob))
      else:
        idx = k
        nonneg = decide(cmp('le', ZERO, k), st)
        if nonneg is False:
          idx = add(n, k)
        elif nonneg is None:
          idx = ite(cmp('lt', k, ZERO), add(n, k), k)
        hi = decide(cmp('lt', idx, n), st)
        if hi is not True:
          oob = or_(cmp('le', n, idx), cmp('lt', idx, ZERO))
          s2 = st.fork()
          s2.pc = s2.pc + (oob,)
          if s2.assume(oob):
            I.record_raise(PyRaise('IndexError', I.site(fr, None), f'{what} index out of range'), s2)
          st.assume(not_(oob))
      if dom.op == 'd.rev':
        idx = sub(sub(n, ONE), idx)
      return I.subst_val(leaf, {u: idx}, st)
    if leaf.ty is not None:
      return mk('sel', tup(*segs), k, ty=leaf.ty)
  if segs and is_c(k) and isinstance(cv(k), int):
    if cv(k) >= 0 and all(s.op == 'it' for s in segs[:cv(k) + 1]) and len(segs) > cv(k):
      return segs[cv(k)].args[0]
    if cv(k) < 0 and len(segs) >= -cv(k) and all(s.op == 'it' for s in segs[cv(k):]):
      return segs[cv(k)].args[0]
  ty = leaf_types(segs)
  if ty:
    return mk('sel', tup(*segs), k, ty=ty)
  raise Unsupported(f'indexing a {what} of unknown size')


def getitem(I, st, o, k, fr):
  if o.op == 'ite':
    return I.cases(o, st, lambda x, s: getitem(I, s, x, k, fr))
  if k.op == 'ite' and not isnum(k):
    return I.cases(k, st, lambda x, s: getitem(I, s, o, x, fr))
  if is_o(o) and isinstance(ov(o), InstDict):
    v = inst_field(st, ov(o).ref, _attr_name(k))
    if v is None:
      raise PyRaise('KeyError', I.site(fr, None), cv(k))
    return v
  if o.op == 'tup':
    return index_segs(I, st, o.args, k, fr, 'tuple')
  if o.op == 'ref':
    ob = st.obj(o)
    if ob.kind == 'list':
      return index_segs(I, st, ob.f['segs'].args, k, fr, 'list')
    if ob.kind == 'dict':
      dflt = ob.f.get('default', NONE_T)
      if dflt is not NONE_T:
        def miss(s):
          v = I.call(dflt, [], {}, s, fr)
          dict_put(I, s, o, k, v)
          return v
        m = ob.f['map']
        base = m.args[0] if m.op == 'map' else None
        if base is not None and base.op == 'b' and not _ents(m):
          z = I.call(dflt, [], {}, st, fr)
          if z is ZERO:
            return map_get(I, st, m, k, fr, default=ZERO)
        if base is not None and base.op == 'b':
          for e in _ents(m):
            if keq(I, st, e.args[0], k) is True:
              return e.args[1]
          raise Unsupported('defaultdict lookup in loop')
        return map_get(I, st, m, k, fr, missing=miss)
      return map_get(I, st, ob.f['map'], k, fr)
    if ob.kind == 'inst':
      f, _ = ob.cls.lookup('__getitem__')
      if f is not None:
        return I.call(I.bind(f, o, ob.cls, st), [k], {}, st, fr)
      raise PyRaise('TypeError', I.site(fr, None), f'{ob.cls.name} object is not subscriptable')
    raise PyRaise('TypeError', I.site(fr, None), f'{ob.kind} is not subscriptable')
  if _cstr(o) and is_c(k):
    try:
      return C(cv(o)[cv(k)])
    except (IndexError, TypeError) as e:
      raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
  if _cstr(o) and isnum(k) and len(cv(o)) <= 24:
    return index_segs(I, st, tuple(it(C(ch)) for ch in cv(o)), k, fr, 'string')
  if o.ty == STR:
    return mk('strsel', o, k, ty=STR)
  if o.op == 'range':
    a, b, s = o.args
    if all(map(is_c, o.args)) and is_c(k):
      try:
        return C(range(cv(a), cv(b), cv(s))[cv(k)])
      except IndexError as e:
        raise PyRaise('IndexError', I.site(fr, None), str(e))
    return index_segs(I, st, I.iter_segs(o, st, fr), k, fr, 'range')
  if o.op == 'app' or is_o(o) and isinstance(ov(o), Opaque):
    if is_o(o):
      return O(Opaque(ov(o).name + '[]'))
    return mk('app', 'getitem', o, k)
  if is_o(o) and isinstance(ov(o), ClassObj) and getattr(ov(o), 'isenum', False) and _cstr(k):
    v, _ = ov(o).lookup(cv(k))
    if v is not None:
      return v
    raise PyRaise('KeyError', I.site(fr, None), cv(k))
  if isnum(o) or o is NONE_T:
    raise PyRaise('TypeError', I.site(fr, None), 'object is not subscriptable')
  raise Unsupported(f'subscript of {show(o)[:50]}')


def setitem(I, st, o, k, v, fr):
  if o.op == 'ite':
    c, a, b = o.args
    I.branch(c, st, lambda s: setitem(I, s, a, k, v, fr), lambda s: setitem(I, s, b, k, v, fr))
    return
  if k.op == 'ite' and not isnum(k):
    c, a, b = k.args
    I.branch(c, st, lambda s: setitem(I, s, o, a, v, fr), lambda s: setitem(I, s, o, b, v, fr))
    return
  if is_o(o) and isinstance(ov(o), InstDict):
    st.set(ov(o).ref, _attr_name(k), v)
    return
  if o.op == 'ref':
    ob = st.obj(o)
    if ob.kind == 'dict':
      dict_put(I, st, o, k, v)
      return
    if ob.kind == 'inst':
      f, _ = ob.cls.lookup('__setitem__')
      if f is not None:
        I.call(I.bind(f, o, ob.cls, st), [k, v], {}, st, fr)
        return
      raise PyRaise('TypeError', I.site(fr, None), 'no item assignment')
    if ob.kind == 'list':
      segs = I.norm_segs(ob.f['segs'].args, st)
      if segs_exact(segs) and is_c(k):
        xs = list(segs)
        try:
          xs[cv(k)] = it(v)
        except IndexError as e:
          raise PyRaise('IndexError', I.site(fr, None), str(e))
        st.set(o, 'segs', tup(*xs))
        return
      sf = single_for(segs)
      if sf and k.op == 'b' and st.open.get(k.args[0]) is sf[1]:
        u = sf[0]
        old = sf[2]
        new = ite(cmp('eq', B(u), k), v, old) if v.ty is not None and old.ty is not None else None
        if new is not None:
          st.set(o, 'segs', tup(mk('for', (u,), sf[1], it(new))))
          return
      raise Unsupported('item assignment at unknown index')
  if o.op == 'tup' or o.ty == STR or isnum(o) or o is NONE_T:
    raise PyRaise('TypeError', I.site(fr, None), 'object does not support item assignment')
  if o.op == 'app' or is_o(o):
    event(I, st, 'setitem', o, k, v)
    return
  raise Unsupported('item assignment')


def delitem(I, st, o, k, fr):
  if is_o(o) and isinstance(ov(o), InstDict):
    instdict_method(I, ov(o), 'pop')(I, st, [k], {}, fr)
    return
  if o.op == 'ref':
    ob = st.obj(o)
    if ob.kind == 'dict':
      d_pop(I, st, o, [k], {}, fr)
      return
    if ob.kind == 'list' and is_c(k):
      l_pop(I, st, o, [k], {}, fr)
      return
    if ob.kind == 'inst':
      f, _ = ob.cls.lookup('__delitem__')
      if f is not None:
        I.call(I.bind(f, o, ob.cls, st), [k], {}, st, fr)
        return
  raise Unsupported('del item')


def slice_(I, st, o, lo, hi, step, fr):
  if o.op == 'ite':
    return I.cases(o, st, lambda x, s: slice_(I, s, x, lo, hi, step, fr))
  consts = all(is_c(x) for x in (lo, hi, step))
  if o.ty == STR:
    if _cstr(o) and consts:
      return C(cv(o)[cv(lo):cv(hi):cv(step)])
    ps = list(parts_of(o))
    if consts and step is NONE_T and _cstr(ps[0]) and _cstr(ps[-1]) and len(ps) > 1:
      l0 = cv(lo) or 0
      h0 = cv(hi)
      if l0 >= 0 and l0 <= len(cv(ps[0])) and (h0 is None or h0 < 0 and -h0 <= len(cv(ps[-1]))):
        ps[0] = C(cv(ps[0])[l0:])
        if h0 is not None:
          ps[-1] = C(cv(ps[-1])[:h0])
        return concat(*ps)
    return mk('strslice', o, lo, hi, step, ty=STR)
  if o.op == 'ref' and st.obj(o).kind == 'inst':
    g, _ = st.obj(o).cls.lookup('slice__')
    if g is not None:
      return I.call(I.bind(g, o, st.obj(o).cls, st), [lo, hi, step], {}, st, fr)
    raise Unsupported('slicing an object')
  if o.op == 'tup' or o.op == 'ref' and st.obj(o).kind == 'list':
    segs = I.norm_segs(as_segs(o, st), st)
    wrap = (lambda s: tup(*s)) if o.op == 'tup' else (lambda s: new_list(st, s))
    if consts:
      a, b, c = cv(lo), cv(hi), cv(step)
      if segs_exact(segs):
        return wrap(tuple(segs[a:b:c]))
      if a is None and b is None and c in (None, 1):
        return wrap(segs)
      if a is None and b is None and c == -1:
        return wrap(rev_segs(segs))
      if c in (None, 1) and (a or 0) >= 0 and b is None and all(s.op == 'it' for s in segs[:a or 0]) and len(segs) >= (a or 0):
        return wrap(tuple(segs[a or 0:]))
      if c in (None, 1) and (a or 0) >= 0 and b is not None and b < 0 and all(s.op == 'it' for s in segs[:a or 0]) and all(s.op == 'it' for s in segs[b:]) and len(segs) >= (a or 0) - b:
        return wrap(tuple(segs[a or 0:b]))
    if segs_exact(segs) and (is_c(step)) and cv(step) in (None, 1):
      # symbolic bounds over an exact list: gate each element
      n = len(segs)
      L = ZERO if lo is NONE_T else lo
      H = C(n) if hi is NONE_T else hi
      nrm = lambda x: x if decide(cmp('le', ZERO, x), st) is True else ite(cmp('lt', x, ZERO), add(x, C(n)), x)
      L, H = nrm(L), nrm(H)
      return wrap(tuple(if_(and_(cmp('le', L, C(i)), cmp('lt', C(i), H)), s) for i, s in enumerate(segs)))
    sf = single_for(segs)
    if sf and sf[1].op in POSITIONAL and is_c(step) and cv(step) in (None, 1):
      u, dom, leaf = sf
      n = card(dom)
      clampn = lambda x: x
      L = ZERO if lo is NONE_T else lo
      H = n if hi is NONE_T else hi
      nrm = lambda x: x if decide(cmp('le', ZERO, x), st) is True else ite(cmp('lt', x, ZERO), add(x, n), x)
      return wrap((mk('for', (u,), dom, if_(and_(cmp('le', nrm(L), B(u)), cmp('lt', B(u), nrm(H))), it(leaf))),))
  raise Unsupported('slice')


# ---------------------------------------------------------------- opaque values
def opaque_iter(I, st, v, fr):
  h = getattr(ov(v), 'iter_handler', None) if is_o(v) else None
  if h:
    return h(I, st, v, fr)
  u = fresh()
  return (mk('for', (u,), mk('d.opaque', v), it(mk('app', 'elem', v, B(u)))),)


def opaque_attr(I, st, o, name, fr):
  if is_o(o):
    x = ov(o)
    h = getattr(x, 'attrs', None)
    if h is not None and name in h:
      return h[name]
    if x.sink:
      return o
    cache = x.__dict__.setdefault('_attrs', {})
    if name not in cache:
      cache[name] = O(Opaque(f'{x.name}.{name}'))
    return cache[name]
  return mk('app', 'attr', o, C(name))


def opaque_setattr(I, st, o, name, v, fr):
  x = ov(o)
  h = getattr(x, 'setattr_handler', None)
  if h:
    return h(I, st, o, name, v, fr)
  if not x.sink:
    event(I, st, 'setattr', o, C(name), v)


def call_opaque(I, st, f, args, kwargs, fr, seg_args=None):
  if is_o(f):
    x = ov(f)
    if x.handler:
      return x.handler(I, st, args if seg_args is None else seg_args, kwargs, fr)
    if x.sink:
      return f
    name = x.name
  else:
    name = 'call'
  vals = list(args) if args is not None else [seg_args]
  vals += [tuple_of(C(k), v) for k, v in kwargs.items()]
  event(I, st, 'call', f, *vals)
  return mk('app', 'call', f, *vals)


def spec_attr(I, st, o, name):
  f = o.args[0]
  x = ov(f)
  if isinstance(x, FuncObj):
    a = x.node.args
    if name == 'args':
      return new_list(st, tuple(it(C(p.arg)) for p in a.posonlyargs + a.args))
    if name == 'annotations':
      return I.getattr(f, '__annotations__', st, I.frame)
    if name == 'varargs':
      return C(a.vararg.arg) if a.vararg else NONE_T
    if name == 'varkw':
      return C(a.kwarg.arg) if a.kwarg else NONE_T
    if name == 'kwonlyargs':
      return new_list(st, tuple(it(C(p.arg)) for p in a.kwonlyargs))
    if name == 'defaults':
      return tup(*[it(d) for d in x.defaults]) if x.defaults else NONE_T
  raise Unsupported(f'argspec.{name}')


# ---------------------------------------------------------------- standard library
def _opf(opn):
  return lambda I, st, a, k, fr: I.binop(opn, a[0], a[1], st, fr)


def _cmpf(opn):
  return lambda I, st, a, k, fr: I.cmpop(opn, a[0], a[1], st, fr)


def _unf(opn):
  return lambda I, st, a, k, fr: I.unop(opn, a[0], st, fr)


OPERATOR = {n: _opf(n) for n in ('add', 'sub', 'mul', 'floordiv', 'truediv', 'pow', 'mod', 'matmul', 'lshift', 'rshift')}
OPERATOR.update({'and_': _opf('bitand'), 'or_': _opf('bitor'), 'xor': _opf('bitxor')})
OPERATOR.update({n: _cmpf(n) for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')})
OPERATOR.update({'neg': _unf('neg'), 'pos': _unf('pos'), 'invert': _unf('invert'), 'inv': _unf('invert'),
                 'not_': lambda I, st, a, k, fr: not_(I.truth(a[0], st, fr)), 'truth': lambda I, st, a, k, fr: I.truth(a[0], st, fr),
                 'abs': lambda I, st, a, k, fr: BUILTINS['abs'](I, st, a, k, fr),
                 'getitem': lambda I, st, a, k, fr: I.getitem(a[0], a[1], st, fr),
                 'contains': lambda I, st, a, k, fr: I.contains(a[0], a[1], st, fr),
                 'is_': lambda I, st, a, k, fr: I.is_(a[0], a[1], st), 'is_not': lambda I, st, a, k, fr: not_(I.is_(a[0], a[1], st))})


def op_itemgetter(I, st, a, k, fr):
  ks = list(a)

  def g(I, st, b, k2, fr2):
    r = [I.getitem(b[0], x, st, fr2) for x in ks]
    return r[0] if len(r) == 1 else tuple_of(*r)
  return O(Builtin('itemgetter', g))


def op_attrgetter(I, st, a, k, fr):
  nm = cv(a[0])
  return O(Builtin('attrgetter', lambda I, st, b, k2, fr2: I.getattr(b[0], nm, st, fr2)))


OPERATOR['itemgetter'] = op_itemgetter
OPERATOR['attrgetter'] = op_attrgetter


def m_prod(I, st, a, k, fr):
  start = a[1] if len(a) > 1 else k.get('start', ONE)

  def go(segs, acc):
    for s in segs:
      if s.op == 'it':
        acc = I.binop('mul', acc, s.args[0], st, fr)
      elif s.op == 'for':
        inner = go(s.args[2:], ONE)
        acc = mul(acc, mk('prod', s.args[0], s.args[1], inner, ty=inner.ty))
      elif s.op == 'if':
        acc = mul(acc, ite(s.args[0], go(s.args[1:], ONE), ONE))
      else:
        raise Unsupported('prod')
    return acc
  return go(I.norm_segs(I.iter_segs(a[0], st, fr), st), start)


def _m_divs(name, fn):
  def f(I, st, a, k, fr):
    if isinstance(a, T):
      segs = I.norm_segs(a.args, st)
      if segs_exact(segs):
        a = items_of(segs)
      else:
        return mk(name + 'all', tup(*segs), ty=INT)
    if all(is_c(x) for x in a):
      try:
        return C(fn(*[cv(x) for x in a]))
      except TypeError as e:
        raise PyRaise('TypeError', I.site(fr, None), str(e))
    for x in a:
      if not isnum(x) or not x.ty <= {'int', 'bool'}:
        if isnum(x) and not (x.ty & {'int', 'bool'}):
          raise PyRaise('TypeError', I.site(fr, None), name + ' of float')
    if len(a) == 1:
      return a[0] if decide(cmp('le', ZERO, a[0]), st) is True else mk('abs', a[0], ty=INT)
    return mk(name, *a, ty=INT)
  f.takes_segs = True
  return f


m_gcd = _m_divs('gcd', math.gcd)
m_lcm = _m_divs('lcm', math.lcm)


def m_comb(I, st, a, k, fr):
  if all(is_c(x) for x in a):
    try:
      return C(math.comb(cv(a[0]), cv(a[1])))
    except (TypeError, ValueError) as e:
      raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
  return mk('comb', a[0], a[1], ty=INT)


def m_fact(I, st, a, k, fr):
  if is_c(a[0]):
    try:
      return C(math.factorial(cv(a[0])))
    except (TypeError, ValueError) as e:
      raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
  return mk('factorial', a[0], ty=INT)


def m_sqrt(I, st, a, k, fr):
  if is_c(a[0]):
    try:
      return C(math.sqrt(cv(a[0])))
    except (TypeError, ValueError) as e:
      raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
  if not isnum(a[0]):
    raise PyRaise('TypeError', I.site(fr, None), 'sqrt')
  return mk('sqrt', a[0], ty=FLOAT)


def m_opaque_num(name, rty):
  def f(I, st, a, k, fr):
    if all(is_c(x) for x in a):
      try:
        return C(getattr(math, name)(*[cv(x) for x in a]))
      except (TypeError, ValueError, OverflowError) as e:
        raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
    return mk('mathfn', name, *a, ty=rty)
  return f


MATH = {'prod': m_prod, 'gcd': m_gcd, 'comb': m_comb, 'factorial': m_fact, 'sqrt': m_sqrt, 'floor': _floor, 'ceil': _ceil, 'trunc': _trunc,
        'isnan': m_opaque_num('isnan', BOOL), 'isinf': m_opaque_num('isinf', BOOL), 'isfinite': m_opaque_num('isfinite', BOOL), 'perm': m_opaque_num('perm', INT),
        'log': m_opaque_num('log', FLOAT), 'log2': m_opaque_num('log2', FLOAT), 'log10': m_opaque_num('log10', FLOAT), 'exp': m_opaque_num('exp', FLOAT),
        'fsum': lambda I, st, a, k, fr: b_sum(I, st, a, k, fr), 'pow': lambda I, st, a, k, fr: mk('float', arith('pow', a[0], a[1]), ty=FLOAT),
        'isclose': m_opaque_num('isclose', BOOL), 'fabs': m_opaque_num('fabs', FLOAT), 'lcm': m_lcm, 'isqrt': m_opaque_num('isqrt', INT),
        'copysign': m_opaque_num('copysign', FLOAT)}


def it_product(I, st, a, k, fr):
  if isinstance(a, T):
    raise Unsupported('product(*collection of unknown size)')
  rep = cv(k.get('repeat', ONE))
  lists = [I.norm_segs(I.iter_segs(x, st, fr), st) for x in a] * rep

  def go(i, items):
    if i == len(lists):
      return (it(tuple_of(*items)),)
    return prod_segs(alpha(I, lists[i], st), lambda x: go(i + 1, items + [x]))
  return st.new('iter', segs=tup(*go(0, [])))


def prod_segs(segs, f):
  out = []
  for s in segs:
    if s.op == 'it':
      out.extend(f(s.args[0]))
    elif s.op == 'for':
      out.append(mk('for', s.args[0], s.args[1], *prod_segs(s.args[2:], f)))
    elif s.op == 'if':
      out.append(mk('if', s.args[0], *prod_segs(s.args[1:], f)))
    else:
      raise Unsupported('product')
  return tuple(out)


it_product.takes_segs = True


def it_accumulate(I, st, a, k, fr):
  segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
  f = a[1] if len(a) > 1 else k.get('func', NONE_T)
  init = k.get('initial', NONE_T)
  if segs_exact(segs):
    xs = items_of(segs)
    acc = None if init is NONE_T else init
    out = [] if acc is None else [acc]
    for x in xs:
      if acc is None:
        acc = x
      else:
        acc = I.binop('add', acc, x, st, fr) if f is NONE_T else I.call(f, [acc, x], {}, st, fr)
      out.append(acc)
    return st.new('iter', segs=tup(*[it(x) for x in out]))
  sf = single_for(segs)
  if sf and (f is NONE_T or (is_o(f) and getattr(ov(f), 'name', '') == 'operator.add')) and isnum(sf[2]):
    u, dom, leaf = sf
    u2 = fresh()
    p = mk('prefix', (u2,), dom, tm.subst(leaf, {u: B(u2)}), B(u), ty=leaf.ty)
    if init is not NONE_T:
      return st.new('iter', segs=tup(it(init), mk('for', (u,), dom, it(add(init, p)))))
    return st.new('iter', segs=tup(mk('for', (u,), dom, it(p))))
  raise Unsupported('accumulate over a collection of unknown size')


def it_cwr(I, st, a, k, fr):
  segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
  if segs_exact(segs) and is_c(a[1]):
    xs = items_of(segs)
    if math.comb(len(xs) + cv(a[1]) - 1, cv(a[1])) > 400:
      raise Unsupported('too many combinations')
    return st.new('iter', segs=tup(*[it(tuple_of(*c)) for c in itertools.combinations_with_replacement(xs, cv(a[1]))]))
  raise Unsupported('combinations of unknown size')


def it_simple(fn):
  def f(I, st, a, k, fr):
    segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
    if segs_exact(segs) and all(is_c(x) for x in a[1:]):
      r = list(fn(items_of(segs), *[cv(x) for x in a[1:]]))
      if len(r) > 2000:
        raise Unsupported('too many combinations')
      return st.new('iter', segs=tup(*[it(tuple_of(*c)) for c in r]))
    raise Unsupported('itertools over unknown size')
  return f


def it_chain(I, st, a, k, fr):
  out = ()
  if isinstance(a, T):
    raise Unsupported('chain(*unknown)')
  for x in a:
    out += tuple(I.iter_segs(x, st, fr))
  return st.new('iter', segs=tup(*out))


def it_chain_from(I, st, a, k, fr):
  lst = new_list(st, ())

  def body(x, s):
    segs = I.iter_segs(x, s, fr)
    s.set(lst, 'segs', tup(*s.obj(lst).f['segs'].args, *segs))
  I.loop(a[0], st, fr, body)
  return st.new('iter', segs=st.obj(lst).f['segs'])


def it_zip_longest(I, st, a, k, fr):
  fill = k.get('fillvalue', NONE_T)
  lists = [I.norm_segs(I.iter_segs(x, st, fr), st) for x in a]
  if all(segs_exact(x) for x in lists):
    n = max(len(x) for x in lists)
    return st.new('iter', segs=tup(*[it(tup(*[x[i] if i < len(x) else it(fill) for x in lists])) for i in range(n)]))
  sfs = [single_for(x) for x in lists]
  if all(sfs) and all(x[1] is sfs[0][1] for x in sfs):
    return st.new('iter', segs=tup(*zip_segs(I, st, fr, lists)))
  if all(sfs) and all(x[1].op == 'd.base' for x in sfs) and len(sfs) == 2:
    # positions of the longer one; elements beyond the end are the fill value
    (u1, d1, l1), (u2, d2, l2) = sfs
    u = fresh()
    dom = mk('d.zipl', tup(*lists[0]), tup(*lists[1]))
    x1 = ite(cmp('lt', B(u), card(d1)), tm.subst(l1, {u1: B(u)}), fill)
    x2 = ite(cmp('lt', B(u), card(d2)), tm.subst(l2, {u2: B(u)}), fill)
    return st.new('iter', segs=tup(mk('for', (u,), dom, it(tuple_of(x1, x2)))))
  tys = [leaf_types(x) for x in lists]
  if len(lists) == 2 and None not in tys:
    u, ts = fresh(), [tup(*x) for x in lists]
    xs = [ite(cmp('lt', B(u), count_segs(l)), mk('sel', t, B(u), ty=ty), fill) for l, t, ty in zip(lists, ts, tys)]
    return st.new('iter', segs=tup(mk('for', (u,), mk('d.zipl', *ts), it(tuple_of(*xs)))))
  raise Unsupported('zip_longest over unknown sizes')


def it_starmap(I, st, a, k, fr):
  segs = I.iter_segs(a[1], st, fr)
  return st.new('iter', segs=tup(*mapsegs(I, st, fr, segs, lambda x, s: I.call(a[0], items_of(x.args), {}, s, fr))))


def it_repeat(I, st, a, k, fr):
  n = a[1] if len(a) > 1 else k.get('times', NONE_T)
  if n is NONE_T:
    raise Unsupported('endless repeat')
  return st.new('iter', segs=tup(*as_segs(repeat(I, st, tuple_of(a[0]), 'tuple', n, fr), st)))


def it_islice(I, st, a, k, fr):
  segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
  if segs_exact(segs) and all(is_c(x) for x in a[1:]):
    return st.new('iter', segs=tup(*list(itertools.islice(segs, *[cv(x) for x in a[1:]]))))
  raise Unsupported('islice')


def it_groupby(I, st, a, k, fr):
  segs = I.norm_segs(I.iter_segs(a[0], st, fr), st)
  key = a[1] if len(a) > 1 else k.get('key', NONE_T)
  if not segs_exact(segs):
    raise Unsupported('groupby over a collection of unknown size')
  groups = []
  for x in items_of(segs):
    kx = x if key is NONE_T else I.call(key, [x], {}, st, fr)
    if groups:
      same = decide(I.truth(I.cmpop('eq', groups[-1][0], kx, st, fr), st, fr), st)
      if same is None:
        raise Unsupported('groupby with unknown equality of keys')
      if same:
        groups[-1][1].append(x)
        continue
    groups.append((kx, [x]))
  return st.new('iter', segs=tup(*[it(tuple_of(g, st.new('iter', segs=tup(*[it(x) for x in xs])))) for g, xs in groups]))


ITERTOOLS = {'groupby': it_groupby, 'product': it_product, 'accumulate': it_accumulate, 'combinations_with_replacement': it_cwr, 'combinations': it_simple(itertools.combinations),
             'permutations': it_simple(itertools.permutations), 'chain': it_chain, 'zip_longest': it_zip_longest, 'starmap': it_starmap, 'repeat': it_repeat,
             'islice': it_islice}


def ft_reduce(I, st, a, k, fr):
  segs = I.norm_segs(I.iter_segs(a[1], st, fr), st)
  if len(a) > 2:
    init = a[2]
  else:
    if not segs:
      raise PyRaise('TypeError', I.site(fr, None), 'reduce() of empty iterable')
    if segs[0].op != 'it':
      raise Unsupported('reduce without initial over unknown size')
    init, segs = segs[0].args[0], segs[1:]
  return reduce_(I, st, fr, segs, lambda p, x, s: I.call(a[0], [p, x], {}, s, fr), init)


def ft_partial(I, st, a, k, fr):
  f, pre, kw = a[0], list(a[1:]), dict(k)
  return O(Builtin('partial', lambda I2, s, b, k2, fr2: I2.call(f, pre + list(b), {**kw, **k2}, s, fr2)))


def ft_wraps(I, st, a, k, fr):
  src = a[0]

  def deco(I2, s, b, k2, fr2):
    f = b[0]
    if is_o(f) and isinstance(ov(f), FuncObj):
      ov(f).wrapped = src
      if is_o(src) and isinstance(ov(src), FuncObj):
        for src2 in (ov(src),):
          ob = s.heap.get(getattr(src2, 'aid', None))
          for k, v in (list(ob.f.items()) if ob is not None else []):
            s.set(ov(f).aid, k, v)
        s.set(ov(f).aid, '__name__', C(ov(src).name))
        ov(f).annotations = ov(src).annotations
    return f
  return O(Builtin('wraps', deco))


def ft_cache(I, st, a, k, fr):
  f = a[0]
  if is_o(f) and isinstance(ov(f), FuncObj):
    ov(f).cached = st.new('dict', map=mk('map', C('empty')), default=NONE_T)
  return f


def cached_call(I, f, st, args, kwargs, fr):
  """functools.lru_cache: an equal earlier request gives the value remembered for it"""
  key = tuple_of(*args, *[tuple_of(C('='), C(k), v) for k, v in sorted(kwargs.items())])
  d = f.cached
  m = st.obj(d).f['map']
  for x in (*args, *kwargs.values()):
    if x.op == 'ref' and st.obj(x).kind in ('list', 'dict', 'set'):
      raise PyRaise('TypeError', I.site(fr, None), 'unhashable')
  if m.op != 'map' or m.args[0] is not EMPTY:
    raise Unsupported('cache of unknown content')
  for e in _ents(m):
    r = keq(I, st, e.args[0], key)
    if r is True:
      return e.args[1]
    if r is None:
      raise Unsupported('cache lookup with unknown equality')
  v = I.invoke(f, args, kwargs, st, fr, uncached=True)
  if not st.dead:
    dict_put(I, st, d, key, v)
  return v


def ft_lru(I, st, a, k, fr):
  if a and is_o(a[0]) and isinstance(ov(a[0]), FuncObj):
    return ft_cache(I, st, a, k, fr)
  return O(Builtin('lru_cache()', ft_cache))


FUNCTOOLS = {'reduce': ft_reduce, 'partial': ft_partial, 'wraps': ft_wraps, 'cache': ft_cache, 'lru_cache': ft_lru,
             'total_ordering': lambda I, st, a, k, fr: total_ordering(I, st, a, fr),
             'cached_property': lambda I, st, a, k, fr: O(Prop(a[0]))}


def total_ordering(I, st, a, fr):
  raise Unsupported('total_ordering')


def c_defaultdict(I, st, a, k, fr):
  r = st.new('dict', map=mk('map', EMPTY), default=a[0] if a else NONE_T)
  if len(a) > 1:
    dict_update(I, st, r, a[1], fr)
  return r


def c_counter(I, st, a, k, fr):
  zero = O(Builtin('zero', lambda I2, s, b, k2, fr2: ZERO))
  r = st.new('dict', map=mk('map', EMPTY), default=zero)
  if a:
    def body(x, s):
      setitem(I, s, r, x, I.binop('add', getitem(I, s, r, x, fr), ONE, s, fr), fr)
    I.loop(a[0], st, fr, body)
  return r


COLLECTIONS = {'defaultdict': c_defaultdict, 'Counter': c_counter, 'OrderedDict': lambda I, st, a, k, fr: call_type(I, 'dict', st, a, k, fr)}


def in_getfullargspec(I, st, a, k, fr):
  f = a[0]
  if is_o(f) and isinstance(ov(f), Bound):
    f = ov(f).func
  if not (is_o(f) and isinstance(ov(f), FuncObj)):
    raise Unsupported('getfullargspec of unknown callable')
  return mk('spec', f)


def in_signature(I, st, a, k, fr):
  raise Unsupported('inspect.signature')


def cl_contextmanager(I, st, a, k, fr):
  f = a[0]
  return O(Builtin('contextmanager', lambda I2, s, b, k2, fr2: mk('ctxgen', f, mk('pair', tup(*[it(x) for x in b]), O(dict(k2))))))


def rnd_choices(I, st, a, k, fr):
  pop = a[0]
  w = a[1] if len(a) > 1 else k.get('weights', NONE_T)
  cum = k.get('cum_weights', NONE_T)
  n = k.get('k', ONE)
  pw = lambda x: x if x is NONE_T else tup(*I.iter_segs(x, st, fr))
  p = pw(pop)
  u = fresh()
  ty = leaf_types(p.args)
  draw = C(len(st.heap[EVENTS].f['segs'].args))
  inner = lambda k: mk('sample', p, pw(w), pw(cum), draw, k, ty=ty)
  event(I, st, 'random', C('choices'), p, pw(w), pw(cum), n)
  if is_c(n):
    return new_list(st, tuple(it(inner(C(j))) for j in range(cv(n))))
  return new_list(st, (mk('for', (u,), range_dom(ZERO, n, ONE), it(inner(B(u)))),))


def regex(I, st, name, a, k, fr):
  """regular expressions over known text"""
  import re
  if k or not all(is_c(x) for x in a):
    raise Unsupported(f're.{name} of unknown text')
  xs = [cv(x) for x in a]
  try:
    if name == 'compile':
      r = Opaque('re.Pattern')
      r.attrs = {n: O(Builtin(f're.{n}', lambda I2, s, b, k2, fr2, n=n: regex(I2, s, n, [a[0]] + list(b) + ([ZERO] if n in ('sub', 'split') and len(b) < 3 and len(xs) > 1 else []) + [C(x) for x in xs[1:]], k2, fr2)))
                 for n in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall')}
      r.attrs['pattern'] = a[0]
      return O(r)
    r = getattr(re, name)(*xs)
  except (re.error, TypeError) as e:
    raise PyRaise(type(e).__name__, I.site(fr, None), str(e))
  if r is None or isinstance(r, str):
    return C(r)
  if isinstance(r, list):
    return new_list(st, tuple(it(C(x)) for x in r))
  m = Opaque('re.Match')
  m.attrs = {n: O(Builtin(f'match.{n}', lambda I2, s, b, k2, fr2, n=n: known(getattr(r, n)(*[cv(x) for x in b])))) for n in ('group', 'groups', 'start', 'end', 'span')}
  return O(m)


def known(x):
  return tuple_of(*[known(y) for y in x]) if isinstance(x, tuple) else C(x)


def ty_typevar(I, st, a, k, fr):
  return O(TypeVarObj(cv(a[0])))


_ext = {}


def ext_attr(I, m, name):
  key = (id(I), m.name, name)
  if key in _ext:
    return _ext[key]
  v = _ext_attr(I, m, name)
  _ext[key] = v
  return v


def tbl(mod, t, name):
  return O(Builtin(f'{mod}.{name}', t[name])) if name in t else None


def _ext_attr(I, m, name):
  n = m.name
  if n == 'math':
    if name in ('pi', 'e', 'inf', 'nan', 'tau'):
      return C(getattr(math, name))
    r = tbl(n, MATH, name)
    if r is not None:
      return r
  elif n in ('operator', '_operator'):
    r = tbl('operator', OPERATOR, name.strip('_') if name.startswith('__') and name.strip('_') in OPERATOR else name)
    if r is not None:
      return r
  elif n == 'itertools':
    if name == 'chain':
      x = Builtin('itertools.chain', it_chain)
      x.attrs = {'from_iterable': O(Builtin('chain.from_iterable', it_chain_from))}
      return O(x)
    r = tbl(n, ITERTOOLS, name)
    if r is not None:
      return r
  elif n == 'functools':
    r = tbl(n, FUNCTOOLS, name)
    if r is not None:
      return r
  elif n == 'collections':
    r = tbl(n, COLLECTIONS, name)
    if r is not None:
      return r
    if name == 'abc':
      return O(I.ext('collections.abc'))
  elif n in ('collections.abc', 'typing', 'numbers', 'typing_extensions'):
    if name == 'TYPE_CHECKING':
      return FALSE
    if name == 'TypeVar':
      return O(Builtin('TypeVar', ty_typevar))
    if name in ('overload', 'final', 'override', 'no_type_check', 'runtime_checkable'):
      return O(Builtin(name, lambda I2, st, a, k, fr: a[0]))
    if name == 'cast':
      return O(Builtin('cast', lambda I2, st, a, k, fr: a[1]))
    return O(Opaque(f'{n}.{name}'))
  elif n == 'abc':
    if name in ('abstractmethod', 'abstractproperty'):
      return O(Builtin(name, lambda I2, st, a, k, fr: a[0]))
    return O(Opaque(f'abc.{name}'))
  elif n == 'enum':
    if name == 'auto':
      return O(Builtin('auto', lambda I2, st, a, k, fr: mk('auto', fresh())))
    if name == 'unique':
      return O(Builtin(name, lambda I2, st, a, k, fr: a[0]))
    return O(Opaque(name))
  elif n == 'inspect':
    if name == 'getfullargspec':
      return O(Builtin(name, in_getfullargspec))
    if name == 'signature':
      return O(Builtin(name, in_signature))
  elif n in ('logging', 'warnings'):
    return O(Opaque('logging', sink=True))
  elif n == 'random':
    if name == 'choices':
      return O(Builtin('random.choices', rnd_choices))
    if name == 'choice':
      def choice(I2, st, a, k, fr):
        p = tup(*I2.iter_segs(a[0], st, fr))
        draw = C(len(st.heap[EVENTS].f['segs'].args))
        event(I2, st, 'random', C('choice'), p)
        return mk('sample', p, NONE_T, NONE_T, draw, ZERO, ty=leaf_types(p.args))
      return O(Builtin('random.choice', choice))
    if name in ('randint', 'randrange'):
      def rint(I2, st, a, k, fr):
        if not all(is_c(x) for x in a) or k:
          raise Unsupported(f'random.{name} of unknown bounds')
        b = [cv(x) for x in a]
        p = tup(*[it(C(x)) for x in (range(b[0], b[1] + 1) if name == 'randint' else range(*b))])
        draw = C(len(st.heap[EVENTS].f['segs'].args))
        event(I2, st, 'random', C('choice'), p)
        return mk('sample', p, NONE_T, NONE_T, draw, ZERO, ty=INT)
      return O(Builtin(f'random.{name}', rint))
    if name == 'seed':
      def seed(I2, st, a, k, fr):
        event(I2, st, 'random', C('seed'))
        return NONE_T
      return O(Builtin('random.seed', seed))
    if name in ('sample', 'shuffle'):
      def sample(I2, st, a, k, fr):
        p = tup(*I2.iter_segs(a[0], st, fr))
        n = cv(a[1] if len(a) > 1 else k['k']) if name == 'sample' and (len(a) > 1 or 'k' in k) and is_c(a[1] if len(a) > 1 else k['k']) else len(p.args)
        draw = C(len(st.heap[EVENTS].f['segs'].args))
        event(I2, st, 'random', C('sample'), p)
        r = tuple(it(mk('unreplaced', p, C(n), draw, C(j), ty=leaf_types(p.args))) for j in range(n))
        if name == 'sample':
          return new_list(st, r)
        o = st.obj(a[0])
        if o.kind != 'list':
          raise Unsupported('shuffle')
        st.set(a[0], 'segs', tup(*r))
        return NONE_T
      return O(Builtin(f'random.{name}', sample))
  elif n == 're':
    import re as _re
    if name in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'escape', 'compile'):
      return O(Builtin(f're.{name}', lambda I2, st, a, k, fr: regex(I2, st, name, a, k, fr)))
    if hasattr(_re, name) and name.isupper():
      return C(int(getattr(_re, name)))
  elif n == 'keyword':
    import keyword as _kw
    if name in ('kwlist', 'softkwlist'):
      return tuple_of(*[C(x) for x in getattr(_kw, name)])
    if name in ('iskeyword', 'issoftkeyword'):
      def isk(I2, st, a, k, fr):
        if not _cstr(a[0]):
          return mk('fn', C(name), a[0], ty=BOOL)
        return C(getattr(_kw, name)(cv(a[0])))
      return O(Builtin(f'keyword.{name}', isk))
  elif n == 'string':
    import string as _string
    if isinstance(getattr(_string, name, None), str):
      return C(getattr(_string, name))
  elif n == 'contextlib':
    if name == 'contextmanager':
      return O(Builtin(name, cl_contextmanager))
  elif n == 'copy':
    if name == 'copy':
      def cp(I2, st, a, k, fr):
        x = a[0]
        if x.op == 'ref':
          o = st.obj(x)
          return st.new(o.kind, o.cls, **dict(o.f))
        return x
      return O(Builtin('copy.copy', cp))
    if name == 'deepcopy':
      return O(Builtin('copy.deepcopy', deepcopy_))
  elif n == 'builtins':
    return I.builtin_env.get(name) or O(Opaque('builtins.' + name))
  elif n == 'fractions' or n == 'decimal':
    pass
  elif n == '__future__':
    return O(Opaque('__future__'))
  return O(Opaque(f'{n}.{name}'))


def deepcopy_(I, st, a, k, fr):
  memo = {}

  def go(x):
    if x.op == 'ref':
      if x in memo:
        return memo[x]
      o = st.obj(x)
      if o.kind == 'env':
        return x
      r = st.new(o.kind, o.cls)
      memo[x] = r
      for kk, v in o.f.items():
        st.set(r, kk, go(v) if isinstance(v, T) else v)
      return r
    if not any(y.op == 'ref' for y in tm.subterms(x)):
      return x
    return tm.replace(x, lambda y: go(y) if y.op == 'ref' else None)
  return go(a[0])
