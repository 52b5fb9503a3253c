"""The interpreter proper: modules, statements, expressions, calls."""
import itertools
import ast
import collections
import os
import types
from .interp import *
from .interp import _cmp_poly
from . import terms as tm

BINOPS = {ast.Add: ('add', '__add__', '__radd__'), ast.Sub: ('sub', '__sub__', '__rsub__'), ast.Mult: ('mul', '__mul__', '__rmul__'),
          ast.FloorDiv: ('floordiv', '__floordiv__', '__rfloordiv__'), ast.Div: ('truediv', '__truediv__', '__rtruediv__'),
          ast.Pow: ('pow', '__pow__', '__rpow__'), ast.Mod: ('mod', '__mod__', '__rmod__'), ast.MatMult: ('matmul', '__matmul__', '__rmatmul__'),
          ast.BitAnd: ('bitand', '__and__', '__rand__'), ast.BitOr: ('bitor', '__or__', '__ror__'), ast.BitXor: ('bitxor', '__xor__', '__rxor__'),
          ast.LShift: ('lshift', '__lshift__', '__rlshift__'), ast.RShift: ('rshift', '__rshift__', '__rrshift__')}
OPN = {v[0]: v for v in BINOPS.values()}
CMPOPS = {ast.Eq: ('eq', '__eq__', '__eq__'), ast.NotEq: ('ne', '__ne__', '__ne__'), ast.Lt: ('lt', '__lt__', '__gt__'),
          ast.LtE: ('le', '__le__', '__ge__'), ast.Gt: ('gt', '__gt__', '__lt__'), ast.GtE: ('ge', '__ge__', '__le__')}
CMPN = {v[0]: v for v in CMPOPS.values()}


def exact_shape(v):
  if not isinstance(v, T) or v is POISON or v is UNDEF:
    return False
  if v.op == 'tup':
    return bool(v.args) and all(x.op == 'it' for x in v.args)
  if v.op == 'map':
    return len(v.args) > 1 and v.args[0] is C('empty') and all(is_c(e.args[0]) for e in v.args[1:])
  return False


def elements(v):
  return [x.args[0] for x in v.args] if v.op == 'tup' else [e.args[1] for e in v.args[1:]]


def with_elements(v, xs):
  if v.op == 'tup':
    return mk('tup', *[it(x) for x in xs], ty=v.ty)
  return mk('map', v.args[0], *[mk('e', e.args[0], x) for e, x in zip(v.args[1:], xs)])


def same_shape(a, b):
  if not exact_shape(b) or a.op != b.op or len(a.args) != len(b.args):
    return False
  return a.op == 'tup' or all(x.args[0] is y.args[0] for x, y in zip(a.args[1:], b.args[1:]))


PY_KINDS = {'list': (list, collections.deque), 'tuple': (tuple,), 'set': (set,), 'dict': (dict, collections.Counter, collections.OrderedDict, collections.defaultdict),
            'str': (str,), 'iter': (types.GeneratorType,), 'range': (range,), 'num': (int, float)}
FUNC_KINDS = {'FuncObj': lambda: 0, 'Bound': [].append, 'Builtin': len}
PLAIN_ATTRS = frozenset(dir(type('C', (), {})()))
PLY_CLASSES = ('Lexer', 'LexToken', 'YaccProduction', 'Parser', 'YaccSymbol')


def has_attr(kind, name):
  """does python have this attribute, although the model does not?"""
  return kind not in PY_KINDS or any(hasattr(t, name) for t in PY_KINDS[kind])


_PLY_NAMES = {}


def ply_names(src):
  if src not in _PLY_NAMES:
    names = set()
    for f in ('lex.py', 'yacc.py'):
      p = os.path.join(src, 'parser', 'ply', f)
      if os.path.exists(p):
        with open(p, encoding='utf-8') as h:
          for n in ast.walk(ast.parse(h.read())):
            if isinstance(n, ast.Attribute) and n.attr not in ('lexer', 'lineno', 'lexpos', 'value', 'type', 'endlineno', 'endlexpos'):
              names.add(n.attr)
            elif isinstance(n, ast.FunctionDef):
              names.add(n.name)
    _PLY_NAMES[src] = names
  return _PLY_NAMES[src]


class Args(list):
  """arguments of a builtin that record which of them its model looked at"""
  def __init__(self, xs):
    super().__init__(xs)
    self.seen = set()

  def all_seen(self):
    self.seen.update(range(super().__len__()))

  def __getitem__(self, i):
    if isinstance(i, slice):
      self.seen.update(range(*i.indices(super().__len__())))
    else:
      self.seen.add(i if i >= 0 else super().__len__() + i)
    return super().__getitem__(i)

  def __iter__(self):
    self.all_seen()
    return super().__iter__()

  def __len__(self):
    self.all_seen()
    return super().__len__()

  def __add__(self, o):
    return list(self) + list(o)

  def __radd__(self, o):
    return list(o) + list(self)


class KwArgs(dict):
  def __init__(self, d):
    super().__init__(d)
    self.seen = set()

  def __getitem__(self, k):
    self.seen.add(k)
    return super().__getitem__(k)

  def get(self, k, d=None):
    self.seen.add(k)
    return super().get(k, d)

  def pop(self, k, *d):
    self.seen.add(k)
    return super().pop(k, *d)

  def __contains__(self, k):
    self.seen.add(k)
    return super().__contains__(k)

  def items(self):
    self.seen.update(super().keys())
    return super().items()

  def __iter__(self):
    self.seen.update(super().keys())
    return super().__iter__()

  def __len__(self):
    self.seen.update(super().keys())
    return super().__len__()

  def keys(self):
    self.seen.update(super().keys())
    return super().keys()

  def values(self):
    self.seen.update(super().keys())
    return super().values()


def tracked(name, f, args, kwargs):
  """call a model of a builtin; a model that ignores an argument does not model this call"""
  if len(args) < 2 and not kwargs:
    return f(args, kwargs)
  p, k = Args(args), KwArgs(kwargs)
  err = r = None
  try:
    r = f(p, k)
  except PyRaise as e:
    err = e
  why = ignored(name, p, k)
  if why:
    raise Unsupported(f'{name}() with {why}')
  if err is not None:
    raise err
  return r


WITH_DEFAULT = ('pop', 'get', 'getattr', 'setdefault', 'next')   # the last argument may rightly be unused


def ignored(name, p, k):
  if set(dict.keys(k)) - k.seen:
    return 'keyword argument ' + ', '.join(sorted(set(dict.keys(k)) - k.seen))
  for i in range(list.__len__(p)):
    if i not in p.seen and not (i == list.__len__(p) - 1 and name.split('.')[-1] in WITH_DEFAULT):
      return f'argument {i + 1}'
  return None


class Interp:
  def __init__(self, src, pkg='dice_calc'):
    self.src, self.pkg = src, pkg
    self.modules = {}
    self.trees = {}
    self.exts = {}
    self.rs = [[]]
    self.stack = []
    self.hooks = {}       # qualified function name -> handler(interp, st, args, kwargs) -> T | None
    self.class_hooks = {}  # class name -> constructor handler
    self.functions_seen = set()
    self.frame = None
    self.steps = 0
    self.max_steps = 400000
    self.max_depth = 70
    self._oid = 0
    from . import prims
    self.prims = prims
    self.builtin_env = prims.builtin_env(self)

  # ------------------------------------------------------------ modules
  def nextoid(self):
    self._oid += 1
    return self._oid

  def base_state(self):
    st = State()
    st.next = self.nextoid
    st.heap[EVENTS] = Obj('list', None, {'segs': tup()}, st.tok)
    return st

  def path_of(self, modname):
    """modname relative to the package: '' or 'randvar' or 'parser.myparser'"""
    p = os.path.join(self.src, *modname.split('.')) if modname else self.src
    if os.path.isdir(p):
      return os.path.join(p, '__init__.py'), True
    return p + '.py', False

  def load(self, modname, st):
    m = self.modules.get(modname)
    if m is not None:
      return m
    if modname.startswith('parser.ply'):
      m = self.modules[modname] = ExtModule('ply.' + modname.split('.')[-1])
      return m
    if modname and '.' in modname:
      self.load(modname.rsplit('.', 1)[0], st)
      if modname in self.modules:
        return self.modules[modname]
    path, ispkg = self.path_of(modname)
    if not os.path.exists(path):
      return None
    with open(path, encoding='utf-8') as f:
      text = f.read()
    tree = ast.parse(text, path)
    rel = os.path.relpath(path, os.path.dirname(self.src))
    m = ModuleObj(modname, rel)
    m.ispkg = ispkg
    m.tree = tree
    env = st.new('env')
    m.env = env.args[0]
    self.modules[modname] = m
    self.trees[modname] = tree
    st.set(env, '__name__', C(self.pkg + ('.' + modname if modname else '')))
    fr = Frame(None, m.env)
    fr.module = m
    self.run_block(tree.body, st, fr)
    m.loaded = True
    return m

  def attr_module(self, m, name, st):
    if isinstance(m, ExtModule):
      return self.prims.ext_attr(self, m, name)
    v = st.heap[m.env].f.get(name)
    if v is not None and v is not UNDEF:
      return v
    sub = self.load((m.name + '.' if m.name else '') + name, st) if m.ispkg else None
    if sub is not None:
      return O(sub)
    return None

  def resolve_import(self, node, fr, st):
    mod = fr.module
    base = mod.name if mod.ispkg else (mod.name.rsplit('.', 1)[0] if '.' in mod.name else '')
    if node.level == 0:
      name = node.module
      if name == self.pkg or name.startswith(self.pkg + '.'):
        return self.load(name[len(self.pkg):].lstrip('.'), st)
      return self.ext(name)
    parts = base.split('.') if base else []
    up = node.level - 1
    if up:
      parts = parts[:-up] if up <= len(parts) else []
    if node.module:
      parts = parts + node.module.split('.')
    m = self.load('.'.join(parts), st)
    if m is None:
      raise Unsupported(f'import of {node.module}')
    return m

  def ext(self, name):
    if name not in self.exts:
      self.exts[name] = ExtModule(name)
    return self.exts[name]

  # ------------------------------------------------------------ blocks
  def run_block(self, stmts, st, fr):
    old = self.frame
    self.frame = fr
    try:
      for s in stmts:
        if st.dead:
          break
        self.stmt(s, st, fr)
    finally:
      self.frame = old

  def record_raise(self, e, st):
    self.rs[-1].append(RaiseRec(st.pc, e, st.fork()))

  def branch(self, cond, st, ft, ff):
    """run ft/ff on the two sides of cond; statements-level (no value)"""
    d = decide(cond, st)
    if d is True:
      ft(st)
      return
    if d is False:
      ff(st)
      return
    s1, s2 = st.fork(), st.fork()
    out = []
    for s, lit, f in ((s1, cond, ft), (s2, not_(cond), ff)):
      s.pc = s.pc + (lit,)
      if not s.assume(lit):
        s.dead = True
      else:
        try:
          f(s)
        except PyRaise as e:
          self.record_raise(e, s)
          s.dead = True
      out.append(s)
    s1, s2 = out
    if s1.dead and s2.dead:
      st.become(s1)
      st.dead = True
    elif s1.dead:
      st.become(s2)
    elif s2.dead:
      st.become(s1)
    else:
      n = len(st.pc)
      m = join_states(cond, s1, s2)
      m.pc = m.pc[:n]
      st.become(m)

  def split(self, cond, st, ft, ff):
    """expression-level: ft/ff return values; merged value returned"""
    d = decide(cond, st)
    if d is True:
      return ft(st)
    if d is False:
      return ff(st)
    s1, s2 = st.fork(), st.fork()
    res = []
    for s, lit, f in ((s1, cond, ft), (s2, not_(cond), ff)):
      s.pc = s.pc + (lit,)
      if not s.assume(lit):
        res.append(None)
        continue
      try:
        res.append(f(s))
      except PyRaise as e:
        self.record_raise(e, s)
        res.append(None)
        last = e
    n = len(st.pc)
    if res[0] is None and res[1] is None:
      r = self.rs[-1].pop()
      st.become(r.st)
      st.pc = st.pc[:n]
      raise r.e
    if res[0] is None:
      st.become(s2)
      return res[1]
    if res[1] is None:
      st.become(s1)
      return res[0]
    m = join_states(cond, s1, s2)
    m.pc = m.pc[:n]
    st.become(m)
    return phi(cond, res[0], res[1])

  def cases(self, v, st, f):
    """apply f to the arms of a gated value"""
    if v.op == 'ite':
      return self.split(v.args[0], st, lambda s: self.cases(v.args[1], s, f), lambda s: self.cases(v.args[2], s, f))
    return f(v, st)

  # ------------------------------------------------------------ names
  def lookup(self, name, st, fr):
    env = fr.env
    f = fr.func
    if f is None:
      v = st.heap[env].f.get(name)
      if v is not None and v is not UNDEF:
        return v
      if fr.module is not None and env != fr.module.env:   # class body
        v = st.heap[fr.module.env].f.get(name)
        if v is not None and v is not UNDEF:
          return v
    else:
      e = env
      if name in f.globals:
        e = None
      while e is not None:
        v = st.heap[e].f.get(name)
        if v is not None:
          if v is UNDEF:
            raise PyRaise('UnboundLocalError', self.site(fr, None), name)
          if v is POISON:
            raise Unsupported(f'value of {name} after a loop')
          return v
        e2 = st.heap[e].f.get('#parent')
        e = e2 if not isinstance(e2, T) else None
      v = st.heap[f.module.env].f.get(name)
      if v is not None and v is not UNDEF:
        if v is POISON:
          raise Unsupported(name)
        return v
    if name in self.builtin_env:
      return self.builtin_env[name]
    if name == '__file__':
      return sym('__file__', STR)
    raise PyRaise('NameError', self.site(fr, None), name)

  def store(self, name, v, st, fr):
    f = fr.func
    if f is not None and name in f.globals:
      st.set(f.module.env, name, v)
      return
    if f is not None and name in f.nonlocals:
      e = st.heap[fr.env].f.get('#parent')
      while e is not None:
        if name in st.heap[e].f:
          st.set(e, name, v)
          return
        e = st.heap[e].f.get('#parent')
      raise Unsupported('nonlocal')
    st.set(fr.env, name, v)

  def site(self, fr, node):
    m = getattr(fr, 'module', None) or (fr.func.module if fr and fr.func else None)
    q = fr.func.qual if fr and fr.func else '<module>'
    ln = getattr(node, 'lineno', None) or getattr(self, 'cur_line', '?')
    return f'{m.path if m else "?"}:{ln} in {q}'

  # ------------------------------------------------------------ statements
  def stmt(self, n, st, fr):
    self.cur_line = n.lineno
    self.steps += 1
    if self.steps > self.max_steps:
      raise Unsupported('analysis budget exhausted')
    m = getattr(self, 's_' + type(n).__name__, None)
    if m is None:
      raise Unsupported(f'statement {type(n).__name__}', n)
    m(n, st, fr)

  def s_Expr(self, n, st, fr):
    self.ev(n.value, st, fr)

  def s_Pass(self, n, st, fr):
    pass

  def s_Assign(self, n, st, fr):
    v = self.ev(n.value, st, fr)
    for t in n.targets:
      self.assign(t, v, st, fr)

  def s_AnnAssign(self, n, st, fr):
    if n.value is not None:
      self.assign(n.target, self.ev(n.value, st, fr), st, fr)

  def s_AugAssign(self, n, st, fr):
    t = n.target
    opn = BINOPS[type(n.op)][0]
    if isinstance(t, ast.Name):
      cur = self.lookup(t.id, st, fr)
      v = self.augop(opn, cur, self.ev(n.value, st, fr), st, fr)
      self.store(t.id, v, st, fr)
    elif isinstance(t, ast.Attribute):
      o = self.ev(t.value, st, fr)
      nm = self.mangle(t.attr, fr)
      cur = self.getattr(o, nm, st, fr)
      v = self.augop(opn, cur, self.ev(n.value, st, fr), st, fr)
      self.setattr(o, nm, v, st, fr)
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, st, fr)
      k = self.ev(t.slice, st, fr)
      cur = self.getitem(o, k, st, fr)
      v = self.augop(opn, cur, self.ev(n.value, st, fr), st, fr)
      self.setitem(o, k, v, st, fr)
    else:
      raise Unsupported('augassign', n)

  def augop(self, opn, cur, v, st, fr):
    if cur.op == 'ref':
      o = st.obj(cur)
      if o.kind == 'list' and opn == 'add':
        segs = self.iter_segs(v, st, fr)
        st.set(cur, 'segs', tup(*st.obj(cur).f['segs'].args, *segs))
        return cur
      if o.kind == 'inst':
        f, _ = o.cls.lookup('__i' + OPN[opn][1][2:])
        if f is not None:
          return self.call(O(Bound(f, cur)), [v], {}, st, fr)
      if o.kind in ('set', 'dict'):
        raise Unsupported('in-place set/dict operator')
    return self.binop(opn, cur, v, st, fr)

  def assign(self, t, v, st, fr):
    if isinstance(t, ast.Name):
      self.store(t.id, v, st, fr)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.ev(t.value, st, fr), self.mangle(t.attr, fr), v, st, fr)
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, st, fr)
      if isinstance(t.slice, ast.Slice):
        self.setslice(o, t.slice, v, st, fr)
        return
      self.setitem(o, self.ev(t.slice, st, fr), v, st, fr)
    elif isinstance(t, (ast.Tuple, ast.List)):
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      vals = self.unpack(v, len(t.elts), st, fr, star)
      for e, x in zip(t.elts, vals):
        self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
    else:
      raise Unsupported('assignment target')

  def unpack(self, v, n, st, fr, star=()):
    if v.op == 'ite':
      # unpack both arms and merge elementwise
      c, a, b = v.args
      r = self.split(c, st, lambda s: tuple_of(*self.unpack(a, n, s, fr, star)), lambda s: tuple_of(*self.unpack(b, n, s, fr, star)))
      if r.op == 'ite':
        return [phi(r.args[0], x, y) for x, y in zip(items_of(r.args[1].args), items_of(r.args[2].args))]
      return items_of(r.args)
    segs = self.iter_segs(v, st, fr)
    if not segs_exact(segs):
      segs2 = self.norm_segs(segs, st)
      if segs_exact(segs2):
        segs = segs2
      else:
        sf = single_for(segs)
        if not star and sf is not None and sf[1].op == 'd.zipstar':
          pass
        raise Unsupported('unpacking a collection of unknown size')
    xs = items_of(segs)
    if star:
      i = star[0]
      if len(xs) < n - 1:
        raise PyRaise('ValueError', self.site(fr, None), 'not enough values to unpack')
      k = len(xs) - (n - 1)
      return xs[:i] + [st.new('list', segs=tup(*[it(x) for x in xs[i:i + k]]))] + xs[i + k:]
    if len(xs) != n:
      raise PyRaise('ValueError', self.site(fr, None), 'wrong number of values to unpack')
    return xs

  def norm_segs(self, segs, st):
    out = []
    for s in segs:
      if s.op == 'if':
        d = decide(s.args[0], st)
        if d is True:
          out.extend(self.norm_segs(s.args[1:], st))
          continue
        if d is False:
          continue
      out.append(s)
    return tuple(out)

  def s_Delete(self, n, st, fr):
    for t in n.targets:
      if isinstance(t, ast.Name):
        st.set(fr.env, t.id, UNDEF)
      elif isinstance(t, ast.Subscript):
        self.delitem(self.ev(t.value, st, fr), self.ev(t.slice, st, fr), st, fr)
      else:
        raise Unsupported('del', n)

  def s_Global(self, n, st, fr):
    pass
  s_Nonlocal = s_Global

  def s_If(self, n, st, fr):
    c = self.truth(self.ev(n.test, st, fr), st, fr)
    self.branch(c, st, lambda s: self.run_block(n.body, s, fr), lambda s: self.run_block(n.orelse, s, fr))

  def s_Match(self, n, st, fr):
    v = self.ev(n.subject, st, fr)
    self.match_from(n.cases, 0, v, st, fr)

  def match_from(self, cs, i, v, st, fr):
    if i == len(cs):
      return
    if self.split_on(v):
      self.branch(v.args[0], st, lambda s: self.match_from(cs, i, v.args[1], s, fr), lambda s: self.match_from(cs, i, v.args[2], s, fr))
      return
    c = cs[i]
    cond, binds = self.pattern(c.pattern, v, st, fr)

    def hit(s):
      for nm, x in binds:
        self.store(nm, x, s, fr)
      if c.guard is None:
        self.run_block(c.body, s, fr)
      else:
        g = self.truth(self.ev(c.guard, s, fr), s, fr)
        self.branch(g, s, lambda s2: self.run_block(c.body, s2, fr), lambda s2: self.match_from(cs, i + 1, v, s2, fr))
    self.branch(cond, st, hit, lambda s: self.match_from(cs, i + 1, v, s, fr))

  def pattern(self, p, v, st, fr):
    """condition under which the pattern matches v, and the names it binds"""
    k = type(p).__name__
    if k == 'MatchValue':
      return self.truth(self.cmpop('eq', v, self.ev(p.value, st, fr), st, fr), st, fr), []
    if k == 'MatchSingleton':
      return self.is_(v, C(p.value), st), []
    if k == 'MatchAs':
      cond, binds = (TRUE, []) if p.pattern is None else self.pattern(p.pattern, v, st, fr)
      return cond, binds + ([(p.name, v)] if p.name else [])
    if k == 'MatchOr':
      cond = FALSE
      for q in p.patterns:
        c, b = self.pattern(q, v, st, fr)
        if b and decide(c, st) is True and decide(cond, st) is False:
          return TRUE, b
        if b and decide(c, st) is not False:
          raise Unsupported('alternative patterns with names')
        cond = or_(cond, c)
      return cond, []
    if k == 'MatchSequence':
      if v.op == 'tup':
        segs = v.args
      elif v.op == 'ref' and st.obj(v).kind == 'list':
        segs = st.obj(v).f['segs'].args
      elif v.op == 'ref' and st.obj(v).kind == 'inst' or v.op not in ('ref', 'c', 'o') and not isnum(v) and v.ty != STR:
        raise Unsupported('sequence pattern')
      else:
        return FALSE, []
      segs = self.norm_segs(segs, st)
      if not all(x.op == 'it' for x in segs):
        raise Unsupported('sequence pattern on a collection of unknown size')
      xs = [x.args[0] for x in segs]
      star = [j for j, q in enumerate(p.patterns) if type(q).__name__ == 'MatchStar']
      binds, pairs = [], []
      if star:
        j = star[0]
        tail = len(p.patterns) - j - 1
        if len(xs) < j + tail:
          return FALSE, []
        mid = xs[j:len(xs) - tail]
        pairs = list(zip(p.patterns[:j], xs)) + list(zip(p.patterns[j + 1:], xs[len(xs) - tail:]))
        if p.patterns[j].name:
          binds.append((p.patterns[j].name, st.new('list', segs=tup(*[it(x) for x in mid]))))
      else:
        if len(xs) != len(p.patterns):
          return FALSE, []
        pairs = list(zip(p.patterns, xs))
      return self.all_patterns(pairs, TRUE, binds, st, fr)
    if k == 'MatchClass':
      cls = self.ev(p.cls, st, fr)
      cond = self.truth(self.prims.isinst(self, st, v, cls, fr), st, fr)
      if decide(cond, st) is False:
        return FALSE, []
      if not p.patterns and not p.kwd_patterns:
        return cond, []
      if decide(cond, st) is not True:
        raise Unsupported('class pattern')
      pairs = []
      if p.patterns:
        if is_o(cls) and isinstance(ov(cls), BuiltinType):
          pairs.append((p.patterns[0], v))
        else:
          names = self.getattr(cls, '__match_args__', st, fr)
          pairs += [(q, self.getattr(v, cv(x.args[0]), st, fr)) for q, x in zip(p.patterns, names.args)]
      pairs += [(q, self.getattr(v, a, st, fr)) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]
      return self.all_patterns(pairs, TRUE, [], st, fr)
    raise Unsupported(f'pattern {k}')

  def all_patterns(self, pairs, cond, binds, st, fr):
    for q, x in pairs:
      c, b = self.pattern(q, x, st, fr)
      cond = and_(cond, c)
      if decide(cond, st) is False:
        return FALSE, []
      binds = binds + b
    return cond, binds

  def s_Assert(self, n, st, fr):
    c = self.truth(self.ev(n.test, st, fr), st, fr)
    d = decide(c, st)
    if d is True:
      return
    if d is False:
      raise PyRaise('AssertionError', self.site(fr, n), ast.unparse(n.test))
    s2 = st.fork()
    s2.pc = s2.pc + (not_(c),)
    s2.assume(not_(c))
    self.record_raise(PyRaise('AssertionError', self.site(fr, n), ast.unparse(n.test)), s2)
    st.assume(c)

  def s_Raise(self, n, st, fr):
    if n.exc is None:
      e = getattr(fr, 'handling', None)
      if e is None:
        raise Unsupported('bare raise')
      raise PyRaise(e.exc, e.site, e.msg, e.val)
    v = self.ev(n.exc, st, fr)
    name = None
    if is_o(v) and isinstance(ov(v), BuiltinType):
      name = ov(v).name
    elif is_o(v) and isinstance(ov(v), ClassObj):
      name = ov(v).name
    elif v.op == 'exc':
      name = v.args[0]
    elif v.op == 'ref' and st.obj(v).cls is not None:
      name = st.obj(v).cls.name
    if name is None:
      raise Unsupported('raise of unknown value', n)
    raise PyRaise(name, self.site(fr, n), None, v)

  def s_Return(self, n, st, fr):
    v = self.ev(n.value, st, fr) if n.value is not None else NONE_T
    fr.rets.append((st.pc, [v], st.fork()))
    st.dead = True

  def s_Break(self, n, st, fr):
    fr.loops[-1].brk.append((st.pc, [], st.fork()))
    st.dead = True

  def s_Continue(self, n, st, fr):
    fr.loops[-1].cont.append((st.pc, [], st.fork()))
    st.dead = True

  def s_Import(self, n, st, fr):
    for al in n.names:
      nm = al.name
      m = self.ext(nm if al.asname else nm.split('.')[0]) if not (nm == self.pkg or nm.startswith(self.pkg + '.')) else self.load(nm[len(self.pkg):].lstrip('.'), st)
      self.store(al.asname or nm.split('.')[0], O(m), st, fr)

  def s_ImportFrom(self, n, st, fr):
    fr2 = fr
    if getattr(fr, 'module', None) is None:
      fr.module = fr.func.module
    m = self.resolve_import(n, fr2, st)
    for al in n.names:
      if al.name == '*':
        raise Unsupported('import *')
      v = self.attr_module(m, al.name, st)
      if v is None:
        raise PyRaise('ImportError', self.site(fr, n), al.name)
      self.store(al.asname or al.name, v, st, fr)

  def mkfunc(self, n, st, fr, owner=None):
    a = n.args
    defaults = [self.ev(d, st, fr) for d in a.defaults]
    kwd = {x.arg: self.ev(d, st, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    ann = {}
    if not isinstance(n, ast.Lambda):
      for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        if x.annotation is not None:
          try:
            ann[x.arg] = self.ev(x.annotation, st, fr)
          except (Unsupported, PyRaise):
            ann[x.arg] = O(Opaque('annotation'))
    mod = fr.func.module if fr.func else fr.module
    env = fr.env if (fr.func is not None) else None
    if env is None and getattr(fr, 'closure', None) is not None:
      env = fr.closure
    f = FuncObj(getattr(n, 'name', '<lambda>'), n, env, mod, owner, defaults, kwd, ann)
    f.mangle = getattr(fr, 'mangle', None) or (fr.func.mangle if fr.func else None)
    if not isinstance(n, ast.Lambda):
      f.aid = st.new('env').args[0]
    return f

  def s_FunctionDef(self, n, st, fr):
    f = self.mkfunc(n, st, fr, getattr(fr, 'cls', None))
    if getattr(fr, 'cls', None) is None and fr.func is not None:
      f.qual = fr.func.qual + '.' + f.name
    v = O(f)
    for d in reversed(n.decorator_list):
      dv = self.ev(d, st, fr)
      v = self.call(dv, [v], {}, st, fr)
    self.store(self.mangle(n.name, fr) if getattr(fr, 'cls', None) is not None else n.name, v, st, fr)

  def s_ClassDef(self, n, st, fr):
    bases = []
    isenum = False
    for b in n.bases:
      v = self.ev(b, st, fr)
      x = ov(v) if is_o(v) else None
      if isinstance(x, ClassObj):
        bases.append(x)
        isenum = isenum or getattr(x, 'isenum', False)
      elif getattr(x, 'name', None) in ('Enum', 'IntEnum', 'StrEnum'):
        isenum = True
      elif isinstance(x, BuiltinType):
        bases.append(x)
    mod = fr.func.module if fr.func else fr.module
    c = ClassObj(n.name, bases, mod, n)
    c.aid = st.new('env').args[0]
    c.isenum = isenum
    env = st.new('env').args[0]
    fr2 = Frame(None, env)
    fr2.module = mod
    fr2.cls = c
    fr2.mangle = n.name
    fr2.closure = fr.env if fr.func else None
    if fr2.closure is not None:
      st.set(env, '#parent', fr2.closure)
    st.set(env, '__qualname__', C(n.name))
    self.run_block(n.body, st, fr2)
    for k, v in st.heap[env].f.items():
      if k in ('#parent', '__qualname__'):
        continue
      if isenum and not k.startswith('_') and not (is_o(v) and isinstance(ov(v), (FuncObj, StaticM, ClassM, Prop))):
        v = O(EnumMember(c, k, v))
      c.attrs[k] = v
    v = O(c)
    for d in reversed(n.decorator_list):
      v = self.call(self.ev(d, st, fr), [v], {}, st, fr)
    self.store(n.name, v, st, fr)

  def mangle(self, name, fr):
    m = getattr(fr, 'mangle', None) or (getattr(fr.func, 'mangle', None) if fr.func else None)
    if m and name.startswith('__') and not name.endswith('__'):
      return '_' + m.lstrip('_') + name
    return name

  def s_Try(self, n, st, fr):
    npc = len(st.pc)
    self.rs.append([])
    nret = len(fr.rets)
    nb = [(len(l.brk), len(l.cont)) for l in fr.loops]
    try:
      try:
        self.run_block(n.body, st, fr)
      except PyRaise as e:
        self.record_raise(e, st)
        st.dead = True
    finally:
      recs = self.rs.pop()
    # body finished normally -> else
    live = []
    if not st.dead:
      if n.orelse:
        try:
          self.run_block(n.orelse, st, fr)
        except PyRaise as e:
          recs_out = RaiseRec(st.pc, e, st.fork())
          st.dead = True
          self._after_handlers = getattr(self, '_after_handlers', [])
          recs.append(recs_out)
          recs_out.nohandle = True
      if not st.dead:
        live.append((st.pc, [], st.fork()))
    out = []
    for r in recs:
      handled = False
      if not getattr(r, 'nohandle', False):
        for h in n.handlers:
          names = self.handler_names(h, r.st, fr)
          if names is None or any(exc_matches(r.e.exc, x) for x in names):
            s = r.st
            s.dead = False
            if h.name:
              self.store(h.name, mk('exc', r.e.exc), s, fr)
            old = getattr(fr, 'handling', None)
            fr.handling = r.e
            self.rs.append([])
            try:
              try:
                self.run_block(h.body, s, fr)
              except PyRaise as e2:
                self.record_raise(e2, s)
                s.dead = True
            finally:
              inner = self.rs.pop()
              fr.handling = old
            out.extend(inner)
            if not s.dead:
              live.append((s.pc, [], s))
            handled = True
            break
      if not handled:
        out.append(r)
    if n.finalbody:
      def fin(s):
        s.dead = False
        ok = True
        try:
          self.run_block(n.finalbody, s, fr)
        except PyRaise as e:
          self.record_raise(e, s)
          return False
        return not s.dead
      # on returns
      newrets = fr.rets[nret:]
      del fr.rets[nret:]
      for pc, v, s in newrets:
        if fin(s):
          fr.rets.append((s.pc, v, s))
      for l, (b0, c0) in zip(fr.loops, nb):
        for name, k in (('brk', b0), ('cont', c0)):
          lst = getattr(l, name)
          new = lst[k:]
          del lst[k:]
          for pc, v, s in new:
            if fin(s):
              lst.append((s.pc, v, s))
      out2 = []
      for r in out:
        if fin(r.st):
          out2.append(RaiseRec(r.st.pc, r.e, r.st))
      out = out2
      live = [(s.pc, v, s) for pc, v, s in live if fin(s)]
    for r in out:
      self.rs[-1].append(r)
    if live:
      _, m = join_many(live, npc)
      m.pc = m.pc[:npc] if len(live) > 1 else m.pc
      st.become(m)
      st.dead = False
    else:
      st.dead = True

  s_TryStar = None

  def handler_names(self, h, st, fr):
    if h.type is None:
      return None
    v = self.ev(h.type, st, fr)
    xs = items_of(v.args) if v.op == 'tup' else [v]
    out = []
    for x in xs:
      if is_o(x):
        out.append(ov(x).name)
      else:
        raise Unsupported('except clause')
    return out

  def s_With(self, n, st, fr):
    item = n.items[0]
    rest = n.items[1:]
    body = n.body
    if rest:
      body = [ast.copy_location(ast.With(items=rest, body=n.body), n)]
    cm = self.ev(item.context_expr, st, fr)
    if cm.op == 'ctxgen':
      # generator based context manager: run the generator, the with-body is executed at its yield
      f, args = ov(cm.args[0]), cm.args[1]
      a, kw = args.args[0], args.args[1]
      bodyfr = fr

      def hook(val, s, gfr):
        if item.optional_vars is not None:
          self.assign(item.optional_vars, val, s, bodyfr)
        n0, nr = len(bodyfr.rets), None
        self.run_block(body, s, bodyfr)
        return NONE_T
      self.invoke(f, list(items_of(a.args)), dict(ov(kw)), st, fr, yield_hook=hook)
      return
    if cm.op != 'ref' or st.obj(cm).kind != 'inst':
      raise Unsupported('with', n)
    ent = self.getattr(cm, '__enter__', st, fr)
    v = self.call(ent, [], {}, st, fr)
    if item.optional_vars is not None:
      self.assign(item.optional_vars, v, st, fr)
    ex = self.getattr(cm, '__exit__', st, fr)
    # desugar into try/finally when __exit__ does not look at its arguments' truth
    marker = [ast.Expr(value=ast.Constant(value=None))]

    def exitcall(s, exc):
      a = [NONE_T] * 3 if exc is None else [O(BuiltinType(exc)), mk('exc', exc), O(Opaque('traceback'))]
      return self.call(ex, a, {}, s, fr)
    npc = len(st.pc)
    self.rs.append([])
    nret = len(fr.rets)
    try:
      try:
        self.run_block(body, st, fr)
      except PyRaise as e:
        self.record_raise(e, st)
        st.dead = True
    finally:
      recs = self.rs.pop()
    newrets = fr.rets[nret:]
    del fr.rets[nret:]
    for pc, v, s in newrets:
      exitcall(s, None)
      fr.rets.append((s.pc, v, s))
    live = []
    if not st.dead:
      exitcall(st, None)
      live.append((st.pc, [], st.fork()))
    for r in recs:
      res = exitcall(r.st, r.e.exc)
      d = decide(self.truth(res, r.st, fr), r.st)
      if d is None:
        raise Unsupported('__exit__ result')
      if d:
        r.st.dead = False
        live.append((r.st.pc, [], r.st))
      else:
        self.rs[-1].append(RaiseRec(r.st.pc, r.e, r.st))
    if live:
      _, m = join_many(live, npc)
      st.become(m)
      st.dead = False
    else:
      st.dead = True

  def s_For(self, n, st, fr):
    itv = self.ev(n.iter, st, fr)
    ctx = LoopCtx()

    def body(elem, s):
      fr.loops.append(ctx)
      try:
        self.assign(n.target, elem, s, fr)
        self.run_block(n.body, s, fr)
      finally:
        fr.loops.pop()
    broke = self.loop(itv, st, fr, body, ctx)
    if n.orelse and not st.dead:
      if ctx.brk:
        raise Unsupported('for/else with break', n)
      self.run_block(n.orelse, st, fr)
    if ctx.brk:
      ent = list(ctx.brk)
      if not st.dead:
        ent.append((st.pc, [], st.fork()))
      _, m = join_many(ent, self._npc(ent))
      st.become(m)
      st.dead = False

  def _npc(self, ent):
    pcs = [e[0] for e in ent]
    k = 0
    while all(len(p) > k for p in pcs) and all(p[k] is pcs[0][k] for p in pcs):
      k += 1
    return k

  def s_While(self, n, st, fr):
    ctx = LoopCtx()
    exits = []
    npc = len(st.pc)
    for k in range(getattr(self, "max_rounds", 300)):
      if st.dead:
        break
      c = self.truth(self.ev(n.test, st, fr), st, fr)
      d = decide(c, st)
      if d is None:
        if k > 40:
          raise Unsupported('while loop without static bound', n)
        s2 = st.fork()
        s2.pc += (not_(c),)
        if s2.assume(not_(c)):
          exits.append((s2.pc, [], s2))
        st.pc += (c,)
        if not st.assume(c):
          st.dead = True
          break
      elif d is False:
        exits.append((st.pc, [], st.fork()))
        st.dead = True
        break
      fr.loops.append(ctx)
      try:
        try:
          self.run_block(n.body, st, fr)
        except PyRaise as e:
          self.record_raise(e, st)
          st.dead = True
      finally:
        fr.loops.pop()
      if ctx.cont:
        ent = ctx.cont + ([(st.pc, [], st.fork())] if not st.dead else [])
        ctx.cont = []
        _, m = join_many(ent, self._npc(ent))
        st.become(m)
        st.dead = False
    else:
      raise Unsupported('while loop without static bound', n)
    if n.orelse and exits:
      raise Unsupported('while/else', n)
    ent = exits + ctx.brk
    if ent:
      _, m = join_many(ent, self._npc(ent))
      m.pc = m.pc[:npc] if len(ent) > 1 else m.pc
      st.become(m)
      st.dead = False
    else:
      st.dead = True

  # ------------------------------------------------------------ loops
  def loop(self, itv, st, fr, body, ctx=None):
    """iterate body(elem, state) over itv"""
    segs = self.iter_segs(itv, st, fr)
    self.run_segs(segs, st, fr, body, ctx or LoopCtx())

  def run_segs(self, segs, st, fr, body, ctx):
    for s in segs:
      if st.dead:
        return
      if s.op == 'it':
        npc = len(st.pc)
        try:
          body(s.args[0], st)
        except PyRaise as e:
          if ctx.cont or ctx.brk:
            self.record_raise(e, st)
            st.dead = True
          else:
            raise
        if ctx.cont:
          ent = ctx.cont + ([(st.pc, [], st.fork())] if not st.dead else [])
          ctx.cont = []
          _, m = join_many(ent, self._npc(ent))
          m.pc = m.pc[:npc] if len(ent) > 1 else m.pc
          st.become(m)
          st.dead = False
      elif s.op == 'if':
        self.branch(s.args[0], st, lambda q: self.run_segs(s.args[1:], q, fr, body, ctx), lambda q: None)
      elif s.op == 'for':
        self.generic(s, st, fr, body, ctx)
      else:
        raise Unsupported(f'iteration over {s.op}')

  def locs(self, a, b):
    """locations of objects existing in a that differ in b"""
    out = []
    for oid, oa in a.heap.items():
      ob = b.heap.get(oid)
      if ob is oa or ob is None:
        continue
      for k in list(oa.f) + [k for k in ob.f if k not in oa.f]:
        x, y = oa.f.get(k, UNDEF), ob.f.get(k, UNDEF)
        if x is not y:
          out.append((oid, k))
    return out

  def generic(self, seg, st, fr, body, ctx):
    (uid,), dom, inner = seg.args[0], seg.args[1], seg.args[2:]
    if dom.op == 'd.range':
      a, b, s = dom.args
      if all(map(is_c, dom.args)):
        r = range(cv(a), cv(b), cv(s))
        if len(r) <= 64:
          for k in r:
            if st.dead:
              return
            self.run_segs([tm.subst(x, {uid: C(k)}) for x in inner], st, fr, body, ctx)
          return
    if uid in st.open:
      n = fresh()
      inner = tuple(self.subst_val(x, {uid: B(n)}, st) for x in inner)
      uid = n
    changed = {}     # loc -> loop variable uid
    pretypes = {}
    nret, nraise = len(fr.rets), len(self.rs[-1])
    nbrk = len(ctx.brk)
    elems, noelem = {}, set()
    for attempt in range(8):
      del fr.rets[nret:]
      del self.rs[-1][nraise:]
      del ctx.brk[nbrk:]
      s = st.fork()
      s.open[uid] = dom
      s.pc = ()
      if dom.op == 'd.range':
        b = B(uid)
        if is_c(dom.args[2]) and cv(dom.args[2]) == 1:
          s.assume(cmp('le', dom.args[0], b))
          s.assume(cmp('lt', b, dom.args[1]))
      elif dom.op in POSITIONAL:
        s.assume(cmp('le', ZERO, B(uid)))
      for (oid, k), lv in changed.items():
        pre = st.heap[oid].f.get(k, UNDEF)
        if (oid, k) in elems:
          s.w(oid).f[k] = self.elem_loopvars(pre, elems[oid, k])
        else:
          s.w(oid).f[k] = self.loopvar(pre, lv, pretypes.get((oid, k)))
      start = s.fork()
      sub = LoopCtx()
      try:
        self.run_segs(inner, s, fr, self._wrap(body, ctx, sub), sub)
      except PyRaise as e:
        self.record_raise(e, s)
        s.dead = True
      if s.dead and not ctx.brk[nbrk:] and not fr.rets[nret:]:
        # every iteration raises
        recs = self.rs[-1][nraise:]
        if recs:
          del self.rs[-1][nraise:]
          ne = mk('any', (uid,), dom, TRUE, ty=BOOL)
          if nonempty(dom):
            raise recs[-1].e
          for r in recs:
            r.pc = st.pc + (ne,)
            self.rs[-1].append(r)
          st.assume(not_(ne))
          return
      new = {}
      states = ([] if s.dead else [s]) + [x[2] for x in ctx.brk[nbrk:]]
      for x in states:
        for loc in self.locs(start, x):
          if loc[0] in st.heap:
            new[loc] = True
      more = [l for l in new if l not in changed]
      tychg = False
      for loc in new:
        for x in states:
          p = x.heap[loc[0]].f.get(loc[1], UNDEF)
          if isinstance(p, T) and p.ty is not None:
            old = pretypes.get(loc)
            nt = (old or frozenset()) | p.ty
            if nt != old:
              pretypes[loc] = nt
              tychg = True
      # collections of fixed shape whose elements are overwritten: one loop variable per element
      elchg = False
      for loc in list(changed) + more:
        pre = st.heap[loc[0]].f.get(loc[1], UNDEF)
        if loc in noelem or not exact_shape(pre):
          continue
        posts = [x.heap[loc[0]].f.get(loc[1], UNDEF) for x in states]
        if not all(same_shape(pre, q) for q in posts):
          noelem.add(loc)
          if elems.pop(loc, None) is not None:
            elchg = True
          continue
        if loc in changed and loc not in elems:
          continue
        cur = elems.get(loc)
        if cur is None:
          cur = elems[loc] = {}
          elchg = True
        sv = elements(start.heap[loc[0]].f.get(loc[1], UNDEF))
        pv = elements(pre)
        for q in posts:
          for i, (x, y) in enumerate(zip(sv, elements(q))):
            if x is not y and i not in cur:
              cur[i] = (fresh(), None)
              elchg = True
            if i in cur and cur[i][1] is not False:
              t = cur[i][1]
              z = pv[i]
              if y is POISON or y.ty is None or z is POISON or z.ty is None or z.op == 'ref' or y.op == 'ref':
                nt = False
              else:
                nt = (t or frozenset()) | y.ty | z.ty
              if nt != t:
                cur[i] = (cur[i][0], nt)
                elchg = True
      if not more and not (tychg and attempt < 4) and not elchg:
        break
      for l in more:
        changed[l] = fresh()
    else:
      raise Unsupported('loop state did not stabilise')
    lvs = set(changed.values()) | {x[0] for c in elems.values() for x in c.values()}
    # raises inside the loop
    for r in self.rs[-1][nraise:]:
      g = and_(*r.pc)
      if g.fb & lvs:
        g = TRUE
        r.vague = True
      r.pc = st.pc + (mk('any', (uid,), dom, g, ty=BOOL),)
    # early exits
    newrets = fr.rets[nret:]
    del fr.rets[nret:]
    brk = ctx.brk[nbrk:]
    del ctx.brk[nbrk:]
    if brk and newrets:
      raise Unsupported('loop with both break and return')
    if brk:
      self.close_break(uid, dom, changed, lvs, st, s, brk, ctx, elems)
      return
    if newrets:
      gs = [and_(*pc) for pc, _, _ in newrets]
      if any(g.fb & lvs for g in gs) or any((v[0].fb & lvs) for _, v, _ in newrets):
        raise Unsupported('early return depending on loop-carried state')
      anyg = or_(*gs)
      val = newrets[-1][1][0]
      for (pc, v, _), g in list(zip(newrets, gs))[-2::-1]:
        val = phi(g, v[0], val)
      cond = mk('any', (uid,), dom, anyg, ty=BOOL)
      if uid in val.fb:
        val = mk('first', (uid,), dom, anyg, val, ty=val.ty)
      elif self.reaches_binder(val, uid, newrets[0][2]):
        raise Unsupported('early return of an object built in the loop')
      rs = st.fork()
      for x in newrets:
        for oid, o in x[2].heap.items():
          if oid not in rs.heap:
            rs.heap[oid] = o
      rs.pc = st.pc + (cond,)
      fr.rets.append((rs.pc, [val], rs))
      if s.dead:   # returns on the first element
        st.assume(not_(cond))
        st.pc = st.pc + (not_(cond),)
        for loc in changed:
          pass
        return
      st.pc = st.pc + (not_(cond),)
      st.assume(not_(cond))
    self.close(uid, dom, changed, lvs, st, s, elems)

  def _wrap(self, body, ctx, sub):
    def f(elem, s):
      old = ctx.cont
      ctx.cont = sub.cont
      try:
        body(elem, s)
      finally:
        sub.cont = ctx.cont
        ctx.cont = old
    return f

  def reaches_binder(self, v, uid, st, seen=None):
    if uid in v.fb:
      return True
    seen = seen if seen is not None else set()
    for x in tm.subterms(v):
      if x.op == 'ref' and x not in seen:
        seen.add(x)
        o = st.heap.get(x.args[0])
        if o is None:
          continue
        for y in o.f.values():
          if isinstance(y, T) and self.reaches_binder(y, uid, st, seen):
            return True
    return False

  def elem_loopvars(self, pre, cur):
    def var(i, x):
      if i not in cur:
        return x
      lv, t = cur[i]
      return mk('b', lv, ty=t) if t else POISON
    return with_elements(pre, [var(i, x) for i, x in enumerate(elements(pre))])

  def close_elems(self, uid, dom, lvs, init, post, cur):
    out = []
    for i, (x, y) in enumerate(zip(elements(init), elements(post))):
      if i not in cur:
        out.append(x)
        continue
      try:
        r = self.close_scalar(uid, dom, cur[i][0], lvs, x, y)
      except Unsupported:
        r = None
      out.append(POISON if r is None else r[0])
    return with_elements(init, out)

  def loopvar(self, pre, lv, ty):
    if pre is UNDEF or pre is POISON:
      return POISON
    if pre.op == 'tup':
      return tup(mk('carry', mk('b', lv, ty=None)))
    if pre.op == 'map':
      return mk('map', mk('b', lv, ty=None))
    t = pre.ty
    if t is not None and ty is not None:
      t = t | ty
    if t is None:
      return mk('b', lv, ty=None)
    return mk('b', lv, ty=t)

  def close_break(self, uid, dom, changed, lvs, st, s, brk, ctx, elems={}):
    """for x in ..: if g(x): <set constants>; break"""
    gs = [and_(*pc) for pc, _, _ in brk]
    g = or_(*gs)
    if g.fb & lvs:
      raise Unsupported('break depending on loop-carried state')
    cond = mk('any', (uid,), dom, g, ty=BOOL)
    bs = st.fork()
    vals, bstate = join_many([(pc, [], x) for pc, _, x in brk], 0)
    for loc, lv in changed.items():
      oid, k = loc
      pb = bstate.heap[oid].f.get(k, UNDEF)
      pn = s.heap[oid].f.get(k, UNDEF) if not s.dead else None
      init = st.heap[oid].f.get(k, UNDEF)
      var = self.loopvar(init, lv, None)
      if pb is UNDEF or pb is POISON or (pb.fb & lvs) and not (pb.op == 'b' and pb.args[0] == lv):
        bs.w(oid).f[k] = POISON
      elif pb.op == 'b' and pb.args[0] == lv:
        bs.w(oid).f[k] = POISON if (pn is not None and not (pn.op == 'b' and pn.args[0] == lv)) else init
      elif uid in pb.fb:
        bs.w(oid).f[k] = mk('first', (uid,), dom, g, pb, ty=pb.ty) if pb.ty is not None else POISON
      else:
        bs.w(oid).f[k] = pb
    for oid, o in bstate.heap.items():
      if oid not in bs.heap:
        bs.heap[oid] = o
    bs.pc = st.pc + (cond,)
    bs.assume(cond)
    ctx.brk.append((bs.pc, [], bs))
    st.pc = st.pc + (not_(cond),)
    st.assume(not_(cond))
    if not s.dead:
      self.close(uid, dom, changed, lvs, st, s, elems)

  def close(self, uid, dom, changed, lvs, st, s, elems={}):
    if elems:
      done = {}
      for loc, cur in elems.items():
        init = st.heap[loc[0]].f[loc[1]]
        done[loc] = self.close_elems(uid, dom, lvs, init, s.heap[loc[0]].f[loc[1]], cur)
      changed = {l: v for l, v in changed.items() if l not in elems}
      for loc, v in done.items():
        s.w(loc[0]).f[loc[1]] = st.heap[loc[0]].f[loc[1]]
        st.w(loc[0]).f[loc[1]] = v
      if not changed:
        self.close_nice(uid, dom, changed, lvs, st, s)
        return
    try:
      self.close_nice(uid, dom, changed, lvs, st, s)
    except Unsupported:
      self.close_fold(uid, dom, changed, lvs, st, s)

  def close_fold(self, uid, dom, changed, lvs, st, s):
    """summarise the loop as a simultaneous recurrence over the iteration domain"""
    state = {}
    for loc, lv in changed.items():
      init = st.heap[loc[0]].f.get(loc[1], UNDEF)
      post = s.heap[loc[0]].f.get(loc[1], UNDEF)
      ok = all(x is not UNDEF and x is not POISON and not tm.mentions(x, lambda y: y.op in ('ref', 'o', 'undef', 'poison')) for x in (init, post))
      ok = ok and (post.op in ('tup', 'map') or post.ty is not None) and (init.op in ('tup', 'map')) == (post.op in ('tup', 'map') or post.op == 'ite' and init.op == 'map')
      if ok:
        state[lv] = (loc, init, post)
    while True:
      bad = [lv for lv, (_, _, p) in state.items() if (p.fb & lvs) - set(state)]
      if not bad:
        break
      for lv in bad:
        del state[lv]
    if not state:
      raise Unsupported('loop cannot be summarised')
    order = list(state)
    uids = (uid,) + tuple(order)
    inits = mk('state', *[state[lv][1] for lv in order])
    posts = mk('state', *[state[lv][2] for lv in order])
    fin = {}
    for i, lv in enumerate(order):
      loc, init, post = state[lv]
      if init.op == 'tup':
        M = mk('mfold', uids, dom, C(i), inits, posts)
        u = fresh()
        real = [x for x in post.args if x.op != 'carry'] + list(init.args)
        w = self.prims.pair_width(real) if real else None
        el = mk('sel', M, B(u), ty=None if w else leaf_types([x for x in real if x.op != 'carry']))
        if w:
          tys = [leaf_types(map_segs([x for x in real], lambda v, j=j: v.args[j].args[0])) for j in range(w)]
          el = tuple_of(*[mk('sel', el, C(j), ty=tys[j]) for j in range(w)])
        elif el.ty is None:
          fin[loc] = POISON
          continue
        fin[loc] = tup(mk('for', (u,), mk('d.seq', M), it(el)))
      elif init.op == 'map':
        M = mk('mfold', uids, dom, C(i), inits, posts)
        kt, vt = set(), set()
        for x in tm.subterms(post):
          if x.op == 'e':
            kt.add(x.args[0].ty)
            vt.add(x.args[1].ty)
        if None in kt or None in vt or not kt:
          fin[loc] = POISON
          continue
        fin[loc] = mk('map', mk('mterm', M, frozenset().union(*kt), frozenset().union(*vt)))
      else:
        fin[loc] = mk('mfold', uids, dom, C(i), inits, posts, ty=tyjoin(init.ty, post.ty))
    for oid, o in s.heap.items():
      if oid not in st.heap:
        f = {k: (POISON if isinstance(v, T) and v.fb & (lvs | {uid}) else v) for k, v in o.f.items()}
        st.heap[oid] = Obj(o.kind, o.cls, f, None)
    for loc in changed:
      st.w(loc[0]).f[loc[1]] = fin.get(loc, POISON)

  def close_nice(self, uid, dom, changed, lvs, st, s):
    """fold the effect of one generic iteration (state s) into st"""
    # closed forms of scalar accumulators first: their running values may occur in collections
    running = {}
    final = {}
    pend = []
    for loc, lv in changed.items():
      oid, k = loc
      init = st.heap[oid].f.get(k, UNDEF)
      post = s.heap[oid].f.get(k, UNDEF)
      pend.append((loc, lv, init, post))
    rest = []
    for loc, lv, init, post in pend:
      r = self.close_scalar(uid, dom, lv, lvs, init, post)
      if r is None:
        rest.append((loc, lv, init, post))
      else:
        final[loc], run = r
        if run is not None:
          running[lv] = run
    changed_more = True
    while changed_more:
      changed_more = False
      for x in list(rest):
        loc, lv, init, post = x
        post2 = self.subst_val(post, running, s) if post.fb & running.keys() else post
        if post2 is not post:
          r = self.close_scalar(uid, dom, lv, lvs, init, post2)
          if r is not None:
            final[loc], run = r
            if run is not None:
              running[lv] = run
            rest.remove(x)
            changed_more = True
    for loc, lv, init, post in rest:
      p = self.subst_val(post, running, s) if post.fb & running.keys() else post
      final[loc] = self.close_coll(uid, dom, lv, lvs, init, p)
    for oid, o in s.heap.items():
      if oid not in st.heap:
        if any(isinstance(v, T) and v.fb & lvs for v in o.f.values()):
          f = {}
          for k, v in o.f.items():
            if isinstance(v, T) and v.fb & lvs:
              v = self.subst_val(v, running, s)
              if v.fb & lvs:
                v = POISON
            f[k] = v
          st.heap[oid] = Obj(o.kind, o.cls, f, None)
        else:
          st.heap[oid] = o
    for (oid, k), v in final.items():
      st.w(oid).f[k] = v

  def close_scalar(self, uid, dom, lv, lvs, init, post):
    """-> (final value, running value at the start of iteration) or None"""
    if post is UNDEF or post is POISON or init is UNDEF or init is POISON:
      if post is not UNDEF and post is not POISON and init is UNDEF and not (post.fb & lvs):
        return POISON, None
      return POISON, None
    if post.op in ('tup', 'map') and init.op == post.op:
      return None
    if post.op == 'ite' and init.op == 'map':
      return None
    if not (post.fb & lvs):
      # overwritten each iteration
      if post.ty is not None and init.ty is not None and post.op != 'ref':
        if uid not in post.fb and nonempty(dom):
          return post, None
        return mk('last', (uid,), dom, init, post, ty=tyjoin(init.ty, post.ty)), None
      if uid not in post.fb and nonempty(dom) and post.op != 'ref':
        return post, None
      return POISON, None
    lvt = None
    for x in tm.subterms(post):
      if x.op == 'b' and x.args[0] == lv:
        lvt = x
    if lvt is None:
      return None   # depends on other loop variables only
    if post is lvt:
      return init, init
    others = (post.fb & lvs) - {lv}
    if others:
      return None
    if isnum(post) and isnum(lvt):
      if post.ty == BOOL and init.ty == BOOL:
        f = tm.replace(post, lambda x: FALSE if x is lvt else None)
        if not (f.fb & lvs) and self._nfeq(post, or_(lvt, f)):
          return or_(init, mk('any', (uid,), dom, f, ty=BOOL)), None
        f = tm.replace(post, lambda x: TRUE if x is lvt else None)
        if not (f.fb & lvs) and self._nfeq(post, and_(lvt, f)):
          return and_(init, mk('all', (uid,), dom, f, ty=BOOL)), None
      f = tm.replace(post, lambda x: ZERO if x is lvt else None)
      if lv not in f.fb and self._nfeq(post, add(lvt, f)):
        ty = tyjoin(init.ty, f.ty)
        tot = mk('sum', (uid,), dom, f, ty=f.ty)
        u2 = fresh()
        run = add(init, sub(mk('prefix', (u2,), dom, tm.subst(f, {uid: B(u2)}), B(uid), ty=f.ty), f))
        return add(init, tot), run
      f = tm.replace(post, lambda x: ONE if x is lvt else None)
      if lv not in f.fb and self._nfeq(post, mul(lvt, f)):
        return mul(init, mk('prod', (uid,), dom, f, ty=f.ty)), None
    if post.op == 'concat' and post.args and post.args[0] is lvt:
      piece = self.prims.concat(*post.args[1:])
      if not (piece.fb & lvs):
        return self.prims.concat(init, mk('joinfor', (uid,), dom, C(''), piece, ty=STR)), None
    if post.ty is not None and init.ty is not None:
      pb = tm.replace(post, lambda x: mk('b', lv, ty=post.ty) if x is lvt else None)
      return mk('fold', (uid, lv), dom, init, post, ty=tyjoin(init.ty, post.ty)), None
    raise Unsupported(f'loop-carried value {show(post)[:80]}')

  def _nfeq(self, a, b):
    try:
      return nf_equal(a, b)
    except TooBig:
      return False

  def close_coll(self, uid, dom, lv, lvs, init, post):
    if init.op == 'tup' and post.op == 'tup':
      segs = list(post.args)
      if segs and segs[0].op == 'carry' and segs[0].args[0].args[0] == lv and not any(s.fb & lvs for s in segs[1:]):
        new = tuple(segs[1:])
        if not new:
          return init
        return mk('tup', *init.args, mk('for', (uid,), dom, *new), ty=init.ty)
      if segs and segs[-1].op == 'carry' and segs[-1].args[0].args[0] == lv and not any(s.fb & lvs for s in segs[:-1]):
        new = tuple(segs[:-1])   # prepending
        if len(new) == 1 or all(s.op == 'it' for s in new):
          return mk('tup', mk('for', (uid,), mk('d.rev', dom), *new), *init.args, ty=init.ty)
      raise Unsupported('collection updated in a loop in a way the analysis does not fold')
    if init.op == 'map':
      bag = self.map_bag(post, lv, lvs)
      if bag is not None:
        kind, segs = bag
        return self.prims.map_extend(init, kind, mk('for', (uid,), dom, *segs))
    if init.op == 'ref' or post.op == 'ref':
      raise Unsupported('object variable rebound in a loop')
    raise Unsupported(f'loop-carried {init.op}')

  def map_bag(self, post, lv, lvs):
    """post as function of the carried map -> ('acc'|'put', segs)"""
    if post.op == 'ite':
      a, b = self.map_bag(post.args[1], lv, lvs), self.map_bag(post.args[2], lv, lvs)
      if a is None or b is None or (post.args[0].fb & lvs):
        return None
      ka, kb = a[0], b[0]
      if not a[1]:
        ka = kb
      if not b[1]:
        kb = ka
      if ka != kb:
        return None
      segs = []
      if a[1]:
        segs.append(if_(post.args[0], *a[1]))
      if b[1]:
        segs.append(if_(not_(post.args[0]), *b[1]))
      return ka, segs
    if post.op == 'map' and len(post.args) == 1 and post.args[0].op == 'mrel' and post.args[0].args[0].args[0] == lv:
      segs = post.args[0].args[2].args
      if any(x.fb & lvs for x in segs):
        return None
      return cv(post.args[0].args[1]), list(segs)
    if post.op != 'map' or post.args[0].op != 'b' or post.args[0].args[0] != lv:
      return None
    ents = post.args[1:]
    if not ents:
      return 'acc', []
    # keys of several entries are known to be distinct: each entry is its own update
    base = mk('map', post.args[0])
    kinds, segs = set(), []
    for e in ents:
      k, v = e.args
      if k.fb & lvs:
        return None
      if not (v.fb & lvs):
        kinds.add('put')
        segs.append(it(tuple_of(k, v)))
        continue
      g = None
      for x in tm.subterms(v):
        if x.op == 'mget0' and x.args[0] is base and x.args[1] is k:
          g = x
      if g is None:
        return None
      w = tm.replace(v, lambda x: ZERO if x is g else None)
      if (w.fb & lvs) or not self._nfeq(v, add(g, w)):
        return None
      kinds.add('acc')
      segs.append(it(tuple_of(k, w)))
    if len(kinds) > 1:
      return None
    return kinds.pop(), segs

  # ------------------------------------------------------------ substitution into values with heap objects
  def subst_val(self, v, m, st):
    v2 = tm.subst(v, m)
    refs = [x for x in tm.subterms(v2) if x.op == 'ref']
    if not refs:
      return v2
    memo = {}

    def need(oid, seen):
      if oid in seen:
        return False
      seen.add(oid)
      o = st.heap.get(oid)
      if o is None or o.kind == 'env':
        return False
      for x in o.f.values():
        if isinstance(x, T):
          if x.fb & m.keys():
            return True
          for y in tm.subterms(x):
            if y.op == 'ref' and need(y.args[0], seen):
              return True
      return False

    def clone(oid):
      if oid in memo:
        return memo[oid]
      if not need(oid, set()):
        memo[oid] = mk('ref', oid)
        return memo[oid]
      o = st.heap[oid]
      r = st.new(o.kind, o.cls)
      memo[oid] = r
      f = {}
      for k, x in o.f.items():
        f[k] = go(tm.subst(x, m)) if isinstance(x, T) else x
      st.heap[r.args[0]] = Obj(o.kind, o.cls, f, st.tok)
      return r

    def go(x):
      return tm.replace(x, lambda y: clone(y.args[0]) if y.op == 'ref' else None)
    return go(v2)

  # ------------------------------------------------------------ iteration protocol
  def drain(self, step, end, limit=4096):
    """items that step() produces until it raises end"""
    out = []
    while len(out) < limit:
      try:
        out.append(it(step()))
      except PyRaise as e:
        if e.exc != end:
          raise
        return tuple(out)
    raise Unsupported('iteration without a known end')

  def iter_segs(self, v, st, fr):
    """segments of an iterable (consumes iterators)"""
    if is_o(v) and isinstance(ov(v), InstDict):
      v = self.prims.instdict_snapshot(self, st, ov(v))
    if v.op == 'tup':
      return v.args
    if v.op == 'ite':
      c, a, b = v.args
      x = self.split(c, st, lambda s: tup(*self.iter_segs(a, s, fr)), lambda s: tup(*self.iter_segs(b, s, fr)))
      return x.args
    if is_c(v) and isinstance(cv(v), str):
      return tuple(it(C(ch)) for ch in cv(v))
    if v.op == 'ref':
      o = st.obj(v)
      if o.kind == 'list':
        return o.f['segs'].args
      if o.kind == 'set':
        return self.prims.distinct_segs(self, st, o.f['segs'].args, fr)
      if o.kind == 'iter':
        segs = o.f['segs'].args
        st.set(v, 'segs', tup())
        return segs
      if o.kind == 'dict':
        return self.prims.dict_keys(self, st, v)
      if o.kind == 'inst':
        f, _ = o.cls.lookup('__iter__')
        if f is not None:
          r = self.call(self.bind(f, v, o.cls, st), [], {}, st, fr)
          nx = o.cls.lookup('__next__')[0] if r == v else None
          if nx is not None:
            return self.drain(lambda: self.call(self.bind(nx, v, o.cls, st), [], {}, st, fr), 'StopIteration')
          return self.iter_segs(r, st, fr)
        g, _ = o.cls.lookup('__getitem__')
        if g is not None:
          b, n = self.bind(g, v, o.cls, st), itertools.count()
          return self.drain(lambda: self.call(b, [C(next(n))], {}, st, fr), 'IndexError')
        raise PyRaise('TypeError', self.site(fr, None), f'{o.cls.name} object is not iterable')
    if v.op == 'range':
      a, b, s = v.args
      if is_c(a) and is_c(b) and is_c(s):
        r = range(cv(a), cv(b), cv(s))
        if len(r) <= 64:
          return tuple(it(C(k)) for k in r)
      u = fresh()
      return (mk('for', (u,), range_dom(a, b, s), it(B(u))),)
    if v.op in ('sorted', 'seqterm', 'chars'):
      u = fresh()
      ety = v.args[-1].ty if v.op == 'seqterm' else None
      return (mk('for', (u,), mk('d.seq', v), it(mk('sel', v, B(u), ty=ety))),)
    if is_o(v) and isinstance(ov(v), ClassObj) and getattr(ov(v), 'isenum', False):
      return tuple(it(x) for x in ov(v).attrs.values() if is_o(x) and isinstance(ov(x), EnumMember))
    if isnum(v) or v is NONE_T or is_o(v):
      if is_o(v) and isinstance(ov(v), Opaque):
        return self.prims.opaque_iter(self, st, v, fr)
      raise PyRaise('TypeError', self.site(fr, None), 'object is not iterable')
    if v.ty == STR:
      t = mk('chars', v)
      u = fresh()
      return (mk('for', (u,), mk('d.seq', v), it(mk('sel', v, B(u), ty=STR))),)
    if v.op == 'app':
      return self.prims.opaque_iter(self, st, v, fr)
    raise Unsupported(f'iteration over {show(v)[:60]}')

  # ------------------------------------------------------------ expressions
  def ev(self, n, st, fr):
    m = getattr(self, 'e_' + type(n).__name__, None)
    if m is None:
      raise Unsupported(f'expression {type(n).__name__}', n)
    return m(n, st, fr)

  def e_Constant(self, n, st, fr):
    if n.value is Ellipsis:
      return O(Opaque('...'))
    return C(n.value)

  def e_Name(self, n, st, fr):
    return self.lookup(n.id, st, fr)

  def e_Tuple(self, n, st, fr):
    return tup(*self.elts(n.elts, st, fr))

  def elts(self, es, st, fr):
    out = []
    for e in es:
      if isinstance(e, ast.Starred):
        out.extend(self.iter_segs(self.ev(e.value, st, fr), st, fr))
      else:
        out.append(it(self.ev(e, st, fr)))
    return out

  def e_List(self, n, st, fr):
    return st.new('list', segs=tup(*self.elts(n.elts, st, fr)))

  def e_Set(self, n, st, fr):
    return st.new('set', segs=tup(*self.elts(n.elts, st, fr)))

  def e_Dict(self, n, st, fr):
    r = st.new('dict', map=mk('map', C('empty')), default=NONE_T)
    for k, v in zip(n.keys, n.values):
      if k is None:
        src = self.ev(v, st, fr)
        self.prims.dict_update(self, st, r, src, fr)
      else:
        kv = self.ev(k, st, fr)
        self.prims.dict_put(self, st, r, kv, self.ev(v, st, fr))
    return r

  def e_JoinedStr(self, n, st, fr):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant):
        parts.append(C(v.value))
      else:
        x = self.ev(v.value, st, fr)
        if v.conversion == 114:
          x = self.prims.to_repr(self, x, st, fr)
        elif v.conversion == 115:
          x = self.prims.to_str(self, x, st, fr)
        spec = self.ev(v.format_spec, st, fr) if v.format_spec is not None else C('')
        parts.append(self.prims.to_format(self, x, spec, st, fr))
    return self.prims.concat(*parts)

  def e_FormattedValue(self, n, st, fr):
    return self.e_JoinedStr(ast.JoinedStr(values=[n]), st, fr)

  def e_IfExp(self, n, st, fr):
    c = self.truth(self.ev(n.test, st, fr), st, fr)
    return self.split(c, st, lambda s: self.ev(n.body, s, fr), lambda s: self.ev(n.orelse, s, fr))

  def e_BoolOp(self, n, st, fr):
    isand = isinstance(n.op, ast.And)

    def go(i, s):
      v = self.ev(n.values[i], s, fr)
      if i == len(n.values) - 1:
        return v
      c = self.truth(v, s, fr)
      if isand:
        r = self.split(c, s, lambda q: go(i + 1, q), lambda q: FALSE if v.ty == BOOL else v)
      else:
        r = self.split(c, s, lambda q: TRUE if v.ty == BOOL else v, lambda q: go(i + 1, q))
      return r
    return go(0, st)

  def e_UnaryOp(self, n, st, fr):
    v = self.ev(n.operand, st, fr)
    if isinstance(n.op, ast.Not):
      return not_(self.truth(v, st, fr))
    return self.unop({ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(n.op)], v, st, fr)

  def unop(self, name, v, st, fr):
    if v.op == 'ite' and not isnum(v):
      return self.cases(v, st, lambda x, s: self.unop(name, x, s, fr))
    if isnum(v):
      if is_c(v):
        x = cv(v)
        return C({'neg': lambda: -x, 'pos': lambda: +x, 'invert': lambda: ~x}[name]())
      ty = INT if v.ty <= {'int', 'bool'} else v.ty
      return mk(name, v, ty=ty)
    if v.op == 'ref' and st.obj(v).kind == 'inst':
      o = st.obj(v)
      d = {'neg': '__neg__', 'pos': '__pos__', 'invert': '__invert__'}[name]
      f, _ = o.cls.lookup(d)
      if f is not None:
        return self.call(self.bind(f, v, o.cls, st), [], {}, st, fr)
    if v.op == 'ref' or v is NONE_T or v.op == 'tup' or v.ty == STR:
      raise PyRaise('TypeError', self.site(fr, None), f'bad operand for unary {name}')
    raise Unsupported(f'unary {name}')

  def e_BinOp(self, n, st, fr):
    a = self.ev(n.left, st, fr)
    b = self.ev(n.right, st, fr)
    return self.binop(BINOPS[type(n.op)][0], a, b, st, fr)

  def split_on(self, v):
    return v.op == 'ite' and not isnum(v) and v.ty != STR

  def binop(self, opn, a, b, st, fr):
    if self.split_on(a):
      return self.cases(a, st, lambda x, s: self.binop(opn, x, b, s, fr))
    if self.split_on(b):
      return self.cases(b, st, lambda x, s: self.binop(opn, a, x, s, fr))
    if isnum(a) and isnum(b):
      if opn in ('add', 'sub', 'mul', 'floordiv', 'truediv', 'pow', 'mod'):
        if opn in ('floordiv', 'truediv', 'mod') and is_c(b) and cv(b) == 0:
          raise PyRaise('ZeroDivisionError', self.site(fr, None), 'division by zero')
        return arith(opn, a, b)
      if opn in ('bitand', 'bitor', 'bitxor', 'lshift', 'rshift'):
        if is_c(a) and is_c(b):
          import operator as o_
          f = {'bitand': o_.and_, 'bitor': o_.or_, 'bitxor': o_.xor, 'lshift': o_.lshift, 'rshift': o_.rshift}[opn]
          try:
            return C(f(cv(a), cv(b)))
          except TypeError as e:
            raise PyRaise('TypeError', self.site(fr, None), str(e))
        if 'float' in (a.ty | b.ty) and a.ty <= FLOAT | BOOL or b.ty <= FLOAT:
          raise PyRaise('TypeError', self.site(fr, None), f'unsupported operand for {opn}')
        if a.ty == BOOL and b.ty == BOOL and opn in ('bitand', 'bitor'):
          return and_(a, b) if opn == 'bitand' else or_(a, b)
        return mk(opn, a, b, ty=INT)
      if opn == 'matmul':
        raise PyRaise('TypeError', self.site(fr, None), 'unsupported operand type(s) for @')
    r = self.dunder(OPN[opn][1], OPN[opn][2], a, b, st, fr, opn)
    if r is not None:
      return r
    r = self.prims.seq_binop(self, opn, a, b, st, fr)
    if r is not None:
      return r
    if a.op in ('poison',) or b.op in ('poison',) or a.ty is None and a.op not in ('ref', 'o', 'tup') or b.ty is None and b.op not in ('ref', 'o', 'tup'):
      raise Unsupported(f'{opn} on {show(a)[:40]}, {show(b)[:40]}')
    raise PyRaise('TypeError', self.site(fr, None), f'unsupported operand type(s) for {opn}')

  def inst_cls(self, v, st):
    if v.op == 'ref' and st.obj(v).kind == 'inst':
      return st.obj(v).cls
    return None

  def dunder(self, lname, rname, a, b, st, fr, what):
    """binary protocol; returns None if neither side is an instance of an analysed class"""
    ca, cb = self.inst_cls(a, st), self.inst_cls(b, st)
    if ca is None and cb is None:
      return None
    fa = ca.lookup(lname)[0] if ca else None
    fb = cb.lookup(rname)[0] if cb else None
    tries = []
    if ca is not None and cb is not None and cb is not ca and cb.is_sub(ca) and fb is not None and cb.lookup(rname)[1] is not ca.lookup(rname)[1]:
      tries = [(fb, b, cb, a), (fa, a, ca, b)]
    else:
      tries = [(fa, a, ca, b)]
      if not (ca is not None and ca is cb and lname != rname and what not in CMPN):
        tries.append((fb, b, cb, a))
    # builtin container on the left handles + and * with its own protocol only among containers

    def attempt(i, s):
      if i == len(tries):
        if what in ('eq', 'ne'):
          same = TRUE if a is b else FALSE
          return same if what == 'eq' else not_(same)
        raise PyRaise('TypeError', self.site(fr, None), f'unsupported operand type(s) for {what}: {self.tyname(a, s)} and {self.tyname(b, s)}')
      f, x, c, y = tries[i]
      if f is None:
        return attempt(i + 1, s)
      r = self.call(self.bind(f, x, c, s), [y], {}, s, fr)
      return self.after_notimpl(r, s, lambda q: attempt(i + 1, q))
    return attempt(0, st)

  def after_notimpl(self, r, st, cont):
    if r is NOTIMPL:
      return cont(st)
    if r.op == 'ite' and tm.mentions(r, lambda x: x is NOTIMPL):
      c, x, y = r.args
      return self.split(c, st, lambda s: self.after_notimpl(x, s, cont), lambda s: self.after_notimpl(y, s, cont))
    return r

  def tyname(self, v, st):
    c = self.inst_cls(v, st)
    if c:
      return c.name
    if v.ty:
      return '|'.join(sorted(v.ty))
    return v.op

  def e_Compare(self, n, st, fr):
    left = self.ev(n.left, st, fr)

    def go(i, left, s):
      right = self.ev(n.comparators[i], s, fr)
      r = self.compare(n.ops[i], left, right, s, fr)
      if i == len(n.ops) - 1:
        return r
      c = self.truth(r, s, fr)
      return self.split(c, s, lambda q: go(i + 1, right, q), lambda q: FALSE if r.ty == BOOL else r)
    return go(0, left, st)

  def compare(self, op, a, b, st, fr):
    if isinstance(op, ast.Is):
      return self.is_(a, b, st)
    if isinstance(op, ast.IsNot):
      return not_(self.is_(a, b, st))
    if isinstance(op, ast.In):
      return self.contains(b, a, st, fr)
    if isinstance(op, ast.NotIn):
      return not_(self.contains(b, a, st, fr))
    return self.cmpop(CMPOPS[type(op)][0], a, b, st, fr)

  def is_(self, a, b, st):
    if a is b:
      return TRUE
    if a.op == 'ite':
      return ite(a.args[0], self.is_(a.args[1], b, st), self.is_(a.args[2], b, st))
    if b.op == 'ite':
      return self.is_(b, a, st)
    if b is NONE_T or a is NONE_T:
      x = a if b is NONE_T else b
      if x.op in ('ref', 'o', 'tup', 'range', 'exc') or (x.ty is not None and 'none' not in x.ty):
        return FALSE
      return mk('isnone', x, ty=BOOL)
    if a.op in ('ref', 'o') and b.op in ('ref', 'o'):
      return FALSE
    if is_c(a) and is_c(b):
      return C(cv(a) is cv(b) or (type(cv(a)) is type(cv(b)) and cv(a) == cv(b)))
    if a.ty == BOOL and b.ty == BOOL:
      return cmp('eq', a, b)
    return mk('is', a, b, ty=BOOL)

  def cmpop(self, opn, a, b, st, fr):
    if self.split_on(a):
      return self.cases(a, st, lambda x, s: self.cmpop(opn, x, b, s, fr))
    if self.split_on(b):
      return self.cases(b, st, lambda x, s: self.cmpop(opn, a, x, s, fr))
    if isnum(a) and isnum(b):
      return cmp(opn, a, b)
    nm, l, r = CMPN[opn]
    x = self.dunder(l, r, a, b, st, fr, opn)
    if x is not None:
      return x
    return self.prims.value_cmp(self, opn, a, b, st, fr)

  def contains(self, coll, x, st, fr):
    return self.prims.contains(self, coll, x, st, fr)

  def truth(self, v, st, fr):
    if is_c(v):
      return C(bool(cv(v)))
    if v.ty == BOOL:
      return v
    if v.op == 'ite' and not isnum(v):
      c, a, b = v.args
      return self.split(c, st, lambda s: self.truth(a, s, fr), lambda s: self.truth(b, s, fr))
    if isnum(v):
      return numtruth(v)
    if v.op == 'tup':
      return self.nonempty_segs(v.args)
    if v.op == 'ref':
      o = st.obj(v)
      if o.kind in ('list', 'set'):
        return self.nonempty_segs(o.f['segs'].args)
      if o.kind == 'iter':
        return TRUE
      if o.kind == 'dict':
        return self.prims.dict_nonempty(self, st, v)
      f, _ = o.cls.lookup('__bool__')
      if f is not None:
        return self.truth(self.call(self.bind(f, v, o.cls, st), [], {}, st, fr), st, fr)
      f, _ = o.cls.lookup('__len__')
      if f is not None:
        return not_(cmp('eq', self.call(self.bind(f, v, o.cls, st), [], {}, st, fr), ZERO))
      return TRUE
    if v.op == 'o':
      return TRUE
    if v.ty == STR:
      return not_(self.prims.value_cmp(self, 'eq', v, C(''), st, fr))
    if v.op == 'exc':
      return TRUE
    if v.op == 'app':
      return mk('truth', v, ty=BOOL)
    raise Unsupported(f'truth of {show(v)[:60]}')

  def nonempty_segs(self, segs):
    c = FALSE
    for s in segs:
      if s.op == 'it':
        return TRUE
      if s.op == 'carry':
        raise Unsupported('truth of loop-carried list')
      if s.op == 'if':
        c = or_(c, and_(s.args[0], self.nonempty_segs(s.args[1:])))
      elif s.op == 'for':
        inner = self.nonempty_segs(s.args[2:])
        dom = s.args[1]
        if inner is TRUE:
          while dom.op in ('d.sorted', 'd.rev'):
            dom = dom.args[1 if dom.op == 'd.sorted' else 0]
          if nonempty(dom):
            return TRUE
          if dom.op in ('d.group', 'd.last'):
            c = or_(c, self.nonempty_segs(dom.args[-1].args))
            continue
        c = or_(c, mk('any', s.args[0], s.args[1], inner, ty=BOOL))
    return c

  def e_Attribute(self, n, st, fr):
    o = self.ev(n.value, st, fr)
    return self.getattr(o, self.mangle(n.attr, fr), st, fr)

  def bind(self, f, self_t, cls, st):
    """f: T found in class dict"""
    if is_o(f):
      x = ov(f)
      if isinstance(x, FuncObj):
        return O(Bound(f, self_t))
      if isinstance(x, StaticM):
        return x.f
      if isinstance(x, ClassM):
        return O(Bound(x.f, O(cls)))
      if isinstance(x, Builtin):
        return f
    if f is NONE_T:
      raise PyRaise('TypeError', None, 'None is not callable')
    return f

  def getattr(self, o, name, st, fr, default=None):
    if o.op == 'ite':
      return self.cases(o, st, lambda x, s: self.getattr(x, name, s, fr, default))
    if o.op == 'ref':
      ob = st.obj(o)
      if ob.kind == 'inst':
        v = ob.f.get(name)
        if v is not None:
          if v is POISON:
            raise Unsupported(f'attribute {name} after a loop')
          if v is not UNDEF and not (v.op == 'ite' and tm.mentions(v, lambda x: x is UNDEF)):
            return v
          if v.op == 'ite':
            raise Unsupported(f'attribute {name} possibly undefined')
        if name == '__class__':
          return O(ob.cls)
        if name == '__dict__':
          return O(InstDict(o))
        f, c = self.cls_attr(ob.cls, name, st)
        if f is not None:
          if is_o(f) and isinstance(ov(f), Prop):
            return self.call(O(Bound(ov(f).f, o)), [], {}, st, fr)
          return self.bind(f, o, ob.cls, st)
        g, _ = ob.cls.lookup('__getattr__')
        if g is not None:
          return self.call(self.bind(g, o, ob.cls, st), [C(name)], {}, st, fr)
        if name in PLAIN_ATTRS or ob.cls.name in PLY_CLASSES and name in ply_names(self.src):
          raise Unsupported(f'attribute {name} of an instance')
        if default is not None:
          return default
        raise PyRaise('AttributeError', self.site(fr, None), f'{ob.cls.name!r} object has no attribute {name!r}')
      m = self.prims.method(self, ob.kind, name)
      if m is not None:
        return O(Builtin(f'{ob.kind}.{name}', lambda I, s, a, k, fr2, m=m, o=o: m(I, s, o, a, k, fr2)))
      if has_attr(ob.kind, name):
        raise Unsupported(f'{ob.kind}.{name}')
      if default is not None:
        return default
      raise PyRaise('AttributeError', self.site(fr, None), f'{ob.kind} has no attribute {name}')
    if o.op == 'o':
      x = ov(o)
      if isinstance(x, InstDict):
        m = self.prims.instdict_method(self, x, name)
        if m is None:
          raise Unsupported(f'{name} of __dict__')
        return O(Builtin(f'__dict__.{name}', m))
      if isinstance(x, (ModuleObj, ExtModule)):
        v = self.attr_module(x, name, st)
        if v is None:
          if default is not None:
            return default
          raise PyRaise('AttributeError', self.site(fr, None), f'module {x.name} has no attribute {name}')
        return v
      if isinstance(x, ClassObj):
        f, c = self.cls_attr(x, name, st)
        if f is not None:
          if is_o(f) and isinstance(ov(f), StaticM):
            return ov(f).f
          if is_o(f) and isinstance(ov(f), ClassM):
            return O(Bound(ov(f).f, o))
          return f
        if name == '__name__':
          return C(x.name)
        if name == '__members__' or hasattr(type, name):
          raise Unsupported(f'{name} of a class')
        if default is not None:
          return default
        raise PyRaise('AttributeError', self.site(fr, None), f'class {x.name} has no attribute {name}')
      if isinstance(x, EnumMember):
        if name == 'value':
          return x.value
        if name == 'name':
          return C(x.mname)
      if isinstance(x, FuncObj):
        v = self.overlay(x, name, st)
        if v is not None:
          return v
        if name in ('__name__', '__qualname__'):
          return C(x.name)
        if name == '__annotations__':
          r = st.new('dict', map=mk('map', C('empty')), default=NONE_T)
          for k, v in x.annotations.items():
            self.prims.dict_put(self, st, r, C(k), v)
          return r
        if name == '__wrapped__' and hasattr(x, 'wrapped'):
          return x.wrapped
      if isinstance(x, SuperObj):
        mro = x.inst_cls.mro()
        i = mro.index(x.cls)
        for c in mro[i + 1:]:
          if name in c.attrs:
            return self.bind(c.attrs[name], x.self_t, x.inst_cls, st)
        if name == '__init__':
          return O(Builtin('object.__init__', lambda I, s, a, k, fr2: NONE_T))
        if name in PLAIN_ATTRS or any(not isinstance(c, ClassObj) for c in mro[i + 1:]):
          raise Unsupported(f'super().{name}')
        raise PyRaise('AttributeError', self.site(fr, None), f'super has no attribute {name}')
      if isinstance(x, Opaque):
        return self.prims.opaque_attr(self, st, o, name, fr)
      if isinstance(x, BuiltinType):
        m = self.prims.type_attr(self, x, name)
        if m is not None:
          return m
      if isinstance(x, Bound) and name in ('__name__',):
        return C(getattr(ov(x.func), 'name', '?'))
      py = FUNC_KINDS.get(type(x).__name__)
      if py is None or hasattr(py, name) or isinstance(x, BuiltinType):
        raise Unsupported(f'{name} of {x}')
      if default is not None:
        return default
      raise PyRaise('AttributeError', self.site(fr, None), f'{x} has no attribute {name}')
    if o.op == 'spec':
      return self.prims.spec_attr(self, st, o, name)
    kind = 'tuple' if o.op == 'tup' else 'range' if o.op == 'range' else None
    if kind is None and o.ty == STR:
      kind = 'str'
    if kind is None and isnum(o):
      kind = 'num'
    if kind:
      m = self.prims.method(self, kind, name)
      if m is not None:
        return O(Builtin(f'{kind}.{name}', lambda I, s, a, k, fr2, m=m, o=o: m(I, s, o, a, k, fr2)))
      if has_attr(kind, name):
        raise Unsupported(f'{kind}.{name}')
      if default is not None:
        return default
      raise PyRaise('AttributeError', self.site(fr, None), f'{kind} has no attribute {name!r}')
    if o is NONE_T:
      if hasattr(None, name):
        raise Unsupported(f'{name} of None')
      if default is not None:
        return default
      raise PyRaise('AttributeError', self.site(fr, None), f'None has no attribute {name!r}')
    if o.op == 'app':
      return self.prims.opaque_attr(self, st, o, name, fr)
    raise Unsupported(f'attribute {name} of {show(o)[:60]}')

  def overlay(self, x, name, st):
    """attribute stored on a function or class after its creation"""
    ob = st.heap.get(getattr(x, 'aid', None))
    v = ob.f.get(name) if ob is not None else None
    if v is None or v is UNDEF:
      return None
    if v is POISON or tm.mentions(v, lambda y: y is UNDEF):
      raise Unsupported(f'attribute {name} possibly undefined')
    return v

  def cls_attr(self, c, name, st):
    for k in c.mro():
      if isinstance(k, ClassObj):
        v = self.overlay(k, name, st)
        if v is not None:
          return v, k
        if name in k.attrs:
          return k.attrs[name], k
    return None, None

  def setattr(self, o, name, v, st, fr):
    if o.op == 'ite':
      c, a, b = o.args
      self.branch(c, st, lambda s: self.setattr(a, name, v, s, fr), lambda s: self.setattr(b, name, v, s, fr))
      return
    if o.op == 'ref' and st.obj(o).kind == 'inst':
      st.set(o, name, v)
      return
    if is_o(o) and isinstance(ov(o), Opaque):
      self.prims.opaque_setattr(self, st, o, name, v, fr)
      return
    if is_o(o) and isinstance(ov(o), (FuncObj, ClassObj)) and getattr(ov(o), 'aid', None) in st.heap:
      if name.startswith('__') and name.endswith('__') and isinstance(ov(o), ClassObj):
        raise Unsupported(f'attribute store {name}')
      st.set(ov(o).aid, name, v)
      return
    if is_o(o) and isinstance(ov(o), ModuleObj):
      st.set(ov(o).env, name, v)
      return
    raise Unsupported(f'attribute store {name}')

  def e_Subscript(self, n, st, fr):
    o = self.ev(n.value, st, fr)
    if isinstance(n.slice, ast.Slice):
      return self.prims.slice_(self, st, o, *[self.ev(x, st, fr) if x is not None else NONE_T for x in (n.slice.lower, n.slice.upper, n.slice.step)], fr)
    if is_o(o):
      x = ov(o)
      if isinstance(x, (Opaque, BuiltinType, TypeVarObj)) or (isinstance(x, ClassObj) and not getattr(x, 'isenum', False)):
        return O(Opaque('generic'))
    k = self.ev(n.slice, st, fr)
    return self.getitem(o, k, st, fr)

  def getitem(self, o, k, st, fr):
    return self.prims.getitem(self, st, o, k, fr)

  def setitem(self, o, k, v, st, fr):
    self.prims.setitem(self, st, o, k, v, fr)

  def delitem(self, o, k, st, fr):
    self.prims.delitem(self, st, o, k, fr)

  def setslice(self, o, sl, v, st, fr):
    if sl.lower is None and sl.upper is None and sl.step is None and o.op == 'ref' and st.obj(o).kind == 'list':
      st.set(o, 'segs', tup(*self.iter_segs(v, st, fr)))
      return
    raise Unsupported('slice assignment')

  def e_Lambda(self, n, st, fr):
    return O(self.mkfunc(n, st, fr))

  def e_NamedExpr(self, n, st, fr):
    v = self.ev(n.value, st, fr)
    self.store(n.target.id, v, st, fr)
    return v

  def e_Starred(self, n, st, fr):
    raise Unsupported('starred')

  def comp(self, n, st, fr, emit):
    """run comprehension; emit(state) is called for each produced element with bound targets"""
    # comprehension scope: own env whose parent is the current one
    env = st.new('env').args[0]
    st.set(env, '#parent', fr.env)

    class _F:
      pass
    f2 = Frame(fr.func, env)
    f2.module = getattr(fr, 'module', None)
    f2.mangle = getattr(fr, 'mangle', None)
    if fr.func is None:
      # module or class level: fake function for scoping
      f2.func = _CompFunc(fr)
    f2.loops = fr.loops

    def gen(k, s):
      if k == len(n.generators):
        emit(s, f2)
        return
      g = n.generators[k]
      itv = self.ev(g.iter, s, fr if k == 0 else f2)

      def body(elem, q):
        self.assign_local(g.target, elem, q, f2)

        def conds(i, r):
          if i == len(g.ifs):
            gen(k + 1, r)
            return
          c = self.truth(self.ev(g.ifs[i], r, f2), r, f2)
          self.branch(c, r, lambda z: conds(i + 1, z), lambda z: None)
        conds(0, q)
      self.loop(itv, s, f2, body)
    gen(0, st)

  def assign_local(self, t, v, st, fr):
    if isinstance(t, ast.Name):
      st.set(fr.env, t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      for e, x in zip(t.elts, self.unpack(v, len(t.elts), st, fr, star)):
        self.assign_local(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
    else:
      raise Unsupported('comprehension target')

  def collect(self, n, st, fr):
    lst = st.new('list', segs=tup())

    def emit(s, f2):
      v = self.ev(n.elt, s, f2)
      s.set(lst, 'segs', tup(*s.obj(lst).f['segs'].args, it(v)))
    self.comp(n, st, fr, emit)
    return lst

  def e_ListComp(self, n, st, fr):
    return self.collect(n, st, fr)

  def e_SetComp(self, n, st, fr):
    l = self.collect(n, st, fr)
    return st.new('set', segs=st.obj(l).f['segs'])

  def e_GeneratorExp(self, n, st, fr):
    l = self.collect(n, st, fr)
    return st.new('iter', segs=st.obj(l).f['segs'])

  def e_DictComp(self, n, st, fr):
    r = st.new('dict', map=mk('map', C('empty')), default=NONE_T)

    def emit(s, f2):
      k = self.ev(n.key, s, f2)
      self.prims.dict_put(self, s, r, k, self.ev(n.value, s, f2))
    self.comp(n, st, fr, emit)
    return r

  def e_Yield(self, n, st, fr):
    v = self.ev(n.value, st, fr) if n.value is not None else NONE_T
    if fr.yield_hook is not None:
      return fr.yield_hook(v, st, fr)
    if fr.yields is None:
      raise Unsupported('yield')
    st.set(fr.yields, 'segs', tup(*st.obj(fr.yields).f['segs'].args, it(v)))
    return NONE_T

  def e_YieldFrom(self, n, st, fr):
    v = self.ev(n.value, st, fr)
    segs = self.iter_segs(v, st, fr)
    st.set(fr.yields, 'segs', tup(*st.obj(fr.yields).f['segs'].args, *segs))
    return NONE_T

  # ------------------------------------------------------------ calls
  def e_Call(self, n, st, fr):
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
      f = fr.func
      first = f.node.args.args[0].arg
      self_t = st.heap[fr.env].f[first]
      return O(SuperObj(f.owner, self_t, self.inst_cls(self_t, st) or f.owner))
    f = self.ev(n.func, st, fr)
    args = []
    for a in n.args:
      if isinstance(a, ast.Starred):
        segs = self.norm_segs(self.iter_segs(self.ev(a.value, st, fr), st, fr), st)
        args.extend(segs)
      else:
        args.append(it(self.ev(a, st, fr)))
    kwargs = {}
    for k in n.keywords:
      if k.arg is None:
        d = self.ev(k.value, st, fr)
        kwargs.update(self.prims.dict_to_kwargs(self, st, d, fr))
      else:
        kwargs[k.arg] = self.ev(k.value, st, fr)
    self.cur_line = n.lineno
    if segs_exact(args):
      return self.call(f, [a.args[0] for a in args], kwargs, st, fr)
    return self.call(f, None, kwargs, st, fr, seg_args=tup(*args))

  def call(self, f, args, kwargs, st, fr, seg_args=None):
    if f.op == 'ite':
      return self.cases(f, st, lambda x, s: self.call(x, args, kwargs, s, fr, seg_args))
    if is_o(f):
      x = ov(f)
      if isinstance(x, FuncObj):
        return self.invoke(x, args, kwargs, st, fr, seg_args=seg_args)
      if isinstance(x, Bound):
        if seg_args is not None:
          return self.call(x.func, None, kwargs, st, fr, seg_args=tup(it(x.self_t), *seg_args.args))
        return self.call(x.func, [x.self_t] + list(args), kwargs, st, fr)
      if isinstance(x, ClassObj):
        return self.construct(x, args, kwargs, st, fr, seg_args)
      if isinstance(x, Builtin):
        if seg_args is not None:
          if getattr(x.impl, 'takes_segs', False):
            return x.impl(self, st, seg_args, kwargs, fr)
          raise Unsupported(f'{x.name}(*collection of unknown size)')
        return tracked(x.name, lambda p, k: x.impl(self, st, p, k, fr), args, kwargs)
      if isinstance(x, BuiltinType):
        if seg_args is not None:
          raise Unsupported(f'{x.name}(*...)')
        return tracked(x.name, lambda p, k: self.prims.call_type(self, x.name, st, p, k, fr), args, kwargs)
      if isinstance(x, Opaque):
        return self.prims.call_opaque(self, st, f, args, kwargs, fr, seg_args)
      if isinstance(x, (StaticM, ClassM)):
        return self.call(x.f, args, kwargs, st, fr, seg_args)
    if f.op == 'ref':
      o = st.obj(f)
      if o.kind == 'inst':
        g, _ = o.cls.lookup('__call__')
        if g is not None:
          return self.call(self.bind(g, f, o.cls, st), args, kwargs, st, fr, seg_args)
    if f.op == 'app':
      return self.prims.call_opaque(self, st, f, args, kwargs, fr, seg_args)
    if f.op in ('ref', 'tup', 'c') or isnum(f):
      raise PyRaise('TypeError', self.site(fr, None), 'object is not callable')
    raise Unsupported(f'call of {show(f)[:60]}')

  def construct(self, c, args, kwargs, st, fr, seg_args=None):
    for k in c.mro():
      h = self.class_hooks.get(k.name)
      if h is not None:
        return h(self, c, st, args, kwargs, fr, seg_args)
    if getattr(c, 'isenum', False):
      raise Unsupported('enum call')
    r = st.new('inst', c)
    f, owner = c.lookup('__init__')
    if f is not None:
      self.call(self.bind(f, r, c, st), args, kwargs, st, fr, seg_args)
    elif args or kwargs:
      if any(isinstance(b, BuiltinType) and b.name.endswith(('Error', 'Exception')) for b in c.bases):
        return mk('exc', c.name)
    return r

  def invoke(self, f, args, kwargs, st, fr, seg_args=None, yield_hook=None, uncached=False):
    self.functions_seen.add(f.where)
    if not uncached and getattr(f, 'cached', None) is not None and seg_args is None:
      return self.prims.cached_call(self, f, st, list(args), dict(kwargs), fr)
    h = self.hooks.get(f.qual)
    if h is not None:
      r = h(self, f, st, args, kwargs, fr, seg_args)
      if r is not None:
        return r
    if len(self.stack) > self.max_depth:
      raise Unsupported(f'recursion too deep in {f.qual}')
    n = f.node
    a = n.args
    env = st.new('env').args[0]
    e = st.w(env).f
    if f.env is not None:
      e['#parent'] = f.env
    params = [x.arg for x in a.posonlyargs + a.args]
    kwargs = dict(kwargs)
    if seg_args is not None:
      segs = list(seg_args.args)
      pos = []
      while segs and segs[0].op == 'it' and len(pos) < len(params):
        pos.append(segs.pop(0).args[0])
      if segs and len(pos) < len(params):
        raise Unsupported(f'call of {f.qual} with unknown number of positional arguments')
      if segs and not a.vararg:
        raise Unsupported(f'call of {f.qual} with unknown number of positional arguments')
      extra = tup(*segs)
      args = pos
    else:
      extra = tup(*[it(x) for x in args[len(params):]])
      if len(args) > len(params) and not a.vararg:
        raise PyRaise('TypeError', self.site(fr, None), f'{f.name}() takes {len(params)} positional arguments')
      args = args[:len(params)]
    for p, v in zip(params, args):
      e[p] = v
    for i, p in enumerate(params[len(args):], len(args)):
      if p in kwargs:
        e[p] = kwargs.pop(p)
      else:
        di = i - (len(params) - len(f.defaults))
        if di >= 0:
          e[p] = f.defaults[di]
        else:
          raise PyRaise('TypeError', self.site(fr, None), f'{f.name}() missing argument {p!r}')
    for p in params[:len(args)]:
      if p in kwargs:
        raise PyRaise('TypeError', self.site(fr, None), f'{f.name}() got multiple values for {p!r}')
    for x in a.kwonlyargs:
      if x.arg in kwargs:
        e[x.arg] = kwargs.pop(x.arg)
      elif x.arg in f.kwdefaults:
        e[x.arg] = f.kwdefaults[x.arg]
      else:
        raise PyRaise('TypeError', self.site(fr, None), f'{f.name}() missing keyword argument {x.arg!r}')
    if a.vararg:
      e[a.vararg.arg] = extra
    if a.kwarg:
      d = st.new('dict', map=mk('map', C('empty')), default=NONE_T)
      for k, v in kwargs.items():
        self.prims.dict_put(self, st, d, C(k), v)
      e[a.kwarg.arg] = d
    elif kwargs:
      raise PyRaise('TypeError', self.site(fr, None), f'{f.name}() got unexpected keyword {sorted(kwargs)[0]!r}')
    fr2 = Frame(f, env)
    fr2.module = f.module
    fr2.mangle = f.mangle
    fr2.yield_hook = yield_hook
    if isinstance(n, ast.Lambda):
      self.stack.append(f)
      try:
        return self.ev(n.body, st, fr2)
      finally:
        self.stack.pop()
    if f.is_gen and yield_hook is None:
      fr2.yields = st.new('iter', segs=tup())
    pc0 = st.pc
    st.pc = ()
    n0 = len(self.rs[-1])
    self.stack.append(f)
    line = getattr(self, 'cur_line', None)
    old = self.frame
    try:
      try:
        self.frame = fr2
        for s in n.body:
          if st.dead:
            break
          self.stmt(s, st, fr2)
      except PyRaise as ex:
        if not fr2.rets:
          st.pc = pc0 + st.pc
          raise
        self.record_raise(ex, st)
        st.dead = True
    finally:
      self.frame = old
      self.stack.pop()
      for r in self.rs[-1][n0:]:
        r.pc = pc0 + r.pc
    self.cur_line = line
    ent = list(fr2.rets)
    if not st.dead:
      ent.append((st.pc, [NONE_T], st.fork()))
    if not ent:
      recs = self.rs[-1]
      if len(recs) > n0:
        r = recs.pop()
        st.become(r.st)
        st.pc = pc0
        raise r.e
      raise Unsupported(f'no outcome of {f.qual}')
    vals, m = join_many(ent, 0)
    st.become(m)
    st.pc = pc0
    st.dead = False
    if fr2.yields is not None:
      return fr2.yields
    return vals[0]


def numtruth(v):
  if v.ty == BOOL:
    return v
  if v.op == 'ite':
    return ite(v.args[0], numtruth(v.args[1]), numtruth(v.args[2]))
  return not_(cmp('eq', v, ZERO))


class SuperObj:
  def __init__(self, cls, self_t, inst_cls):
    self.cls, self.self_t, self.inst_cls = cls, self_t, inst_cls
    self.name = 'super'


class _CompFunc:
  """scope holder for module-level comprehensions"""

  def __init__(self, fr):
    self.globals, self.nonlocals = set(), set()
    self.module = fr.module
    self.qual = '<comprehension>'
    self.mangle = getattr(fr, 'mangle', None)
    self.name = '<comp>'
    self.owner = None
