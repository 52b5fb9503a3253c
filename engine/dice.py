"""Analysis world for the dice package: loads the sources into the abstract interpreter, provides
abstract dice / sequences / numbers as inputs, the constructor contract of RV (verified separately by
property C08) and comparison of computed summaries with specifications."""
from fractions import Fraction
import math
from .terms import *
from . import terms as tm
from . import prims
from .core import Interp
from .interp import *
from .nf import dist_nf, nf, NotDist, TooBig, equal as nf_equal
from .evalt import Model, EvErr, EvZero, Unknown, canon, close, dist_close

import os
REPO = os.environ.get('VERIF_DEV_REPO') or '/repo'


class AnchorMissing(Exception):
  """a public name the analysis is anchored at is gone"""


class World:
  def __init__(self, src=None, contract=True, extra_modules=()):
    self.I = Interp(src or REPO + '/src')
    self.st = self.I.base_state()
    self.root = self.I.load('', self.st)
    for m in extra_modules:
      if self.I.load(m, self.st) is None:
        raise AnchorMissing(f'module {m}')
    self.preload(self.I.src, '')
    self.reset()
    self.fr = Frame(None, self.root.env)
    self.fr.module = self.root
    self.RV = self.cls('randvar', 'RV')
    self.Seq = self.cls('seq', 'Seq')
    self.Blank = self.cls('blackrv', 'BlankRV')
    self.contract = contract
    if contract:
      self.I.class_hooks['RV'] = self.rv_hook
      self.I.hooks['RV._sort_and_group'] = self.group_hook

  def preload(self, d, pkg):
    """every module of the package, before states are forked"""
    for f in sorted(os.listdir(d)):
      name = pkg + f.removesuffix('.py')
      if os.path.isdir(os.path.join(d, f)) and os.path.exists(os.path.join(d, f, '__init__.py')):
        if name != 'parser':   # the compiler is loaded with the model of PLY
          self.preload(os.path.join(d, f), name + '.')
      elif f.endswith('.py') and f not in ('__init__.py', '__main__.py') and name not in self.I.modules and not f.startswith('example'):
        s = self.st.fork()
        try:
          self.I.load(name, s)
        except Exception:
          for m in [m for m, x in self.I.modules.items() if getattr(x, 'env', None) is not None and x.env not in self.st.heap]:
            del self.I.modules[m]
          continue
        self.st = s

  def reset(self):
    """forget the inputs of the previous obligation"""
    for t in (POSITIVE, RANKS, INJECTIVE, MAYBE_EMPTY):
      t.clear()
    self.arrays, self.sizes, self.syms, self.funcs = {}, {}, {}, {}
    self.pre = []

  # ------------------------------------------------------------ names
  def get(self, mod, name, st=None):
    m = self.I.load(mod, st or self.st)
    if m is None:
      raise AnchorMissing(f'module {mod}')
    v = self.I.attr_module(m, name, st or self.st)
    if v is None:
      raise AnchorMissing(f'{mod}.{name}')
    return v

  def pub(self, name):
    return self.get('', name)

  def cls(self, mod, name):
    v = self.get(mod, name)
    if not (is_o(v) and isinstance(ov(v), ClassObj)):
      raise AnchorMissing(f'class {mod}.{name}')
    return ov(v)

  def define(self, src, name, st=None, mod=''):
    """interpret a small definition (probe) in the package namespace and return the named value"""
    import ast as _ast
    st = st or self.st
    m = self.I.load(mod, st)
    env = st.new('env')
    for k, v in st.heap[m.env].f.items():
      st.w(env.args[0]).f[k] = v
    pm = ModuleObj('#probe', '<probe>')
    pm.env, pm.ispkg, pm.loaded = env.args[0], True, True
    pm.name = ''
    fr = Frame(None, pm.env)
    fr.module = pm
    self.I.run_block(_ast.parse(src).body, st, fr)
    return st.heap[env.args[0]].f[name]

  # ------------------------------------------------------------ inputs
  def settings_dict(self):
    return self.get('settings', 'SETTINGS')

  def setting(self, name, v, st):
    prims.dict_put(self.I, st, self.settings_dict(), C(name), v if isinstance(v, T) else C(v))

  def raw_rv(self, st, vals, probs):
    """an RV object with the given vals/probs terms and the constructor's other fields"""
    r = st.new('inst', self.RV)
    f, _ = self.RV.lookup('__init__')
    old = self.I.class_hooks.pop('RV', None)
    try:
      self.I.call(O(Bound(f, r)), [tuple_of(ZERO), tuple_of(ONE)], {}, st, self.fr)
    finally:
      if old is not None:
        self.I.class_hooks['RV'] = old
    st.set(r, 'vals', vals)
    st.set(r, 'probs', probs)
    return r

  def die(self, name, st, ty=INT, deps=()):
    """an arbitrary die: any number (>=1) of distinct ascending faces with non-negative weights"""
    d = dbase(name, *deps)
    u1, u2 = fresh(), fresh()
    vals = tup(mk('for', (u1,), d, it(fn(name + '.v', *deps, B(u1), ty=ty))))
    probs = tup(mk('for', (u2,), d, it(fn(name + '.p', *deps, B(u2), ty=INT))))
    POSITIVE[name + '.p'] = 0
    INJECTIVE.add(name + '.v')
    u = fresh()
    pos = cmp('lt', ZERO, mk('sum', (u,), d, fn(name + '.p', *deps, B(u), ty=INT), ty=INT))
    if not deps:
      st.assume(pos)
      self.pre.append(pos)
    st.assume(cmp('le', ONE, card(d)))
    self.arrays[name + '.v'] = lambda m, rng, *idx: _asc(m, name, idx, ty)
    self.arrays[name + '.p'] = lambda m, rng, *idx: _wt(m, name, idx)
    return self.raw_rv(st, vals, probs)

  def ranked(self, group, n, ty=INT, lo=None, prefix=None):
    """n distinct symbols in known ascending order"""
    prefix = prefix or group
    out = []
    for i in range(n):
      t = sym(f'{prefix}{i}', ty)
      RANKS[t] = (group, i)
      if lo is not None:
        POSITIVE[f'{prefix}{i}'] = lo
      self.syms[f'{prefix}{i}'] = lambda m, rng, i=i: _ranks(m, group, n, ty, lo)[i]
      out.append(t)
    return out

  def die_exact(self, name, st, n, ty=INT, weights=None):
    """a die with exactly n symbolic faces in ascending order and positive symbolic weights"""
    vs = self.ranked(name + '.v', n, ty)
    ps = [C(x) for x in weights] if weights else [sym(f'{name}.p{i}', INT) for i in range(n)]
    for p in ps:
      if p.op == 'sym':
        POSITIVE[p.args[0]] = 1
    return self.raw_rv(st, tuple_of(*vs), tuple_of(*ps)), vs, ps

  def num(self, name, ty=INT, lo=None):
    t = sym(name, ty)
    if lo is not None:
      POSITIVE[name] = lo
    return t

  def seq_segs(self, name, ty=INT, deps=()):
    d = dbase(name, *deps)
    u = fresh()
    MAYBE_EMPTY.add(name)
    self.sizes.setdefault(name, lambda rng, *a: rng.choice([0, 1, 2, 2, 3]))
    return tup(mk('for', (u,), d, it(fn(name + '.e', *deps, B(u), ty=ty))))

  def seq(self, name, st, ty=INT):
    r = st.new('inst', self.Seq)
    f, _ = self.Seq.lookup('__init__')
    self.I.call(O(Bound(f, r)), [], {'_INTERNAL_SEQ_VALUE': self.seq_segs(name, ty)}, st, self.fr)
    return r

  def seq_exact(self, st, vals):
    r = st.new('inst', self.Seq)
    f, _ = self.Seq.lookup('__init__')
    self.I.call(O(Bound(f, r)), [], {'_INTERNAL_SEQ_VALUE': tuple_of(*vals)}, st, self.fr)
    return r

  def list_(self, name, st, ty=INT):
    return st.new('list', segs=self.seq_segs(name, ty))

  def blank(self, st, special=False):
    return self.I.call(O(self.Blank), [], {'_special_null': C(True)} if special else {}, st, self.fr)

  # ------------------------------------------------------------ the constructor contract
  def rv_hook(self, I, cls, st, args, kwargs, fr, seg_args):
    if seg_args is not None:
      raise Unsupported('RV(*...)')
    names = ['vals', 'probs', 'truncate']
    a = dict(zip(names, args))
    a.update(kwargs)
    if 'vals' not in a or 'probs' not in a:
      raise Unsupported('RV constructor arguments')
    vs = I.iter_segs(a['vals'], st, fr)
    ps = I.iter_segs(a['probs'], st, fr)
    pairs = prims.zip_segs(I, st, fr, [vs, ps], strict=True)
    # zero-one faces from comparisons are stored as integers
    tr = a.get('truncate', NONE_T)
    if tr is NONE_T:
      tr = prims.getitem(I, st, self.settings_dict(), C('RV_TRUNC'), fr)
    c = I.truth(tr, st, fr)

    def build(s, trunc):
      def leaf(t):
        v, p = t.args[0].args[0], t.args[1].args[0]
        if v.ty == BOOL:
          v = C(int(cv(v))) if is_c(v) else mk('b2i', v, ty=INT)
        if trunc:
          v = prims.call_type(I, 'int', s, [v], {}, fr)
        return tuple_of(v, p)
      segs = map_segs(pairs, leaf)
      return self.rv_of_bag(s, segs, cls)
    return I.split(c, st, lambda s: build(s, True), lambda s: build(s, False))

  def group_hook(self, I, f, st, args, kwargs, fr, seg_args):
    """grouping under the constructor contract (only for collections of unknown size)"""
    names = ['vals', 'probs', 'skip_zero_probs', 'normalize']
    a = dict(zip(names, args))
    a.update(kwargs)
    if seg_args is not None or set(a) != set(names) or a['normalize'] is not TRUE or not is_c(a['skip_zero_probs']):
      return None
    fr = fr or self.fr
    vs = I.iter_segs(a['vals'], st, fr)
    ps = I.iter_segs(a['probs'], st, fr)
    if segs_exact(vs) and segs_exact(ps):
      return None
    pairs = prims.zip_segs(I, st, fr, [vs, ps], strict=True)
    if cv(a['skip_zero_probs']):
      pairs = tuple(_nonzero(pairs))
    r = self.rv_of_bag(st, pairs)
    return tuple_of(st.obj(r).f['vals'], st.obj(r).f['probs'])

  def rv_of_bag(self, st, segs, cls=None):
    if segs_exact(segs):
      pairs = [(x.args[0].args[0].args[0], x.args[0].args[1].args[0]) for x in segs]
      if all(is_c(v) and is_c(p) and isinstance(cv(v), (int, float)) and isinstance(cv(p), int) for v, p in pairs):
        ks, ws = canon([(cv(v), cv(p)) for v, p in pairs])
        return self.raw_rv(st, tuple_of(*map(C, ks)), tuple_of(*map(C, ws)))
      if len(pairs) == 1:
        v, p = pairs[0]
        if is_c(p) and cv(p) > 0:
          return self.raw_rv(st, tuple_of(v), tuple_of(ONE))
      if len(pairs) <= 6 and all(is_c(p) and isinstance(cv(p), int) and cv(p) > 0 for _, p in pairs):
        r = self.sorted_pairs(st, pairs)
        if r:
          return self.raw_rv(st, tuple_of(*[v for v, _ in r]), tuple_of(*[C(p) for _, p in r]))
    d = mk('d.faces', tup(*segs))
    lt = leaf_types(map_segs(segs, lambda t: t.args[0].args[0]))
    u1, u2 = fresh(), fresh()
    vals = tup(mk('for', (u1,), d, it(mk('face', d, B(u1), ty=lt))))
    probs = tup(mk('for', (u2,), d, it(mk('facew', d, B(u2), ty=INT))))
    return self.raw_rv(st, vals, probs)

  def sorted_pairs(self, st, pairs):
    """canonical form of faces whose mutual order is known, None if it is not"""
    out = []
    for v, p in pairs:
      p = cv(p)
      for i, (x, q) in enumerate(out):
        if decide(cmp('eq', v, x), st) is True:
          out[i] = (x, q + p)
          break
        lt = decide(cmp('lt', v, x), st)
        if lt is True:
          out.insert(i, (v, p))
          break
        if lt is not False:
          return None
      else:
        out.append((v, p))
    g = math.gcd(*[p for _, p in out])
    return [(v, p // g) for v, p in out]

  # ------------------------------------------------------------ reading results
  def kind(self, v, st):
    if v.op == 'ref':
      o = st.obj(v)
      if o.kind == 'inst':
        return o.cls.name
      return o.kind
    if v is NONE_T:
      return 'None'
    if v.op == 'tup':
      return 'tuple'
    if isnum(v):
      return 'num'
    if v.ty == STR:
      return 'str'
    if v.op == 'ite':
      return 'ite'
    return v.op

  def segs_of(self, rv, st):
    """weighted-value segments of a die object"""
    o = st.obj(rv)
    vs, ps = o.f['vals'], o.f['probs']
    pairs = prims.zip_segs(self.I, st, self.fr, [vs.args, ps.args], strict=True)
    out = []
    for s in pairs:
      out.append(s)
    return tuple(out)

  def models(self, n=24, seed=0, consts=()):
    for k in range(n):
      m = Model(seed * 1000 + k, self.arrays, self.sizes, self.syms, self.funcs, consts if k % 2 else ())
      yield m


def _nonzero(segs):
  for s in segs:
    if s.op == 'it':
      yield mk('if', cmp('ne', s.args[0].args[1].args[0], ZERO), s)
    elif s.op == 'for':
      yield mk('for', s.args[0], s.args[1], *_nonzero(s.args[2:]))
    else:
      yield mk('if', s.args[0], *_nonzero(s.args[1:]))


def _ranks(m, group, n, ty, lo):
  k = ('ranks', group)
  if k not in m.cache:
    rng = m._h(*k)
    if lo is not None:
      pool = range(lo, lo + 4 * n + 3)
    elif ty is not None and ty <= {'int', 'bool'}:
      pool = range(-n - 2, 2 * n + 4)
    else:
      pool = [x / 2 if x % 2 else x // 2 for x in range(-2 * n - 4, 4 * n + 6)]
    m.cache[k] = sorted(rng.sample(list(pool), n))
  return m.cache[k]


def _asc(m, name, idx, ty):
  i = idx[-1]
  k = ('asc', name, idx[:-1])
  if k not in m.cache:
    rng = m._h(*k)
    size = m.size(name, idx[:-1])
    if ty is not None and ty <= {'int', 'bool'}:
      pool = list(range(-3, 9))
    elif ty is not None and 'int' not in ty:
      pool = [x / 4 for x in range(-9, 30, 1) if x % 4]
    else:
      pool = [-3, -1.5, -1, -0.75, -0.5, 0, 0.5, 1, 2, 2.25, 3, 4, 5.5, 6]
    cs = [c for c in m.consts if type(c).__name__ in (ty or ('int', 'float')) and c not in pool and abs(c) < 10 ** 9]
    n = max(size, i + 1)
    style = rng.random()
    if style < 0.25:
      sub = [x for x in pool if x > 0]
    elif style < 0.35:
      sub = [x for x in pool if x >= 0]
    elif style < 0.42:
      sub = [x for x in pool if x < 0]
    else:
      sub = pool
    if len(sub) >= n:
      pool = sub
    xs = rng.sample(pool, n)
    if style > 0.9 and 0 in pool and 0 not in xs:
      xs[0] = 0
    for j in range(n):
      if cs and rng.random() < 0.3:
        c = rng.choice(cs)
        if c not in xs:
          xs[j] = c
    m.cache[k] = sorted(xs)
  return m.cache[k][i]


def _wt(m, name, idx):
  i = idx[-1]
  k = ('wt', name, idx[:-1])
  if k not in m.cache:
    rng = m._h(*k)
    xs = [rng.choice([1, 1, 2, 3, 4, 5]) for _ in range(8)]
    if rng.random() < 0.1:   # weights far beyond those of small dice, below the rescaling limit
      xs = [x * 10 ** 9 + rng.randrange(10 ** 6) for x in xs]
    if rng.random() < 0.15:
      xs[rng.randrange(1, 8)] = 0
    m.cache[k] = xs
  return m.cache[k][i]
