"""C06: no call changes a value (or container) that existed before it"""
from .rolled import *

TWO_ = C(2)


def reach(st, roots, skip_env=True):
  """object ids reachable from some terms"""
  seen, todo = set(), [r for r in roots if isinstance(r, T)]
  while todo:
    t = todo.pop()
    for x in tm.subterms(t):
      if x.op == 'ref' and x.args[0] not in seen and x.args[0] in st.heap:
        o = st.heap[x.args[0]]
        if skip_env and o.kind == 'env':
          continue
        seen.add(x.args[0])
        todo.extend(v for v in o.f.values() if isinstance(v, T))
  return seen


def deep(st, t, busy=()):
  """a term with the objects it refers to replaced by their contents"""
  def f(x):
    if x.op == 'ref' and x.args[0] in st.heap:
      if x.args[0] in busy:
        return C(f'up{len(busy) - busy.index(x.args[0])}')
      o = st.heap[x.args[0]]
      if o.kind == 'env':
        return C('env')
      b = busy + (x.args[0],)
      name = o.cls.name if o.kind == 'inst' else o.kind
      return tuple_of(C(name), *[tuple_of(C(k), deep(st, v, b)) for k, v in sorted(o.f.items()) if isinstance(v, T) and not (k == 'source_self')])
    return None
  return tm.replace(t, f)


def open_(x):
  return x.op in ('sym', 'fn', 'for', 'b')


class Snap:
  def __init__(self, w, st, roots):
    self.w = w
    self.st = st.fork()
    ids = reach(st, roots)
    for i, o in st.heap.items():      # every value object alive, e.g. remembered rolls
      if o.kind == 'inst' and (o.cls.is_sub(w.RV) or o.cls.is_sub(w.Blank) or '_seq' in o.f or o.cls.name == 'StringVal'):
        ids.add(i)
        for v in o.f.values():
          if isinstance(v, T):
            ids |= reach(st, [v])
    self.f = {i: dict(st.heap[i].f) for i in ids}
    self.kind = {i: (st.heap[i].cls.name if st.heap[i].kind == 'inst' else st.heap[i].kind) for i in ids}


def same_content(chk, w, a, b, sa, sb):
  """-> None (same) | 'differs ...' | False (unknown)"""
  if a is b:
    a2, b2 = a, b
    if not tm.mentions(a, lambda x: x.op == 'ref'):
      return None
    return None   # same objects; their own fields are compared separately
  da, db = deep(sa, a), deep(sb, b)
  if da is db:
    return None
  if not tm.mentions(da, open_) and not tm.mentions(db, open_):   # plain data: True is not 1
    m = next(iter(w.models(1, chk.seed)))
    try:
      x, y = m.ev(da, {}), m.ev(db, {})
      return None if repr(x) == repr(y) else f'{str(x)[:80]} became {str(y)[:80]}'
    except (EvErr, Unknown):
      return False
  try:
    if nf_equal(da, db):
      return None
  except (NotDist, TooBig, KeyError):
    pass
  n = 0
  for m in w.models(chk.nmodels, chk.seed):
    try:
      if not all(m.ev(f, {}) for f in w.pre):
        continue
      x, y = m.ev(da, {}), m.ev(db, {})
    except (EvErr, Unknown):
      if n == 0 and is_c(da) != is_c(db):
        return False
      continue
    n += 1
    if not close(x, y):
      return f'{str(x)[:80]} became {str(y)[:80]} for {show_model(m)[:120]}'
  return None if n > 3 else False


def compare(chk, w, snap, st):
  """changes to the objects of a snapshot: (violations, unknown)"""
  bad, unk = [], []
  for i, f in snap.f.items():
    o = st.heap.get(i)
    if o is None:
      continue
    for k, a in f.items():
      if not isinstance(a, T):
        continue
      b = o.f.get(k)
      if b is None:
        unk.append(f'{snap.kind[i]}.{k} removed')
        continue
      if a is NONE_T:      # filled on first use
        continue
      if b is a:
        continue
      r = same_content(chk, w, a, b, snap.st, st)
      if r is False:
        unk.append(f'{snap.kind[i]}.{k}')
      elif r:
        bad.append(f'field {k} of a {snap.kind[i]}: {r}')
  return bad, unk


MUTABLE = ('list', 'dict', 'set', 'deque', 'defaultdict', 'map')


def shared(w, st, val, given):
  """mutable containers in (or handed out as) a result that someone else also holds"""
  if val is None:
    return []
  out = []
  res = [i for i in reach(st, [val])]
  owned = set()
  for m in w.I.modules.values() if hasattr(w.I, 'modules') else ():
    env = st.heap.get(m.env) if m is not None else None
    if env is not None:
      owned |= reach(st, [v for v in env.f.values() if isinstance(v, T) and v.op == 'ref'])
  direct = val.args[0] if val.op == 'ref' else None
  for i in res:
    o = st.heap[i]
    if o.kind in MUTABLE:
      if i in owned and i == direct:
        out.append(f'the returned {o.kind} is internal state of the library')
      if i in given and i != direct:
        out.append(f'the result keeps the {o.kind} the caller passed in')
      if i in given and i == direct:
        pass
  if direct is not None and st.heap[direct].kind in MUTABLE and direct not in given:
    for i, o in st.heap.items():
      if o.kind == 'inst' and any(isinstance(v, T) and v is val for v in o.f.values()):
        out.append(f'the returned {st.heap[direct].kind} is a field of a {o.cls.name}')
  return out


def main():
  chk = Check('C06', 'no operation changes the contents of a value or container that existed before it, and no result shares a mutable container', parallel=8)

  def values(w, st, kind):
    I = w.I
    call = lambda f, *a, **k: I.call(f, list(a), k, st, w.fr)
    if kind == 'die':
      return w.die('A', st)
    if kind == 'die2':
      return w.die('D', st)
    if kind == 'exact':
      return w.die_exact('E', st, 2)[0]
    if kind == 'rolled':
      return call(w.pub('roll'), C(2), w.die_exact('E', st, 2)[0])
    if kind == 'rolled1':
      return call(w.pub('roll'), C(1), w.die_exact('E', st, 2)[0])
    if kind == 'd6':
      return call(w.pub('roll'), C(6))
    if kind == '2d3':
      return call(w.pub('roll'), C(2), C(3))
    if kind == 'seq':
      return w.seq('S', st)
    if kind == 'seqx':
      return w.seq_exact(st, [C(2), C(1)])
    if kind == 'seq0':
      x = w.seq_exact(st, [C(2), C(1)])
      call(I.getattr(x, 'set_one_indexed', st, w.fr), FALSE)
      return x
    if kind == 'num':
      return w.num('n')
    if kind == 'one':
      return C(2)
    if kind == 'list':
      return w.list_('L', st)
    if kind == 'listx':
      return st.new('list', segs=tuple_of(C(2), C(1)))
    if kind == 'nested':
      return st.new('list', segs=tuple_of(C(2), st.new('list', segs=tuple_of(C(1), C(5)))))
    if kind == 'dielist':
      return st.new('list', segs=tuple_of(w.die_exact('E', st, 2)[0], C(3)))
    if kind == 'blank':
      return w.blank(st)
    if kind == 'nullrv':
      return w.blank(st, True)
    if kind == 'text':
      return call(w.get('factory', 'get_seq'), st.new('list', segs=tuple_of(C('b'), C('a'), C(2))))
    if kind == 'tval':
      t = call(w.get('factory', 'get_seq'), st.new('list', segs=tuple_of(C('b'), C('a'))))
      return I.binop('add', I.getitem(t, C(1), st, w.fr) if hasattr(I, 'getitem') else prims.getitem(I, st, t, C(1), w.fr), C(3), st, w.fr)
    if kind == 'tdie':
      return call(w.pub('roll'), call(w.get('factory', 'get_seq'), st.new('list', segs=tuple_of(C('b'), C('a')))))
    raise KeyError(kind)

  def step(name, kinds, thunk, site=None, then=None):
    step_(name, kinds, thunk, site)
    if 'seqx' in kinds:
      step_(name + ', positions from zero', ['seq0' if k == 'seqx' else k for k in kinds], thunk, site)

  def step_(name, kinds, thunk, site=None):
    def f():
      w = chk.world()
      st = w.st.fork()
      vs = [values(w, st, k) for k in kinds]
      snap = Snap(w, st, vs)
      given = {v.args[0] for v in vs if v.op == 'ref' and st.heap[v.args[0]].kind in MUTABLE}
      out = run(w, st, lambda s: thunk(w, s, *vs))
      if out.val is None and out.raises:
        return PROVEN, f'raises {out.raises[0].e.exc}'
      bad, unk = compare(chk, w, snap, out.st)
      bad += shared(w, out.st, out.val, given)
      if bad:
        return VIOLATED, '; '.join(bad)[:400]
      if unk:
        return UNDECIDED, '; '.join(unk)[:300]
      # use the result again: neither it nor the operands may change
      if out.val.op == 'ref' and out.st.heap[out.val.args[0]].kind == 'inst':
        s2 = out.st
        snap2 = Snap(w, s2, vs + [out.val])
        for nm, t in SECOND:
          s3 = s2.fork()
          try:
            with at_most(0.4):
              o2 = run(w, s3, lambda s: t(w, s, out.val, vs))
          except Unsupported:
            continue
          b2, u2 = compare(chk, w, snap2, o2.st)
          if b2:
            return VIOLATED, f'then {nm}: ' + '; '.join(b2)[:400]
      return PROVEN, f'{len(snap.f)} objects unchanged'
    chk.ob(name, f, site or name)

  def meth(name, *a, **k):
    return lambda w, s, v, *vs: w.I.call(w.I.getattr(v, name, s, w.fr), list(a), k, s, w.fr)

  def fun(mod, name, *a, **k):
    return lambda w, s, *vs: w.I.call(w.get(mod, name), list(vs) + list(a), k, s, w.fr)

  def src(body, params, **names):
    """a small caller"""
    def t(w, s, *vs):
      return w.I.call(w.define(f'def caller({params}):\n  ' + body.replace('\n', '\n  ') + '\n', 'caller', s), list(vs), {}, s, w.fr)
    return t

  SECOND = [
    ('roll(3, result)', lambda w, s, r, vs: w.I.call(w.pub('roll'), [C(3), r], {}, s, w.fr)),
    ('roll(1, result)', lambda w, s, r, vs: w.I.call(w.pub('roll'), [C(1), r], {}, s, w.fr)),
    ('roll(result)', lambda w, s, r, vs: w.I.call(w.pub('roll'), [r], {}, s, w.fr)),
    ('result + 1', lambda w, s, r, vs: w.I.binop('add', r, ONE, s, w.fr)),
    ('result * 2', lambda w, s, r, vs: w.I.binop('mul', r, TWO_, s, w.fr)),
    ('result == result', lambda w, s, r, vs: w.I.cmpop('eq', r, r, s, w.fr)),
    ('1 @ result', lambda w, s, r, vs: w.I.binop('matmul', ONE, r, s, w.fr)),
    ('output(result)', lambda w, s, r, vs: w.I.call(w.pub('output'), [r], {'print_': FALSE}, s, w.fr)),
    ('-result', lambda w, s, r, vs: w.I.call(w.define('def caller(x):\n  return -x\n', 'caller', s), [r], {}, s, w.fr)),
    ('filter', lambda w, s, r, vs: w.I.call(w.I.getattr(r, 'filter', s, w.fr), [ONE], {}, s, w.fr)),
    ('as argument N', lambda w, s, r, vs: w.I.call(w.define('@anydice_casting()\ndef caller(x: T_N):\n  return x + 1\n', 'caller', s), [r], {}, s, w.fr)),
    ('as argument S', lambda w, s, r, vs: w.I.call(w.define('@anydice_casting()\ndef caller(x: T_S):\n  return 1 @ x\n', 'caller', s), [r], {}, s, w.fr)),
    ('as argument D', lambda w, s, r, vs: w.I.call(w.define('@anydice_casting()\ndef caller(x: T_D):\n  return x\n', 'caller', s), [r], {}, s, w.fr)),
  ] + [(f'roll(2, operand {i})', lambda w, s, r, vs, i=i: w.I.call(w.pub('roll'), [C(2), vs[i]], {}, s, w.fr)) for i in (0,)]

  DICE = ['die', 'exact', '2d3', 'd6']
  OTHER = ['die2', 'seqx', 'num', 'listx', 'blank', 'nullrv', 'seq', 'list']
  # binary operators
  for op in BINARY:
    for a in DICE + ['seqx', 'seq', 'blank', 'nullrv', 'num', 'listx']:
      for b in (OTHER if a in ('die', 'exact', 'seqx', 'blank') else ['die2', 'seqx', 'num'] if a not in ('num', 'listx') else ['exact', 'rolled', 'seqx', 'blank', 'die']):
        if op in ('mod', 'truediv', 'pow', 'floordiv') and a not in ('die', 'seqx'):
          continue
        if a == 'listx' and b == 'seqx' and op in ARITH + LOGIC:
          continue
        step(f'{a} {SYMB[op]} {b}', [a, b], lambda w, s, x, y, op=op: apply_op(w, s, op, x, y))
  for op in ('add', 'radd', 'eq', 'lt', 'le', 'gt', 'ge', 'ne'):
    for b in ('tval', 'num', 'one'):
      step(f'text value {op} {b}', ['tval', b], (lambda w, s, x, y, op=op: apply_op(w, s, op, x, y) if op != 'radd' else apply_op(w, s, 'add', y, x)))
  for a in ('text', 'tdie'):
    for op in ('add', 'eq', 'ne', 'lt', 'bitand'):
      for b in ('one', 'seqx', 'tval', 'tdie'):
        step(f'{a} {SYMB[op]} {b}', [a, b], lambda w, s, x, y, op=op: apply_op(w, s, op, x, y))
  # position access
  for a in ('num', 'one', 'seqx', 'listx'):
    for b in ('exact', 'rolled', '2d3', 'seqx', 'blank', 'nullrv', 'text', 'die', 'seq'):
      if a == 'listx' and b == 'listx':
        continue
      step(f'{a} @ {b}', [a, b], lambda w, s, x, y: apply_op(w, s, 'matmul', x, y))
  # unary and conversions
  for v in DICE + ['seqx', 'seq', 'blank', 'nullrv', 'text', 'tdie', 'tval', 'rolled1', '2d3']:
    for nm, body in [('-', 'return -x'), ('+', 'return +x'), ('~', 'return ~x'), ('abs', 'return abs(x)'), ('round', 'return round(x)'), ('len', 'return len(x)'),
                     ('str', 'return str(x)'), ('repr', 'return repr(x)'), ('hash', 'return hash(x)'), ('floor', 'import math\nreturn math.floor(x)'),
                     ('bool', 'return True if x else False'), ('copy', 'import copy\nreturn copy.copy(x)'), ('iterate', 'return [y for y in x]'),
                     ('item', 'return x[1]'), ('contains', 'return 1 in x')]:
      step(f'{nm} {v}', [v], src(body, 'x'))
  for v in DICE + ['tdie', '2d3']:
    for nm, body in [('mean', 'return x.mean()'), ('std', 'return x.std()'), ('filter', 'return x.filter(1)'), ('filter list', 'return x.filter([1, 2])'), ('view', 'return x.get_vals_probs()'),
                     ('cut view', 'return x.get_vals_probs(0.1)'), ('cdf', 'return x.get_cdf()'), ('output', 'return x.output(print_=False)'), ('vals', 'return x.vals'), ('probs', 'return x.probs')]:
      step(f'{nm} of {v}', [v], src(body, 'x'))
  for v in ('listx', 'seqx', 'list', 'seq', 'exact', 'num', 'dielist'):
    step(f'filter by {v}', ['die2', v], src('return x.filter(y)', 'x, y'))
  # rolls
  for n in ('one', 'seqx', 'listx', 'exact', 'blank', 'd6'):
    for d in ('die', 'exact', 'rolled', 'rolled1', 'd6', '2d3', 'seqx', 'listx', 'seq', 'list', 'one', 'blank', 'text', 'nested'):
      if n == 'exact' or (n == 'd6' and d not in ('exact', 'd6', 'one')):
        continue
      step(f'roll({n}, {d})', [n, d], fun('', 'roll'))
  for d in ('die', 'exact', 'rolled', 'rolled1', 'd6', '2d3', 'seqx', 'listx', 'seq', 'one', 'blank', 'text', 'dielist', 'tdie'):
    step(f'roll({d})', [d], fun('', 'roll'))
    for k in (-2, 0, 1, 2, 3):
      step(f'roll({k}, {d})', [d], lambda w, s, v, k=k: w.I.call(w.pub('roll'), [C(k), v], {}, s, w.fr))
    step(f'sample {d}', [d], fun('', 'roller'))
    step(f'output({d})', [d], fun('', 'output', print_=FALSE))
    step(f'output({d}) named', [d], fun('', 'output', print_=FALSE, named=C('x'), show_pdf=FALSE))
  # conversions and constructors
  for d in ('listx', 'list', 'nested', 'dielist', 'seqx', 'seq', 'exact', 'text', 'num', 'blank', 'rolled'):
    step(f'get_seq({d})', [d], fun('factory', 'get_seq'))
    step(f'get_seq({d}, {d})', [d], src('from_ = get_seq(x, x)\nreturn from_', 'x'))
    step(f'Seq({d})', [d], fun('', 'Seq'))
    step(f'get_rv({d})', [d], fun('factory', 'get_rv'))
    step(f'RV.from_seq({d})', [d], src('return RV.from_seq(x)', 'x'))
  step('RV(list, list)', ['listx', 'listx'], src('return RV(x, y)', 'x, y'))
  step('RV(list, list) truncated', ['listx', 'listx'], src('return RV(x, y, truncate=True)', 'x, y'))
  # the constructor itself, on small exact collections
  def ctor(name, body, *lists):
    def f():
      w = chk.world(contract=False)
      st = w.st.fork()
      vs = [st.new('list', segs=tuple_of(*[C(x) for x in l])) for l in lists]
      snap = Snap(w, st, vs)
      out = run(w, st, lambda s: src(body, 'x, y')(w, s, *vs))
      if out.val is None:
        return PROVEN, 'raises'
      bad, unk = compare(chk, w, snap, out.st)
      bad += shared(w, out.st, out.val, {v.args[0] for v in vs})
      if bad:
        return VIOLATED, '; '.join(bad)[:300]
      return (UNDECIDED, unk[0]) if unk else (PROVEN, 'lists unchanged')
    chk.ob(name, f, 'RV.__init__')
  for vals in ([3, 1, 2], [True, False, 2], [2, 2, 1], [1.5, 2, 2.5], [0, 1], [5]):
    for ps in ([1] * len(vals), [2] * len(vals), list(range(len(vals)))):
      ctor(f'RV({vals}, {ps})', 'return RV(x, y)', vals, ps)
      ctor(f'RV({vals}, {ps}, truncate=True)', 'return RV(x, y, truncate=True)', vals, ps)
    ctor(f'RV.from_seq({vals})', 'return RV.from_seq(x)', vals, [])
    ctor(f'roll({vals})', 'return roll(x)', vals, [])
    ctor(f'RV.from_rvs({vals}) weighted', 'return RV.from_rvs(x, y)', vals, [2] * len(vals))
  for d in ('exact', 'd6', 'seqx', 'blank', 'rolled', 'num'):
    step(f'RV.from_rvs with {d}', [d, 'exact', 'listx'], src('ds = [x, y]\nreturn RV.from_rvs(ds, z)', 'x, y, z'))
  step('RV.from_rvs keeps the list', ['dielist', 'listx'], src('return RV.from_rvs(x, y)', 'x, y'))
  step('RV.from_rvs keeps the list, no weights', ['dielist'], src('return RV.from_rvs(x)', 'x'))
  for a in ('listx', 'seqx', 'exact', 'list', 'blank'):
    for b in ('listx', 'seqx', 'exact'):
      step(f'Seq.seqs_are_equal({a}, {b})', [a, b], src('return Seq.seqs_are_equal(x, y)', 'x, y'))
      step(f'RV.dices_are_equal({a}, {b})', [a, b], src('return RV.dices_are_equal(x, y)', 'x, y'))
  # function calls
  for dec in ('anydice_casting()', 'anydice_type_casting()'):
    for ty in ('T_N', 'T_S', 'T_D', ''):
      for d in ('die', 'exact', 'rolled', 'd6', 'seqx', 'listx', 'list', 'nested', 'num', 'blank', 'text', 'dielist'):
        for how in ('x', 'p=x'):
          body = f'@{dec}\ndef g(p{": " + ty if ty else ""}):\n  return p\nreturn g({how})'
          step(f'{dec} passes {d} as {ty or "undeclared"} {how}', [d], src(body, 'x'))
  step('keyword dict passed with **', ['exact', 'listx'], src('kw = {"p": x, "q": y}\n@anydice_casting()\ndef g(p: T_N, q: T_N):\n  return p + q\nr = g(**kw)\nassert kw["p"] is x and kw["q"] is y and len(kw) == 2\nreturn r', 'x, y'))
  step('list passed with *', ['exact', 'listx'], src('a = [x, y]\n@anydice_casting()\ndef g(p: T_N, q: T_N):\n  return p + q\nr = g(*a)\nassert a[0] is x and a[1] is y and len(a) == 2\nreturn r', 'x, y'))
  # function library
  lib1 = ['absolute', 'reverse', 'maximum_of', 'explode', 'sort', 'sort_VANILLA_SLOW', 'reverse_VANILLA_SLOW']
  lib2 = ['contains', 'count_in', 'highest_N_of_D', 'lowest_N_of_D', 'middle_N_of_D', 'highest_of_N_and_N', 'lowest_of_N_and_N', 'gwf']
  for fnm in lib1:
    for d in ('exact', 'rolled', 'd6', 'seqx', 'listx', 'one', 'blank', 'nested', 'seq'):
      step(f'{fnm}({d})', [d], fun('funclib', fnm))
  for fnm in lib2:
    for a in ('one', 'seqx', 'listx', 'exact'):
      if fnm == 'gwf' and a == 'exact':
        continue
      for b in ('exact', 'rolled', '2d3', 'seqx', 'listx', 'one', 'blank'):
        step(f'{fnm}({a}, {b})', [a, b], fun('funclib', fnm))
  # operator helpers
  for fnm in ('mymatmul', 'myand', 'myor'):
    for a, b in (('one', 'exact'), ('seqx', 'exact'), ('one', 'seqx'), ('seqx', 'seqx'), ('one', 'listx')):
      step(f'{fnm}({a}, {b})', [a, b], fun('utils', fnm))
  for fnm in ('mylen', 'myinvert'):
    for a in ('exact', 'seqx', 'listx', 'one', 'rolled'):
      step(f'{fnm}({a})', [a], fun('utils', fnm))
  # compiling
  def flags(*names):
    def f():
      w = chk.world()
      NT, N = w.get('parser.myparser', 'NodeType'), w.get('parser.myparser', 'Node')
      do = w.get('parser.parse_and_exec', 'do_resolve')
      st = w.st.fork()
      I = w.I
      node = lambda t, *ch: I.call(N, [I.getattr(NT, t, st, w.fr), *ch], {}, st, w.fr)
      fl = st.new('dict', map=mk('map', C('empty'), *[mk('e', C(n), TRUE) for n in names]))
      tree = node('MULTILINE_CODE', node('LOOP', C('A'), node('SEQ', node('NUMBER', C('1'))), node('MULTILINE_CODE', node('OUTPUT', node('VAR', C('A'))))))
      snap = Snap(w, st, [fl, tree])
      out = run(w, st, lambda s: I.call(do, [tree], {'flags': fl}, s, w.fr))
      if out.val is None:
        return UNDECIDED, f'raises {out.raises[0].e}'
      bad, unk = compare(chk, w, snap, out.st)
      if bad:
        return VIOLATED, '; '.join(bad)[:300]
      return (UNDECIDED, unk[0]) if unk else (PROVEN, 'flags and tree unchanged')
    chk.ob(f'compiling with flags {names}', f, 'PythonResolver')
  flags()
  flags('COMPILER_FLAG_NON_LOCAL_SCOPE')
  flags('COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT')
  return chk.finish(level='other')
