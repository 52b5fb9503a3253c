import itertools
from .probe import *

DECOS = ['anydice_casting()', 'anydice_type_casting()']


class Arg:
  """an argument and what a parameter of each declared type must receive (None: outcome by enumeration)"""

  def __init__(self, w, st, kind, n):
    self.kind = kind
    self.bag = None
    if kind in ('int', 'float', 'bool'):
      x = w.num(n, {'int': INT, 'float': FLOAT, 'bool': BOOL}[kind])
      self.term = x
      self.N = [num_(x)]
      self.S = [seq_(it(x))]
      self.D = lambda: [die_(tuple_of(b2i(x) if kind == 'bool' else x), tuple_of(ONE))]
      self.raw = num_(x)
    elif kind in ('seq', 'list', 'tuple', 'iter'):
      segs = w.seq_segs(n)
      self.term = {'seq': lambda: w.seq(n, st), 'list': lambda: st.new('list', segs=segs), 'tuple': lambda: segs, 'iter': lambda: st.new('iter', segs=segs)}[kind]()
      self.N = [num_(sum_of(n))]
      self.S = [seq_(*segs.args)]
      self.D = None
      self.raw = obs_term(w, self.term, st)
    elif kind.startswith('seq=') or kind.startswith('list='):
      k = int(kind[-1])
      xs = [w.num(f'{n}{i}') for i in range(k)]
      xs = w.ranked(n, k, INT)
      self.term = w.seq_exact(st, xs) if kind[0] == 's' else st.new('list', segs=tuple_of(*xs))
      t = ZERO
      for x in xs:
        t = add(t, x)
      self.N, self.S = [num_(t)], [seq_(*[it(x) for x in xs])]
      self.D = lambda: [die_(tuple_of(*xs), tuple_of(*[ONE] * k))] if k else [die_(tuple_of(ZERO), tuple_of(ONE))]
      self.raw = obs_term(w, self.term, st)
    elif kind in ('die', 'dief'):
      self.term = w.die(n, st, INT if kind == 'die' else ANY)
      o = st.obj(self.term)
      self.D = lambda: [die_(o.f['vals'], o.f['probs'])]
      self.N = self.S = None
      self.raw = self.D()[0]
    elif kind in ('blank', 'nullrv'):
      self.term = w.blank(st, kind == 'nullrv')
      self.N = self.S = 'skip'
      self.raw = obs_term(w, self.term, st)
      self.D = lambda: [self.raw]


def expected(a, ty):
  if ty == 'N':
    return a.N
  if ty == 'S':
    return a.S
  if ty == 'D':
    return a.D and a.D()
  return [a.raw]


def main():
  chk = Check('C04', 'what an uninterpreted user function receives, for every declared type, argument kind and way of passing, equals the conversion table')
  kinds = ['int', 'float', 'bool', 'seq', 'list', 'tuple', 'iter', 'seq=0', 'seq=1', 'seq=3', 'list=2', 'die', 'dief', 'blank', 'nullrv']
  decl = {'N': 'X: T_N', 'S': 'X: T_S', 'D': 'X: T_D', 'undeclared': 'X', 'other annotation': 'X: int', 'default': 'X: T_N = 3'}
  for ty, d in decl.items():
    for k in kinds:
      for deco in DECOS:
        for how in ('positional', 'keyword', 'after others', 'keyword after others'):
          if deco != DECOS[0] and how != 'positional':
            continue

          def f():
            w = chk.world()
            st = w.st.fork()
            a = Arg(w, st, k, 'A')
            z, zz = w.num('z'), w.num('zz')
            t = 'N' if ty == 'default' else ty
            exp = expected(a, t)
            full = d if 'other' not in how else f'Y: T_N, Z, {d}'
            p = make_probe(w, st, full, decorator=deco)
            pre = [z, zz] if 'other' in how else []
            pobs = [num_(z), num_(zz)] if pre else []
            if how.startswith('keyword'):
              out = run(w, st, lambda s: w.I.call(p, pre, {'X': a.term}, s, w.fr))
            else:
              out = run(w, st, lambda s: w.I.call(p, pre + [a.term], {}, s, w.fr))
            if exp == 'skip':
              return check_out(chk, out, BlankT(True))
            if exp is not None:
              return check_out(chk, out, Num(g_(*pobs, exp[0])))
            u = fresh()
            if k in ('die', 'dief'):
              v, pr = fn('A.v', B(u), ty=INT if k == 'die' else ANY), fn('A.p', B(u), ty=INT)
              arg = num_(v) if t == 'N' else seq_(it(v))
              return check_out(chk, out, Dist(mk('for', (u,), dbase('A'), it(tuple_of(g_(*pobs, arg), pr)))))
            raise Unsupported('sequence of unknown length as die: see exact lengths')
          if ty == 'D' and k in ('seq', 'list', 'tuple', 'iter'):
            continue
          chk.ob(f'{k} as {ty}, {how}, {deco.split(".")[-1]}', f, 'decorators.anydice_type_casting')
  # a sequence with repeated elements as die, and any non-empty sequence as its distribution
  for k in ('seq', 'list', 'tuple', 'iter'):
    def f():
      w = chk.world()
      st = w.st.fork()
      segs = w.seq_segs('A')
      MAYBE_EMPTY.discard('A')
      w.sizes['A'] = lambda rng, *a: rng.choice([1, 2, 3])
      t = {'seq': lambda: w.seq('A', st), 'list': lambda: st.new('list', segs=segs), 'tuple': lambda: segs, 'iter': lambda: st.new('iter', segs=segs)}[k]()
      MAYBE_EMPTY.discard('A')
      st.assume(cmp('le', ONE, card(dbase('A'))))
      p = make_probe(w, st, 'X: T_D', decorator=DECOS[0], body='return X')
      out = run(w, st, lambda s: w.I.call(p, [t], {}, s, w.fr))
      u = fresh()
      return check_out(chk, out, Dist(mk('for', (u,), dbase('A'), it(tuple_of(fn('A.e', B(u), ty=INT), ONE)))))
    chk.ob(f'{k} as D, distribution', f, 'decorators.anydice_type_casting')
  # several parameters: conversions do not disturb each other, extra arguments pass through
  combos = [('int', 'seq=2', 'int'), ('seq', 'int', 'seq=1'), ('float', 'list=2', 'seq=2'), ('seq=3', 'seq=2', 'int'), ('int', 'int', 'die')]
  for ks in combos:
    for tys in itertools.permutations('NSD'):
      for kw in (0, 1, 2):
        def f():
          w = chk.world()
          st = w.st.fork()
          as_ = [Arg(w, st, k, n) for k, n in zip(ks, 'ABC')]
          exp = [expected(a, t) for a, t in zip(as_, tys)]
          p = make_probe(w, st, ', '.join(f'{n}: T_{t}' for n, t in zip('PQR', tys)))
          args = [a.term for a in as_]
          pos, kwd = args[:3 - kw], dict(zip('PQR'[3 - kw:], args[3 - kw:]))
          out = run(w, st, lambda s: w.I.call(p, pos, kwd, s, w.fr))
          if any(e is None for e in exp):
            i = [j for j, e in enumerate(exp) if e is None]
            if len(i) > 1 or ks[i[0]] != 'die':
              raise Unsupported('not enumerated here')
            u = fresh()
            v, pr = fn('ABC'[i[0]] + '.v', B(u), ty=INT), fn('ABC'[i[0]] + '.p', B(u), ty=INT)
            exp[i[0]] = [num_(v) if tys[i[0]] == 'N' else seq_(it(v))]
            return check_out(chk, out, Dist(mk('for', (u,), dbase('ABC'[i[0]]), it(tuple_of(g_(*[e[0] for e in exp]), pr)))))
          return check_out(chk, out, Num(g_(*[e[0] for e in exp])))
        if 'seq' in ks and tys[ks.index('seq')] == 'D':
          continue
        chk.ob(f'{ks} as {tys}, {kw} by keyword', f, 'decorators.anydice_type_casting')
  # arguments collected by *rest and **more are no declared parameters: passed on untouched
  for ty in 'NSD':
    for k in ('int', 'float', 'seq=2', 'list=2', 'die', 'blank'):
      for how in ('*rest', '*rest, second', '**more', 'keyword only', 'keyword only, then *rest'):
        def f():
          w = chk.world()
          st = w.st.fork()
          a, z = Arg(w, st, k, 'A'), w.num('z')
          zo = {'N': num_(z), 'S': seq_(it(z)), 'D': die_(tuple_of(z), tuple_of(ONE))}[ty]
          if how == '**more':
            p = make_probe(w, st, f'X: T_{ty}, **more', body="return __probe__(X, more['q'])")
            out = run(w, st, lambda s: w.I.call(p, [z], {'q': a.term}, s, w.fr))
            obs = [zo, a.raw]
          elif how == 'keyword only':
            p = make_probe(w, st, f'Y, *, X: T_{ty}', body='return __probe__(Y, X)')
            out = run(w, st, lambda s: w.I.call(p, [a.term], {'X': z}, s, w.fr))
            obs = [a.raw, zo]
          elif how == 'keyword only, then *rest':
            p = make_probe(w, st, f'*rest, X: T_{ty}', body='return __probe__(X, *rest)')
            out = run(w, st, lambda s: w.I.call(p, [a.term], {'X': z}, s, w.fr))
            obs = [zo, a.raw]
          else:
            two = how.endswith('second')
            y = w.num('y')
            p = make_probe(w, st, f'X: T_{ty}, *rest', body='return __probe__(X, *rest)')
            out = run(w, st, lambda s: w.I.call(p, [z] + [y] * two + [a.term], {}, s, w.fr))
            obs = [zo] + [num_(y)] * two + [a.raw]
          return check_out(chk, out, Num(g_(*obs)))
        chk.ob(f'{k} passed through {how} next to a declared {ty}', f, 'decorators.anydice_type_casting')
  return chk.finish()
