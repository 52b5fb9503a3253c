"""operands and expected results shared by the checks"""
from engine.harness import *
from engine import terms as tm

ARITH = ['add', 'sub', 'mul', 'floordiv', 'truediv', 'pow', 'mod']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
LOGIC = ['bitand', 'bitor']
BINARY = ARITH + CMP + LOGIC
SYMB = {'add': '+', 'sub': '-', 'mul': '*', 'floordiv': '//', 'truediv': '/', 'pow': '**', 'mod': '%', 'eq': '==', 'ne': '!=',
        'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'bitand': '&', 'bitor': '|', 'matmul': '@'}
ANY = frozenset({'int', 'float'})


def b2i(c):
  return ite(c, ONE, ZERO)


def opterm(op, a, b):
  """the documented meaning of a binary operator on two numbers"""
  if op in ARITH:
    return arith(op, a, b)
  if op in CMP:
    return b2i(cmp(op, a, b))
  if op == 'bitand':
    return b2i(and_(cmp('ne', a, ZERO), cmp('ne', b, ZERO)))
  if op == 'bitor':
    return b2i(or_(cmp('ne', a, ZERO), cmp('ne', b, ZERO)))
  raise KeyError(op)


def sum_of(name, ty=INT, deps=()):
  u = fresh()
  return mk('sum', (u,), dbase(name, *deps), fn(name + '.e', *deps, B(u), ty=ty), ty=ty)


def bag_die(name, ty=INT, f=lambda v: v, w=lambda p: p, deps=()):
  u = fresh()
  return mk('for', (u,), dbase(name, *deps), it(tuple_of(f(fn(name + '.v', *deps, B(u), ty=ty)), w(fn(name + '.p', *deps, B(u), ty=INT)))))


def bag2(A, tyA, Bn, tyB, f):
  u, v = fresh(), fresh()
  return mk('for', (u,), dbase(A), mk('for', (v,), dbase(Bn), it(tuple_of(
    f(fn(A + '.v', B(u), ty=tyA), fn(Bn + '.v', B(v), ty=tyB)),
    mul(fn(A + '.p', B(u), ty=INT), fn(Bn + '.p', B(v), ty=INT))))))


NUMERIC = {'int': INT, 'float': FLOAT}


class Opd:
  """an operand: term for the code, and its meaning: a number term or a weighted bag"""

  def __init__(self, w, st, kind, name):
    self.kind, self.name = kind, name
    self.num = None
    self.blank = None
    if kind in ('int', 'float', 'bool'):
      self.term = self.num = w.num(name, {'int': INT, 'float': FLOAT, 'bool': BOOL}[kind])
    elif kind in ('seq', 'seqf'):
      self.ty = INT if kind == 'seq' else ANY
      self.term = w.seq(name, st, self.ty)
      self.num = sum_of(name, self.ty)
    elif kind == 'list':
      self.ty = INT
      self.term = w.list_(name, st, INT)
      self.num = sum_of(name, INT)
    elif kind == 'tuple':
      self.ty = INT
      self.term = w.seq_segs(name, INT)
      self.num = sum_of(name, INT)
    elif kind == 'die':
      self.ty = INT
      self.term = w.die(name, st, INT)
    elif kind == 'dief':
      self.ty = ANY
      self.term = w.die(name, st, ANY)
    elif kind == 'blank':
      self.term = w.blank(st)
      self.blank = False
    elif kind == 'nullrv':
      self.term = w.blank(st, True)
      self.blank = True
    else:
      raise KeyError(kind)

  @property
  def isdie(self):
    return self.kind in ('die', 'dief')


def combine(a, b, f):
  """distribution of f(left, right) for independent operands, as Dist/Num"""
  if a.isdie and b.isdie:
    return Dist(bag2(a.name, a.ty, b.name, b.ty, f))
  if a.isdie:
    return Dist(bag_die(a.name, a.ty, lambda v: f(v, b.num)))
  if b.isdie:
    return Dist(bag_die(b.name, b.ty, lambda v: f(a.num, v)))
  return Num(f(a.num, b.num))


def apply_op(w, st, op, a, b):
  if op in CMP:
    return w.I.cmpop(op, a, b, st, w.fr)
  return w.I.binop(op, a, b, st, w.fr)


def method_site(w, cls, name):
  f, c = cls.lookup(name)
  if f is None:
    return f'{cls.name}.{name}'
  f = getattr(f, 'f', f)
  return getattr(f, 'where', f'{cls.name}.{name}')


def binary_ob(chk, op, ka, kb, spec_of, tag=''):
  name = f'{ka} {SYMB[op]} {kb}{tag}'

  def f():
    w = chk.world()
    st = w.st.fork()
    a, b = Opd(w, st, ka, 'A'), Opd(w, st, kb, 'B')
    st.pc = ()
    out = run(w, st, lambda s: apply_op(w, s, op, a.term, b.term))
    spec = spec_of(w, a, b)
    v = check_out(chk, out, spec, zero=True)
    return v[0], v[1], f'{"RV" if a.isdie or b.isdie else ""} operator {SYMB[op]} ({ka}, {kb})'
  chk.ob(name, f)
