"""The dice language as documented: an independent reader of programs (reference meaning as a small tree) and a
reader of translated Python text into the same trees; plus the abstract compilation of a program."""
import ast
import re
from fractions import Fraction
from engine.harness import *
from engine.plymodel import Ply
from engine import prims

RESERVED = ('output', 'function', 'loop', 'over', 'named', 'set', 'to', 'if', 'else', 'result')
LIBRARY = ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X',
           'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X')
NLS, OPI, FLC, FEC = 'COMPILER_FLAG_NON_LOCAL_SCOPE', 'COMPILER_FLAG_OPERATOR_ON_INT', 'COMPILER_FLAG_FUNC_LIB_CONFLICT', 'COMPILER_FLAG_FUNC_EXIST_CHECK'


class Reject(Exception):
  """the program is not a program of the language"""


# ------------------------------------------------------------------ reference reader of programs
def tokens(src):
  out, i, n = [], 0, len(src)
  two = ('!=', '..')
  while i < n:
    c = src[i]
    if c in ' \t\n':
      i += 1
      continue
    if c == '\\':
      j = src.find('\\', i + 1)
      if j < 0:
        raise Reject('comment without an end')
      i = j + 1
      continue
    m = re.compile('[0-9]+|[a-z]+|[A-Z_]+').match(src, i)
    if m:
      t = m.group()
      out.append((('num' if t[0].isdigit() else 'd' if t == 'd' else 'res' if t in RESERVED else 'word' if t[0].islower() else 'var'), t))
      i = m.end()
      continue
    if c == '"':
      i += 1
      start = len(out)
      while True:
        if i >= n or src[i] == '\n':
          raise Reject('string without an end')
        if src[i] == '"':
          i += 1
          break
        m = re.compile(r'\[([A-Z_]+)\]').match(src, i)
        if m:
          out.append(('strvar', m.group(1)))
          i = m.end()
        else:
          if len(out) > start and out[-1][0] == 'str':
            out[-1] = ('str', out[-1][1] + src[i])
          else:
            out.append(('str', src[i]))
          i += 1
      continue
    if src[i:i + 2] in two:
      out.append(('op', src[i:i + 2]))
      i += 2
      continue
    if c in '+-*/^:<>=@#|&!.,(){}[]':
      out.append(('op', c))
      i += 1
      continue
    raise Reject(f'illegal character {c!r}')
  return out + [('end', '')]


BIN = [{'|'}, {'&'}, {'<', '>', '=', '!='}, {'+', '-'}, {'*', '/'}, {'^'}, {'@'}]


class Ref:
  def __init__(self, src):
    self.t, self.i = tokens(src), 0

  @property
  def k(self):
    return self.t[self.i]

  def isop(self, *o):
    return self.k[0] == 'op' and self.k[1] in o

  def isres(self, *o):
    return self.k[0] == 'res' and self.k[1] in o

  def take(self, kind, val=None):
    if self.k[0] != kind or (val is not None and self.k[1] != val):
      raise Reject(f'{val or kind} expected instead of {self.k[1]!r}')
    self.i += 1
    return self.t[self.i - 1][1]

  def program(self):
    r = self.stmts()
    self.take('end')
    return r

  def stmts(self):
    out = []
    while not (self.k[0] == 'end' or self.isop('}')):
      out.append(self.stmt())
    return tuple(out)

  def block(self):
    self.take('op', '{')
    r = self.stmts()
    self.take('op', '}')
    return r

  def stmt(self):
    kind, v = self.k
    if kind == 'var':
      self.i += 1
      self.take('op', ':')
      return ('asg', v, self.expr())
    if kind != 'res':
      raise Reject(f'no statement starts with {v!r}')
    self.i += 1
    if v == 'output':
      e = self.expr()
      if self.isres('named'):
        self.i += 1
        return ('out', e, self.string())
      return ('out', e, None)
    if v == 'set':
      n = self.string()
      self.take('res', 'to')
      return ('set', n, self.expr())
    if v == 'result':
      self.take('op', ':')
      return ('ret', self.expr())
    if v == 'loop':
      n = self.take('var')
      self.take('res', 'over')
      e = self.expr()
      return ('for', n, e, self.block())
    if v == 'if':
      bs = [(self.expr(), self.block())]
      els = None
      while self.isres('else'):
        self.i += 1
        if self.isres('if'):
          self.i += 1
          bs.append((self.expr(), self.block()))
        else:
          els = self.block()
          break
      return ('if', tuple(bs), els)
    if v == 'function':
      self.take('op', ':')
      items = []
      while True:
        k, x = self.k
        if k in ('word', 'res', 'd'):
          self.i += 1
          items.append(x)
        elif k == 'var':
          self.i += 1
          ty = None
          if self.isop(':'):
            self.i += 1
            ty = self.k[1]
            if self.k[0] not in ('word', 'd'):
              raise Reject('parameter type expected')
            self.i += 1
            if ty not in ('n', 's', 'd'):
              raise Reject('unknown parameter type')
          items.append((x, ty))
        else:
          break
      if not items:
        raise Reject('function without a name')
      return ('func', tuple(items), self.block())
    raise Reject(f'no statement starts with {v!r}')

  def string(self):
    parts = []
    while self.k[0] in ('str', 'strvar'):
      k, v = self.k
      self.i += 1
      if k == 'str' and parts and isinstance(parts[-1], str):
        parts[-1] += v
      else:
        parts.append(v if k == 'str' else ('v', v))
    if not parts:
      raise Reject('string expected')
    return ('str', tuple(parts))

  def expr(self, lvl=0):
    if lvl == len(BIN):
      return self.dice()
    a = self.expr(lvl + 1)
    while self.isop(*BIN[lvl]):
      o = self.take('op')
      if o in '<>' and self.isop('='):
        self.i += 1
        o += '='
      b = self.expr(lvl + 1)
      a = ('bin', o, a, b)
    return a

  def dice(self):
    if self.k[0] == 'd':
      self.i += 1
      return ('d', self.term())
    a = self.term()
    if self.k[0] == 'd':
      self.i += 1
      return ('nd', a, self.term())
    return a

  def term(self):
    k, v = self.k
    if k == 'num':
      self.i += 1
      if self.isop('.') :
        self.i += 1
        f = self.take('num')
        return ('num', Fraction(v + '.' + f), True)
      return ('num', Fraction(v), False)
    if k == 'var':
      self.i += 1
      return ('var', v)
    if k in ('str', 'strvar'):
      return self.string()
    if k == 'op':
      if v in '+-!':
        self.i += 1
        return ('un', v, self.term())
      if v == '#':
        self.i += 1
        return ('len', self.term())
      if v == '(':
        self.i += 1
        e = self.expr()
        self.take('op', ')')
        return e
      if v == '{':
        self.i += 1
        es = []
        if not self.isop('}'):
          while True:
            e = self.expr()
            if self.isop('..'):
              self.i += 1
              e = ('range', e, self.expr())
            es.append(e)
            if not self.isop(','):
              break
            self.i += 1
        self.take('op', '}')
        return ('seq', tuple(es))
      if v == '[':
        self.i += 1
        name, args = [], []
        while not self.isop(']'):
          if self.k[0] in ('word', 'res'):
            name.append(self.k[1])
            self.i += 1
          else:
            args.append(self.expr())
            name.append('X')
        if not name:
          raise Reject('empty call')
        self.take('op', ']')
        return ('call', '_'.join(name), tuple(args))
    raise Reject(f'no expression starts with {v!r}')


def walk(x):
  if isinstance(x, tuple):
    if x and isinstance(x[0], str):
      yield x
    for y in x:
      yield from walk(y)


def fkey(items):
  return '_'.join(x if isinstance(x, str) else 'X' for x in items)


def infunc(stmts, inside=False):
  for s in stmts:
    if s[0] == 'ret' and not inside:
      raise Reject('result outside of a function')
    if s[0] == 'func':
      infunc(s[2], True)
    elif s[0] == 'for':
      infunc(s[3], inside)
    elif s[0] == 'if':
      for _, b in s[1]:
        infunc(b, inside)
      infunc(s[2] or (), inside)


def read_program(src, flags=()):
  """reference meaning of a program, or Reject"""
  flags = dict(flags)
  for f in flags:
    if f not in (NLS, OPI, FLC, FEC):
      raise Reject('unknown flag')
  if not src.strip():
    raise Reject('empty')
  p = Ref(src).program()
  infunc(p)
  nodes = list(walk(p))
  defs = {fkey(x[1]) for x in nodes if x[0] == 'func'}
  if flags.get(FEC, True):
    for x in nodes:
      if x[0] == 'call' and len(x) == 3 and isinstance(x[2], tuple) and x[1] not in defs and x[1] not in LIBRARY:
        raise Reject(f'unknown function {x[1]}')
  if not any(x[0] == 'out' for x in nodes):
    raise Reject('no output')
  return p, defs


def norm(stmts):
  """an else block made of one if statement is an else-if"""
  out = []
  for s in stmts:
    if s[0] == 'if':
      bs = [(c, norm(b)) for c, b in s[1]]
      els = norm(s[2]) if s[2] is not None else ()
      if len(els) == 1 and els[0][0] == 'if':
        bs += els[0][1]
        els = els[0][2]
      s = ('if', tuple(bs), els)
    elif s[0] == 'for':
      s = ('for', s[1], s[2], norm(s[3]))
    elif s[0] == 'func':
      s = ('func', s[1], norm(s[2]))
    out.append(s)
  return tuple(out)


# ------------------------------------------------------------------ reader of translated text
class Odd(Exception):
  """text outside the vocabulary this reader knows"""


class Bad(Exception):
  """the text does not translate the program"""


PYBIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '/', ast.Pow: '^', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|',
         ast.Div: 'true division', ast.Mod: '%', ast.BitXor: 'exclusive or', ast.LShift: '<<', ast.RShift: '>>'}
PYCMP = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Eq: '=', ast.NotEq: '!=', ast.Is: 'is', ast.In: 'in', ast.NotIn: 'not in', ast.IsNot: 'is not'}
PYUN = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '!', ast.Not: 'not'}
TY = {'T_N': 'n', 'T_S': 's', 'T_D': 'd'}
ROLES = ('output', 'get_seq', 'roll', 'myrange', 'settings_set', 'anydice_casting', 'len', 'myMatmul', 'myLen', 'myInvert', 'myAnd', 'myOr', 'T_N', 'T_S', 'T_D', 'Seq', 'RV')


class Read:
  def __init__(self, text, scope, opint):
    self.scope, self.opint = scope, opint
    self.used = set()      # library names the text relies on
    self.bound = {}        # name -> how the text binds it
    self.defs = set()
    try:
      self.tree = ast.parse(text)
      import warnings
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        compile(text, '<translation>', 'exec', dont_inherit=True)   # scoping rules of Python; nothing is executed
    except (SyntaxError, ValueError) as e:
      raise Bad(f'the text is not valid Python: {getattr(e, "msg", e)}: {(getattr(e, "text", "") or "").strip()[:80]}')
    for n in ast.walk(self.tree):
      if isinstance(n, ast.FunctionDef):
        self.defs.add(n.name)
        self.bind(n.name, 'a function')
        for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs:
          self.bind(a.arg, 'a parameter')
        if n.args.vararg or n.args.kwarg or n.args.kwonlyargs or n.args.defaults or n.args.posonlyargs:
          raise Odd('parameters of another kind')
      elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        self.bind(n.id, 'a variable')
      elif isinstance(n, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.ClassDef, ast.Lambda, ast.NamedExpr, ast.With, ast.Try, ast.While, ast.Delete, ast.comprehension, ast.AsyncFunctionDef)):
        raise Odd(f'{type(n).__name__} in the text')

  def bind(self, n, how):
    self.bound.setdefault(n, set()).add(how)

  def role(self, n):
    self.used.add(n)
    return n

  def call(self, n):
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
      raise Odd('unpacked arguments')
    f = n.func
    if not isinstance(f, ast.Name):
      raise Odd('call of an expression')
    return f.id, list(n.args), {k.arg: k.value for k in n.keywords}

  def expr(self, n):
    e = self.expr
    if isinstance(n, ast.Constant):
      if isinstance(n.value, bool) or n.value is None:
        raise Bad(f'{n.value} in the text')
      if isinstance(n.value, (int, float)):
        return ('num', Fraction(n.value) if isinstance(n.value, int) else Fraction(str(n.value)), isinstance(n.value, float))
      if isinstance(n.value, str):
        return ('str', (n.value,) if n.value else ())
      raise Odd('constant')
    if isinstance(n, ast.JoinedStr):
      parts = []
      for v in n.values:
        if isinstance(v, ast.Constant):
          parts.append(v.value)
        else:
          if v.conversion != -1 or v.format_spec is not None:
            raise Odd('format specification')
          x = e(v.value)
          if x[0] != 'var':
            raise Bad(f'the string evaluates {ast.unparse(v.value)[:60]}')
          parts.append(('v', x[1]))
      out = []
      for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
          out[-1] += p
        else:
          out.append(p)
      return ('str', tuple(p for p in out if p != ''))
    if isinstance(n, ast.Name):
      return ('local' if self.scope else 'var', n.id)
    if isinstance(n, ast.Subscript):
      if isinstance(n.value, ast.Name) and n.value.id == 'vars' and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and self.scope:
        return ('var', n.slice.value)
      raise Odd(f'subscript {ast.unparse(n)[:40]}')
    if isinstance(n, ast.BinOp):
      return ('bin', PYBIN[type(n.op)], e(n.left), e(n.right), 'python')
    if isinstance(n, ast.Compare):
      if len(n.ops) > 1:
        raise Bad(f'chained comparison {ast.unparse(n)[:60]}')
      return ('bin', PYCMP[type(n.ops[0])], e(n.left), e(n.comparators[0]), 'python')
    if isinstance(n, ast.BoolOp):
      raise Bad(f'{ast.unparse(n)[:60]} is not an operation on dice')
    if isinstance(n, ast.UnaryOp):
      return ('un', PYUN[type(n.op)], e(n.operand), 'python')
    if isinstance(n, ast.Call):
      f, a, k = self.call(n)
      if f in self.defs or f not in ROLES:
        if k:
          raise Odd('keyword arguments')
        return ('call', f, tuple(e(x) if not (self.scope and isinstance(x, ast.Name) and x.id == 'vars') else ('scope',) for x in a))
      self.role(f)
      if f == 'roll':
        if set(k) - {'n', 'd'}:
          raise Odd('roll arguments')
        xs = a + [k[x] for x in ('n', 'd')[len(a):] if x in k]
        if len(xs) == 1:
          return ('d', e(xs[0]))
        if len(xs) == 2:
          return ('nd', e(xs[0]), e(xs[1]))
        raise Odd('roll arguments')
      if k:
        raise Odd('keyword arguments')
      if f in ('get_seq', 'Seq'):
        if len(a) == 1 and isinstance(a[0], (ast.List, ast.Tuple)):
          a = a[0].elts
        return ('seq', tuple(e(x) for x in a))
      if f == 'myrange' and len(a) == 2:
        return ('range', e(a[0]), e(a[1]))
      if f in ('len', 'myLen') and len(a) == 1:
        return ('len', e(a[0]), 'python' if f == 'len' else 'lib')
      if f == 'myInvert' and len(a) == 1:
        return ('un', '!', e(a[0]), 'lib')
      if f in ('myMatmul', 'myAnd', 'myOr') and len(a) == 2:
        return ('bin', {'myMatmul': '@', 'myAnd': '&', 'myOr': '|'}[f], e(a[0]), e(a[1]), 'lib')
      raise Odd(f'{f} with {len(a)} arguments')
    raise Odd(f'{type(n).__name__} in an expression')

  def stmts(self, ns):
    out = []
    for n in ns:
      if isinstance(n, ast.Pass):
        continue
      out.append(self.stmt(n))
    return tuple(out)

  def store(self, n, value):
    """('asg', variable, value) of an assignment statement"""
    if isinstance(n, ast.Name):
      return ('local asg' if self.scope else 'asg', n.id, value)
    if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == 'vars' and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and self.scope:
      return ('asg', n.slice.value, value)
    raise Odd('assignment target')

  def stmt(self, n):
    if isinstance(n, ast.Expr):
      if isinstance(n.value, ast.Constant) and n.value.value is Ellipsis:
        raise Odd('...')
      if not isinstance(n.value, ast.Call):
        raise Bad(f'{ast.unparse(n)[:60]} does nothing')
      f, a, k = self.call(n.value)
      if f == 'output':
        self.role(f)
        if len(a) == 1 and set(k) <= {'named'}:
          return ('out', self.expr(a[0]), self.expr(k['named']) if 'named' in k else None)
        raise Odd('output arguments')
      if f == 'settings_set':
        self.role(f)
        if len(a) == 2 and not k:
          return ('set', self.expr(a[0]), self.expr(a[1]))
        raise Odd('settings_set arguments')
      raise Bad(f'{ast.unparse(n)[:60]} is no statement of a program')
    if isinstance(n, ast.Return):
      if n.value is None:
        raise Bad('a result without a value')
      return ('ret', self.expr(n.value))
    if isinstance(n, ast.Assign):
      if len(n.targets) != 1:
        raise Odd('assignment')
      if self.scope and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'vars':
        return ('scope asg', ast.unparse(n.value))
      return self.store(n.targets[0], self.expr(n.value))
    if isinstance(n, ast.If):
      bs, els = [(self.expr(n.test), self.stmts(n.body))], n.orelse
      while len(els) == 1 and isinstance(els[0], ast.If):
        n = els[0]
        bs.append((self.expr(n.test), self.stmts(n.body)))
        els = n.orelse
      els = self.stmts(els)
      if len(els) == 1 and els[0][0] == 'if':     # an if beside a pass
        bs += els[0][1]
        els = els[0][2]
      return ('if', tuple(bs), els)
    if isinstance(n, ast.For):
      if not isinstance(n.target, ast.Name) or n.orelse:
        raise Odd('loop')
      return ('for', n.target.id, self.expr(n.iter), self.stmts(n.body))
    if isinstance(n, ast.FunctionDef):
      dec = [ast.unparse(d) for d in n.decorator_list]
      if dec != ['anydice_casting()']:
        if dec:
          raise Odd(f'decorators {dec}')
        raise Bad(f'function {n.name} is not decorated: no argument conversion and no depth limit')
      self.role('anydice_casting')
      ps = []
      for a in n.args.args:
        ty = None
        if a.annotation is not None:
          if not isinstance(a.annotation, ast.Name) or a.annotation.id not in TY:
            raise Odd('annotation')
          ty = TY[self.role(a.annotation.id)]
        ps.append((a.arg, ty))
      return ('func', n.name, tuple(ps), self.stmts(n.body))
    raise Odd(f'{type(n).__name__} statement')


COPIES = ('vars.copy()', 'dict(vars)', '{**vars}', 'copy(vars)')
MAYBE = COPIES + ('vars | {}', '{} | vars')


class Match:
  """compare the reference tree with the tree of the translation; names correspond one to one"""

  def __init__(self, defs, read):
    self.defs, self.r = defs, read
    self.vars, self.funs, self.back = {}, {}, {}

  def same(self, m, kind, a, b):
    if m.setdefault(a, b) != b:
      raise Bad(f'{kind} {a} is called both {m[a]} and {b}')
    if self.back.setdefault(b, (kind, a)) != (kind, a):
      k, x = self.back[b]
      raise Bad(f'{b} stands for both the {k} {x} and the {kind} {a}')

  def var(self, a, b):
    self.same(self.vars, 'variable', a, b)

  def stmts(self, xs, ys):
    if len(xs) != len(ys):
      raise Bad(f'{len(xs)} statements became {len(ys)}')
    for x, y in zip(xs, ys):
      self.stmt(x, y)

  def stmt(self, x, y):
    if x[0] != y[0]:
      raise Bad(f'statement {x[0]} became {y[0]}')
    k = x[0]
    if k == 'out':
      self.expr(x[1], y[1])
      if (x[2] is None) != (y[2] is None):
        raise Bad('the name of an output is lost' if y[2] is None else 'an output without a name is given one')
      if x[2] is not None:
        self.expr(x[2], y[2])
    elif k == 'set':
      self.expr(x[1], y[1])
      self.expr(x[2], y[2])
    elif k == 'ret':
      self.expr(x[1], y[1])
    elif k == 'asg':
      self.var(x[1], y[1])
      self.expr(x[2], y[2])
    elif k == 'if':
      if len(x[1]) != len(y[1]):
        raise Bad(f'{len(x[1])} conditional blocks became {len(y[1])}')
      for (c, b), (c2, b2) in zip(x[1], y[1]):
        self.expr(c, c2)
        self.stmts(b, b2)
      self.stmts(x[2], y[2])
    elif k == 'for':
      self.expr(x[2], y[2])
      body = y[3]
      if self.r.scope:
        if not body or body[0] != ('asg', self.vars.get(x[1], x[1]), ('local', y[1])):
          raise Bad(f'the loop does not store {x[1]} among the variables first')
        self.var(x[1], body[0][1])
        self.back.setdefault(y[1], ('loop variable', None))
        body = body[1:]
      else:
        self.var(x[1], y[1])
      self.stmts(x[3], body)
    elif k == 'func':
      self.same(self.funs, 'function', fkey(x[1]), y[1])
      want, seen = [], set()
      for p in x[1]:
        if not isinstance(p, str):
          want.append((p[0] if p[0] not in seen else None, p[1]))
          seen.add(p[0])
      got, body = list(y[2]), y[3]
      if self.r.scope:
        if not got or got[-1][0] != 'vars':
          raise Bad(f'function {y[1]} does not receive the variables of its caller')
        got = got[:-1]
        if not body or body[0][0] != 'scope asg':
          raise Bad(f'function {y[1]} works on the variables of its caller')
        if body[0][1] not in COPIES:
          if body[0][1] in ('vars', '{}', 'dict()'):
            raise Bad(f'function {y[1]} works on {body[0][1]}, not on a copy of the variables of its caller')
          raise Odd(f'vars = {body[0][1]}')
        body = body[1:]
      if len(got) != len(want):
        raise Bad(f'{len(want)} parameters became {len(got)}')
      local = {}
      for (n, ty), (m, ty2) in zip(want, got):
        if ty != ty2:
          raise Bad(f'parameter of type {ty} became {ty2}')
        if n is None:
          if m in local:
            raise Bad(f'parameter {m} twice')
          local[m] = None
        elif self.r.scope:
          local[m] = n
        else:
          self.var(n, m)
      if self.r.scope:
        while body and body[0][0] == 'asg' and body[0][2][0] == 'local' and body[0][2][1] in local:
          _, key, (_, m) = body[0]
          if local[m] is not None:
            self.var(local[m], key)
            local[m] = None
          body = body[1:]
        left = [n for n in local.values() if n is not None]
        if left:
          raise Bad(f'parameter {left[0]} is not stored among the variables')
      self.stmts(x[2], body)
    else:
      raise Odd(k)

  def exprs(self, xs, ys):
    if len(xs) != len(ys):
      raise Bad(f'{len(xs)} expressions became {len(ys)}')
    for x, y in zip(xs, ys):
      self.expr(x, y)

  def mode(self, what, m):
    if self.r.opint and m != 'lib':
      raise Bad(f'{what} does not support numbers although the flag asks for it')

  def expr(self, x, y):
    if x[0] != y[0]:
      if y[0] == 'local':
        raise Bad(f'variable {y[1]} is read without the table of variables')
      raise Bad(f'{show_e(x)} became {show_e(y)}')
    k = x[0]
    if k == 'num':
      if x[1:] != y[1:]:
        raise Bad(f'number {x[1]} became {y[1]}')
    elif k == 'str':
      if len(x[1]) != len(y[1]) or any(isinstance(a, str) != isinstance(b, str) or isinstance(a, str) and a != b for a, b in zip(x[1], y[1])):
        raise Bad(f'string {x[1]!r} became {y[1]!r}')
      for a, b in zip(x[1], y[1]):
        if not isinstance(a, str):
          self.var(a[1], b[1])
    elif k == 'var':
      self.var(x[1], y[1])
    elif k == 'bin':
      if x[1] != y[1]:
        raise Bad(f'{show_e(x)} became {show_e(y)}')
      if x[1] in '@&|':
        self.mode(x[1], y[4])
      self.expr(x[2], y[2])
      self.expr(x[3], y[3])
    elif k == 'un':
      if x[1] != y[1]:
        raise Bad(f'{show_e(x)} became {show_e(y)}')
      if x[1] == '!':
        self.mode('!', y[3])
      self.expr(x[2], y[2])
    elif k == 'len':
      self.mode('#', y[2])
      self.expr(x[1], y[1])
    elif k in ('d', 'nd', 'range'):
      self.exprs(x[1:], y[1:])
    elif k == 'seq':
      self.exprs(x[1], y[1])
    elif k == 'call':
      args = list(y[2])
      if self.r.scope:
        if not args or args[-1] != ('scope',):
          raise Bad(f'call of {y[1]} does not pass the variables')
        args = args[:-1]
      if any(a == ('scope',) for a in args):
        raise Bad('variables passed as an argument')
      if x[1] in self.defs:
        if y[1] not in self.r.defs:
          raise Bad(f'call of {x[1]} became a call of {y[1]}, which the program does not define')
        self.same(self.funs, 'function', x[1], y[1])
      elif x[1] not in LIBRARY:      # unknown function (the check of names is off)
        if y[1] in self.r.defs:
          raise Bad(f'call of the unknown function {x[1]} became a call of {y[1]}')
      else:
        if y[1] != x[1]:
          raise Bad(f'call of the library function {x[1]} became a call of {y[1]}')
        self.r.role(y[1])
      self.exprs(x[2], args)
    else:
      raise Odd(k)

  def capture(self):
    used = set(self.r.used) | ({'vars'} if self.r.scope else set())
    for n in sorted(used & set(self.r.bound)):
      if n == 'vars' and self.r.bound[n] <= {'a variable', 'a parameter'}:
        continue
      raise Bad(f'{n}, which the text relies on, is redefined by {sorted(self.r.bound[n])[0]} of the program')
    funs = set(self.funs.values())
    for n in sorted(funs):
      if self.r.bound.get(n, set()) - {'a function'}:
        raise Bad(f'{n} is both a function and a variable of the program')


def show_e(x):
  if not isinstance(x, tuple):
    return str(x)
  k = x[0]
  if k == 'bin':
    return f'({show_e(x[2])} {x[1]} {show_e(x[3])})'
  if k == 'un':
    return f'({x[1]}{show_e(x[2])})'
  if k == 'len':
    return f'(#{show_e(x[1])})'
  if k == 'd':
    return f'(d {show_e(x[1])})'
  if k == 'nd':
    return f'({show_e(x[1])} d {show_e(x[2])})'
  if k == 'var':
    return x[1]
  if k == 'num':
    return str(x[1])
  if k == 'call':
    return f'[{x[1]} {" ".join(show_e(a) for a in x[2])}]'
  return f'{k} ...'


# ------------------------------------------------------------------ abstract compilation
class Compiler:
  def __init__(self, chk):
    self.chk = chk
    w = self.w = chk.world()
    if not hasattr(w, 'ply'):
      w.ply = Ply(w)
      w.get('parser.parse_and_exec', 'compile_anydice')
      for n in ('Node', 'NodeType', 'p_error'):
        try:
          w.get('parser.myparser', n)
        except AnchorMissing:
          pass
    self.f = w.get('parser.parse_and_exec', 'compile_anydice')
    w.I.max_steps = max(getattr(w.I, 'max_steps', 0), 4_000_000)

  def flags(self, st, flags):
    return st.new('dict', map=mk('map', C('empty'), *[mk('e', C(n), C(v)) for n, v in flags]))

  def out(self, src, flags=(), st=None):
    w = self.w
    st = st or w.st.fork()
    fl = [self.flags(st, flags)] if flags is not None else []
    return run(w, st, lambda s: w.I.call(self.f, [C(src), *fl], {}, s, w.fr))

  def text(self, src, flags=(), st=None):
    """('text', python text) | ('raise', exception)"""
    o = self.out(src, flags, st)
    return self.result(o)

  def result(self, o):
    if o.val is None:
      if o.raises:
        return 'raise', o.raises[0].e
      raise Unsupported('neither a value nor an exception')
    if o.raises:
      raise Unsupported('may raise')
    if is_c(o.val) and isinstance(cv(o.val), str):
      return 'text', cv(o.val)
    raise Unsupported('the text is not determined')


def wrong_arity(text):
  """a call in the text that no definition of that name in the text accepts"""
  try:
    t = ast.parse(text)
  except (SyntaxError, ValueError):
    return None
  defs = {}
  for n in ast.walk(t):
    if isinstance(n, ast.FunctionDef):
      if n.args.vararg or n.args.kwarg or n.args.kwonlyargs or n.args.defaults:
        defs[n.name] = None
      elif defs.get(n.name, 0) is not None:
        defs.setdefault(n.name, set()).add(len(n.args.args) + len(n.args.posonlyargs))
  for n in ast.walk(t):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and defs.get(n.func.id) and not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords:
      if len(n.args) not in defs[n.func.id]:
        return f'the text calls {n.func.id} with {len(n.args)} values, but the function the program defines under that name takes {sorted(defs[n.func.id])}'
  return None


def judge(src, flags, res):
  """verdict for one program"""
  fl = dict(flags)
  try:
    p, defs = read_program(src, flags)
  except Reject as e:
    if res[0] == 'raise':
      return PROVEN, 'rejected'
    return VIOLATED, f'{src!r} ({e}) is accepted and becomes {res[1]!r}'
  if res[0] == 'raise':
    return VIOLATED, f'{src!r} is rejected: {res[1]}'
  bad = wrong_arity(res[1])
  if bad:
    return VIOLATED, f'{bad}; program {src!r}, text {res[1]!r}'
  try:
    r = Read(res[1], bool(fl.get(NLS)), bool(fl.get(OPI)))
    got = r.stmts(r.tree.body)
    if r.scope:
      if not got or got[0][0] != 'scope asg' or got[0][1] not in ('{}', 'dict()'):
        raise Bad('the text does not start with an empty table of variables')
      got = got[1:]
    m = Match(defs, r)
    m.stmts(norm(p), got)
    m.capture()
  except Bad as e:
    return VIOLATED, f'{e}; program {src!r}, text {res[1]!r}'
  except Odd as e:
    return UNDECIDED, f'text outside the known vocabulary: {e}'
  return PROVEN, f'{len(res[1])} characters of Python match the program'
