"""Model of the vendored PLY library (lexer and LALR(1) parser generator), used when the analysed sources build
a lexer or parser from token rules and grammar docstrings. The rules are taken from the analysed module's
namespace as PLY takes them: regexes in PLY's order, precedence and conflict resolution as PLY resolves them.
The t_ and p_ functions themselves are interpreted abstractly; PLY itself is trusted."""
import ast
import re
from .interp import *
from . import prims
from .prims import bi


class RuleError(Exception):
  pass


DRIVER = r'''
class LexToken:
  pass

class LexError(Exception):
  pass

class Lexer:
  def __init__(self, spec):
    self.spec = spec
    self.lexdata = None
    self.lexpos = 0
    self.lexlen = 0
    self.lineno = 1
    self.lexstate = 'INITIAL'
    self.lexstatestack = []
  def input(self, s):
    if not isinstance(s, str):
      raise ValueError('Expected a string')
    self.lexdata = s
    self.lexpos = 0
    self.lexlen = len(s)
  def begin(self, state):
    if state not in ply__states(self.spec):
      raise ValueError('Undefined state')
    self.lexstate = state
  def push_state(self, state):
    self.lexstatestack.append(self.lexstate)
    self.begin(state)
  def pop_state(self):
    self.begin(self.lexstatestack.pop())
  def current_state(self):
    return self.lexstate
  def skip(self, n):
    self.lexpos += n
  def clone(self):
    r = Lexer(self.spec)
    r.lexdata, r.lexpos, r.lexlen, r.lineno, r.lexstate = self.lexdata, self.lexpos, self.lexlen, self.lineno, self.lexstate
    return r
  def token(self):
    while self.lexpos < self.lexlen:
      m = ply__match(self.spec, self.lexstate, self.lexdata, self.lexpos)
      if m[0] == 'skip':
        self.lexpos = m[1]
        continue
      t = LexToken()
      t.lineno = self.lineno
      if m[0] == 'error':
        self.lexpos = m[1]
        if m[2] is None:
          raise LexError('Illegal character')
        t.value = self.lexdata[self.lexpos:]
        t.type = 'error'
        t.lexer = self
        t.lexpos = self.lexpos
        p = self.lexpos
        r = m[2](t)
        if p == self.lexpos:
          raise LexError('Scanning error')
        if not r:
          continue
        return r
      if m[0] == 'end':
        self.lexpos = m[1]
        break
      t.lexpos = m[3]
      t.value = self.lexdata[m[3]:m[1]]
      t.type = m[4]
      self.lexpos = m[1]
      if m[2] is None:
        if t.type is None:
          continue
        return t
      t.lexer = self
      r = m[2](t)
      if not r:
        continue
      if r.type not in ply__alltokens(self.spec):
        raise LexError('Rule returned an unknown token type')
      return r
    eof = ply__eof(self.spec, self.lexstate)
    if eof is not None:
      t = LexToken()
      t.type = 'eof'
      t.value = ''
      t.lineno = self.lineno
      t.lexpos = self.lexpos
      t.lexer = self
      return eof(t)
    return None
  def __iter__(self):
    toks = []
    while True:
      t = self.token()
      if t is None:
        break
      toks.append(t)
    return iter(toks)
  def __next__(self):
    t = self.token()
    if t is None:
      raise StopIteration
    return t

class YaccProduction:
  def __init__(self, syms, stack, lexer, parser):
    self.slice = syms
    self.stack = stack
    self.lexer = lexer
    self.parser = parser
  def slice__(self, a, b, c):
    return [s.value for s in self.slice[a:b:c]]
  def __getitem__(self, n):
    if n >= 0:
      return self.slice[n].value
    return self.stack[n].value
  def __iter__(self):
    return iter([s.value for s in self.slice])
  def __setitem__(self, n, v):
    self.slice[n].value = v
  def __len__(self):
    return len(self.slice)
  def lineno(self, n):
    return getattr(self.slice[n], 'lineno', 0)
  def set_lineno(self, n, lineno):
    self.slice[n].lineno = lineno
  def linespan(self, n):
    a = getattr(self.slice[n], 'lineno', 0)
    return a, getattr(self.slice[n], 'endlineno', a)
  def lexpos(self, n):
    return getattr(self.slice[n], 'lexpos', 0)
  def set_lexpos(self, n, lexpos):
    self.slice[n].lexpos = lexpos
  def lexspan(self, n):
    a = getattr(self.slice[n], 'lexpos', 0)
    return a, getattr(self.slice[n], 'endlexpos', a)

class Parser:
  def __init__(self, spec):
    self.spec = spec
  def parse(self, input=None, lexer=None, debug=False, tracking=False):
    if input is not None:
      lexer.input(input)
    states = [0]
    end = LexToken()
    end.type = '$end'
    start = LexToken()
    start.type = '$end'
    start.value = None
    syms = [start]
    la = None
    errorcount = 0
    while True:
      if la is None:
        la = lexer.token()
        if not la:
          la = LexToken()
          la.type = '$end'
      a = ply__action(self.spec, states[-1], la.type)
      if a is None:
        if errorcount == 0:
          errorcount = 3
          tok = la
          if la.type == '$end':
            tok = None
          if tok and not hasattr(tok, 'lexer'):
            tok.lexer = lexer
          r = ply__errorfunc(self.spec)(tok)
          if r:
            raise NotImplementedError('error recovery by p_error')
          if tok is None:
            return None
        else:
          errorcount = 3
          if la.type == '$end':
            return None
        states = [0]
        syms = [start]
        la = None
        continue
      if a[0] == 'accept':
        return syms[-1].value
      if a[0] == 'shift':
        states.append(a[1])
        syms.append(la)
        la = None
        if errorcount:
          errorcount -= 1
        continue
      n = a[2]
      lhs = LexToken()
      lhs.type = a[1]
      lhs.value = None
      if n:
        targ = [lhs] + syms[-n:]
        syms = syms[:-n]
        states = states[:-n]
      else:
        targ = [lhs]
      a[3](YaccProduction(targ, syms, lexer, self))
      syms.append(lhs)
      states.append(ply__goto(self.spec, states[-1], a[1]))
'''


# ------------------------------------------------------------------ rules of a lexer
def consts(I, st, v):
  """python value of a constant abstract value"""
  if is_c(v):
    return cv(v)
  if v.op == 'tup':
    return tuple(consts(I, st, x.args[0]) for x in v.args)
  if v.op == 'ref':
    o = st.obj(v)
    if o.kind in ('list', 'set'):
      return [consts(I, st, x.args[0]) for x in o.f['segs'].args]
  raise Unsupported(f'not a constant: {show(v)[:60]}')


def funcobj(v):
  return ov(v) if is_o(v) and isinstance(ov(v), FuncObj) else None


def docstring(f):
  return ast.get_docstring(f.node, clean=False) if not isinstance(f.node, ast.Lambda) else None


def strv(v):
  return cv(v) if is_c(v) and isinstance(cv(v), str) else None


class LexSpec:
  def __init__(self, I, env, st):
    g = lambda n: env.get(n)
    if g('tokens') is None:
      raise RuleError('no tokens')
    self.tokens = list(consts(I, st, g('tokens')))
    self.stateinfo = {'INITIAL': 'inclusive'}
    for n, k in (consts(I, st, g('states')) if g('states') is not None else ()):
      self.stateinfo[n] = k
    self.ignore = {s: '' for s in self.stateinfo}
    self.error, self.eof = {}, {}
    fun, strs = {s: [] for s in self.stateinfo}, {s: [] for s in self.stateinfo}
    literals = consts(I, st, g('literals')) if g('literals') is not None else ''
    if literals:
      raise Unsupported('literal tokens')
    for name, v in list(env.items()):
      if not name.startswith('t_') or v is UNDEF:
        continue
      parts = name.split('_')
      i = 1
      while i < len(parts) and (parts[i] in self.stateinfo or parts[i] == 'ANY'):
        i += 1
      ss = parts[1:i] if i > 1 else ['INITIAL']
      if 'ANY' in ss:
        ss = list(self.stateinfo)
      tok = '_'.join(parts[i:])
      f = funcobj(v)
      if f is not None:
        if tok in ('error', 'eof'):
          for s in ss:
            (self.error if tok == 'error' else self.eof)[s] = v
          continue
        if tok == 'ignore':
          raise RuleError(f'{name} must be a string')
        d = docstring(f)
        if not d:
          raise RuleError(f'no regex for {name}')
        for s in ss:
          fun[s].append((f.node.lineno, name, d, tok, v))
      elif strv(v) is not None:
        for s in ss:
          if tok == 'ignore':
            self.ignore[s] = strv(v)
          elif tok == 'error':
            raise RuleError(f'{name} must be a function')
          else:
            if tok not in self.tokens and tok.find('ignore_') < 0:
              raise RuleError(f'{name} defines an unspecified token')
            strs[s].append((strv(v), name, tok))
      else:
        raise Unsupported(f'token rule {name}')
    self.rules = {}
    for s in self.stateinfo:
      rs = [(d, tok, v) for _, _, d, tok, v in sorted(fun[s], key=lambda x: x[0])]
      rs += [(r, tok, None) for r, _, tok in sorted(strs[s], key=lambda x: len(x[0]), reverse=True)]
      if not rs:
        raise RuleError(f'no rules for state {s}')
      self.rules[s] = []
      for r, tok, v in rs:
        c = re.compile(r, re.VERBOSE)
        if c.match(''):
          raise RuleError(f'regex of {tok} matches the empty string')
        self.rules[s].append((c, tok, v))
    for s, k in self.stateinfo.items():
      if s != 'INITIAL' and k == 'inclusive':
        self.rules[s] = self.rules[s] + self.rules['INITIAL']
        self.error.setdefault(s, self.error.get('INITIAL'))
        self.ignore[s] = self.ignore[s] or self.ignore['INITIAL']


# ------------------------------------------------------------------ grammar and LALR(1) tables
class Prod:
  __slots__ = ('n', 'lhs', 'rhs', 'prec', 'func', 'line')

  def __init__(self, n, lhs, rhs, prec, func, line):
    self.n, self.lhs, self.rhs, self.prec, self.func, self.line = n, lhs, tuple(rhs), prec, func, line


def parse_doc(doc, line):
  out, lastp, dline = [], None, line
  for ps in doc.splitlines():
    dline += 1
    p = ps.split()
    if not p:
      continue
    if p[0] == '|':
      if not lastp:
        raise RuleError(f"misplaced '|' near line {dline}")
      lhs, syms = lastp, p[1:]
    else:
      lhs = lastp = p[0]
      if len(p) < 2 or p[1] not in (':', '::='):
        raise RuleError(f"expected ':' near line {dline}")
      syms = p[2:]
    out.append((lhs, syms, dline))
  return out


class YaccSpec:
  def __init__(self, I, env, st):
    tokens = set(consts(I, st, env['tokens']))
    prec = {}
    if env.get('precedence') is not None:
      for lvl, p in enumerate(consts(I, st, env['precedence'])):
        if p[0] not in ('left', 'right', 'nonassoc'):
          raise RuleError('associativity must be left, right or nonassoc')
        for t in p[1:]:
          if t in prec:
            raise RuleError(f'precedence of {t} given twice')
          prec[t] = (p[0], lvl + 1)
    fs = []
    for name, v in env.items():
      f = funcobj(v)
      if name.startswith('p_') and name != 'p_error' and f is not None:
        fs.append((f.node.lineno, name, docstring(f), v))
    self.errorfunc = env.get('p_error', NONE_T)
    fs.sort(key=lambda x: (x[0], x[1]))
    gram = []
    for line, name, doc, v in fs:
      if not doc:
        continue
      for lhs, syms, dl in parse_doc(doc, line):
        gram.append((lhs, syms, v, dl))
    if not gram:
      raise RuleError('no grammar')
    start = strv(env['start']) if env.get('start') is not None else gram[0][0]
    self.prods = [Prod(0, "S'", (start,), ('right', 0), None, 0)]
    seen, used = set(), set()
    for lhs, syms, v, dl in gram:
      syms = list(syms)
      if '%prec' in syms:
        if len(syms) < 2 or syms[-2] != '%prec' or syms[-1] not in prec:
          raise RuleError(f'bad %prec in {lhs}')
        pr = prec[syms[-1]]
        used.add(syms[-1])
        del syms[-2:]
      else:
        t = [s for s in syms if s in tokens]
        pr = prec.get(t[-1], ('right', 0)) if t else ('right', 0)
      k = (lhs, tuple(syms))
      if k in seen:
        raise RuleError(f'duplicate rule {lhs} -> {syms}')
      seen.add(k)
      self.prods.append(Prod(len(self.prods), lhs, syms, pr, v, dl))
    self.nonterms = {p.lhs for p in self.prods}
    for p in self.prods:
      for s in p.rhs:
        if s not in tokens and s not in self.nonterms and s != 'error':
          raise RuleError(f'symbol {s} used, but not defined as a token or a rule')
    self.tokens, self.prec, self.start = tokens, prec, start
    self.build()

  def build(self):
    P, NT = self.prods, self.nonterms
    by = {}
    for p in P:
      by.setdefault(p.lhs, []).append(p)
    self.by = by
    first = {n: set() for n in NT}
    nullable = set()
    ch = True
    while ch:
      ch = False
      for p in P:
        old = (len(first[p.lhs]), p.lhs in nullable)
        for s in p.rhs:
          if s in NT:
            first[p.lhs] |= first[s]
            if s not in nullable:
              break
          else:
            first[p.lhs].add(s)
            break
        else:
          nullable.add(p.lhs)
        ch |= old != (len(first[p.lhs]), p.lhs in nullable)

    def first_of(seq, la):
      out = set()
      for s in seq:
        if s in NT:
          out |= first[s]
          if s not in nullable:
            return out
        else:
          out.add(s)
          return out
      return out | {la}

    def closure0(kernel):
      items = list(kernel)
      have = set(items)
      for p, d in items:
        if d < len(P[p].rhs) and P[p].rhs[d] in NT:
          for q in by[P[p].rhs[d]]:
            if (q.n, 0) not in have:
              have.add((q.n, 0))
              items.append((q.n, 0))
      return items

    def closure1(items):
      have = {}
      todo = []
      for it_, la in items:
        if la not in have.setdefault(it_, set()):
          have[it_].add(la)
          todo.append((it_, la))
      while todo:
        (p, d), la = todo.pop()
        r = P[p].rhs
        if d < len(r) and r[d] in NT:
          fs = first_of(r[d + 1:], la)
          for q in by[r[d]]:
            h = have.setdefault((q.n, 0), set())
            for x in fs:
              if x not in h:
                h.add(x)
                todo.append(((q.n, 0), x))
      return have

    k0 = ((0, 0),)
    states, idx, trans = [k0], {frozenset(k0): 0}, []
    i = 0
    while i < len(states):
      items = closure0(states[i])
      moves = {}
      for p, d in items:
        if d < len(P[p].rhs):
          moves.setdefault(P[p].rhs[d], []).append((p, d + 1))
      tr = {}
      for s, ker in moves.items():
        fk = frozenset(ker)
        if fk not in idx:
          idx[fk] = len(states)
          states.append(tuple(ker))
        tr[s] = idx[fk]
      trans.append(tr)
      i += 1
    la = [{k: set() for k in ker} for ker in states]
    prop = {}
    la[0][(0, 0)].add('$end')
    work = []
    for i, ker in enumerate(states):
      for k in ker:
        for (p, d), ls in closure1([(k, '#')]).items():
          if d < len(P[p].rhs):
            j = trans[i][P[p].rhs[d]]
            for x in ls:
              if x == '#':
                prop.setdefault((i, k), []).append((j, (p, d + 1)))
              else:
                la[j][(p, d + 1)].add(x)
    work = [(i, k) for i, ker in enumerate(states) for k in ker]
    while work:
      i, k = work.pop()
      for j, k2 in prop.get((i, k), ()):
        if not la[i][k] <= la[j][k2]:
          la[j][k2] |= la[i][k]
          work.append((j, k2))
    self.states, self.trans = states, trans
    self.action, self.conflicts = [], []
    for i, ker in enumerate(states):
      act = {}
      items = closure1([(k, x) for k in ker for x in la[i][k]])
      for s, j in trans[i].items():
        if s not in NT:
          act[s] = ('shift', j)
      for (p, d), ls in sorted(items.items()):
        if d != len(P[p].rhs):
          continue
        if p == 0:
          act['$end'] = ('accept',)
          continue
        for a in sorted(ls):
          r = act.get(a)
          if a in act and r is None:
            continue
          if r is None:
            act[a] = ('reduce', p)
          elif r[0] == 'shift':
            sp, sl = self.prec.get(a, ('right', 0))
            rp, rl = P[p].prec
            if sl < rl or (sl == rl and rp == 'left'):
              act[a] = ('reduce', p)
            elif sl == rl and rp == 'nonassoc':
              act[a] = None
            if not sl and not rl:
              self.conflicts.append((i, a, p))
          elif r[0] == 'reduce':
            if P[r[1]].line > P[p].line:
              act[a] = ('reduce', p)
            self.conflicts.append((i, a, p, r[1]))
      self.action.append(act)


# ------------------------------------------------------------------ primitives of the driver
def _spec(a):
  return ov(a[0])


@bi('ply__states')
def b_states(I, st, a, k, fr):
  return tuple_of(*[C(s) for s in _spec(a).stateinfo])


@bi('ply__alltokens')
def b_alltokens(I, st, a, k, fr):
  return tuple_of(*[C(s) for s in _spec(a).tokens])


@bi('ply__match')
def b_match(I, st, a, k, fr):
  sp, state, data, pos = _spec(a), cv(a[1]), a[2], a[3]
  if not (is_c(data) and is_c(pos)):
    raise Unsupported('lexing a text that is not constant')
  data, pos = cv(data), cv(pos)
  p = pos
  ig = sp.ignore[state]
  while p < len(data) and data[p] in ig:
    p += 1
  if p >= len(data):
    return tuple_of(C('end'), C(p))
  for c, tok, v in sp.rules[state]:
    m = c.match(data, p)
    if m:
      if v is None and tok not in sp.tokens:
        return tuple_of(C('tok'), C(m.end()), NONE_T, C(p), NONE_T)
      return tuple_of(C('tok'), C(m.end()), v if v is not None else NONE_T, C(p), C(tok))
  return tuple_of(C('error'), C(p), sp.error.get(state) or NONE_T)


@bi('ply__eof')
def b_eof(I, st, a, k, fr):
  return _spec(a).eof.get(cv(a[1])) or NONE_T


@bi('ply__action')
def b_action(I, st, a, k, fr):
  sp = _spec(a)
  if not is_c(a[2]):
    raise Unsupported('parsing a token of unknown type')
  r = sp.action[cv(a[1])].get(cv(a[2]))
  if r is None:
    return NONE_T
  if r[0] == 'reduce':
    p = sp.prods[r[1]]
    return tuple_of(C('reduce'), C(p.lhs), C(len(p.rhs)), p.func)
  return tuple_of(*[C(x) for x in r])


@bi('ply__goto')
def b_goto(I, st, a, k, fr):
  return C(_spec(a).trans[cv(a[1])][cv(a[2])])


@bi('ply__errorfunc')
def b_errorfunc(I, st, a, k, fr):
  return _spec(a).errorfunc


class Ply:
  """per-world model: lex() and yacc() build their rules from the module that calls them"""

  def __init__(self, w):
    self.w = w
    self.specs = {}
    I = w.I
    I.max_rounds = 100000
    self.lexer = w.define(DRIVER + '\nBOTH = (Lexer, Parser)\n', 'BOTH', w.st)
    prims._ext[(id(I), 'ply.lex', 'lex')] = O(prims.Builtin('ply.lex.lex', self.lex))
    prims._ext[(id(I), 'ply.yacc', 'yacc')] = O(prims.Builtin('ply.yacc.yacc', self.yacc))

  def env_of(self, st, fr):
    return {k: v for k, v in st.heap[fr.module.env].f.items() if isinstance(k, str)}

  def spec(self, cls, I, st, fr):
    env = self.env_of(st, fr)
    key = (cls, tuple((k, v) for k, v in env.items() if k.startswith(('t_', 'p_')) or k in ('tokens', 'states', 'precedence', 'start')))
    if key not in self.specs:
      try:
        self.specs[key] = cls(I, env, st)
      except RuleError as e:
        self.specs[key] = e
    s = self.specs[key]
    if isinstance(s, RuleError):
      raise PyRaise('SyntaxError', I.site(fr, None), str(s))
    return s

  def lex(self, I, st, a, k, fr):
    if a or set(k) - {'debug', 'optimize', 'debuglog', 'errorlog'}:
      raise Unsupported('lex() with arguments')
    return I.call(self.lexer.args[0].args[0], [O(self.spec(LexSpec, I, st, fr))], {}, st, fr)

  def yacc(self, I, st, a, k, fr):
    if a or set(k) - {'debug', 'optimize', 'write_tables', 'debuglog', 'errorlog', 'check_recursion'}:
      raise Unsupported('yacc() with arguments')
    d = k.get('debug', FALSE)
    if not is_c(d) or cv(d):
      prims.event(I, st, 'file', C('parser.out'))
    return I.call(self.lexer.args[1].args[0], [O(self.spec(YaccSpec, I, st, fr))], {}, st, fr)
