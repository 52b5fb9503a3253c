"""C20: names of a program and names the translation relies on never meet; everything used is provided"""
import builtins
import keyword
from .lang import *
from .c18 import programs

RICH = 'A: {1..3} B: 2d6 C: #A set "x" to 1 output A @ B named "[A]" loop I over A { output I } output [absolute 1] + [highest 1 of B] + [1 contains 2] D: d{B} E: !A & B | C output [true div 1 2]\n'
RUNTIME = ['output', 'get_seq', 'roll', 'myrange', 'settings_set', 'anydice_casting', 'len', 'vars', 'max_func_depth', 'settings_reset', 'roller', 'math', 'random', 'itertools', 'functools']


def expressible(n):
  """words of a function name of the language that would be called n, or None"""
  ws = n.split('_')
  if all(w == 'X' or (w.isascii() and w.isalpha() and w.islower()) for w in ws):
    return ws
  return None


def pools(deep):
  first = RUNTIME + list(LIBRARY) + sorted(k for k in keyword.kwlist if expressible(k)) + ['X', 'X_X', 'X_X_X', 'f', 'f_X', 'f_f', 'f_f_X', 'var', 'var_X', 'dummy', 'dummy_X', 'vars_X', 'output_X', 'roll_X', 'self', 'copy', 'vars_copy', 'named', 'i', 'print', 'exec', 'eval', 'max', 'range', 'list', 'int', 'sum', 'type', 'match', 'case', 'abs', 'str', 'n', 's', 'd_X', 'seq']
  rest = sorted(n for n in dir(builtins) if expressible(n) and n not in first)
  return first, rest


def program_of(ws, ret='result: 1', types=()):
  """(definition, call) of the function with these words"""
  ps = iter(['N', 'M', 'K', 'L'])
  d = [next(ps) if w == 'X' else w for w in ws]
  ts = iter(types)
  d2 = [w + next(ts, '') if w.isupper() else w for w in d]
  return f'function: {" ".join(d2)} {{ {ret} }}', '[' + ' '.join(str(i + 1) if w.isupper() else w for i, w in enumerate(d)) + ']'


def main():
  chk = Check('C20', 'name capture in the translation, and completeness of the runtime namespaces', parallel=8)
  deep = chk.tier == 'thorough'
  chk.total = 780.0
  N, F, O_ = ((NLS, True),), ((FLC, True),), ((OPI, True),)
  ALLM = [(), N, F, O_, ((NLS, True), (FLC, True)), ((NLS, True), (OPI, True), (FLC, True)), ((OPI, True), (FLC, True))]
  progs = []
  first, rest = pools(deep)
  for i, n in enumerate(first + rest):
    ws = expressible(n)
    if 'd' in ws:
      continue
    df, call = program_of(ws)
    core = n in RUNTIME or n in LIBRARY or n in ('X', 'X_X', 'f', 'f_f', 'f_X')
    for m in ALLM if deep or n in RUNTIME else ((), N, F) if core else ():
      progs.append((f'{df} {RICH} output {call}', m))
    for m in ((), N, F) if deep or core else ((),):
      progs.append((f'output {call} set "x" to #{{1..2, 2d6}} {df}', m))
      progs.append((f'{program_of(ws, "result: " + call)[0]} output 1 loop I over {{1}} {{ output {call} }}', m))
    progs.append((f'if 1 {{ {df} }} output {call} + [absolute 2]', N))
    if i < len(first):
      for m in ((), N) if deep else ((), N)[i % 2:][:1]:
        progs.append((f'{df} function: roll {{ result: 2 }} output {call} + 1d6 + [roll]', m))
        progs.append((f'{df} function: absolute N {{ result: [reverse N] }} output {call} + [absolute 1]', m))
        progs.append((f'{df} function: f {" ".join(ws).replace("X", "N")} {{ result: 3 }} output {call} + [f {call[1:]}' if len([w for w in ws if w == "X"]) <= 1 else f'{df} output {call}', m))
        progs.append((f'{df} function: absolute N len {{ result: 4 }} output {call} + #{{1}}', m))
        progs.append((f'function: outer A:n {{ {df} result: {call} }} output [outer 1]', m))
        progs.append((f'{df} {df} output {call}', m))
  # two definitions at once
  pair = ['output', 'roll', 'len', 'absolute_X', 'X', 'X_X', 'sort_X', 'f', 'f_f', 'f_roll', 'f_absolute_X', 'vars', 'for', 'X_contains_X', 'true_div_X_X', 'g']
  for a in pair:
    for b in pair:
      da, ca = program_of(expressible(a), 'result: 1')
      db, cb = program_of(expressible(b), f'result: {ca}')
      for m in ((), N) if deep else ((),):
        progs.append((f'{da} {db} output {ca} + {cb} + [absolute 1] + [sort 1] + 2d6', m))
        progs.append((f'output {ca} + {cb} + [absolute 1] + [sort 1] + 2d6 {db} {da}', m))
  # variables, parameters, loop variables
  for v in ('T_N', 'T_S', 'T_D', 'X', 'X_X', 'F', 'F_X', 'RV', 'N', '_', '__', 'VAR', 'VAR_T_N', 'T', 'A', 'OUTPUT', 'ROLL', 'VARS', 'VAR_', 'DUMMY', '_N', 'T_', 'T_NN', 'TRUE', 'NONE'):
    hot = v in ('T_N', 'T_S', 'T_D', 'X', 'X_X')
    for m in ALLM if deep or hot else ((), N):
      progs.append((f'{v}: 1 output {v} named "[{v}]" loop {v} over {{1..3}} {{ output {v} + 1d{v} }} if {v} = 1 {{ {v}: {v} }} output #{v} + !{v} function: g N:n M:s K:d {{ result: N }} output [g {v} {v} {v}] + [absolute {v}]', m))
      progs.append((f'function: g {v} {{ result: {v} }} output [g 1] function: h A:n B:s C:d {{ {v}: 1 result: {v} }} output [h 1 2 3]', m))
      progs.append((f'function: g {v}:n B:s C:d {{ output "[{v}]" result: {v} + [g 1 2 3] }} output [g 1 2 3]', m))
      progs.append((f'function: g B:s C:d {v}:s {{ loop {v} over {v} {{ result: {v} }} }} output [g 1 2 3]', m))
      progs.append((f'function: g {v}:s {v}:n {v}:d {{ result: {v} }} output [g 1 2 3]', m))
      progs.append((f'function: g {v} {v} {{ result: {v} }} output [g 1 2]', m))
      progs.append((f'function: {v} {{ result: {v} }} output [1]', m))
      progs.append((f'function: {v} {v} {{ result: {v} }} output [1 2] {v}: 1 output {v}', m))
      progs.append((f'function: {v} K {{ result: {v} }} X: 1 X_X: 2 output [1 2] + X + X_X + {v}', m))
      progs.append((f'X: 1 X_X: 2 T_N: 3 function: A B:n {{ result: X + X_X + T_N + {v} }} output [X X_X] {v}: 3', m))
      if deep or v in ('T_N', 'T_S', 'T_D', 'X', 'VAR_T_N'):
        for w in ('T_N', 'T_S', 'T_D', 'X', 'VAR_T_N', 'A'):
          if w != v:
            progs.append((f'function: g {v}:n {w}:s {{ {w}: {v} result: {w} + {v} }} {v}: 1 {w}: 2 output [g {w} {v}] named "[{v}][{w}]" loop {w} over {{{v}}} {{ output {w} @ {v} }}', m))
  programs(chk, progs)

  # the names variables are renamed to, whatever they are, when the program uses them too
  rn = []

  def renamed(v, m):
    def f():
      if not rn:
        rn.append(Compiler(chk))
      r = rn[0].text(f'{v}: 1 output {v}', m)
      if r[0] != 'text':
        return VIOLATED, f'a variable called {v} is rejected: {r[1]}'
      names = {n.id for n in ast.walk(ast.parse(r[1])) if isinstance(n, ast.Name)}
      names |= {n.value for n in ast.walk(ast.parse(r[1])) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
      hit = [t for t in sorted(names) if t != v and re.fullmatch('[A-Z_]+', t)]
      for t in hit:
        for src in (f'{v}: 1 {t}: 2 output {v} output {t}', f'{t}: 2 function: g {v} {{ result: {v} + {t} }} {v}: 3 output [g {v}] + {t}', f'function: g {v} {t} {{ result: {v} - {t} }} output [g 1 2]'):
          a, why = judge(src, m, rn[0].text(src, m))
          if a != PROVEN:
            return a, why
      return PROVEN, f'{len(hit)} names of other variables are used for it, none is confused'
    chk.ob(f'the name used for {v}{" with nested scopes" if m else ""} is no other variable', f, 'compile_anydice')
  for v in ('T_N', 'T_S', 'T_D', 'A', 'X', '_', 'T', 'VAR', 'N', 'A_', '__', 'VAR_A', 'F', 'T_NN', 'RV', 'NONE'):
    for m in ((), N):
      renamed(v, m)

  # everything a text relies on is there: in the library of the executor and in the package
  comp = []

  def ready():
    if not comp:
      c = Compiler(chk)
      w = c.w
      pkg = w.I.load('', w.st)
      lib = w.get('parser.parse_and_exec', '_get_lib')
      st = w.st.fork()
      o = run(w, st, lambda s: w.I.call(lib, [], {}, s, w.fr))
      if o.val is None or o.val.op != 'ref':
        raise Unsupported('library of the executor')
      m = o.st.obj(o.val).f.get('map')
      if m is None or m.op != 'map' or m.args[0] is not prims.EMPTY:
        raise Unsupported('library of the executor has unknown entries')
      lib = {cv(e.args[0]): e.args[1] for e in m.args[1:] if is_c(e.args[0])}
      env = o.st.heap[w.I.modules[''].env].f
      al = env.get('__all__')
      from engine.plymodel import consts
      al = list(consts(w.I, o.st, al)) if al is not None else None
      comp.append((c, lib, env, al, o.st))
    return comp[0]

  def provided(n):
    def f():
      c, lib, env, al, st = ready()
      if n not in lib:
        return VIOLATED, f'{n}, which translated programs use, is missing from the library programs are executed with'
      if n not in env:
        return VIOLATED, f'{n}, which translated programs use, is missing from the package'
      if al is not None and n not in al or al is None and n.startswith('_'):
        return VIOLATED, f'{n}, which translated programs use, is not exported by the package'
      if lib[n] != env[n]:
        return VIOLATED, f'{n} of the executor is not {n} of the package'
      return PROVEN, 'same object in both'
    chk.ob(f'{n} is provided', f, '_get_lib')
  for n in [r for r in ROLES if r != 'len' and r not in ('RV', 'Seq')] + list(LIBRARY):
    provided(n)

  def builtin_len():
    c, lib, env, al, st = ready()
    for where, d in (('the library of the executor', lib), ('the exports of the package', {k: env[k] for k in (al or ()) if k in env})):
      if 'len' in d:
        return VIOLATED, f'len is redefined by {where}'
    return PROVEN, 'len is the builtin'
  chk.ob('len stays the builtin', builtin_len, '_get_lib')

  def exports():
    c, lib, env, al, st = ready()
    miss = [n for n in al or () if n not in env]
    if miss:
      return VIOLATED, f'__all__ names {miss}, which the package does not have: importing everything fails'
    return PROVEN, f'{len(al or ())} names'
  chk.ob('every exported name exists', exports, '__all__')

  SEEN = 'output A named "x" A: {1..2} B: 2d6 C: dA D: #A set "x" to 1 E: !A @ B & C | D function: g N:n M:s K:d J { result: [g 1 2 3 4] } loop I over A { if I { output I } else { output {I} } }' + ''.join(f' output {program_of(expressible(n))[1]}' for n in LIBRARY)

  def collected(m):
    """names of the text itself, whatever they are"""
    def f():
      c, lib, env, al, st = ready()
      r = c.text(SEEN, m)
      if r[0] != 'text':
        return VIOLATED, f'{SEEN!r} is rejected: {r[1]}'
      tree = ast.parse(r[1])
      bound = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)} | {a.arg for n in ast.walk(tree) if isinstance(n, ast.arguments) for a in n.args}
      used = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - bound
      prog = {'A', 'B', 'C', 'D', 'E', 'I', 'N', 'M', 'K', 'J'}
      for n in sorted(used - prog):
        inlib, inpkg = n in lib or n == 'output', n in env and (al is None or n in al)
        if n in vars(builtins) and not (inlib or inpkg):
          continue
        if not inlib:
          return VIOLATED, f'the translation uses {n}, which is missing from the library programs are executed with'
        if not inpkg:
          return VIOLATED, f'the translation uses {n}, which the package does not export'
      return PROVEN, f'{len(used)} names: {" ".join(sorted(used - prog))}'
    chk.ob(f'names of a translation using everything, {len(m)} flags {m[:1]}', f, 'compile_anydice')
  for m in ALLM:
    collected(m)
  return chk.finish(level='other')
