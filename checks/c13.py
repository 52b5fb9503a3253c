"""C13: the sampler draws from the distribution; nothing else is random or reaches outside"""
import ast as pyast
import os
import itertools
from fractions import Fraction
from .common import *
from .c07 import OPS, OBS, HELP
from .lang import Compiler
from .c16 import GOOD
from .c17 import ALL
from engine import prims

EFFECTS = {'random': 'randomness', 'secrets': 'randomness', 'uuid': 'randomness', 'numpy': 'randomness', 'time': 'the clock', 'datetime': 'the clock', 'calendar': 'the clock', 'timeit': 'the clock', 'os': 'the system', 'sys': 'the interpreter', 'platform': 'the system', 'getpass': 'the system', 'pathlib': 'files', 'io': 'files', 'shutil': 'files', 'tempfile': 'files', 'glob': 'files', 'fileinput': 'files', 'pickle': 'files', 'shelve': 'files', 'sqlite3': 'files',
           'socket': 'the network', 'ssl': 'the network', 'urllib': 'the network', 'http': 'the network', 'requests': 'the network', 'subprocess': 'other processes', 'multiprocessing': 'other processes', 'threading': 'threads', 'concurrent': 'threads', '_thread': 'threads', 'asyncio': 'threads', 'signal': 'signals', 'ctypes': 'foreign code', 'locale': 'the environment', 'gc': 'the interpreter', 'weakref': 'object lifetimes', 'webbrowser': 'other processes'}
HARMLESS = {'sys': {'getrecursionlimit', 'maxsize', 'version_info', 'float_info', 'exc_info', 'modules', 'hash_info', 'int_info'}, 'os': {'path', 'linesep', 'sep'}, 'io': {'StringIO'}}
BUILTIN_EFFECTS = {'open': 'files', 'input': 'the terminal', 'exec': 'text as code', 'eval': 'text as code', '__import__': 'modules by name', 'breakpoint': 'the debugger', 'id': 'object addresses'}
LETOUT = {'safe_exec', 'unsafe_exec'}     # these exist to run a program


# functions of the library (every special method counts as well); what they call is found in the call graph
ENTRIES = set('''_INTERNAL_PROB_LIMIT_VALS __fast_convolve_op_add _apply_operation _check_nested_str _compare_to _convolve _explode_helper _get_expanded_possible_rolls _get_kth_order_statistic _get_lib _get_new_zipped
_get_normalized _get_sum_probs _get_zip _gwf_helper _indent_resolve _indent_str _is_user_function _output_blank _parse_from_str _precedence _rconvolve _resolve_infix _resolve_operand _roll
_roll_int_rv _setup_str_LHS_RHS _sort_and_group _sort_helper_add_N_to_S _sum_at _var_name absolute anydice_casting anydice_type_casting build_lex_yacc compile_anydice contains count_in decorator
dices_are_equal do_lex do_resolve do_yacc explode factorial fast_convolve filter find_column fix_dups_in_args flatten from_const from_paris from_rvs from_seq from_str get_cdf get_rv get_seq get_text
get_vals_probs get_x gwf has_dups highest_N_of_D highest_of_N_and_N is_blank_rv is_number is_rv lowest_N_of_D lowest_of_N_and_N max_func_depth maximum_of mean merge_rvs middle_N_of_D myand myinvert
mylen mymatmul myor myrange output p_call_elements p_call_elements_expr p_element p_elements p_elif p_else p_empty p_error p_expression_binop p_expression_comparison p_expression_dop p_expression_term
p_funcname_def p_funcname_def_impossibletocall p_funcname_def_param p_if p_multiline_code p_multiline_code_empty p_range p_single_code p_single_code_if_elseif_else p_str_element p_string_instring
p_strvar_instring p_term_call p_term_grouped p_term_hash p_term_name p_term_number p_term_number_decimal p_term_seq p_term_unary p_var_assign p_var_name reset_state resolve resolve_node reverse
reverse_VANILLA_SLOW roll seqs_are_equal set_one_indexed set_source settings_reset settings_set sort sort_VANILLA_SLOW std sum t_ANY_eof t_ANY_error t_INITIAL_ignore_newline t_LOWERNAME t_NUMBER
t_begin_instring t_ignore_COMMENT t_instring_end to_tuples true_div val with_child wrapper'''.split())


class Graph:
  """every function of the library, the names it refers to, and the effects it names"""

  def __init__(self, root):
    self.funcs = {}          # qualified name -> (file, node, names referred to, effects)
    self.byname = {}
    self.nfiles = 0
    self.classes, self.ctors = {}, []
    for base, dirs, files in os.walk(root):
      dirs[:] = sorted(d for d in dirs if d not in ('ply', '__pycache__'))
      for f in sorted(files):
        if f.endswith('.py') and not f.startswith('example'):
          p = os.path.join(base, f)
          with open(p) as h:
            tree = pyast.parse(h.read())
          self.nfiles += 1
          self.module(os.path.relpath(p, root), tree)
    for rel, n in self.ctors:
      for m in n.body:
        if isinstance(m, pyast.FunctionDef) and m.name in ('__init__', '__new__', '__init_subclass__', '__post_init__'):
          self.classes.setdefault(n.name, []).extend(q for q, v in self.funcs.items() if v[1] is m)

  def module(self, rel, tree):
    imported = {}            # local name -> effect module ('random' or 'random.choices')
    self.imports(tree, imported)
    for n in pyast.walk(tree):
      if isinstance(n, pyast.ClassDef):
        self.ctors.append((rel, n))
    self.scope(rel, '<module>', tree, imported, top=True)

  def imports(self, tree, out):
    for n in pyast.walk(tree):
      if isinstance(n, pyast.Import):
        for a in n.names:
          if a.name.split('.')[0] in EFFECTS:
            out[(a.asname or a.name).split('.')[0]] = a.name.split('.')[0]
      elif isinstance(n, pyast.ImportFrom) and not n.level and n.module and n.module.split('.')[0] in EFFECTS:
        for a in n.names:
          out[a.asname or a.name] = n.module.split('.')[0] + '.' + a.name

  def scope(self, rel, name, node, imported, top=False):
    names, effects = set(), []
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    if not top:
      todo += list(node.args.defaults) + [d for d in node.args.kw_defaults if d is not None]
    attrs = set()
    handed = set()
    while todo:
      n = todo.pop()
      if isinstance(n, pyast.Dict):       # handing a module on is not using it
        handed |= {id(x) for x in n.values if isinstance(x, pyast.Name)}
      if isinstance(n, (pyast.FunctionDef, pyast.AsyncFunctionDef)):
        self.scope(rel, n.name, n, imported)
        todo += n.decorator_list + list(n.args.defaults)
        if not top:
          names.add(n.name)       # closures
        continue
      if isinstance(n, pyast.Attribute):
        attrs.add(n.attr)
        if isinstance(n.value, pyast.Name) and n.value.id in imported:
          m = imported[n.value.id]
          if n.attr not in HARMLESS.get(m, ()):
            effects.append((n.lineno, f'{m}.{n.attr}', EFFECTS[m.split('.')[0]]))
          continue
      elif isinstance(n, pyast.Name) and isinstance(n.ctx, pyast.Load):
        names.add(n.id)
        if n.id in imported:
          m, a = (imported[n.id] + '.').split('.')[:2]
          if id(n) not in handed and a not in HARMLESS.get(m, ()):
            effects.append((n.lineno, imported[n.id], EFFECTS[m]))
        elif n.id in BUILTIN_EFFECTS:
          effects.append((n.lineno, n.id, BUILTIN_EFFECTS[n.id]))
      todo += list(pyast.iter_child_nodes(n))
    q = f'{rel}:{name}'
    while q in self.funcs:
      q += "'"
    self.funcs[q] = (rel, node, names | attrs, effects)
    self.byname.setdefault(name, []).append(q)

  def reach(self, starts):
    """functions reachable by name, with how"""
    seen = {q: None for q in starts}
    todo = list(starts)
    while todo:
      q = todo.pop()
      for n in self.funcs[q][2]:
        for r in self.byname.get(n, ()) if n not in LETOUT else ():
          if r not in seen and not r.endswith(':<module>'):
            seen[r] = q
            todo.append(r)
        if n in self.classes:
          for r in self.classes[n]:
            if r not in seen:
              seen[r] = q
              todo.append(r)
    return seen



def path_of(seen, q):
  out = []
  while q is not None:
    out.append(q.split(':')[1])
    q = seen[q]
  return ' <- '.join(out)


def main():
  chk = Check('C13', 'distribution of the drawn sample as a term, number of draws, and an effect analysis over the call graph of every other entry point', parallel=8)
  site = 'roller.roller'

  def drawn(w, st, x):
    """distribution of one sample term, as a die"""
    if x.op != 'sample':
      return None
    p, wt, cum = x.args[:3]
    if wt is NONE_T and cum is NONE_T:
      wt = tup(*[mk('for', s.args[0], s.args[1], it(ONE)) if s.op == 'for' else it(ONE) for s in p.args])
    elif wt is NONE_T:
      if not all(s.op == 'it' for s in cum.args):
        raise Unsupported('cumulative weights of unknown length')
      ws, last = [], ZERO
      for s in cum.args:
        ws.append(it(sub(s.args[0], last)))
        last = s.args[0]
      wt = tup(*ws)
    return w.I.call(w.pub('RV'), [prims.new_list(st, p.args), prims.new_list(st, wt.args)], {}, st, w.fr)

  def draws(st0, st):
    n = 0
    for e in st.heap[prims.EVENTS].f['segs'].args[len(st0.heap[prims.EVENTS].f['segs'].args):]:
      if e.op != 'it':
        return None
      t = e.args[0]
      if t.op == 'tup' and t.args[0].args[0] == C('random'):
        if t.args[1].args[0] == C('seed'):
          return 'the generator is seeded'
        k = t.args[-1].args[0] if t.args[1].args[0] == C('choices') else ONE
        if not is_c(k):
          return None
        n += cv(k)
    return n

  def joint(w, xs, law):
    """exact joint law of the faces, by enumerating the outcomes of the draws they depend on"""
    ds = sorted({y for x in xs for y in subterms(x) if y.op in ('sample', 'unreplaced')}, key=repr)
    def spelled(segs):
      out = []
      for s in segs:
        if s.op == 'for' and s.args[1].op == 'd.range' and all(map(is_c, s.args[1].args)) and s.args[2].op == 'it':
          u = B(s.args[0][0])
          out += [it(replace(s.args[2].args[0], lambda y: C(i) if y is u else None)) for i in range(*map(cv, s.args[1].args))]
        else:
          out.append(s)
      return out
    groups = {}
    for d in ds:
      groups.setdefault(('u', d.args[2]) if d.op == 'unreplaced' else d, []).append(d)
    alts = []
    for k, g in groups.items():
      d = g[0]
      if not all(s.op == 'it' and is_c(s.args[0]) for s in spelled(d.args[0].args)):
        return UNDECIDED, 'population unknown'
      pop = [cv(s.args[0]) for s in spelled(d.args[0].args)]
      if d.op == 'unreplaced':
        ps = list(itertools.permutations(pop, cv(d.args[1])))
        alts.append([({y: r[cv(y.args[3])] for y in g}, Fraction(1, len(ps))) for r in ps])
        continue
      ws = [1] * len(pop)
      for j, src in ((1, 'w'), (2, 'cum')):
        if d.args[j] is not NONE_T:
          if not all(s.op == 'it' and is_c(s.args[0]) for s in d.args[j].args):
            return UNDECIDED, 'weights unknown'
          ws = [cv(s.args[0]) for s in d.args[j].args]
          if src == 'cum':
            ws = [b - a for a, b in zip([0] + ws, ws)]
      if len(ws) != len(pop) or min(ws) < 0 or sum(ws) <= 0:
        return VIOLATED, f'{len(ws)} weights for {len(pop)} faces'
      alts.append([({d: v}, Fraction(p) / sum(map(Fraction, ws))) for v, p in zip(pop, ws) if p])
    n = 1
    for a in alts:
      n *= len(a)
    if n > 5000:
      return UNDECIDED, 'too many outcomes'
    got = {}
    m = next(iter(w.models(1, 0)))
    for combo in itertools.product(*alts):
      sub_, p = {}, Fraction(1)
      for c_, q in combo:
        sub_.update(c_)
        p *= q
      try:
        face = tuple(m.ev(replace(x, lambda y: C(sub_[y]) if y in sub_ else None), {}) for x in xs)
      except (EvErr, Unknown) as e:
        return UNDECIDED, f'faces not evaluated: {e}'
      got[face] = got.get(face, 0) + p
    tot = Fraction(sum(law.values()))
    want = {}
    for f in itertools.product(law, repeat=len(xs)):
      p = Fraction(1)
      for v in f:
        p *= law[v] / tot
      if p:
        want[f] = p
    if got != want:
      bad = next(f for f in set(got) | set(want) if got.get(f) != want.get(f))
      return VIOLATED, f'the faces {bad} come up with probability {got.get(bad, 0)} instead of {want.get(bad, 0)}'
    return PROVEN, f'joint law of {len(xs)} faces over {n} outcomes of the draws'

  def sampler(name, build, count, law=None):
    def f():
      w = chk.world()
      rl = w.pub('roller')
      st = w.st.fork()
      arg, spec, scale = build(w, st)
      st0 = st.fork()
      args = [arg] if count is None else [arg, C(count)]
      out = run(w, st, lambda s: w.I.call(rl, args, {}, s, w.fr))
      if out.val is None:
        return VIOLATED, f'raises {out.raises[0].e}'
      v = out.val
      if count is None:
        xs = [v]
      else:
        if v.op == 'ref' and out.st.obj(v).kind in ('list', 'inst'):
          return VIOLATED, f'{count} draws are not a tuple'
        if v.op in ('sample', 'sym', 'fn', 'c', 'none'):
          return VIOLATED, f'{count} draws are not a tuple but {show(v)[:60]}'
        if v.op != 'tup' or not all(s.op == 'it' for s in v.args):
          return UNDECIDED, f'result {show(v)[:80]}'
        xs = [s.args[0] for s in v.args]
        if len(xs) != count:
          return VIOLATED, f'{len(xs)} faces instead of {count}'
      n = draws(st0, out.st)
      if n is None:
        return UNDECIDED, 'number of draws unknown'
      if isinstance(n, str):
        return VIOLATED, n
      if law is not None and count in (None, 0, 1, 2, 3):
        return joint(w, xs, law)
      if len(set(xs)) < len(xs) and all(x.op == 'sample' for x in xs):
        return VIOLATED, f'{len(xs)} faces come from {len(set(xs))} draws: they are not independent'
      for x in xs:
        if x.op != 'sample':
          if not any(y.op == 'sample' for y in subterms(x)):
            if spec is not None and len(spec) == 1 and spec[0].op == 'it':
              v = x == spec[0].args[0].args[0].args[0]
              if v:
                continue
            return VIOLATED, f'the face {show(x)[:60]} is not drawn'
          return UNDECIDED, f'face {show(x)[:80]}'
      done = set()
      for x in xs:
        if x.op != 'sample' or x.args[:3] in done:
          continue
        done.add(x.args[:3])
        s2 = out.st.fork()
        o2 = run(w, s2, lambda s: drawn(w, s, x))
        r = check_out(chk, o2, Dist(*spec))
        if r[0] != PROVEN:
          return r
      return PROVEN, f'{len(xs)} draws from the distribution of the die'
    chk.ob(f'{name}, {"no count" if count is None else f"count {count}"}', f, site)

  def die(ty=INT):
    def b(w, st):
      A = w.die('A', st, ty)
      u = fresh()
      return A, [mk('for', (u,), dbase('A'), it(tuple_of(fn('A.v', B(u), ty=ty), fn('A.p', B(u), ty=INT))))], None
    return b

  def exact(n):
    def b(w, st):
      A, vs, ps = w.die_exact('E', st, n)
      return A, [it(tuple_of(v, p)) for v, p in zip(vs, ps)], None
    return b

  def number(w, st):
    return w.num('x'), [it(tuple_of(sym('x', INT), ONE))], None

  def seq(w, st):
    S_ = w.seq('S', st)
    from engine.interp import MAYBE_EMPTY
    segs = w.seq_segs('S').args
    MAYBE_EMPTY.discard('S')
    w.sizes['S'] = lambda rng, *a: rng.choice([1, 2, 3])
    return S_, [subst_pair(s) for s in segs], None

  def subst_pair(s):
    if s.op == 'for':
      return mk('for', *s.args[:-1], subst_pair(s.args[-1]))
    return it(tuple_of(s.args[0], ONE))

  def seq_exact(w, st):
    xs = [sym(f'y{i}', INT) for i in range(3)]
    return w.seq_exact(st, xs), [it(tuple_of(x, ONE)) for x in xs], None

  def lst(w, st):
    xs = [C(1), C(2), C(2), C(7)]
    return prims.new_list(st, tuple(it(x) for x in xs)), [it(tuple_of(x, ONE)) for x in xs], None

  def const_die(vals, probs):
    def b(w, st):
      v = w.I.call(w.pub('RV'), [prims.new_list(st, tuple(it(C(x)) for x in vals)), prims.new_list(st, tuple(it(C(x)) for x in probs))], {}, st, w.fr)
      return v, [it(tuple_of(C(x), C(p))) for x, p in zip(vals, probs)], None
    return b

  def rolled(w, st):
    A, vs, ps = w.die_exact('E', st, 2)
    v = w.I.call(w.pub('roll'), [C(2), A], {}, st, w.fr)
    out = [it(tuple_of(add(a, b), mul(p, q))) for a, p in zip(vs, ps) for b, q in zip(vs, ps)]
    return v, out, None
  for nm, b in (('any die', die()), ('any die with float faces', die(FLOAT if 'FLOAT' in globals() else ANY)), ('die of 2 faces', exact(2)), ('die of 3 faces', exact(3)), ('number', number), ('sequence', seq), ('sequence of 3', seq_exact), ('list', lst), ('die with a face of weight 0', const_die([0, 1, 2], [0, 1, 3])), ('die with negative faces', const_die([-3, 0, 5], [2, 1, 4])), ('two dice', rolled)):
    for c in (None, 0, 1, 2, 3, 6, 25):
      sampler(nm, b, c)
  for law in ({1: 1, 2: 3}, {1: 1, 2: 1, 3: 1}, {0: 0, 4: 1, 5: 2}, {-1: 2, 0: 1}, {7: 5}, {1.5: 1, 3: 2}):
    for c in (None, 0, 1, 2, 3):
      sampler(f'joint law of {law}', const_die(list(law), list(law.values())), c, law)

  for c in (None, 1, 2):
    law = {i: 1 + i % 3 for i in range(-20, 100 if c != 2 else 21)}
    sampler(f'law of a die of {len(law)} faces', const_die(list(law), list(law.values())), c, law)

  # ---- effects of everything else: abstract runs of the public operations and call graph
  g = Graph(REPO + '/src')

  def entry(q):
    def f():
      seen = g.reach([q])
      for r in sorted(seen):
        for line, what, kind in g.funcs[r][3]:
          return VIOLATED, f'{q.split(":")[1]} reaches {kind}: {what} at {g.funcs[r][0]}:{line} ({path_of(seen, r)})'
      return PROVEN, f'{len(seen)} functions reachable, none names an outside resource'
    chk.ob(f'what {q} reaches', f, q)
  for q in sorted(g.funcs):
    name = q.split(':')[1].rstrip("'")
    if name in ENTRIES or name == '<module>' or (name.startswith('__') and name.endswith('__')):
      entry(q)

  def events(src):
    def f():
      w = chk.world(contract=False)
      st = w.st.fork()
      vals = [w.I.call(w.pub('RV'), [tuple_of(*map(C, a)), tuple_of(*map(C, b))], {}, st, w.fr) for a, b in (((1, 3), (1, 2)), ((1, 3), (1, 1)), ((2, 3), (1, 2)), ((1.5, 2.25), (1, 2)), ((0, 1, 2), (0, 1, 1)))] + [w.I.call(w.pub(n), list(map(C, a)), {}, st, w.fr) for n, a in (('roll', (2, 3)), ('roll', (3, 2)), ('Seq', (2, 3, 1)), ('BlankRV', ()))]
      fn_ = w.define(OBS + HELP + '\ndef caller(E, F, G, H, Z, R, W, Q, Y):\n  return obs(' + src + ')\n', 'caller', st)
      st0 = st.fork()
      out = run(w, st, lambda s: w.I.call(fn_, list(vals), {}, s, w.fr))
      for s in ([out.st] if out.val is not None else []) + [r.st for r in out.raises]:
        for e in s.heap[prims.EVENTS].f['segs'].args[len(st0.heap[prims.EVENTS].f['segs'].args):]:
          for t in subterms(e):
            if t.op == 'tup' and t.args and t.args[0].op == 'it' and t.args[0].args[0] in (C('random'), C('file')):
              return VIOLATED, f'{src} uses {"randomness" if t.args[0].args[0] == C("random") else "files"}'
      if out.val is None:
        return UNDECIDED, f'raises {out.raises[0].e}'
      return PROVEN, 'no event'
    chk.ob(f'events of {src}', f, 'public operations')
  for o, others in OPS:
    events(o)

  comp = []

  def compiling(src, flags):
    def f():
      if not comp:
        comp.append(Compiler(chk))
      c = comp[0]
      st = c.w.st.fork()
      st0 = st.fork()
      o = c.out(src, flags, st)
      for s in ([o.st] if o.val is not None else []) + [r.st for r in o.raises]:
        for e in s.heap[prims.EVENTS].f['segs'].args[len(st0.heap[prims.EVENTS].f['segs'].args):]:
          t = e.args[0]
          if t.op == 'tup' and t.args and t.args[0].op == 'it' and t.args[0].args[0] in (C('random'), C('file')):
            return VIOLATED, f'compiling {src!r} uses {"randomness" if t.args[0].args[0] == C("random") else "files"}'
      return (PROVEN, 'no event') if o.val is not None else (UNDECIDED, 'raises')
    chk.ob(f'events of compiling {src!r} with {[n for n, _ in flags]}', f, 'compile_anydice')
  for src in GOOD:
    for flags in ALL:
      compiling(src, flags)
  return chk.finish(level='other')
