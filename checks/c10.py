"""C10: settings change only through validation; reset restores every default everywhere"""
from .rolled import *
from .c06 import deep
from .c07 import OPS, OBS, HELP, PROGRAMS, FLAGS, build, tree_tools

ORDER, EXPL, DEPTH = 'position order', 'explode depth', 'maximum function depth'
TRUNC, ZERO_P, WIDTH, PRINT = 'RV_TRUNC', 'RV_IGNORE_ZERO_PROBS', 'DEFAULT_OUTPUT_WIDTH', 'DEFAULT_PRINT_FN'
DOCUMENTED = {ORDER: 'highest first', EXPL: 2, DEPTH: 10}


class Settings:
  def __init__(self, w, st):
    self.w = w
    d = w.settings_dict()
    m = st.obj(d).f['map']
    if m.op != 'map' or m.args[0] is not prims.EMPTY:
      raise Unsupported('settings of unknown content')
    self.keys = [cv(e.args[0]) for e in m.args[1:]]

  def read(self, st, mod='settings'):
    d = self.w.get(mod, 'SETTINGS', st) if mod != 'settings' else self.w.I.attr_module(self.w.I.load('settings', st), 'SETTINGS', st)
    out = {}
    for k in self.keys:
      try:
        out[k] = prims.getitem(self.w.I, st, d, C(k), self.w.fr)
      except PyRaise:
        out[k] = None
    n = prims.length(self.w.I, st, d, self.w.fr) if hasattr(prims, 'length') else None
    return out, n


def main():
  chk = Check('C10', 'every path through the setter either raises leaving all settings equal, or stores exactly the validated value under exactly the given name; reset restores the initial content; no other call writes a setting', parallel=8)

  def diff(w, a, b, only=None, pre=()):
    """names whose values differ -> (bad, unknown)"""
    bad, unk = [], []
    for k in a:
      if only is not None and k not in only:
        continue
      x, y = a[k], b[k]
      if x is y:
        continue
      if x is None or y is None:
        bad.append(f'{k} {"missing" if y is None else "added"}')
        continue
      if x.op in ('o', 'ref') or y.op in ('o', 'ref'):
        bad.append(k)
        continue
      if is_c(x) and is_c(y):
        if type(cv(x)) is not type(cv(y)) or cv(x) != cv(y):
          bad.append(f'{k}: {cv(y)!r} instead of {cv(x)!r}')
        continue
      r = None
      for m in w.models(24, chk.seed):
        try:
          if not all(m.ev(f, {}) for f in list(w.pre) + list(pre)):
            continue
          p, q = m.ev(x, {}), m.ev(y, {})
        except (EvErr, Unknown):
          continue
        r = True
        if p != q or type(p) is not type(q):
          r = f'{k}: {q!r} instead of {p!r}'
          break
      if isinstance(r, str):
        bad.append(r)
      elif r is None:
        unk.append(k)
    return bad, unk

  def world(custom):
    w = chk.world()
    st = w.st.fork()
    S = Settings(w, st)
    init, _ = S.read(st)
    if custom:
      for k, v in ((ORDER, 'lowest first'), (EXPL, 5), (DEPTH, 3), (TRUNC, True), (ZERO_P, True), (WIDTH, 33)):
        w.setting(k, v, st)
      w.setting('INTERNAL_CURR_DEPTH', ONE, st)
      w.setting('INTERNAL_CURR_DEPTH_WARNING_PRINTED', TRUE, st)
      w.setting(PRINT, O(Opaque('printer', sink=True)), st)
    return w, st, S, init

  def check_pre(pc, w):
    return list(pc)

  # ---------------------------------------------------------------- the setter
  def setter(tag, name, value, accept, custom):
    """value(w) -> term; accept: None reject | term stored | (cond, term)"""
    def f():
      w, st, S, init = world(custom)
      before, _ = S.read(st)
      v = value(w, st)
      nm = name if isinstance(name, T) else C(name)
      fn_ = w.get('settings', 'settings_set')
      pub = w.pub('settings_set')
      out = run(w, st, lambda s: w.I.call(pub, [nm, v], {}, s, w.fr))
      acc = accept(v, w) if callable(accept) else accept
      cond, stored = acc if isinstance(acc, tuple) else (FALSE, None) if acc is None else (TRUE, acc)
      # accepted exactly under cond
      rc = or_(*[and_(*r.pc) for r in out.raises]) if out.val is not None else TRUE
      n = 0
      if not (is_c(rc) and rc is not_(cond)):
        for m in w.models(chk.nmodels, chk.seed, consts=(1, 2, 10)):
          try:
            a, r = bool(m.ev(cond, {})), bool(m.ev(rc, {}))
          except (EvErr, Unknown):
            continue
          n += 1
          if a == r:
            return VIOLATED, f'{"rejected" if a else "accepted"} {show_model(m)[:100]}'
        if n < 5:
          return UNDECIDED, 'acceptance condition'
      for r in out.raises:
        after, cnt = S.read(r.st)
        bad, unk = diff(w, before, after, pre=r.pc)
        if bad:
          return VIOLATED, 'a rejected request leaves ' + '; '.join(bad)[:200]
        if unk:
          return UNDECIDED, f'settings after rejection: {unk}'
      if out.val is not None and cond is not FALSE:
        after, cnt = S.read(out.st)
        want = dict(before)
        want[cv(nm)] = stored
        bad, unk = diff(w, want, after, pre=[cond])
        if bad:
          return VIOLATED, 'after an accepted request: ' + '; '.join(bad)[:200]
        if unk:
          return UNDECIDED, f'settings after: {unk}'
        # seen by every part of the library
        for mod in w.I.modules:
          pass
      return PROVEN, 'accepted' if cond is TRUE else 'rejected' if cond is FALSE else 'accepted exactly if legal'
    chk.ob(f'settings_set({tag}){" with changed settings" if custom else ""}', f, 'settings.settings_set')

  K = lambda c: (lambda w, st: C(c))
  symint = lambda w, st: w.num('n')
  symflt = lambda w, st: w.num('x', FLOAT)
  lst = lambda *xs: (lambda w, st: st.new('list', segs=tuple_of(*map(C, xs))))
  die = lambda w, st: w.die_exact('E', st, 2)[0]
  seqx = lambda w, st: w.seq_exact(st, [C(1)])
  blank = lambda w, st: w.blank(st)
  for custom in (False, True):
    for nm in (EXPL, DEPTH, WIDTH):
      setter(f'{nm!r}, any integer', nm, symint, lambda v, w: (cmp('lt', ZERO, v), v), custom)
      setter(f'{nm!r}, any float', nm, symflt, None, custom)
      for x in (1, 2, 7, 10 ** 6):
        setter(f'{nm!r}, {x}', nm, K(x), C(x), custom)
      for x in (0, -1, -10 ** 9, 1.5, 0.5, 2.0, 1.0, 10.0, float('inf'), '3', '', 'true', None):
        setter(f'{nm!r}, {x!r}', nm, K(x) if x is not None else (lambda w, st: NONE_T), None, custom)
      for t, v in (('[1]', lst(1)), ('a die', die), ('a sequence', seqx), ('the empty die', blank)):
        setter(f'{nm!r}, {t}', nm, v, None, custom)
      setter(f'{nm!r}, a function', nm, lambda w, st: w.pub('roll'), None, custom)
    for x in ('highest first', 'lowest first'):
      setter(f'{ORDER!r}, {x!r}', ORDER, K(x), C(x), custom)
    for x in ('Highest first', 'highest', 'first', '', 'lowest first ', 'lowest  first', 'highest_first', 'true', 0, 1, True, False, None, -1, 1.5):
      setter(f'{ORDER!r}, {x!r}', ORDER, K(x) if x is not None else (lambda w, st: NONE_T), None, custom)
    for t, v in (('["highest first"]', lst('highest first')), ('[]', lst())):
      setter(f'{ORDER!r}, {t}', ORDER, v, None, custom)
    setter(f'{ORDER!r}, any integer', ORDER, symint, None, custom)
    for nm in (TRUNC, ZERO_P):
      for x in (True, False):
        setter(f'{nm!r}, {x!r}', nm, K(x), C(x), custom)
      for x in ('true', 'false', 'True', 'False', 'TRUE', 'FALSE', 'tRuE'):
        setter(f'{nm!r}, {x!r}', nm, K(x), C(x.lower() == 'true'), custom)
      for x in ('yes', 'no', '1', '0', '', 'truee', ' true', 't', 1, 0, 2, 1.0, None, 'none'):
        setter(f'{nm!r}, {x!r}', nm, K(x) if x is not None else (lambda w, st: NONE_T), None, custom)
      setter(f'{nm!r}, any integer', nm, symint, None, custom)
      for t, v in (('[True]', lst(True)), ('a die', die), ('a sequence', seqx)):
        setter(f'{nm!r}, {t}', nm, v, None, custom)
    setter(f'{PRINT!r}, a function', PRINT, lambda w, st: w.pub('output'), lambda v, w: v, custom)
    setter(f'{PRINT!r}, any callable', PRINT, lambda w, st: O(Opaque('callable')), lambda v, w: v, custom)
    setter(f'{PRINT!r}, print', PRINT, lambda w, st: w.I.builtin_env['print'], lambda v, w: v, custom)
    setter(f'{PRINT!r}, lambda', PRINT, lambda w, st: w.define('f = lambda x: None\n', 'f', st), lambda v, w: v, custom)
    for x in ('print', '', 0, 1, True, None, 1.5):
      setter(f'{PRINT!r}, {x!r}', PRINT, K(x) if x is not None else (lambda w, st: NONE_T), None, custom)
    for t, v in (('[print]', lst(1)), ('a die', die), ('a sequence', seqx)):
      setter(f'{PRINT!r}, {t}', PRINT, v, None, custom)
    for nm in ('INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED', '', 'position  order', 'Position Order', 'position_order', 'explode', 'depth', 'rv_trunc', 'RV_TRUNC ', 'max', 'foo',
               'DEFAULT_PRINT', 'default_output_width', 'settings', 'SETTINGS', 'explode depth ', '__class__', 'clear'):
      for x in (1, True, 'highest first', 'true', 0):
        setter(f'{nm!r}, {x!r}', nm, K(x), None, custom)
    for nm, t in ((C(3), '3'), (NONE_T, 'None'), (tuple_of(C(ORDER)), 'tuple'), (C(True), 'True')):
      setter(f'{t}, 1', nm, K(1), None, custom)

  # ---------------------------------------------------------------- reset
  def reset(tag, prepare, twice=False):
    def f():
      w, st, S, init = world(False)
      mods = [m for m in list(w.I.modules) if (lambda mm: mm is not None and mm.env is not None and 'SETTINGS' in st.heap[mm.env].f)(w.I.modules[m])]
      out0 = run(w, st, lambda s: prepare(w, s))
      st = out0.st if out0.val is not None else out0.raises[0].st
      f_ = w.pub('settings_reset')
      for k in range(2 if twice else 1):
        out = run(w, st, lambda s: w.I.call(f_, [], {}, s, w.fr))
        if out.val is None:
          return VIOLATED, f'reset raises {out.raises[0].e}'
        st = out.st
        if twice and k == 0:
          prepare(w, st)
      for mod in mods:
        env = st.heap[w.I.modules[mod].env]
        d = env.f['SETTINGS']
        if d.op != 'ref':
          return UNDECIDED, f'{mod}.SETTINGS'
        after = {}
        for k in S.keys:
          try:
            after[k] = prims.getitem(w.I, st, d, C(k), w.fr)
          except PyRaise:
            after[k] = None
        bad, unk = diff(w, init, after)
        if bad:
          return VIOLATED, f'after a reset, in {mod or "the package"}: ' + '; '.join(bad)[:200]
        if unk:
          return UNDECIDED, f'{unk}'
        n = prims.call_builtin(w.I, 'len', [d], st, w.fr) if hasattr(prims, 'call_builtin') else None
      return PROVEN, f'{len(S.keys)} settings in {len(mods)} modules'
    chk.ob(f'reset {tag}', f, 'settings.settings_reset')

  def src(body):
    return lambda w, s: w.I.call(w.define(OBS + HELP + 'from .settings import SETTINGS\ndef caller():\n' + ''.join('  ' + l + '\n' for l in body.split('\n')) + '  return 0\n', 'caller', s), [], {}, s, w.fr)
  one = {ORDER: "'lowest first'", EXPL: '9', DEPTH: '3', TRUNC: 'True', ZERO_P: "'TRUE'", WIDTH: '20', PRINT: 'lambda x: None'}
  allset = '\n'.join(f'settings_set({k!r}, {v})' for k, v in one.items())
  for tw in (False, True):
    t = ', set again and reset again' if tw else ''
    reset(f'after nothing{t}', src('pass'), tw)
    for k, v in one.items():
      reset(f'after {k!r} was set{t}', src(f'settings_set({k!r}, {v})'), tw)
    reset(f'after everything was set{t}', src(allset), tw)
    reset(f'after truncated calls{t}', src('gDeep(20)'), tw)
    reset(f'after a raising call{t}', src('gBoom(3)'), tw)
    reset(f'after internal settings changed{t}', src("SETTINGS['INTERNAL_CURR_DEPTH'] = 4\nSETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True"), tw)
    reset(f'after a setting was lost{t}', src("del SETTINGS['explode depth']"), tw)
    reset(f'inside a function{t}', src(allset + '\n@anydice_casting()\ndef g(p):\n  settings_reset()\n  settings_set("explode depth", 7)\n  return p\ng(2)'), tw)
  def documented():
    w, st, S, init = world(False)
    for k, v in DOCUMENTED.items():
      if k not in init or not is_c(init[k]) or cv(init[k]) != v:
        return VIOLATED, f'the default of {k!r} is {show(init[k]) if k in init else "missing"} instead of {v!r}'
    return PROVEN, 'documented defaults'
  chk.ob('defaults of the language settings', documented, 'settings.DEFAULT_SETTINGS')

  # the setting in force is the one every part reads
  def seen(k, v):
    def f():
      w, st, S, init = world(False)
      src(f'settings_set({k!r}, {v})')(w, st)
      ref = None
      for mod in list(w.I.modules):
        m = w.I.modules[mod]
        if m is None or m.env is None or 'SETTINGS' not in st.heap[m.env].f:
          continue
        x = prims.getitem(w.I, st, st.heap[m.env].f['SETTINGS'], C(k), w.fr)
        if ref is None:
          ref = x
        if x is not ref:
          return VIOLATED, f'{mod} does not see the new value'
      return PROVEN, 'one settings table'
    chk.ob(f'{k!r} set is seen everywhere', f, 'settings.SETTINGS')
  for k, v in one.items():
    seen(k, v)

  # ---------------------------------------------------------------- nothing else changes a setting
  def untouched(tag, thunk, custom, ignore=('INTERNAL_CURR_DEPTH_WARNING_PRINTED',)):
    def f():
      w, st, S, init = world(custom)
      w.get('parser.parse_and_exec', 'do_resolve')
      st2 = w.st.fork()
      for i, o in w.st.heap.items():
        st.heap.setdefault(i, o)
      before, _ = S.read(st)
      out = run(w, st, lambda s: thunk(w, s))
      for what, s in ([('', out.st)] if out.val is not None else []) + [(r.e.exc, r.st) for r in out.raises]:
        after, n = S.read(s)
        bad, unk = diff(w, before, after, only=[k for k in before if k not in ignore])
        if bad:
          return VIOLATED, f'changes {"; ".join(bad)[:200]}'
        if unk:
          return UNDECIDED, str(unk)
      return PROVEN, 'settings unchanged'
    chk.ob(f'settings unchanged by {tag}{" (changed settings)" if custom else ""}', f, tag)

  for custom in (False, True):
    for op, like in OPS:
      for o in [op] + like:
        def t(w, s, o=o):
          mk2 = lambda a, b: w.I.call(w.pub('RV'), [tuple_of(*map(C, a)), tuple_of(*map(C, b))], {}, s, w.fr)
          vals = [mk2([1, 3], [1, 2]), mk2([1, 3], [1, 1]), mk2([2, 3], [1, 2]), mk2([1.5, 2.25], [1, 2]), mk2([0, 1, 2], [0, 1, 1])]
          return w.I.call(w.define(OBS + HELP + f'def caller(E, F, G, H, Z):\n  return {o}\n', 'caller', s), vals, {}, s, w.fr)
        untouched(o, t, custom)
    for p in PROGRAMS:
      for fl in FLAGS:
        def t(w, s, p=p, fl=fl):
          node = tree_tools(w, s)
          tr = build(node, PROGRAMS[p])
          d = s.new('dict', map=mk('map', C('empty'), *[mk('e', C(n), TRUE) for n in fl]))
          return w.I.call(w.get('parser.parse_and_exec', 'do_resolve'), [tr], {'flags': d}, s, w.fr)
        untouched(f'compiling {p} {fl}', t, custom)
    settree = ('MULTILINE_CODE', ('SET', ('STRING', 'explode depth'), ('NUMBER', '5')), ('OUTPUT', ('NUMBER', '1')))
    def t(w, s):
      node = tree_tools(w, s)
      return w.I.call(w.get('parser.parse_and_exec', 'do_resolve'), [build(node, settree)], {}, s, w.fr)
    untouched('compiling a set statement', t, custom)
  return chk.finish(level='other')
