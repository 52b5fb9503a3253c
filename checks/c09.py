"""C09: function depth is bounded, counted and restored on every exit"""
from .rolled import *
from .c06 import deep

MSG = 'maximum function depth'
LIMIT, DEPTH, WARNED = 'maximum function depth', 'INTERNAL_CURR_DEPTH', 'INTERNAL_CURR_DEPTH_WARNING_PRINTED'

BODIES = [   # (name, parameters, body, call, how often it is entered)
  ('returning a number', 'p', 'return p', 'f(x)', 1),
  ('returning nothing', 'p', 'pass', 'f(x)', 1),
  ('returning the empty die', 'p', 'return BlankRV()', 'f(x)', 1),
  ('returning a die', 'p', 'return roll(2, 3)', 'f(x)', 1),
  ('returning early', 'p', 'if p > 3:\n  return 1\nfor i in [1, 2]:\n  if p < 0:\n    return 2\nreturn 3', 'f(x)', 1),
  ('with a typed parameter', 'p: T_N', 'return p + 1', 'f(x)', 1),
  ('with a typed parameter by keyword', 'p: T_N', 'return p + 1', 'f(p=x)', 1),
  ('given a sequence', 'p: T_N', 'return p + 1', 'f([1, 2])', 1),
  ('over a die', 'p: T_N', 'return p + 1', 'f(roll(3))', 3),
  ('over two dice', 'p: T_N, q: T_S', 'return p + q', 'f(roll(2), roll(2, 2))', 6),
  ('over a die, returning nothing', 'p: T_N', 'return None', 'f(roll(2))', 2),
  ('given the empty die as number', 'p: T_N', 'return 1', 'f(BlankRV())', 0),
  ('given the empty die as die', 'p: T_D', 'return 1', 'f(BlankRV())', 1),
  ('raising ValueError', 'p', 'raise ValueError("x")', 'f(x)', 1),
  ('raising KeyError from an operation', 'p', 'return {}["k"]', 'f(x)', 1),
  ('raising AssertionError', 'p', 'assert False', 'f(x)', 1),
  ('raising TypeError', 'p', 'return p + None', 'f(x)', 1),
  ('raising StopIteration', 'p', 'raise StopIteration()', 'f(x)', 1),
  ('raising KeyboardInterrupt', 'p', 'raise KeyboardInterrupt()', 'f(x)', 1),
  ('raising SystemExit', 'p', 'raise SystemExit()', 'f(x)', 1),
  ('raising RecursionError', 'p', 'raise RecursionError()', 'f(x)', 1),
  ('raising GeneratorExit', 'p', 'raise GeneratorExit()', 'f(x)', 1),
  ('raising for some arguments', 'p', 'if p > 7:\n  raise ValueError("x")\nreturn p', 'f(x)', 1),
  ('raising at the second outcome', 'p: T_N', 'if p > 1:\n  raise ValueError("x")\nreturn p', 'f(roll(3))', None),
  ('called with too many arguments', 'p: T_N', 'return p', 'f(x, x, x)', 0),
  ('called with too few arguments', 'p', 'return p', 'f()', 0),
  ('called with an unknown keyword', 'p: T_N', 'return p', 'f(x, q=x)', 0),
  ('given a value that cannot be converted', 'p: T_N', 'return p', 'f([None])', None),
  ('returning a value that cannot be merged', 'p: T_N', 'return [None]', 'f(roll(2))', None),
  ('changing the limit', 'p', 'settings_set("maximum function depth", 1)\nreturn p', 'f(x)', 1),
  ('changing the limit and raising', 'p', 'settings_set("maximum function depth", 25)\nraise ValueError("x")', 'f(x)', 1),
  ('setting an illegal limit', 'p', 'settings_set("maximum function depth", 0)', 'f(x)', 1),
  ('resetting the settings', 'p', 'settings_reset()\nreturn p', 'f(x)', 1),
  ('resetting the settings and raising', 'p', 'settings_reset()\nraise ValueError("x")', 'f(x)', 1),
  ('using the library', 'p: T_D', 'return explode_X(p)', 'f(roll(2))', 1),
  ('printing', 'p', 'output(p)\nreturn p', 'f(x)', 1),
]
NEST = [   # nested calls: depths seen inside, relative to the caller's
  ('one function calling another', 'f(2)', {'f': 'return g(p)', 'g': 'return p'}, [1, 2]),
  ('one function calling two others', 'f(2)', {'f': 'return g(p) + g(p)', 'g': 'return p'}, [1, 2, 2]),
  ('a call in an argument', 'f(g(2))', {'f': 'return p', 'g': 'return p'}, [1, 1]),
  ('calls one after the other', 'f(2) + g(2) + f(3)', {'f': 'return p', 'g': 'return p'}, [1, 1, 1]),
  ('a caught exception inside', 'f(2)', {'f': 'try:\n  g(p)\nexcept ValueError:\n  pass\nreturn g(0)', 'g': 'if p > 0:\n  raise ValueError("x")\nreturn p'}, [1, 2, 2]),
  ('a caught KeyboardInterrupt inside', 'f(2)', {'f': 'try:\n  g(p)\nexcept KeyboardInterrupt:\n  pass\nreturn g(0)', 'g': 'if p > 0:\n  raise KeyboardInterrupt()\nreturn p'}, [1, 2, 2]),
  ('nothing returned inside', 'f(2)', {'f': 'g(p)\nreturn g(0)', 'g': 'return None'}, [1, 2, 2]),
  ('a setting changed inside', 'f(2)', {'f': 'settings_set("explode depth", 3)\nreturn g(p)', 'g': 'return p'}, [1, 2]),
  ('the limit changed inside', 'f(2)', {'f': 'settings_set("maximum function depth", 100)\nreturn g(p)', 'g': 'return p'}, [1, 2]),
  ('three levels', 'f(2)', {'f': 'return g(p)', 'g': 'return h(p)', 'h': 'return p'}, [1, 2, 3]),
  ('recursion', 'f(3)', {'f': 'if p <= 1:\n  return 1\nreturn p + f(p - 1)'}, [1, 2, 3]),
  ('mutual recursion', 'f(3)', {'f': 'if p <= 1:\n  return 1\nreturn p + g(p - 1)', 'g': 'return f(p)'}, [1, 2, 3, 4, 5]),
  ('a reset two levels down', 'f(3)', {'f': 'r = g(p)\nreturn h(p)', 'g': 'settings_reset()\nreturn p', 'h': 'return p'}, [1, 2, 2]),
]


def ind(s, n=2):
  return ''.join(' ' * n + l + '\n' for l in s.split('\n'))


def main():
  chk = Check('C09', 'the depth counter is compared with the limit before the call, is one higher inside, and equals its old value on every normal and exceptional exit path', parallel=4)
  SRC = 'from .settings import SETTINGS\n'

  def get(w, st, k):
    return prims.getitem(w.I, st, w.settings_dict(), C(k), w.fr)

  def start(chk, c, m, warned):
    w = chk.world()
    st = w.st.fork()
    c = w.num('c', lo=0) if c is None else C(c)
    m = w.num('m', lo=1) if m is None else C(m)
    w.setting(DEPTH, c, st)
    w.setting(LIMIT, m, st)
    w.setting(WARNED, C(warned), st)
    return w, st, c, m

  def differs(w, st, a, b, pre=()):
    """None: equal, text: a model where they differ, False: unknown"""
    if nf_safe(a, b):
      return None
    n = 0
    for m in w.models(chk.nmodels, chk.seed):
      try:
        if not all(m.ev(f, {}) for f in list(w.pre) + list(pre)):
          continue
        x, y = m.ev(a, {}), m.ev(b, {})
      except (EvErr, Unknown):
        continue
      n += 1
      if not close(x, y):
        return f'{x} instead of {y} ({show_model(m)[:100]})'
    return None if n >= 8 else False

  def nf_safe(a, b):
    try:
      return nf_equal(a, b)
    except (NotDist, TooBig, KeyError):
      return False

  def states(out):
    """final states: (what, state, path condition)"""
    r = []
    if out.val is not None:
      r.append(('normally', out.st, ()))
    for x in out.raises:
      r.append((f'with {x.e.exc}', x.st, x.pc))
    return r

  def restored(w, out, c, facts):
    for what, s, pc in states(out):
      if getattr(s, 'dead', False) and what == 'normally':
        continue
      d = differs(w, s, get(w, s, DEPTH), c, list(facts) + list(pc))
      if d:
        return VIOLATED, f'after ending {what} the depth is {d}'
      if d is False:
        return UNDECIDED, f'depth after ending {what}'
    return None

  def called(dec, nm, params, body, call, n, below):
    def f():
      w, st, c, m = start(chk, None, None, False)
      fact = cmp('lt', c, m) if below else cmp('le', m, c)
      st.assume(fact)
      w.pre.append(fact)
      x = w.num('x')
      log = st.new('list', segs=tup())
      src = SRC + f'def caller(x, log):\n  @{dec}\n  def f({params}):\n    log.append(SETTINGS["{DEPTH}"])\n' + ind(body, 4) + f'  return {call}\n'
      fn_ = w.define(src, 'caller', st)
      out = run(w, st, lambda s: w.I.call(fn_, [x, log], {}, s, w.fr))
      r = restored(w, out, c, [fact])
      if r:
        return r
      if not below:
        if out.raises:
          return VIOLATED, f'raises {out.raises[0].e.exc} at the limit'
        segs = out.st.obj(log).f['segs'].args
        if segs:
          return VIOLATED, f'the function is entered at the limit ({show(segs[0])[:60]})'
        return check_out(chk, out, BlankT())
      for what, s, pc in states(out):
        segs = s.obj(log).f['segs'].args
        for sg in segs:
          if sg.op != 'it':
            return UNDECIDED, 'unknown number of entries'
          d = differs(w, s, sg.args[0], add(c, ONE), [fact, *pc])
          if d:
            return VIOLATED, f'inside the depth is {d}'
          if d is False:
            return UNDECIDED, 'depth inside'
        if n is not None and len(segs) != n and (n == 0 or what == 'normally'):
          return VIOLATED, f'entered {len(segs)} times instead of {n}'
      return PROVEN, f'{len(states(out))} exits'
    chk.ob(f'{dec}: function {nm}, {"below" if below else "at"} the limit', f, 'decorators.max_func_depth')

  def message(dec, warned, calls, want, params='p', arg='x'):
    def f():
      w, st, c, m = start(chk, None, None, warned)
      fact = cmp('le', m, c)
      st.assume(fact)
      w.pre.append(fact)
      k = len(st.heap[prims.EVENTS].f['segs'].args)
      src = SRC + f'def caller(x):\n  @{dec}\n  def f({params}):\n    return p\n' + f'  f({arg})\n' * calls + '  return 0\n'
      fn_ = w.define(src, 'caller', st)
      out = run(w, st, lambda s: w.I.call(fn_, [w.num('x')], {}, s, w.fr))
      if out.val is None:
        return VIOLATED, f'raises {out.raises[0].e}'
      ev = out.st.heap[prims.EVENTS].f['segs'].args[k:]
      if any(e.op != 'it' for e in ev):
        return UNDECIDED, 'prints under a condition'
      if len(ev) != want:
        return VIOLATED, f'{len(ev)} messages for {calls} truncated calls instead of {want}'
      fl = get(w, out.st, WARNED)
      return PROVEN, f'{want} messages'
    chk.ob(f'{dec}: {calls} truncated calls ({arg}), message printed before: {warned}', f, 'decorators.max_func_depth')

  def nested(dec, nm, call, funcs, want, c0, limit):
    """depths seen inside, cut where the limit is reached"""
    def f():
      w, st, c, m = start(chk, c0, limit, True)
      log = st.new('list', segs=tup())
      src = SRC + 'def caller(log):\n'
      for k, body in funcs.items():
        src += f'  @{dec}\n  def {k}(p):\n    log.append(SETTINGS["{DEPTH}"])\n' + ind(body, 4)
      src += f'  return {call}\n'
      fn_ = w.define(src, 'caller', st)
      out = run(w, st, lambda s: w.I.call(fn_, [log], {}, s, w.fr))
      r = restored(w, out, c, [])
      if r:
        return r
      segs = out.st.obj(log).f['segs'].args
      got = [cv(x.args[0]) if x.op == 'it' and is_c(x.args[0]) else None for x in segs]
      if None in got:
        return UNDECIDED, 'depths inside'
      lim = limit - c0 if 'the limit' not in nm else 100
      exp = [d for d in want if d <= lim] if want == sorted(want) and len(set(want)) == len(want) else want
      if exp is want and max(want) > lim:
        if any(d - c0 > lim for d in got):
          return VIOLATED, f'entered at depth {got} beyond the limit {limit}'
        return PROVEN, 'within the limit'
      if 'reset' in nm:
        return (PROVEN, str(got)) if len(got) == len(exp) else (VIOLATED, f'entered {len(got)} times instead of {len(exp)}')
      if [g - c0 for g in got] != exp:
        return VIOLATED, f'depths seen inside: {got}, starting from {c0} with limit {limit}, instead of {[c0 + d for d in exp]}'
      return PROVEN, f'depths {got}'
    chk.ob(f'{dec}: {nm}, starting at depth {c0} with limit {limit}', f, 'decorators.max_func_depth')

  def unbounded(dec, limit, body):
    def f():
      w, st, c, m = start(chk, 0, limit, False)
      log = st.new('list', segs=tup())
      src = SRC + f'def caller(log):\n  @{dec}\n  def f(p: T_N):\n    log.append(SETTINGS["{DEPTH}"])\n' + ind(body, 4) + '  a = f(1)\n  b = f(1)\n  return b\n'
      k = len(st.heap[prims.EVENTS].f['segs'].args)
      fn_ = w.define(src, 'caller', st)
      out = run(w, st, lambda s: w.I.call(fn_, [log], {}, s, w.fr))
      if out.val is None:
        return VIOLATED, f'raises {out.raises[0].e}'
      r = restored(w, out, c, [])
      if r:
        return r
      got = [cv(x.args[0]) if x.op == 'it' and is_c(x.args[0]) else None for x in out.st.obj(log).f['segs'].args]
      if None in got:
        return UNDECIDED, 'depths inside'
      want = list(range(1, limit + 1)) * 2
      if got != want:
        return VIOLATED, f'depths seen inside two calls of an endless recursion with limit {limit}: {got}'
      ev = out.st.heap[prims.EVENTS].f['segs'].args[k:]
      if any(e.op != 'it' for e in ev):
        return UNDECIDED, 'prints under a condition'
      if len(ev) != 1:
        return VIOLATED, f'message printed {len(ev)} times'
      return PROVEN, f'{limit} levels, one message'
    chk.ob(f'{dec}: endless recursion with limit {limit}: {body[-20:]}', f, 'decorators.max_func_depth')

  for dec in ('anydice_casting()', 'max_func_depth()'):
    for nm, params, body, call, n in BODIES:
      if dec == 'max_func_depth()' and (':' in params):
        continue
      called(dec, nm, params, body, call, n, True)
      called(dec, nm, params, body, call, n, False)
    for warned in (False, True):
      for calls in (1, 2, 3):
        message(dec, warned, calls, 0 if warned else 1)
    for nm, call, funcs, want in NEST:
      for c0, limit in ((0, 10), (0, 3), (2, 10), (9, 10), (0, 2), (1, 2), (0, 1), (3, 100)):
        nested(dec, nm, call, funcs, want, c0, limit)
  for arg in ('[1, 2]', 'roll(2)', 'BlankRV()', 'p=3'):
    for warned in (False, True):
      message('anydice_casting()', warned, 2, 0 if warned else 1, 'p: T_N', arg)
  for limit in (1, 2, 3, 5, 10) + ((20, 40) if chk.tier == 'thorough' else ()):
    unbounded('anydice_casting()', limit, 'return p + f(p + 1)')
    unbounded('anydice_casting()', limit, 'f(p + 1)\nreturn 3')
    unbounded('anydice_casting()', limit, 'return f(p + 1)')
  # the depth is counted for user functions only: nothing else moves it
  for nm, e in [('roll', 'roll(2, 3)'), ('library function', 'highest_X_of_X(1, roll(2, 3))'), ('explode', 'explode_X(roll(3))'), ('output', 'output(3)'), ('type casting alone', 'g(roll(2))'), ('gwf', 'absolute_X(roll(2))')]:
    def other(e=e):
      w, st, c, m = start(chk, None, None, False)
      src = SRC + f'@anydice_type_casting()\ndef g(p: T_N):\n  return p\ndef caller():\n  return {e}\n'
      fn_ = w.define(src, 'caller', st)
      out = run(w, st, lambda s: w.I.call(fn_, [], {}, s, w.fr))
      return restored(w, out, c, []) or (PROVEN, 'unchanged')
    chk.ob(f'depth unchanged by {nm}', other, 'decorators')
  return chk.finish(level='other')
