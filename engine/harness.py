"""Obligations, verdicts, evidence and reporting shared by all checks."""
import json
import os
import sys
import time
import traceback
from fractions import Fraction
from .dice import *
from .nf import dist_nf, nf, NotDist, TooBig

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIMES = float(os.environ.get('VERIF_TIMES') or 0)
PROVEN, VIOLATED, UNDECIDED = 'proven', 'violated', 'undecided'


class Ob:
  def __init__(self, name, verdict, detail='', site=None):
    self.name, self.verdict, self.detail, self.site = name, verdict, detail, site


class Check:
  def __init__(self, pid, rule, tier=None, parallel=0):
    self.pid, self.rule = pid, rule
    self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
    self.seed = int(os.environ.get('VERIF_SEED') or 1)
    self.obs = []
    self.done = []
    self.worlds = []
    self._cache = {}
    self.analysed = set()
    self.t0 = time.time()
    self.notes = []
    self.spent, self.budget = 0.0, 40.0 if self.tier == 'quick' else 300.0
    self.per_ob, self.total = (15.0, 400.0) if self.tier == 'quick' else (60.0, 780.0)
    # obligations are independent of each other: workers of the same program decide every n-th one
    sl = os.environ.get('VERIF_SLICE')
    self.slice = tuple(map(int, sl.split('/'))) if sl else None
    self.workers, self.count, self.pending = [], 0, {}
    if parallel and not self.slice:
      n = int(os.environ.get('VERIF_JOBS') or min(parallel, os.cpu_count() or 1))
      if n > 1:
        import subprocess
        import tempfile
        for k in range(n):
          f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
          f.close()
          env = dict(os.environ, VERIF_SLICE=f'{k}/{n}', VERIF_SLICE_OUT=f.name, VERIF_TIER=self.tier)
          self.workers.append((subprocess.Popen([sys.executable, os.path.join(HOME, 'run.py'), pid], env=env, stdout=sys.stdout if TIMES else subprocess.DEVNULL), f.name))
    self.nmodels = 80 if self.tier == 'quick' else 400

  def world(self, **k):
    key = tuple(sorted((a, str(b)) for a, b in k.items()))
    w = self._cache.get(key)
    if w is None:
      w = self._cache[key] = World(**k)
      self.worlds.append(w)
    w.reset()
    return w

  def add(self, name, verdict, detail='', site=None):
    self.obs.append(Ob(name, verdict, detail, site))

  def ob(self, name, f, site=None):
    """f() -> (verdict, detail[, site]); the analysis' own limits make it undecided"""
    i = self.count
    self.count += 1
    if self.workers:
      self.obs.append(Ob(name, UNDECIDED, 'analysis failure: no answer of the worker', site))
      self.pending[i] = len(self.obs) - 1
      return
    if self.slice and i % self.slice[1] != self.slice[0]:
      return
    t0 = time.time()
    if t0 - self.t0 > self.total:
      self.add(name, UNDECIDED, 'time limit of the check', site)
      return
    Clock.until = time.monotonic() + min(self.per_ob, self.total - (t0 - self.t0) + 1)
    try:
      k = len(self.obs)
      self._ob(name, f, site)
      self.done.extend((i, o) for o in self.obs[k:])
      if os.environ.get('VERIF_FIRST') and self.obs[-1].verdict == VIOLATED:   # development: stop at the first violation
        print(f'VIOLATION property={self.pid} {self.obs[-1].name}: {self.obs[-1].detail}'[:300], flush=True)
        os._exit(1)
    finally:
      Clock.until = None
      if TIMES and time.time() - t0 > TIMES:
        print(f'  time {time.time() - t0:.2f} s  {name}', flush=True)

  def collect(self):
    for p, f in self.workers:
      try:
        rc = p.wait(timeout=max(5, self.total + 60 - (time.time() - self.t0)))
      except Exception:
        p.kill()
        rc = None
      try:
        r = json.load(open(f))
      except Exception:
        if rc == 2:
          raise AnchorMissing('worker')
        r = {'obs': [], 'analysed': []}
      os.unlink(f)
      for i, n, v, d, s in r['obs']:
        if i in self.pending and self.obs[self.pending[i]].name == n:
          self.obs[self.pending[i]] = Ob(n, v, d, s)
      self.analysed |= set(r['analysed'])
    self.workers = []

  def _ob(self, name, f, site):
    try:
      r = f()
      if len(r) == 2:
        r = (r[0], r[1], site)
      self.add(name, r[0], r[1], r[2] or site)
    except Unsupported as e:
      if os.environ.get('VERIF_DEBUG') == '2':
        traceback.print_exc()
      self.add(name, UNDECIDED, f'analysis limit: {e}', site)
    except (NotDist, TooBig, Unknown, EvErr) as e:
      self.add(name, UNDECIDED, f'analysis limit: {type(e).__name__} {e}', site)
    except RecursionError:
      self.add(name, UNDECIDED, 'analysis limit: recursion', site)
    except AnchorMissing:
      raise
    except PyRaise as e:
      self.add(name, UNDECIDED, f'setup raises: {e}', site)
    except Exception as e:
      if os.environ.get('VERIF_DEBUG'):
        traceback.print_exc()
      self.add(name, UNDECIDED, f'analysis failure: {type(e).__name__}: {e}', site)

  # ------------------------------------------------------------ finish
  def finish(self, level='other', explanation='', assumptions=(), extra=None):
    for w in self.worlds:
      self.analysed |= w.I.functions_seen
    if self.slice:
      with open(os.environ['VERIF_SLICE_OUT'], 'w') as f:
        json.dump({'obs': [[i, o.name, o.verdict, o.detail, o.site] for i, o in self.done], 'analysed': sorted(self.analysed)}, f, default=str)
      return 0
    if self.workers:
      self.collect()
    known = load_known(self.pid)
    viol, kn = [], []
    for o in self.obs:
      if o.verdict == VIOLATED:
        (kn if o.name in known else viol).append(o)
    n = {v: sum(1 for o in self.obs if o.verdict == v) for v in (PROVEN, VIOLATED, UNDECIDED)}
    ev = {
      'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
      'wall_s': round(time.time() - self.t0, 3),
      'assumptions': list(assumptions),
      'coverage': {
        'explanation': explanation or self.rule,
        'rule': self.rule,
        'obligations': len(self.obs), 'discharged': n[PROVEN], 'violated': n[VIOLATED], 'undecided': n[UNDECIDED],
        'undecided_obligations': [f'{o.name}: {o.detail}'[:300] for o in self.obs if o.verdict == UNDECIDED][:80],
        'obligation_names': [o.name for o in self.obs][:600],
        'functions_analysed': sorted(self.analysed),
        'samples': [{'obligation': o.name, 'verdict': o.verdict, 'argument': o.detail[:160], 'site': o.site} for o in self.obs[:: max(1, len(self.obs) // 8)]][:10],
      },
    }
    if level == 'proof':
      ev['coverage']['checker_cmd'] = f'python3 run.py {self.pid}'
      ev['coverage']['trusted_base'] = 'engine/*.py, CPython ast module'
    if extra:
      ev['coverage'].update(extra)
    os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
    p = os.path.join(HOME, 'evidence', f'{self.pid}.json')
    with open(p, 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    for o in kn:
      print(f'KNOWN-FINDING: property={self.pid} {o.name}: {o.detail}'[:400])
    print(f'{self.pid}: {len(self.obs)} obligations, {n[PROVEN]} discharged, {n[UNDECIDED]} undecided, {n[VIOLATED]} violated ({ev["wall_s"]} s)')
    if os.environ.get('VERIF_VERBOSE'):
      for o in self.obs:
        if o.verdict == UNDECIDED:
          print('  undecided', o.name, '--', o.detail[:200])
    if not self.obs:
      print('no obligation could be generated')
      return 2
    if viol:
      rp = os.path.join(HOME, 'evidence', f'{self.pid}.violation.json')
      with open(rp, 'w') as f:
        json.dump([{'obligation': o.name, 'where': o.site, 'detail': o.detail, 'rule': self.rule} for o in viol], f, indent=1, default=str)
      for o in viol[:8]:
        print(f'  {o.name} @ {o.site}: {o.detail}'[:600])
      print(f'VIOLATION property={self.pid} replay={rp}')
      return 1
    return 0


def load_known(pid):
  out = set()
  p = os.path.join(HOME, 'known_findings.txt')
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if line.startswith('known:') and f'property={pid} ' in line and ' key=' in line:
        out.add(line.split(' key=', 1)[1].split(' :: ')[0])
  return out


# ---------------------------------------------------------------- outcomes
class Out:
  """what an abstract run can do: return value (in state st) or one of the recorded raises"""

  def __init__(self, w, val, st, raises, st0):
    self.w, self.val, self.st, self.raises, self.st0 = w, val, st, raises, st0


def run(w, st, thunk):
  """thunk(st) -> value; collects the exceptions of every branch"""
  I = w.I
  I.rs.append([])
  I.steps = 0
  st.pc = ()
  st0 = st.fork()
  try:
    try:
      v = thunk(st)
      recs = I.rs[-1]
    except PyRaise as e:
      recs = I.rs[-1]
      recs.append(RaiseRec((), e, st.fork()))
      v = None
    return Out(w, v, st, recs, st0)
  finally:
    I.rs.pop()


# ---------------------------------------------------------------- specifications
class S:
  pass


class Dist(S):
  def __init__(self, *segs):
    self.segs = segs


class Num(S):
  def __init__(self, t):
    self.t = t


class SeqT(S):
  def __init__(self, *segs):
    self.segs = segs


class BlankT(S):
  def __init__(self, special=False):
    self.special = special


class Raise(S):
  def __init__(self, *excs):
    self.excs = excs


class Same(S):
  """identity: the very object"""

  def __init__(self, ref):
    self.ref = ref


class Term(S):
  """plain term equality (strings, booleans, tuples)"""

  def __init__(self, t):
    self.t = t


class Cases(S):
  def __init__(self, *cs):
    self.cs = cs   # (cond, spec) ...; last cond may be TRUE


class AnyOf(S):
  """any of several acceptable results"""

  def __init__(self, *specs):
    self.specs = specs


class Py(S):
  """the value a reference definition gives (analysed by the same interpreter)"""

  def __init__(self, out):
    self.out = out


def wv(v, w):
  return tuple_of(v, w)


def obs_value(w, m, st, v):
  """semantic observation of a value in a finite model"""
  if v is None:
    raise Unknown('no value')
  if v.op == 'ite':
    return obs_value(w, m, st, v.args[1] if m.ev(v.args[0], {}) else v.args[2])
  if v.op == 'ref':
    o = st.obj(v)
    if o.kind == 'inst':
      if o.cls.is_sub(w.RV):
        vals, probs = m.ev(o.f['vals'], {}), m.ev(o.f['probs'], {})
        if len(vals) != len(probs):
          raise Unknown('ragged die')
        return ('die', list(zip(vals, probs)))
      if o.cls.is_sub(w.Blank):
        f = o.f['_special_null'] if '_special_null' in o.f else FALSE
        return ('blank', bool(m.ev(f, {})))
      if '_seq' in o.f:
        return ('seq', o.cls.name, m.ev(o.f['_seq'], {}))
      raise Unknown(o.cls.name)
    if o.kind in ('list', 'iter'):
      return ('list', m.ev(o.f['segs'], {}))
    raise Unknown(o.kind)
  if v is NONE_T:
    return ('num', None)
  x = m.ev(v, {})
  if isinstance(x, bool):
    return ('num', int(x))
  if isinstance(x, (int, float, Fraction)):
    return ('num', x)
  return ('val', x)


def obs_out(out, m):
  for r in out.raises:
    if getattr(r, 'vague', False):
      raise Unknown('vague raise')
    if m.ev(and_(*r.pc), {}):
      return ('raise', r.e.exc, r.e)
  return obs_value(out.w, m, out.st, out.val)


def obs_spec(w, spec, m, st):
  if isinstance(spec, Cases):
    for c, s in spec.cs:
      if m.ev(c, {}):
        return obs_spec(w, s, m, st)
    raise Unknown('no case')
  if isinstance(spec, Py):
    return obs_out(spec.out, m)
  if isinstance(spec, Dist):
    return ('die', m.seq(spec.segs, {}))
  if isinstance(spec, Num):
    x = m.ev(spec.t, {})
    return ('num', int(x) if isinstance(x, bool) else x)
  if isinstance(spec, SeqT):
    return ('seq', None, tuple(m.seq(spec.segs, {})))
  if isinstance(spec, BlankT):
    return ('blank', spec.special)
  if isinstance(spec, Raise):
    return ('raise', spec.excs)
  if isinstance(spec, Term):
    x = m.ev(spec.t, {})
    return ('num', x) if isinstance(x, (int, float, Fraction)) or x is None else ('val', x)
  raise Unknown('spec')


def obs_close(got, want):
  if want[0] == 'raise' and len(want) == 3:
    return got[0] == 'raise' and got[1] == want[1]
  if want[0] == 'raise':
    return got[0] == 'raise' and (not want[1] or got[1] in want[1])
  if got[0] != want[0]:
    return False
  if got[0] == 'die':
    if sum(p for _, p in got[1]) == 0 or sum(p for _, p in want[1]) == 0:
      return sum(p for _, p in got[1]) == sum(p for _, p in want[1])
    return dist_close(got[1], want[1])
  if got[0] == 'seq':
    return close(tuple(got[2]), tuple(want[2]))
  if got[0] == 'num':
    return close(got[1], want[1]) if got[1] is not None and want[1] is not None else got[1] is want[1]
  return close(got[1], want[1]) if isinstance(got[1], tuple) else got[1] == want[1]


def nf_spec_eq(w, st, v, spec):
  if isinstance(spec, Py):
    o = spec.out
    if o.raises or o.val is None:
      return False
    if o.val.op == 'ref':
      ro = o.st.obj(o.val)
      if ro.kind == 'inst' and ro.cls.is_sub(w.RV):
        return nf_spec_eq(w, st, v, Dist(*w.segs_of(o.val, o.st)))
      if ro.kind == 'inst' and '_seq' in ro.f:
        return nf_spec_eq(w, st, v, SeqT(*ro.f['_seq'].args))
      return False
    return nf_spec_eq(w, st, v, Num(o.val))
  if isinstance(spec, Same):
    return v is spec.ref
  if v.op == 'ref':
    o = st.obj(v)
    if o.kind == 'inst' and o.cls.is_sub(w.RV):
      return isinstance(spec, Dist) and dist_nf(w.segs_of(v, st)) == dist_nf(spec.segs)
    if o.kind == 'inst' and o.cls.is_sub(w.Blank):
      return isinstance(spec, BlankT) and o.f.get('_special_null', FALSE) is C(spec.special)
    if o.kind == 'inst' and '_seq' in o.f:
      return isinstance(spec, SeqT) and nf(norm_tup(o.f['_seq'])) == nf(norm_tup(tup(*spec.segs)))
    return False
  if isinstance(spec, Num):
    return isnum(v) and nf_equal(v, spec.t) or (v is NONE_T and spec.t is NONE_T)
  if isinstance(spec, Term):
    return nf_equal(v, spec.t)
  return False


def norm_tup(t):
  return t


def prove(out, spec, st=None, facts=()):
  """normal-form proof; cases of gated values are matched one by one"""
  w = out.w
  st = st or out.st
  if isinstance(spec, Raise):
    return out.val is None and any(not spec.excs or r.e.exc in spec.excs for r in out.raises) and all(not spec.excs or r.e.exc in spec.excs for r in out.raises)
  s = st.fork()
  s0 = out.st0.fork()
  for f in facts:
    s0.assume(f)
    if not s.assume(f):
      return True   # contradictory case
  for r in out.raises:
    if decide(and_(*r.pc), s0) is not False:
      if isinstance(spec, Cases):
        break
      return False
  if out.val is None:
    if isinstance(spec, Cases):
      return False
    return False
  if isinstance(spec, Cases):
    rest = []
    for c, sp in spec.cs:
      if not _prove_case(out, sp, s, s0, list(rest) + [c]):
        return False
      rest.append(not_(c))
    return True
  return _prove_val(w, s, out.val, spec)


def _prove_case(out, sp, s, s0, conds):
  s2, s3 = s.fork(), s0.fork()
  for c in conds:
    if not s3.assume(c):
      return True
    s2.assume(c)
  if isinstance(sp, Raise):
    return any(decide(and_(*r.pc), s3) is True and (not sp.excs or r.e.exc in sp.excs) for r in out.raises)
  for r in out.raises:
    if decide(and_(*r.pc), s3) is not False:
      return False
  return _prove_val(out.w, s2, out.val, sp)


def simp_under(t, s):
  """resolve the gates of a term that the facts of a state decide"""
  def f(x):
    if x.op == 'ite':
      d = decide(x.args[0], s)
      if d is not None:
        return tm.replace(x.args[1] if d else x.args[2], f)
    return None
  return tm.replace(t, f)


def _prove_val(w, s, v, spec):
  if v.op != 'ref':
    v = simp_under(v, s)
  if isinstance(spec, (Num, Term)) and v.op != 'ref' and not (v.op == 'ite' and tm.mentions(v, lambda x: x.op == 'ref')):
    if nf_spec_eq(w, s, v, spec):
      return True
  if v.op == 'ite':
    for c, a in ((v.args[0], v.args[1]), (not_(v.args[0]), v.args[2])):
      s2 = s.fork()
      if s2.assume(c) and decide(c, s2) is not False:
        if not _prove_val(w, s2, a, spec):
          return False
    return True
  return nf_spec_eq(w, s, v, spec)


def corner(out):
  """numeric constants (and neighbours) the summary mentions"""
  cs, todo, seen = set(), [], set()
  if out.val is not None:
    todo.append(out.val)
  for r in out.raises:
    todo.extend(r.pc)
  while todo:
    t = todo.pop()
    for x in tm.subterms(t):
      if x.op == 'ref' and x.args[0] not in seen:
        seen.add(x.args[0])
        if x.args[0] in out.st.heap and out.st.heap[x.args[0]].kind != 'env' and len(seen) < 60:
          todo.extend(v for v in out.st.heap[x.args[0]].f.values() if isinstance(v, T))
      elif x.op == 'c' and type(cv(x)) in (int, float) and abs(cv(x)) < 10 ** 12:
        c = cv(x)
        cs |= {c, -c, c + 1, c - 1} if type(c) is int else {c}
  return sorted(cs, key=lambda c: (abs(c), c))[:60]


class sub_limit:
  """part of the remaining time of the obligation"""

  def __init__(self, part):
    self.part = part

  def __enter__(self):
    self.old = Clock.until
    if self.old is not None:
      now = time.monotonic()
      Clock.until = now + (self.old - now) * self.part

  def __exit__(self, *a):
    Clock.until = self.old


class at_most(sub_limit):
  """a time limit in seconds"""

  def __enter__(self):
    self.old = Clock.until
    t = time.monotonic() + self.part
    Clock.until = t if self.old is None else min(t, self.old)


def check_out(chk, out, spec, pre=TRUE, n=None, facts=(), zero=False):
  """-> (verdict, detail); zero: where the specification divides by zero the code must not give a value"""
  w = out.w
  if isinstance(spec, AnyOf):
    rs = [check_out(chk, out, x, pre, n, facts, zero) for x in spec.specs]
    for v in (PROVEN, UNDECIDED, VIOLATED):
      for r in rs:
        if r[0] == v:
          return r
  try:
    with sub_limit(0.5):
      if prove(out, spec, facts=facts):
        return PROVEN, 'normal forms equal'
  except (NotDist, TooBig, KeyError, Unsupported):
    pass
  if isinstance(spec, Same):
    if out.val is not None and out.val.op == 'ref' and not out.raises:
      return VIOLATED, 'a different object is returned'
    return UNDECIDED, 'identity'
  agree = 0
  t0 = time.time()
  for m in w.models(n or chk.nmodels * 12, chk.seed, corner(out)):
    if n is None and agree >= chk.nmodels:   # look longer where the normal forms differ, within a time budget
      dt = time.time() - t0
      if dt > 3 or chk.spent + dt > chk.budget:
        break
    try:
      if not m.ev(pre, {}):
        continue
      bad = False
      for f in list(w.pre) + list(facts):
        if not m.ev(f, {}):
          bad = True
      if bad:
        continue
    except (EvErr, Unknown):
      continue
    try:
      want = obs_spec(w, spec, m, out.st)
    except EvErr as e:
      want = ('err',)
      zdiv = zero and isinstance(e, EvZero)
    try:
      got = obs_out(out, m)
    except EvErr as e:
      got = ('err',)
    except Unknown as e:
      return UNDECIDED, f'summary not evaluable ({e})'
    if want == ('err',):
      if zdiv and got[0] in ('num', 'die'):
        return VIOLATED, f'expected a division by zero, summary of the code gives {show_obs(got)} for {show_model(m)}'
      agree += 1
      continue
    if got == ('err',) or not obs_close(got, want):
      return VIOLATED, f'expected {show_obs(want)}, summary of the code gives {show_obs(got)} for {show_model(m)}'
    agree += 1
  chk.spent += time.time() - t0
  return UNDECIDED, f'normal forms differ but agree in {agree} finite models'


def show_obs(o):
  if o[0] == 'die':
    try:
      ks, ws = canon(o[1])
      return f'die {dict(zip(ks, ws))}'
    except Exception:
      return f'die {o[1]}'
  if o[0] == 'raise':
    return f'exception {o[1]}' + (f' ({o[2]})' if len(o) > 2 else '')
  return str(o)[:200]


def show_model(m):
  out = {}
  for k, v in m.cache.items():
    if k[0] == 'size':
      out[f'|{k[1]}|'] = v
    elif k[0] == 'sym':
      out[k[1]] = v
    elif k[0] == 'arr':
      out[f'{k[1]}{list(k[2])}'] = v
  return ', '.join(f'{a}={b}' for a, b in sorted(out.items()))[:300]
