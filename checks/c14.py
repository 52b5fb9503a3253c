"""C14: output reports exactly once, to the right place, with the right content"""
from .rolled import *
from engine import prims

REF = '''
import math

def ref_text(d, named, width, show, cut):
  r = '' if named is None else named + ' '
  total = sum(p for p in d.probs)
  mean = sum(v * p for v, p in zip(d.vals, d.probs)) / total
  var = sum(v * v * p for v, p in zip(d.vals, d.probs)) / total - mean ** 2
  dev = math.sqrt(var) if var >= 0 else 0
  r = r + str(round(mean, 2)) + ' ± ' + str(round(dev, 2))
  if not show:
    return r
  rows = d.get_vals_probs(cut / 100)
  w = max(len(str(v)) for v, p in rows)
  room = max(0, width - w)
  for v, p in rows:
    r = r + '\\n' + f"{v:>{w}}: {100 * p:>5.2f}  " + '█' * round(p * room)
  return r + '\\n' + '-' * (width + 8)

def ref_blank(named, width):
  return ('' if named is None else named + ' ') + '\\n' + '-' * (width + 8)

def ref_odd(faces, named, width, show, total):
  r = '' if named is None else named + ' '
  r = r + 'NaN ± NaN'
  if not show:
    return r
  w = max(len(t) for t, p in faces)
  for t, p in faces:
    r = r + '\\n' + ' ' * (w - len(t)) + t + ': ' + f"{100 * (p / total):>5.2f}" + '  ' + '█' * round(p / total * max(0, width - w))
  return r + '\\n' + '-' * (width + 8)

def text_faces(cases):
  return cases
'''
ROUTES = ('returned', 'returned, print function given', 'printed by default', 'printed by the setting', 'printed by the given function', 'printed by the given function, another set', 'printed, print_ given')


def main():
  chk = Check('C14', 'an output request emits one text once, to the given or set print function, or returns it; the text is the documented one', parallel=8)
  quick = chk.tier == 'quick'
  w0 = chk.world()
  f0 = ov(w0.pub('output'))
  site = getattr(getattr(f0, 'f', f0), 'where', 'output.output')

  VALUES = {
    'a die': ('die', lambda w, st: w.die('D', st)),
    'a die with any faces': ('die', lambda w, st: w.die('D', st, ANY)),
    'a die with 1 face': ('die', lambda w, st: w.die_exact('D', st, 1)[0]),
    'a die with 2 faces': ('die', lambda w, st: w.die_exact('D', st, 2)[0]),
    'a die with 3 faces': ('die', lambda w, st: w.die_exact('D', st, 3, ANY)[0]),
    'a die with an impossible face': ('die', lambda w, st: w.die_exact('D', st, 3, INT, (2, 0, 1))[0]),
    'a whole number': ('num', lambda w, st: w.num('n')),
    'a number': ('num', lambda w, st: w.num('n', FLOAT)),
    'a truth value': ('num', lambda w, st: w.num('n', BOOL)),
    'the number 0': ('num', lambda w, st: ZERO),
    'a negative number': ('num', lambda w, st: C(-12)),
    'a sequence of one': ('seq', lambda w, st: w.seq_exact(st, [w.num('e')])),
    'a sequence of three': ('seq', lambda w, st: w.seq_exact(st, w.ranked('e', 3))),
    'a list': ('seq', lambda w, st: st.new('list', segs=tuple_of(*w.ranked('e', 2)))),
    'an empty sequence': ('blank', lambda w, st: w.seq_exact(st, [])),
    'the empty die': ('blank', lambda w, st: w.blank(st)),
    'the empty variant': ('blank', lambda w, st: w.blank(st, True)),
    'no value': ('blank', lambda w, st: NONE_T),
  }
  NAMES = {'unnamed': None, 'named': sym('nm', STR), 'named "output 1"': C('output 1')}
  WIDTHS = {'default width': None, 'given width': sym('bw', INT), 'width 30': C(30), 'width 1': C(1)}

  def texts(w, st, value, kind, named, width, show, cut):
    """the documented text of this request"""
    nm = NONE_T if named is None else named
    if kind == 'blank':
      f = w.define(REF, 'ref_blank', st)
      return run(w, st, lambda s: w.I.call(f, [nm, width], {}, s, w.fr))
    f = w.define(REF, 'ref_text', st)
    def go(s):
      d = value
      if kind != 'die':
        d = w.I.call(w.get('factory', 'get_rv'), [value], {}, s, w.fr)
      return w.I.call(f, [d, nm, width, C(show), C(cut)], {}, s, w.fr)
    return run(w, st, go)

  def request(name, mk_value, kind, named, width, show, cut, route, via='output', text=None, odd_fn=''):
    def f():
      w = chk.world(contract=kind != 'odd') if kind == 'odd' else chk.world()
      for n in ('BlankRV', 'output', 'RV'):
        w.pub(n)
      w.get('factory', 'get_rv'); w.get('string_rvs', 'StringVal')
      st = w.st.fork()
      value = mk_value(w, st)
      POSITIVE['bw'] = 1
      dw = w.num('dw', INT, lo=1)
      w.setting('DEFAULT_OUTPUT_WIDTH', dw, st)
      w.syms['nm'] = lambda m, rng: rng.choice(['a', ' b ', 'c\nd', 'e  f', '  ', '{x}'])
      w.syms['dw'] = w.syms['bw'] = lambda m, rng: rng.choice([1, 2, 5, 20, 40, 92])
      p1, p2 = O(Opaque('print function of the settings')), O(Opaque('given print function'))
      if route in ('printed by the setting', 'printed by the given function, another set', 'returned, print function given', 'printed, print_ given'):
        w.setting('DEFAULT_PRINT_FN', p1, st)
      kw = {}
      g1, g2 = p1, p2
      if odd_fn:  # callable objects that count as false, have a length, compare strangely
        cls = w.define(f'class Odd:\n  def __init__(self, to):\n    self.to = to\n  def __call__(self, text):\n    return self.to(text)\n{odd_fn}', 'Odd', st)
        g1, g2 = w.I.call(cls, [p1], {}, st, w.fr), w.I.call(cls, [p2], {}, st, w.fr)
        if 'setting' in route:
          w.setting('DEFAULT_PRINT_FN', g1, st)
      if named is not None:
        kw['named'] = named
      if width is not None:
        kw['blocks_width'] = width
      if not show:
        kw['show_pdf'] = FALSE
      if cut:
        kw['cdf_cut'] = C(cut)
      if route.startswith('returned'):
        kw['print_'] = FALSE
      if route == 'printed, print_ given':
        kw['print_'] = TRUE
      if route in ('returned, print function given', 'printed by the given function', 'printed by the given function, another set'):
        kw['print_fn'] = g2
      who = {'printed by default': C('print'), 'printed by the setting': p1, 'printed, print_ given': p1}.get(route, p2)
      ref = (text or texts)(w, st.fork(), value, kind, named, width if width is not None else dw, show, cut)
      if ref.val is None or ref.raises:
        return UNDECIDED, 'no reference text'
      e0 = len(st.heap[prims.EVENTS].f['segs'].args) if prims.EVENTS in st.heap else 0
      if via == 'method':
        out = run(w, st, lambda s: w.I.call(w.I.getattr(value, 'output', s, w.fr), [], kw, s, w.fr))
      elif via == 'repr':
        out = run(w, st, lambda s: w.I.call(O(w.I.builtin('repr')) if hasattr(w.I, 'builtin') else w.define('R = repr\n', 'R', st), [value], {}, s, w.fr))
      else:
        out = run(w, st, lambda s: w.I.call(w.pub('output'), [value], kw, s, w.fr))
      if out.val is None:
        return check_out(chk, out, Term(ref.val))
      evs = out.st.heap[prims.EVENTS].f['segs'].args[e0:]
      if route.startswith('returned'):
        if evs:
          if all(e.op == 'it' for e in evs):
            return VIOLATED, 'something is printed although the text is to be returned'
          return UNDECIDED, 'conditional output'
        return check_out(chk, out, Term(ref.val))
      if out.val is not NONE_T:
        v = check_out(chk, out, Term(NONE_T))
        if v[0] != PROVEN:
          return v
      if len(evs) != 1 or evs[0].op != 'it':
        return (VIOLATED, f'{len(evs)} texts are emitted') if all(e.op == 'it' for e in evs) else (UNDECIDED, 'conditional output')
      ev = [x.args[0] for x in evs[0].args[0].args]
      if cv(ev[0]) == 'print':
        got, ts = C('print'), ev[1:]
      elif cv(ev[0]) == 'call':
        got, ts = ev[1], ev[2:]
      else:
        return VIOLATED, f'effect {cv(ev[0])}'
      if got is not who:
        return VIOLATED, f'the text goes to {got} instead of {who}'
      if len(ts) != 1:
        return VIOLATED, 'the print function is not called with the text alone'
      o2 = Out(w, ts[0], out.st, out.raises, out.st0)
      return check_out(chk, o2, Term(ref.val))
    chk.ob(name, f, site)

  # content
  for vn, (kind, mkv) in VALUES.items():
    for nn, named in NAMES.items():
      for wn, width in WIDTHS.items():
        for show in (True, False):
          if nn == 'named "output 1"' and wn != 'width 30':
            continue
          request(f'text of {vn}, {nn}, {wn}{"" if show else ", no distribution"}', mkv, kind, named, width, show, 0, 'returned')
  # cut
  for wts in ((1, 1, 8), (10, 1, 3, 2), (6, 1), (3, 5, 1)):
    for cut in (5, 12.5, 40):
      request(f'text of weights {wts} cut at {cut} %', lambda w, st, wts=wts: w.die_exact('D', st, len(wts), INT, wts)[0], 'die', sym('nm', STR), None, True, cut, 'returned')
  # routes
  for vn in ('a die', 'a die with 2 faces', 'a whole number', 'a sequence of three', 'an empty sequence', 'the empty die', 'the empty variant', 'no value'):
    kind, mkv = VALUES[vn]
    for route in ROUTES:
      for nn in ('unnamed', 'named'):
        for show in (True, False):
          request(f'{vn} {route}, {nn}{"" if show else ", no distribution"}', mkv, kind, NAMES[nn], None, show, 0, route)
  for vn in ('a die', 'a die with 2 faces'):
    kind, mkv = VALUES[vn]
    for route in ROUTES:
      request(f'{vn} {route}, output method', mkv, kind, NAMES['named'], sym('bw', INT), True, 0, route, via='method')
  request('a die shown by repr', VALUES['a die'][1], 'die', None, None, True, 0, 'returned', via='repr')
  for vn in ('a die with 2 faces', 'the empty die', 'an empty sequence', 'a whole number'):
    kind, mkv = VALUES[vn]
    for route in ROUTES:
      for on, fn_ in (('false', '  def __bool__(self):\n    return False\n'), ('of length 0', '  def __len__(self):\n    return 0\n'), ('equal to everything', '  def __eq__(self, other):\n    return True\n')):
        if 'given' in route or 'setting' in route:
          request(f'{vn} {route}, print function {on}', mkv, kind, NAMES['named'], None, True, 0, route, odd_fn=fn_)
  # text faces
  TEXTS = {
    "Seq('b', 'a', 'b')": [('a', 1), ('b', 2)],
    "Seq('1', 'xyz', 7)": [('7', 1), ('"1"', 1), ('xyz', 1)],
    "roll(2, Seq('x', 'y'))": [('x + y', 2), ('2*x', 1), ('2*y', 1)],
    "Seq('-2.5')": [('"-2.5"', 1)],
  }
  for src, faces in TEXTS.items():
    for nn, named in NAMES.items():
      for show in (True, False):
        for route in ('returned', 'printed by default', 'printed by the setting', 'printed by the given function'):
          def mkv(w, st, src=src):
            return run(w, st, lambda s: w.I.call(w.define(f'from .factory import get_seq as Seq\ndef mk():\n  return {src}\n', 'mk', st), [], {}, s, w.fr)).val

          def text(w, st, value, kind, named, width, show, cut, faces=faces):
            f = w.define(REF, 'ref_odd', st)
            return run(w, st, lambda s: w.I.call(f, [tuple_of(*[tuple_of(C(a), C(b)) for a, b in faces]), NONE_T if named is None else named, width, C(show), C(sum(b for _, b in faces))], {}, s, w.fr))
          request(f'text of {src} {route}, {nn}{"" if show else ", no distribution"}', mkv, 'odd', named, C(30), show, 0, route, text=text)
  return chk.finish()
