"""an uninterpreted user function: returns an unknown number that depends on exactly what it received"""
from .common import *


def obs_term(w, v, st):
  """what a function can see of an argument, as a term"""
  if v.op == 'ite' and not isnum(v):
    return ite(v.args[0], obs_term(w, v.args[1], st), obs_term(w, v.args[2], st))
  if v.op == 'ref':
    o = st.obj(v)
    if o.kind == 'inst':
      if o.cls.is_sub(w.RV):
        return tuple_of(C('die'), o.f['vals'], o.f['probs'])
      if o.cls.is_sub(w.Blank):
        return tuple_of(C('empty'), o.f.get('_special_null', FALSE))
      if '_seq' in o.f:
        return tuple_of(C('seq'), o.f['_seq'])
    if o.kind in ('list', 'iter'):
      return tuple_of(C(o.kind), o.f['segs'])
    raise Unsupported(f'observation of {o.kind}')
  if isnum(v):
    return tuple_of(C('num'), v)
  if v.op == 'tup':
    return tuple_of(C('tuple'), v)
  if is_c(v):
    return tuple_of(C('const'), v)
  raise Unsupported(f'observation of {show(v)[:40]}')


def make_probe(w, st, decl, ret=None, decorator='anydice_casting()', name='f', body=None):
  """decl: python parameter list; the function returns g(observed parameters in order)"""
  def handler(I, s, args, kwargs, fr):
    if isinstance(args, T):
      raise Unsupported('probe(*...)')
    seen = [obs_term(w, a, s) for a in args]
    if ret:
      return ret(s, seen, args)
    return fn('g', *seen, ty=INT)
  env = O(Opaque('probe', handler=handler))
  m = w.I.load('', st)
  st.w(m.env).f['#probe'] = env
  params = [p.split(':')[0].split('=')[0].strip() for p in decl.split(',')]
  src = f'def {name}({decl}):\n  ' + (body or f'return __probe__({", ".join(p for p in params if p not in ("*", ""))})') + f'\n'
  if decorator:
    src += f'{name} = {decorator}({name})\n'
  st.w(m.env).f['__probe__'] = env
  if 'type_casting' in (decorator or ''):
    st.w(m.env).f['anydice_type_casting'] = w.get('decorators', 'anydice_type_casting')
  return w.define(src, name, st)


g_ = lambda *obs: fn('g', *obs, ty=INT)
num_ = lambda t: tuple_of(C('num'), t)
seq_ = lambda *segs: tuple_of(C('seq'), tup(*segs))
die_ = lambda vals, probs: tuple_of(C('die'), vals, probs)
