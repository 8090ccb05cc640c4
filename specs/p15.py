"""Value-graph congruence of the route metrics with reference formulas
(refs/routes.py), for an arbitrary ego position in the object list."""
from .common import *
from .p14 import row, cases

FLOOR = 20
ASSUME = ['exactly one object is the ego vehicle', 'exact real arithmetic; nearest-point ties resolve to the first']


def setup(c, name, b, bt):
  w = c.world()
  st = w.state(b, batched_time=bt)
  e = ego(b)
  st = w.m(st, 'replace', object_metadata=w.m(field(st, 'object_metadata'), 'replace', is_sdc=one_hot(b, e)))
  m = w.new('waymax.metrics.' + METRIC_CLASSES[name])
  return w, st, e, m


def scalar(v, dt='float32'):
  return Arr((), dt, lambda i: v)


def compare(c, name, ref):
  for b, bt, lb in cases():
    w, st, e, m = setup(c, name, b, bt)
    label = f'{name}[{lb}]'
    ok, r = c.run(w, 'metric-total', label, lambda: w.m(m, 'compute', st))
    if not ok:
      continue
    sim, log, paths = field(st, 'sim_trajectory'), field(st, 'log_trajectory'), field(st, 'sdc_paths')
    ts = asarr(field(st, 'timestep'))
    def args(i):
      tn = ts.fn(i[:ts.ndim])
      o = tuple(i) + (e(i),)
      at = lambda tr, f, k, dt='float32': scalar(at_time(tr, f, o, k), dt)
      return dict(ex=at(sim, 'x', tn), ey=at(sim, 'y', tn), ego_ok=at(sim, 'valid', tn, 'bool'),
                  sx=at(log, 'x', t.ZERO), sy=at(log, 'y', t.ZERO),
                  gx=at(log, 'x', t.sub(T, t.ONE)), gy=at(log, 'y', t.sub(T, t.ONE)),
                  px=row(field(paths, 'x'), i), py=row(field(paths, 'y'), i), ok=row(field(paths, 'valid'), i),
                  on=row(field(paths, 'on_route'), i), arc=row(field(paths, 'arc_length'), i))
    for k, f in ((0, 'value'), (1, 'valid')):
      c.arr(f'{name}-{"value" if k == 0 else "validity"}', label, field(r, f),
            lambda *i, k=k: asarr(ref(w, args(i))[k]).fn(()), shape=b, dtype='float32' if k == 0 else 'bool')


def wrong_way(c):
  compare(c, 'sdc_wrongway', lambda w, a: w.ref('routes.wrong_way', *[a[k] for k in ('ex', 'ey', 'px', 'py', 'ok')]))


def off_route(c):
  compare(c, 'sdc_off_route', lambda w, a: w.ref('routes.off_route', *[a[k] for k in ('ex', 'ey', 'ego_ok', 'px', 'py', 'ok', 'on')]))


def progression(c):
  compare(c, 'sdc_progression', lambda w, a: w.ref('routes.progression', *[
      a[k] for k in ('ex', 'ey', 'ego_ok', 'sx', 'sy', 'gx', 'gy', 'px', 'py', 'arc', 'ok', 'on')]))


def refuses(c):
  for b in ((), (B,)):
    for name in ('sdc_off_route', 'sdc_progression'):
      w = c.world()
      st = w.state(b, paths=False)
      m = w.new('waymax.metrics.' + METRIC_CLASSES[name])
      c.raises(w, 'needs-paths', f'{name} without stored paths[batch={len(b)}]', lambda: w.m(m, 'compute', st), ('ValueError',))


PARTS = [('wrong way', wrong_way), ('off route', off_route), ('progression', progression), ('needs paths', refuses)]
