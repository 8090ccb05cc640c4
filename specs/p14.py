"""Value-graph congruence of the per-object metrics with reference formulas
(refs/scores.py) on arbitrary states, batched or not."""
from .common import *
from . import p31

FLOOR = 15
ASSUME = ['exact real arithmetic; ties of nearest road points resolve to the first']


def row(a, pre):
  """Sub-array of a at leading indices pre."""
  a = asarr(a)
  return Arr(a.shape[len(pre):], a.dtype, lambda j: a.fn(tuple(pre) + tuple(j)))


def now(tr, f, i, tn):
  return at_time(tr, f, i, tn)


def cases():
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    yield b, bt, f'batch={len(b)}{"t" if bt else ""}'


def compute(c, name, b, bt, lb, abstract=None, **over):
  w = c.world()
  if abstract:
    abstract(w)
  st = w.state(b, batched_time=bt)
  m = w.new('waymax.metrics.' + METRIC_CLASSES[name], **over)
  ok, r = c.run(w, 'metric-total', f'{name}[{lb}]', lambda: w.m(m, 'compute', st))
  ts = asarr(field(st, 'timestep'))
  return (w, st, r if ok else None, lambda i: ts.fn(i[:ts.ndim]))


def current(w, st):
  return w.attr(st, 'current_sim_trajectory')


def overlap(c):
  for b, bt, lb in cases():
    keep = []
    w, st, r, tn = compute(c, 'overlap', b, bt, lb, lambda w: keep.append(box_predicate(w)))
    if r is None:
      continue
    tr = field(st, 'sim_trajectory')
    asarr(field(r, 'value')).fn(ixs(b + (N,)))
    if not keep[0][0]:
      keep[0][1]()
    def boxes(pre):
      fs = [Arr((N,), 'float32', lambda j, f=f: at_time(tr, f, tuple(pre) + tuple(j), tn(tuple(pre) + tuple(j)))) for f in ('x', 'y', 'length', 'width', 'yaw')]
      return A.stack(fs, -1)
    memo = {}
    def want(*i):
      pre = tuple(i[:-1])
      pw = asarr(w.call('waymax.utils.geometry.compute_pairwise_overlaps', boxes(pre)))
      me = i[-1]
      return t.b2n(t.reduce_('any', N, lambda j: t.conj(
          pw.fn((j, me)), at_time(tr, 'valid', pre + (j,), tn(pre + (j,))), t.bnot(t.eq(j, me)))))
    c.arr('overlap-value', f'overlap[{lb}]', field(r, 'value'), want, shape=b + (N,), dtype='float32')
    c.arr('overlap-validity', f'overlap[{lb}]', field(r, 'valid'), lambda *i: at_time(tr, 'valid', i, tn(i)), shape=b + (N,))


def divergence(c):
  for b, bt, lb in cases():
    w, st, r, tn = compute(c, 'log_divergence', b, bt, lb)
    if r is None:
      continue
    s, l = field(st, 'sim_trajectory'), field(st, 'log_trajectory')
    def want(*i):
      dx = t.sub(at_time(s, 'x', i, tn(i)), at_time(l, 'x', i, tn(i)))
      dy = t.sub(at_time(s, 'y', i, tn(i)), at_time(l, 'y', i, tn(i)))
      return t.sqrt(t.add(t.mul(dx, dx), t.mul(dy, dy)))
    c.arr('divergence-value', f'log_divergence[{lb}]', field(r, 'value'), want, shape=b + (N,), dtype='float32')
    c.arr('divergence-validity', f'log_divergence[{lb}]', field(r, 'valid'),
          lambda *i: t.band(at_time(s, 'valid', i, tn(i)), at_time(l, 'valid', i, tn(i))), shape=b + (N,))


def comfort(c):
  for b, bt, lb in cases():
    for over in ({}, {'max_acc': 5.0, 'max_steering': 0.5}, {'dt': 0.5}):
      tag = f'kinematic{sorted(over)}[{lb}]'
      w, st, r, tn = compute(c, 'kinematic_infeasibility', b, bt, tag, **over)
      if r is None:
        continue
      s = field(st, 'sim_trajectory')
      ts = asarr(field(st, 'timestep'))
      prev = Arr(ts.shape, 'int32', lambda i: t.sub(ts.fn(i), t.ONE))
      dt = over.get('dt', 0.1)
      ok, act = c.run(w, 'metric-total', tag + ' inverse', lambda: w.call('waymax.dynamics.bicycle_model.compute_inverse', s, prev, dt))
      if not ok:
        continue
      d = asarr(field(act, 'data'))
      acc = t.const(over.get('max_acc', 10.4)) + t.const(1e-3)
      steer = t.const(over.get('max_steering', 0.3)) + t.const(1e-3)
      want = lambda *i: t.b2n(t.bor(t.gt(t.absv(d.fn(i + (t.ZERO,))), acc), t.gt(t.absv(d.fn(i + (t.ONE,))), steer)))
      c.arr('infeasible-value', tag, field(r, 'value'), want, shape=b + (N,), dtype='float32')
      c.arr('infeasible-validity', tag, field(r, 'valid'), lambda *i: t.band(
          at_time(s, 'valid', i, tn(i)), at_time(s, 'valid', i, t.sub(tn(i), t.ONE))), shape=b + (N,))


def offroad(c):
  for b, bt, lb in cases():
    w, st, r, tn = compute(c, 'offroad', b, bt, lb)
    if r is None:
      continue
    cur = current(w, st)
    cor = asarr(w.attr(cur, 'bbox_corners'))     # (..., N, 1, 4, 2)
    z = asarr(field(cur, 'z'))
    road = field(st, 'roadgraph_points')
    def want(*i):
      pre = tuple(i[:-1])
      f = {k: row(field(road, k), pre) for k in ROAD}
      edge = Arr(f['types'].shape, 'bool', lambda j: t.band(f['valid'].fn(j), t.bor(
          t.eq(f['types'].fn(j), t.lift(15)), t.eq(f['types'].fn(j), t.lift(16)))))
      q = [Arr((4,), 'float32', lambda k, a=a: cor.fn(tuple(i) + (t.ZERO, k[0], t.lift(a)))) for a in range(2)]
      qz = Arr((4,), 'float32', lambda k: z.fn(tuple(i) + (t.ZERO,)))
      s = asarr(w.ref('scores.signed_distance', q[0], q[1], qz, f['x'], f['y'], f['z'], f['dir_x'], f['dir_y'], f['ids'], edge))
      return t.b2n(t.reduce_('any', t.lift(4), lambda k: t.gt(s.fn((k,)), t.ZERO)))
    c.arr('offroad-value', f'offroad[{lb}]', field(r, 'value'), want, shape=b + (N,), dtype='float32')
    c.arr('offroad-validity', f'offroad[{lb}]', field(r, 'valid'), lambda *i: t.TRUE, shape=b + (N,))


def distance(c):
  """The signed distance itself, for several altitude tolerances."""
  Q = t.dim('K')
  for zs in (None, 1.0, 3.0):
    w = c.world()
    road = w.road('road')
    pts = cell('q', (Q, 3))
    label = f'signed distance[z={zs}]'
    kw = {} if zs is None else {'z_stretch': zs}
    ok, r = c.run(w, 'metric-total', label, lambda: w.call(
        'waymax.metrics.roadgraph.compute_signed_distance_to_nearest_road_edge_point', pts, road, **kw))
    if not ok:
      continue
    f = {k: asarr(field(road, k)) for k in ROAD}
    edge = Arr((R,), 'bool', lambda j: t.band(f['valid'].fn(j), t.bor(t.eq(f['types'].fn(j), t.lift(15)), t.eq(f['types'].fn(j), t.lift(16)))))
    q = [Arr((Q,), 'float32', lambda k, a=a: pts.fn((k[0], t.lift(a)))) for a in range(3)]
    sc = t.const(2.0 if zs is None else zs)
    half = t.div(sc, t.const(2))
    qz = Arr((Q,), 'float32', lambda k: t.mul(q[2].fn(k), half))
    pz = Arr((R,), 'float32', lambda k: t.mul(f['z'].fn(k), half))
    s = asarr(w.ref('scores.signed_distance', q[0], q[1], qz, f['x'], f['y'], pz, f['dir_x'], f['dir_y'], f['ids'], edge))
    c.arr('signed-distance', label, r, s, shape=(Q,), dtype='float32')


def intersect(c):
  """The box intersection test the overlap metric relies on."""
  for p in ((), (B,)):
    p31.overlaps(c, c.world(), p, 'box-intersection')
  p31.pairs(c)


PARTS = [('box intersection', intersect), ('overlap', overlap), ('log divergence', divergence), ('kinematic infeasibility', comfort), ('off-road', offroad), ('signed distance', distance)]
