"""Value-graph congruence of every non-geometric array of an observation with
the state's own array: window, observing objects, validity, ego marker, road
selection; and a dependence rule: no frame after the clock is read."""
from .common import *

FLOOR = 1700
ASSUME = ['exactly one object is the ego vehicle', 'the window lies inside the log (guaranteed by the configuration check)']
RR = t.dim('RR', 4000)
OBS = 'waymax.datatypes.observation.'
TJ = ['valid', 'timestamp_micros', 'length', 'width', 'height', 'z']
LI = ['valid', 'state', 'lane_ids', 'z']


def frames(w):
  return {k: w.enum('waymax.config.CoordinateFrame', k) for k in ('SDC', 'OBJECT', 'GLOBAL')}


def build(c, w, b, bt, paths=True):
  st = w.state(b, batched_time=bt, paths=paths, roadgraph_points=w.road('road', b, RR))
  return one_ego(w, b, st)


def cases(c):
  for b, bt in (((), False), ((B,), False), ((B,), True), ((B, B2), True)):
    for k, topk in ((1, 1000), (4, 7)):
      if len(b) == 2 and k == 1:
        continue
      yield b, bt, k, topk


class View:
  """What an observation of a state must contain, by documented meaning."""

  def __init__(self, w, st, e, b, k, topk, frame, sdc):
    self.w, self.st, self.e, self.b, self.k, self.topk, self.frame, self.sdc = w, st, e, b, k, topk, frame, sdc
    self.nb = len(b)
    self.obs = 1 if sdc else N        # observers
    self.sim, self.tl, self.meta = field(st, 'sim_trajectory'), field(st, 'log_traffic_light'), field(st, 'object_metadata')

  def observer(self, i):
    """Object whose view slot i[nb] is."""
    return self.e(i) if self.sdc else i[self.nb]

  def posed(self, i):
    """Object whose pose defines the frame (None: global)."""
    if self.frame == 'GLOBAL':
      return None
    return self.e(i) if self.sdc or self.frame == 'SDC' else i[self.nb]

  def now(self, f, i, o):
    bi = i[:self.nb]
    return asarr(field(self.sim, f)).fn(bi + (o, tnode(self.st, bi)))

  def pose_ok(self, i):
    o = self.posed(i)
    return t.TRUE if o is None else self.now('valid', i, o)

  def frame_ix(self, i, j):
    return t.add(t.sub(tnode(self.st, i[:self.nb]), t.const(self.k - 1)), j)

  def traj(self, f, i):
    """Trajectory cell of view index i (batch, observer, object, frame)."""
    return asarr(field(self.sim, f)).fn(i[:self.nb] + (i[-2], self.frame_ix(i, i[-1])))

  def light(self, f, i):
    return asarr(field(self.tl, f)).fn(i[:self.nb] + (i[-2], self.frame_ix(i, i[-1])))

  def m(self, f, i):
    return asarr(field(self.meta, f)).fn(i[:self.nb] + (i[-1],))

  def road(self):
    """Road points selected for each observer's position (decided by P38)."""
    w, nb = self.w, self.nb
    rd = field(self.st, 'roadgraph_points')
    shape = lambda a: tuple(self.b) + (self.obs, asarr(a).shape[-1])
    cls = w.get('waymax.datatypes.RoadgraphPoints')
    tiled = w.it.construct(cls, [], {f: Arr(shape(v), asarr(v).dtype, lambda i, v=v: asarr(v).fn(i[:nb] + (i[-1],))) for f, v in rd.fields.items()})
    xy = Arr(tuple(self.b) + (self.obs, 2), 'float32', lambda i: t.ite(t.eq(i[-1], 0), self.now('x', i, self.observer(i)), self.now('y', i, self.observer(i))))
    return w.call('waymax.datatypes.filter_topk_roadgraph_points', tiled, xy, self.topk)


def observe(c, w, st, k, topk, fr, sdc, label):
  fn = OBS + ('sdc_observation_from_state' if sdc else 'observation_from_state')
  return c.run(w, 'observe-total', label, lambda: w.call(fn, st, obs_num_steps=k, roadgraph_top_k=topk, coordinate_frame=fr))


def every(c):
  for b, bt, k, topk in cases(c):
    for sdc in (True, False):
      w = c.world()
      st, e = build(c, w, b, bt)
      for fr, val in frames(w).items():
        lb = f'{"sdc" if sdc else "all"}[{fr},steps={k},points={topk},batch={len(b)}{"t" if bt else ""}]'
        ok, o = observe(c, w, st, k, topk, val, sdc, lb)
        if not ok:
          continue
        yield w, st, e, b, View(w, st, e, b, k, topk, fr, sdc), o, lb


def contents(c):
  for w, st, e, b, v, o, lb in every(c):
    tr, tl, rd, md = field(o, 'trajectory'), field(o, 'traffic_lights'), field(o, 'roadgraph_static_points'), field(o, 'metadata')
    tshape, lshape = b + (v.obs, N, v.k), b + (v.obs, L, v.k)
    for f in TJ:
      src = asarr(field(v.sim, f))
      want = (lambda *i: t.band(v.traj('valid', i), v.pose_ok(i))) if f == 'valid' else (lambda *i: v.traj(f, i))
      c.arr('trajectory-window', f'{lb} {f}', field(tr, f), want, shape=tshape, dtype=src.dtype)
    for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
      c.check(len(asarr(field(tr, f)).shape) == len(tshape) and all(A.same_dim(p, q) for p, q in zip(asarr(field(tr, f)).shape, tshape)),
              'trajectory-window', f'{lb} {f} shape', detail=asarr(field(tr, f)).shape)
    for f in LI:
      src = asarr(field(v.tl, f))
      want = (lambda *i: t.band(v.light('valid', i), v.pose_ok(i))) if f == 'valid' else (lambda *i: v.light(f, i))
      c.arr('light-window', f'{lb} {f}', field(tl, f), want, shape=lshape, dtype=src.dtype)
    for f in META:
      c.arr('metadata', f'{lb} {f}', field(md, f), lambda *i: v.m(f, i), shape=b + (v.obs, N), dtype=asarr(field(v.meta, f)).dtype)
    c.arr('ego-marker', lb, field(o, 'is_ego'), lambda *i: t.eq(i[-1], v.observer(i)), shape=b + (v.obs, N), dtype='bool')
    ref = v.road()
    for f in ('z', 'dir_z', 'types', 'ids', 'valid'):
      r = asarr(field(ref, f))
      want = (lambda *i: t.band(r.fn(i), v.pose_ok(i))) if f == 'valid' else (lambda *i: r.fn(i))
      c.arr('road-selection', f'{lb} {f}', field(rd, f), want, shape=b + (v.obs, v.topk), dtype=r.dtype)
    c.arr('observation-valid', lb, w.attr(o, 'valid'), lambda *i: v.pose_ok(i), shape=b + (v.obs,), dtype='bool')
    paths = field(o, 'sdc_paths')
    if v.sdc:
      for f in PATH:
        if f in ('x', 'y'):
          continue
        s = asarr(field(field(st, 'sdc_paths'), f))
        src = lambda i: s.fn(i[:v.nb] + i[v.nb + 1:])
        want = (lambda *i: t.band(src(i), v.pose_ok(i))) if f == 'valid' else (lambda *i: src(i))
        c.arr('route', f'{lb} {f}', field(paths, f), want, shape=b + (1,) + s.shape[v.nb:], dtype=s.dtype)
    elif paths is not None:
      c.arr('route', f'{lb} placeholder invalid', field(paths, 'valid'), lambda *i: t.FALSE, dtype='bool')


def no_future(c):
  """Every simulated or light cell read has a frame index of at most the clock."""
  for w, st, e, b, v, o, lb in every(c):
    if len(b) == 2:
      continue
    for part in ('trajectory', 'traffic_lights', 'roadgraph_static_points', 'pose2d', 'metadata'):
      for f, a in field(o, part).fields.items():
        a = asarr(a)
        bad = None
        i = ixs(a.shape)
        for at in t.atoms_of(a.fn(i)):
          if at.kind != 'in':
            continue
          nm = str(at.args[0])
          if nm.startswith('log.'):
            bad = f'logged trajectory read: {t.show(t.atom_v(at))}'
          elif nm.startswith(('sim.', 'tl.')):
            tn = tnode(st, i[:len(b)])
            if t.le(at.args[-1], tn) is not t.TRUE:
              bad = f'frame {t.show(at.args[-1])} read at clock {t.show(tn)}'
        c.check(bad is None, 'no-future-frame', f'{lb} {part}.{f}', a.origin, bad)


def helpers(c):
  """Selecting one observer, the observer count and the shared global view."""
  for b, bt, k, topk in cases(c):
    w = c.world()
    st, e = build(c, w, b, bt)
    lb = f'[batch={len(b)}{"t" if bt else ""},steps={k}]'
    fr = frames(w)
    ok, o = observe(c, w, st, k, topk, fr['OBJECT'], False, f'all{lb}')
    if ok:
      j = cell('who', (), 'int32')
      ok, one = c.run(w, 'for-object', f'total{lb}', lambda: w.m(o, 'for_obj', j))
      if ok:
        def at(path, g, s):
          g, s = asarr(g), asarr(s)
          nb = len(b)
          c.arr('for-object', f'{path}{lb}', g, lambda *i: s.fn(i[:nb] + (j.fn(()),) + i[nb + 1:]), shape=s.shape[:nb] + (1,) + s.shape[nb + 1:], dtype=s.dtype)
        for part in ('trajectory', 'traffic_lights', 'metadata', 'pose2d'):
          for f, s in field(o, part).fields.items():
            at(f'{part}.{f}', field(field(one, part), f), s)
        at('is_ego', field(one, 'is_ego'), field(o, 'is_ego'))
      c.check(A.same_dim(A.norm_dim(w.attr(o, 'num_objects')), N), 'object-count', f'all{lb}', detail=w.attr(o, 'num_objects'))
    ok, s = observe(c, w, st, k, topk, fr['SDC'], True, f'sdc{lb}')
    if ok:
      c.check(A.same_dim(A.norm_dim(w.attr(s, 'num_objects')), N), 'object-count', f'sdc{lb}', detail=w.attr(s, 'num_objects'))
    for n in (1, 3):
      ok, g = c.run(w, 'global-view', f'total{lb}', lambda: w.call(OBS + 'global_observation_from_state', st, obs_num_steps=k, num_obj=n))
      if not ok:
        continue
      v = View(w, st, e, b, k, topk, 'GLOBAL', False)
      for f in TRAJ:
        c.arr('global-view', f'trajectory.{f} x{n}{lb}', field(field(g, 'trajectory'), f), lambda *i: v.traj(f, i), shape=b + (n, N, k))
      for f in LIGHT:
        c.arr('global-view', f'lights.{f} x{n}{lb}', field(field(g, 'traffic_lights'), f), lambda *i: v.light(f, i), shape=b + (n, L, k))
      for f in ROAD:
        src = asarr(field(field(st, 'roadgraph_points'), f))
        c.arr('global-view', f'road.{f} x{n}{lb}', field(field(g, 'roadgraph_static_points'), f), lambda *i: src.fn(i[:len(b)] + (i[-1],)), shape=b + (n, RR))
      for f in META:
        c.arr('global-view', f'metadata.{f} x{n}{lb}', field(field(g, 'metadata'), f), lambda *i: v.m(f, i), shape=b + (n, N))
    # Without route paths the ego's observation is still produced.
    st2, _ = build(c, w, b, bt, paths=False)
    ok, o = observe(c, w, st2, k, topk, fr['SDC'], True, f'sdc without paths{lb}')
    if ok and field(o, 'sdc_paths') is not None:
      c.arr('route', f'placeholder without paths{lb}', field(field(o, 'sdc_paths'), 'valid'), lambda *i: t.FALSE, dtype='bool')


PARTS = [('contents', contents), ('no future frame', no_future), ('helpers', helpers)]
