"""Value-graph congruence of every geometric array of an observation with the
rigid transform into the frame of the one observing pose."""
from .common import *
from .p24 import View, every, build, frames, OBS

FLOOR = 430
ASSUME = ['exact real arithmetic', 'exactly one object is the ego vehicle']


def pose(v, i):
  """(x, y, heading) of the observing pose for view index i."""
  o = v.posed(i)
  if o is None:
    return t.ZERO, t.ZERO, t.ZERO
  return tuple(v.now(f, i, o) for f in ('x', 'y', 'yaw'))


def turn(p, dx, dy):
  """The vector in a frame whose first axis points along the pose heading."""
  cs, sn = t.cos(p[2]), t.sin(p[2])
  return cs * dx + sn * dy, cs * dy - sn * dx


def local(p, x, y):
  return turn(p, x - p[0], y - p[1])


def views(c):
  for w, st, e, b, v, o, lb in every(c):
    tr, tl, rd = field(o, 'trajectory'), field(o, 'traffic_lights'), field(o, 'roadgraph_static_points')
    tj = lambda f: (lambda *i: v.traj(f, i))
    xy = lambda i: local(pose(v, i), v.traj('x', i), v.traj('y', i))
    vel = lambda i: turn(pose(v, i), v.traj('vel_x', i), v.traj('vel_y', i))
    shape = b + (v.obs, N, v.k)
    c.arr('position', f'{lb} x', field(tr, 'x'), lambda *i: xy(i)[0], shape=shape, dtype='float32')
    c.arr('position', f'{lb} y', field(tr, 'y'), lambda *i: xy(i)[1], shape=shape, dtype='float32')
    c.arr('velocity', f'{lb} x', field(tr, 'vel_x'), lambda *i: vel(i)[0], shape=shape, dtype='float32')
    c.arr('velocity', f'{lb} y', field(tr, 'vel_y'), lambda *i: vel(i)[1], shape=shape, dtype='float32')
    c.arr('heading', lb, field(tr, 'yaw'), lambda *i: v.traj('yaw', i) - pose(v, i)[2], shape=shape, dtype='float32')
    lxy = lambda i: local(pose(v, i), v.light('x', i), v.light('y', i))
    for k, f in enumerate(('x', 'y')):
      c.arr('light-position', f'{lb} {f}', field(tl, f), lambda *i: lxy(i)[k], shape=b + (v.obs, L, v.k), dtype='float32')
    ref = v.road()
    R_ = {f: asarr(field(ref, f)) for f in ('x', 'y', 'dir_x', 'dir_y')}
    rxy = lambda i: local(pose(v, i), R_['x'].fn(i), R_['y'].fn(i))
    rdir = lambda i: turn(pose(v, i), R_['dir_x'].fn(i), R_['dir_y'].fn(i))
    for k, f in enumerate(('x', 'y')):
      c.arr('road-position', f'{lb} {f}', field(rd, f), lambda *i: rxy(i)[k], shape=b + (v.obs, v.topk), dtype='float32')
      c.arr('road-direction', f'{lb} dir_{f}', field(rd, 'dir_' + f), lambda *i: rdir(i)[k], shape=b + (v.obs, v.topk), dtype='float32')
    if v.sdc:
      P_ = {f: asarr(field(field(st, 'sdc_paths'), f)) for f in ('x', 'y')}
      src = lambda f, i: P_[f].fn(i[:v.nb] + i[v.nb + 1:])
      pxy = lambda i: local(pose(v, i), src('x', i), src('y', i))
      for k, f in enumerate(('x', 'y')):
        c.arr('route-position', f'{lb} {f}', field(field(o, 'sdc_paths'), f), lambda *i: pxy(i)[k], dtype='float32')
    p2 = field(o, 'pose2d')
    at = lambda k: (lambda *i: pose(v, i)[k])
    c.arr('own-pose', f'{lb} position', field(p2, 'original_xy'), lambda *i: t.ite(t.eq(i[-1], 0), pose(v, i)[0], pose(v, i)[1]), shape=b + (v.obs, 2))
    c.arr('own-pose', f'{lb} heading', field(p2, 'original_yaw'), at(2), shape=b + (v.obs,))
    c.arr('own-pose', f'{lb} turn', field(p2, 'delta_yaw'), lambda *i: t.neg(pose(v, i)[2]), shape=b + (v.obs,))


def poses(w, b, n, name):
  cls = w.get(OBS + 'ObjectPose2D')
  xy, yaw = cell(f'{name}.xy', b + (n, 2)), cell(f'{name}.yaw', b + (n,))
  return xy, yaw, w.m(cls, 'from_center_and_yaw', xy=xy, yaw=yaw, valid=cell(f'{name}.ok', b + (n,), 'bool'))


def pose_maps(c):
  """A pose maps its own position to the origin, and survives its two formats."""
  for b in ((), (B,), (B, B2)):
    w = c.world()
    xy, yaw, p = poses(w, b, N, 'pose')
    lb = f'[batch={len(b)}]'
    m = asarr(field(p, 'matrix'))
    def want(*i):
      o = i[:-2]
      cs, sn = t.cos(yaw.fn(o)), t.sin(yaw.fn(o))
      x, y = xy.fn(o + (t.ZERO,)), xy.fn(o + (t.ONE,))
      rows = [[cs, sn, t.neg(cs * x + sn * y)], [t.neg(sn), cs, sn * x - cs * y], [t.ZERO, t.ZERO, t.ONE]]
      return A.select_list(i[-2], [lambda r=r: A.select_list(i[-1], [lambda z=z: z for z in r]) for r in rows])
    c.arr('pose-matrix', lb, m, want, shape=b + (N, 3, 3), dtype='float32')
    ok, q = c.run(w, 'pose-format', f'total{lb}', lambda: w.m(w.get(OBS + 'ObjectPose2D'), 'from_transformation', matrix=m, delta_yaw=field(p, 'delta_yaw'), valid=field(p, 'valid')))
    if ok:
      for f in ('original_xy', 'original_yaw', 'matrix', 'delta_yaw', 'valid'):
        c.arr('pose-format', f'{f} restored{lb}', field(q, f), asarr(field(p, f)))
    for build_, args in (('from_center_and_yaw', dict(xy=xy, yaw=yaw)), ('from_transformation', dict(matrix=m, delta_yaw=field(p, 'delta_yaw')))):
      ok, q = c.run(w, 'pose-format', f'{build_}{lb}', lambda: w.m(w.get(OBS + 'ObjectPose2D'), build_, **args))
      if ok:
        c.arr('pose-format', f'{build_} valid by default{lb}', field(q, 'valid'), lambda *i: t.TRUE, shape=b + (N,), dtype='bool')


def moves(c):
  """The transforms for an arbitrary pose; two poses combine to the second frame."""
  for b in ((), (B,)):
    w = c.world()
    _, _, p1 = poses(w, b, N, 'a')
    xy, yaw, p2 = poses(w, b, N, 'b')
    lb = f'[batch={len(b)}]'
    nb = len(b) + 1
    ps = lambda i: (xy.fn(i[:nb] + (t.ZERO,)), xy.fn(i[:nb] + (t.ONE,)), yaw.fn(i[:nb]))
    M = t.dim('M')
    tr = w.rec('waymax.datatypes.Trajectory', 'tr', b + (N, M, T), TRAJ)
    ok, o = c.run(w, 'transform', f'trajectory{lb}', lambda: w.call(OBS + 'transform_trajectory', tr, p2))
    if ok:
      g = lambda f: asarr(field(tr, f)).fn
      want = {'x': lambda *i: local(ps(i), g('x')(i), g('y')(i))[0], 'y': lambda *i: local(ps(i), g('x')(i), g('y')(i))[1],
              'vel_x': lambda *i: turn(ps(i), g('vel_x')(i), g('vel_y')(i))[0], 'vel_y': lambda *i: turn(ps(i), g('vel_x')(i), g('vel_y')(i))[1],
              'yaw': lambda *i: g('yaw')(i) - ps(i)[2], 'valid': lambda *i: t.band(g('valid')(i), asarr(field(p2, 'valid')).fn(i[:nb]))}
      for f in TRAJ:
        s = asarr(field(tr, f))
        c.arr('transform', f'trajectory {f}{lb}', field(o, f), want.get(f, lambda *i: s.fn(i)), shape=s.shape, dtype=s.dtype)
    for nm, rec, fn in (('road', w.rec('waymax.datatypes.RoadgraphPoints', 'rd', b + (N, R), ROAD), 'transform_roadgraph_points'),
                        ('lights', w.rec('waymax.datatypes.TrafficLights', 'tl', b + (N, L, T), LIGHT), 'transform_traffic_lights')):
      ok, o = c.run(w, 'transform', f'{nm}{lb}', lambda: w.call(OBS + fn, rec, p2))
      if not ok:
        continue
      g = lambda f: asarr(field(rec, f)).fn
      want = {'x': lambda *i: local(ps(i), g('x')(i), g('y')(i))[0], 'y': lambda *i: local(ps(i), g('x')(i), g('y')(i))[1],
              'dir_x': lambda *i: turn(ps(i), g('dir_x')(i), g('dir_y')(i))[0], 'dir_y': lambda *i: turn(ps(i), g('dir_x')(i), g('dir_y')(i))[1],
              'valid': lambda *i: t.band(g('valid')(i), asarr(field(p2, 'valid')).fn(i[:nb]))}
      for f in rec.fields:
        s = asarr(field(rec, f))
        c.arr('transform', f'{nm} {f}{lb}', field(o, f), want.get(f, lambda *i: s.fn(i)), shape=s.shape, dtype=s.dtype)
    # applying the combined pose to data in the first frame gives the second frame
    ok, q = c.run(w, 'combined-pose', lb, lambda: w.call(OBS + 'combine_two_object_pose_2d', src_pose=p1, dst_pose=p2))
    if ok:
      va, vb = asarr(field(p1, 'valid')), asarr(field(p2, 'valid'))
      c.arr('combined-pose', f'valid only when both are{lb}', field(q, 'valid'), lambda *i: t.band(va.fn(i), vb.fn(i)), shape=va.shape, dtype='bool')
      inner = w.call(OBS + 'transform_trajectory', tr, p1)
      got = w.call(OBS + 'transform_trajectory', inner, q)
      once = w.call(OBS + 'transform_trajectory', tr, p2)
      ok1 = asarr(field(p1, 'valid'))
      for f in TRAJ:
        s = asarr(field(once, f))
        want = (lambda *i: t.band(s.fn(i), ok1.fn(i[:nb]))) if f == 'valid' else (lambda *i: s.fn(i))
        c.arr('combined-pose', f'{f}{lb}', field(got, f), want, shape=s.shape)


def again(c):
  """Moving an observation into another frame equals observing there directly."""
  for b, bt in (((), False), ((B,), True)):
    w = c.world()
    st, e = build(c, w, b, bt)
    fr = frames(w)
    for sdc in (True, False):
      call = lambda f: w.call(OBS + ('sdc_' if sdc else '') + 'observation_from_state', st, obs_num_steps=2, roadgraph_top_k=5, coordinate_frame=fr[f])
      lb = f'{"sdc" if sdc else "all"}[batch={len(b)}]'
      src, dst = call('SDC'), call('OBJECT')
      ok, o = c.run(w, 'frame-change', lb, lambda: w.call(OBS + 'transform_observation', src, field(dst, 'pose2d')))
      if not ok:
        continue
      for part in ('trajectory', 'traffic_lights', 'roadgraph_static_points', 'sdc_paths'):
        for f, s in field(dst, part).fields.items():
          s, g = asarr(s), asarr(field(field(o, part), f))
          if f == 'valid':
            sp = asarr(field(field(src, 'pose2d'), 'valid'))
            c.arr('frame-change', f'{lb} {part}.{f}', g, lambda *i: t.band(s.fn(i), sp.fn(i[:len(b) + 1])), shape=s.shape)
          else:
            c.arr('frame-change', f'{lb} {part}.{f}', g, s)
      for f in META:
        c.arr('frame-change', f'{lb} metadata.{f}', field(field(o, 'metadata'), f), asarr(field(field(src, 'metadata'), f)))
      c.arr('frame-change', f'{lb} is_ego', field(o, 'is_ego'), asarr(field(src, 'is_ego')))


PARTS = [('views', views), ('poses', pose_maps), ('transforms', moves), ('frame change', again)]
