"""Value-graph congruence of every geometry primitive with its formula at
arbitrary angles, poses, points and boxes, for every number of leading axes."""
from .common import *
from .p25 import turn, local

FLOOR = 48
ASSUME = ['exact real arithmetic', 'boxes have positive length and width']
G = 'waymax.utils.geometry.'
PS = ((), (B,), (B, N))


def rotations(c):
  for p in PS + ((B, N, 3),):
    w = c.world()
    a = cell('a', p)
    lb = f'rotation_matrix_2d ({len(p)} leading axes)'
    ok, m = c.run(w, 'rotate', lb, lambda: w.call(G + 'rotation_matrix_2d', a))
    if not ok:
      continue
    def want(*i):
      cs, sn = t.cos(a.fn(i[:-2])), t.sin(a.fn(i[:-2]))
      return t.ite(t.eq(i[-2], 0), t.ite(t.eq(i[-1], 0), cs, t.neg(sn)), t.ite(t.eq(i[-1], 0), sn, cs))
    c.arr('rotate', lb, m, want, shape=p + (2, 2))
    # Points turn counter-clockwise by a.
    for extra in ((), (4,), (T, 3)):
      pts = cell('pts', p + extra + (2,))
      lb = f'rotate_points ({len(p)} leading axes, {len(extra)} inner)'
      ok, r = c.run(w, 'rotate', lb, lambda: w.call(G + 'rotate_points', m, pts))
      if ok:
        def turned(*i):
          cs, sn = t.cos(a.fn(i[:len(p)])), t.sin(a.fn(i[:len(p)]))
          x, y = pts.fn(i[:-1] + (t.ZERO,)), pts.fn(i[:-1] + (t.ONE,))
          return t.ite(t.eq(i[-1], 0), cs * x - sn * y, sn * x + cs * y)
        c.arr('rotate', lb, r, turned, shape=pts.shape)
  w = c.world()
  for v in (0.0, 1):
    ok, m = c.run(w, 'rotate', f'rotation by the number {v}', lambda: w.call(G + 'rotation_matrix_2d', v))
    if ok:
      c.check(asarr(m).shape == (2, 2), 'rotate', f'rotation by the number {v} is 2x2', detail=asarr(m).shape)
  c.raises(w, 'rotate', 'points of another batch size', lambda: w.call(G + 'rotate_points', cell('m', (B, 2, 2)), cell('q', (N, 2))))


def poses(c):
  for p in PS:
    w = c.world()
    xy, yaw = cell('o', p + (2,)), cell('h', p)
    lb = f'{len(p)} leading axes'
    pose = lambda i: (xy.fn(i[:len(p)] + (t.ZERO,)), xy.fn(i[:len(p)] + (t.ONE,)), yaw.fn(i[:len(p)]))
    ok, r = c.run(w, 'pose', lb, lambda: w.it.iterate(w.call(G + 'pose_from_xy_yaw', xy, yaw)))
    if not ok:
      continue
    m, d = r
    def entry(*i):
      x, y, h = pose(i)
      cs, sn = t.cos(h), t.sin(h)
      rows = [[cs, sn, t.neg(cs * x + sn * y)], [t.neg(sn), cs, sn * x - cs * y], [t.ZERO, t.ZERO, t.ONE]]
      return A.select_list(i[-2], [lambda q=q: A.select_list(i[-1], [lambda e=e: e for e in q]) for q in rows])
    c.arr('pose', f'matrix ({lb})', m, entry, shape=p + (3, 3))
    c.arr('pose', f'turn ({lb})', d, lambda *i: t.neg(yaw.fn(i)), shape=p)
    ok, z = c.run(w, 'origin', lb, lambda: w.call(G + 'transform_points', m, xy))
    if ok:
      c.arr('origin', f'the pose origin maps to zero ({lb})', z, lambda *i: t.ZERO, shape=p + (2,))
    ahead = A.stack([A.unary(yaw, t.cos) if hasattr(A, 'unary') else Arr(p, 'float32', lambda i: t.cos(yaw.fn(i))), Arr(p, 'float32', lambda i: t.sin(yaw.fn(i)))], -1)
    ok, z = c.run(w, 'origin', lb, lambda: w.call(G + 'transform_direction', m, ahead))
    if ok:
      c.arr('origin', f'the pose heading maps to the first axis ({lb})', z,
            lambda *i: t.ite(t.eq(i[-1], 0), t.cos(yaw.fn(i[:-1])) * t.cos(yaw.fn(i[:-1])) + t.sin(yaw.fn(i[:-1])) * t.sin(yaw.fn(i[:-1])), t.ZERO), shape=p + (2,))
    ok, z = c.run(w, 'origin', lb, lambda: w.call(G + 'transform_yaw', d, yaw))
    if ok:
      c.arr('origin', f'the pose heading becomes zero ({lb})', z, lambda *i: t.ZERO, shape=p)
    for extra in ((), (4,), (T, 3)):
      pts = cell('pts', p + extra + (2,))
      at = lambda i, k: pts.fn(i[:-1] + (t.lift(k),))
      for nm, f in (('transform_points', local), ('transform_direction', turn)):
        ok, z = c.run(w, 'transform', nm, lambda: w.call(G + nm, m, pts))
        if ok:
          def want(*i):
            q = f(pose(i), at(i, 0), at(i, 1))
            return t.ite(t.eq(i[-1], 0), q[0], q[1])
          c.arr('transform', f'{nm} ({lb}, {len(extra)} inner)', z, want, shape=pts.shape)
    for extra in ((), (T,)):
      for dof in (5, 7):
        tr = cell(f'tr{dof}', p + extra + (dof,))
        ok, z = c.run(w, 'transform', f'trajectories {dof}', lambda: w.call(G + 'transform_trajectories', tr, m, d))
        if not ok:
          continue
        def want(*i):
          q = lambda k: tr.fn(i[:-1] + (t.lift(k),))
          xy_ = local(pose(i), q(0), q(1))
          vs = list(turn(pose(i), q(5), q(6))) if dof == 7 else []
          return A.select_list(i[-1], [lambda e=e: e for e in [*xy_, q(2), q(3), q(4) - pose(i)[2]] + vs])
        c.arr('transform', f'transform_trajectories (dof {dof}, {lb}, {len(extra)} inner)', z, want, shape=tr.shape)
    for dof in (2, 4, 6, 8):
      c.raises(w, 'transform', f'transform_trajectories refuses dof {dof} ({lb})',
               lambda: w.call(G + 'transform_trajectories', cell(f'bad{dof}', p + (dof,)), m, d))


def parts(bb):
  return [Arr(bb.shape[:-1], 'float32', lambda i, k=k: bb.fn(tuple(i) + (t.lift(k),))) for k in range(5)]


def boxes(c, rule='box'):
  for p in PS:
    w = c.world()
    a, b = cell('a', p + (5,)), cell('b', p + (5,))
    lb = f'{len(p)} leading axes'
    ok, z = c.run(w, rule, f'corners ({lb})', lambda: w.call(G + 'corners_from_bboxes', a))
    if ok:
      want = asarr(w.ref('boxes.corners', *parts(a)))
      c.arr(rule, f'corners ({lb})', z, lambda *i: want.fn(i), shape=p + (4, 2))
    if not p:
      ok, z = c.run(w, rule, 'corners of one box', lambda: w.call(G + 'corners_from_bbox', a))
      if ok:
        want = asarr(w.ref('boxes.corners', *parts(a)))
        c.arr(rule, 'corners of one box', z, lambda *i: want.fn(i), shape=(4, 2))
    overlaps(c, w, p, rule)
  w = c.world()
  c.raises(w, rule, 'boxes of four numbers are refused', lambda: w.call(G + 'corners_from_bboxes', cell('x', (N, 4))))
  c.raises(w, rule, 'overlap of differently shaped boxes is refused', lambda: w.call(G + 'has_overlap', cell('x', (N, 5)), cell('y', (T, 5))))


def overlaps(c, w, p, rule='overlap'):
  a, b = cell('a', p + (5,)), cell('b', p + (5,))
  lb = f'{len(p)} leading axes'
  ok, z = c.run(w, rule, f'has_overlap ({lb})', lambda: w.call(G + 'has_overlap', a, b))
  if not ok:
    return
  want = asarr(w.ref('boxes.overlap', *parts(a), *parts(b)))
  i = ixs(p)
  size = [t.gt(x.fn(i + (t.lift(k),)), 0) for x in (a, b) for k in (2, 3)]
  size += [asarr(x).fn(i) for x in w.it.iterate(w.ref('boxes.extents', *parts(a), *parts(b)))]
  if c.check(asarr(z).shape == p, rule, f'has_overlap ({lb}) shape', detail=asarr(z).shape):
    c.node(rule, f'has_overlap ({lb})', asarr(z).fn(i), want.fn(i), facts=size)
  ok, y = c.run(w, rule, f'has_overlap swapped ({lb})', lambda: asarr(w.call(G + 'has_overlap', b, a)))
  if ok:
    c.node(rule, f'has_overlap is symmetric ({lb})', asarr(z).fn(i), y.fn(i), facts=size)


def pairs(c):
  for p in ((), (T,), (B, T)):
    w = c.world()
    tr = cell('tr', p + (N, 5))
    lb = f'{len(p)} leading axes'
    used, restore = box_predicate(w)
    ok, z = c.run(w, 'pair', lb, lambda: w.call(G + 'compute_pairwise_overlaps', tr))
    if not ok:
      continue
    if not used:
      restore()
    full = p + (N, N)
    first = Arr(full + (5,), 'float32', lambda i: tr.fn(tuple(i[:-3]) + (i[-3], i[-1])))
    second = Arr(full + (5,), 'float32', lambda i: tr.fn(tuple(i[:-3]) + (i[-2], i[-1])))
    hit = asarr(w.call(G + 'has_overlap', first, second))
    c.arr('pair', f'compute_pairwise_overlaps ({lb})', z, lambda *i: t.band(t.bnot(t.eq(i[-1], i[-2])), hit.fn(i)), shape=full, dtype='bool')


def wraps(c):
  for p in PS:
    w = c.world()
    y = cell('y', p)
    ok, z = c.run(w, 'wrap', 'wrap_yaws', lambda: w.call(G + 'wrap_yaws', y))
    if ok:
      want = asarr(w.ref('angles.wrap', y))
      c.arr('wrap', f'wrap_yaws ({len(p)} axes)', z, lambda *i: want.fn(i), shape=p)


PARTS = [('rotation', rotations), ('pose transforms', poses), ('boxes', boxes), ('pairwise overlap', pairs), ('angle wrapping', wraps)]
