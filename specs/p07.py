"""Value-graph congruence of the bicycle model's update and inverse with the
documented formulas, at arbitrary state, action, step length and bounds."""
from .common import *
from .p06 import clipped, pair_valid

FLOOR = 30
ASSUME = ['exact real arithmetic']


def models(w):
  dt, ma, ms = t.inp('dt'), t.inp('max_accel'), t.inp('max_steer')
  S = lambda v: A.sym(v, 'float')
  one = t.ONE
  yield 'default', w.new('waymax.dynamics.InvertibleBicycleModel'), t.const(0.1), t.const(6.0), t.const(0.3), False
  yield 'normalized', w.new('waymax.dynamics.InvertibleBicycleModel', normalize_actions=True), t.const(0.1), t.const(6.0), t.const(0.3), True
  yield 'custom', w.new('waymax.dynamics.InvertibleBicycleModel', dt=S(dt), max_accel=S(ma), max_steering=S(ms)), dt, ma, ms, False
  yield 'custom normalized', w.new('waymax.dynamics.InvertibleBicycleModel', dt=S(dt), max_accel=S(ma), max_steering=S(ms), normalize_actions=True), dt, ma, ms, True


def wrap(a):
  """Congruent modulo whole turns, in the half-open range starting at -pi."""
  return t.sub(t.modv(t.add(a, t.PI), t.mul(t.const(2), t.PI)), t.PI)


def forward(c):
  for b in ((), (B,), (B, B2)):
    w = c.world()
    for name, dyn, dt, ma, ms, norm in models(w):
      act, cur = w.action(2, b), w.traj('cur', b, T_=1)
      label = f'forward {name}[batch={len(b)}]'
      ok, up = c.run(w, 'update-total', label, lambda: w.m(dyn, 'compute_update', act, cur))
      if not ok:
        continue
      def parts(i):
        g = lambda f: asarr(field(cur, f)).fn(i)
        d = lambda k: asarr(field(act, 'data')).fn(i[:-1] + (t.lift(k),))
        half = t.const(0.5)
        if norm:
          acc = t.mul(clipped(d(0), t.const(-1), t.const(1)), ma)
          st = t.mul(clipped(d(1), t.const(-1), t.const(1)), ms)
        else:
          acc, st = clipped(d(0), t.neg(ma), ma), clipped(d(1), t.neg(ms), ms)
        speed = t.sqrt(g('vel_x') * g('vel_x') + g('vel_y') * g('vel_y'))
        yaw = g('yaw')
        dist = half * acc * dt * dt
        nyaw = wrap(yaw + st * (speed * dt + dist))
        nv = speed + acc * dt
        return {'x': g('x') + g('vel_x') * dt + dist * t.cos(yaw), 'y': g('y') + g('vel_y') * dt + dist * t.sin(yaw),
                'yaw': nyaw, 'vel_x': nv * t.cos(nyaw), 'vel_y': nv * t.sin(nyaw),
                'valid': t.band(g('valid'), asarr(field(act, 'valid')).fn(i))}
      for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid'):
        c.arr('kinematics', f'{label} {f}', field(up, f), lambda *i: parts(i)[f], shape=b + (N, 1))


def want_inverse(tr, tm, dt, est):
  def parts(i):
    i = i[:-1]
    t0 = tm.fn(())
    g = lambda f, k: asarr(field(tr, f)).fn(i + (t0 + k,))
    sp = [t.sqrt(g('vel_x', k) * g('vel_x', k) + g('vel_y', k) * g('vel_y', k)) for k in (0, 1)]
    acc = t.div(sp[1] - sp[0], dt)
    lim = t.const(0.6)
    ny = wrap(g('yaw', 1))
    real = t.atan2(g('vel_y', 1), g('vel_x', 1)) if est else ny
    real = t.ite(t.le(sp[1], lim), ny, real)
    dyaw = wrap(real - wrap(g('yaw', 0)))
    steer = t.div(dyaw, sp[0] * dt + t.const(0.5) * acc * dt * dt)
    steer = t.ite(t.bor(t.lt(sp[0], lim), t.lt(sp[1], lim)), t.ZERO, steer)
    v = t.band(g('valid', 0), g('valid', 1))
    return t.ite(v, acc, t.ZERO), t.ite(v, steer, t.ZERO)
  return parts


def inverse(c):
  for b in ((), (B,)):
    w = c.world()
    tm = cell('t', (), 'int32')
    for name, dyn, dt, ma, ms, norm in models(w):
      tr = w.traj('tr', b)
      label = f'inverse {name}[batch={len(b)}]'
      ok, act = c.run(w, 'inverse-total', label, lambda: w.m(dyn, 'inverse', tr, w.meta('m', b), tm))
      if not ok:
        continue
      parts = want_inverse(tr, tm, dt, True)
      def want(*i):
        acc, st = parts(i)
        if norm:
          r = [clipped(t.div(acc, ma), t.const(-1), t.const(1)), clipped(t.div(st, ms), t.const(-1), t.const(1))]
        else:
          r = [clipped(acc, t.neg(ma), ma), clipped(st, t.neg(ms), ms)]
        return t.ite(t.eq(i[-1], 0), r[0], r[1])
      c.arr('kinematics', label, field(act, 'data'), want, shape=b + (N, 2))
      c.arr('kinematics', label + ' validity', field(act, 'valid'), pair_valid(tr, tm), shape=b + (N, 1))
    for est in (None, True, False):
      tr = w.traj('tr', b)
      dt = t.inp('dt')
      kw = {} if est is None else dict(estimate_yaw_with_velocity=est)
      label = f'compute_inverse[batch={len(b)},estimate={est}]'
      ok, act = c.run(w, 'inverse-total', label, lambda: w.call(
          'waymax.dynamics.bicycle_model.compute_inverse', tr, tm, A.sym(dt, 'float'), **kw))
      if ok:
        parts = want_inverse(tr, tm, dt, est is not False)
        c.arr('kinematics', label, field(act, 'data'), lambda *i: t.ite(t.eq(i[-1], 0), parts(i)[0], parts(i)[1]), shape=b + (N, 2))


PARTS = [('forward', forward), ('inverse', inverse)]
