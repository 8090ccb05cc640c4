"""Value-graph congruence of the delta models with displacement kinematics in
the documented frame, and of the composition of inverse and update."""
from .common import *
from .p06 import clipped, pair_valid
from .p07 import wrap

FLOOR = 30
ASSUME = ['exact real arithmetic']


def models(w):
  S = lambda v: A.sym(v, 'float')
  for cls in ('DeltaGlobal', 'DeltaLocal'):
    yield cls, w.new(f'waymax.dynamics.{cls}'), t.const(0.1), t.const(6.0), t.const(6.0), t.PI
    dt, mx, my, mw = t.inp('dt'), t.inp('mx'), t.inp('my'), t.const(0.3)
    yield cls, w.new(f'waymax.dynamics.{cls}', dt=S(dt), max_dx=S(mx), max_dy=S(my), max_dyaw=S(mw)), dt, mx, my, mw


def forward(c):
  for b in ((), (B,), (B, B2)):
    w = c.world()
    for k, (name, dyn, dt, mx, my, mw) in enumerate(models(w)):
      act, cur = w.action(3, b), w.traj('cur', b, T_=1)
      label = f'forward {name}{k}[batch={len(b)}]'
      ok, up = c.run(w, 'update-total', label, lambda: w.m(dyn, 'compute_update', act, cur))
      if not ok:
        continue
      def parts(i):
        g = lambda f: asarr(field(cur, f)).fn(i)
        dx, dy, dyaw = [asarr(field(act, 'data')).fn(i[:-1] + (t.lift(j),)) for j in range(3)]
        if name == 'DeltaLocal':
          cs, sn = t.cos(g('yaw')), t.sin(g('yaw'))
          dx, dy = cs * dx - sn * dy, sn * dx + cs * dy
        return {'x': g('x') + dx, 'y': g('y') + dy, 'yaw': g('yaw') + dyaw, 'vel_x': t.div(dx, dt), 'vel_y': t.div(dy, dt)}
      for f in CONTROLLABLE:
        c.arr('displacement', f'{label} {f}', field(up, f), lambda *i: parts(i)[f], shape=b + (N, 1))


def inverse(c):
  for b in ((), (B,)):
    w = c.world()
    tm = cell('t', (), 'int32')
    for k, (name, dyn, dt, mx, my, mw) in enumerate(models(w)):
      tr = w.traj('tr', b)
      label = f'inverse {name}{k}[batch={len(b)}]'
      ok, act = c.run(w, 'inverse-total', label, lambda: w.m(dyn, 'inverse', tr, w.meta('m', b), tm))
      if not ok:
        continue
      def want(*i):
        t0 = tm.fn(())
        g = lambda f, k: asarr(field(tr, f)).fn(i[:-1] + (t0 + k,))
        v = t.band(g('valid', 0), g('valid', 1))
        d = lambda f: t.ite(v, g(f, 1) - g(f, 0), t.ZERO)
        dx, dy = clipped(d('x'), t.neg(mx), mx), clipped(d('y'), t.neg(my), my)
        if name == 'DeltaLocal':
          cs, sn = t.cos(g('yaw', 0)), t.sin(g('yaw', 0))
          dx, dy = cs * dx + sn * dy, cs * dy - sn * dx
          dx, dy = clipped(dx, t.neg(mx), mx), clipped(dy, t.neg(my), my)
        dyaw = clipped(wrap(d('yaw')), t.neg(mw), mw)
        return t.ite(t.eq(i[-1], 0), dx, t.ite(t.eq(i[-1], 1), dy, dyaw))
      c.arr('displacement', label, field(act, 'data'), want, shape=b + (N, 3))
      c.arr('displacement', label + ' validity', field(act, 'valid'), pair_valid(tr, tm), shape=b + (N, 1))


def compose(c):
  """Applying the inferred displacement restores the next pose when in bounds."""
  w = c.world()
  tm = cell('t', (), 'int32')
  t0 = tm.fn(())
  n = ixs((N,))
  for name in ('DeltaGlobal', 'DeltaLocal'):
    dyn = w.new(f'waymax.dynamics.{name}')
    tr = w.traj('tr')
    g = lambda f, k: asarr(field(tr, f)).fn(n + (t0 + k,))
    dx, dy = g('x', 1) - g('x', 0), g('y', 1) - g('y', 0)
    dw = wrap(g('yaw', 1) - g('yaw', 0))
    facts = [g('valid', 0), g('valid', 1), t.lt(t.neg(t.PI), dw), t.lt(dw, t.PI)]
    for v in (dx, dy):
      facts += [t.lt(v, 6), t.lt(-6, v)]
    cs, sn = t.cos(g('yaw', 0)), t.sin(g('yaw', 0))
    if name == 'DeltaLocal':
      for v in (cs * dx + sn * dy, cs * dy - sn * dx):
        facts += [t.lt(v, 6), t.lt(-6, v)]
    act = w.m(dyn, 'inverse', tr, w.meta('m'), tm)
    cur = w.call('waymax.datatypes.dynamic_slice', tr, tm, 1, -1)
    up = w.m(dyn, 'compute_update', act, cur)
    at = lambda f: asarr(field(up, f)).fn(n + (t.ZERO,))
    c.node('round-trip', f'{name} x', at('x'), g('x', 1), facts=facts)
    c.node('round-trip', f'{name} y', at('y'), g('y', 1), facts=facts)
    c.node('round-trip', f'{name} heading modulo a turn', wrap(at('yaw')), wrap(g('yaw', 1)), facts=facts)


PARTS = [('forward', forward), ('inverse', inverse), ('composition', compose)]
