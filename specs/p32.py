"""Value-graph congruence of the path-following update (projection onto the
logged path, end of path, validity) and of the intelligent-driver speed with
their documented formulas, for every object, scene and parameter set listed."""
from .common import *

FLOOR = 180
ASSUME = ['exact real arithmetic', 'the box intersection test is any symmetric predicate of two boxes (its formula: P31)', 'time indices in range', 'finite positions; the nearest logged pose is at least the look-ahead length before the end of the log']
DT = t.const(0.1)
F = 'waymax.agents.'
C = t.const


def sq(v):
  return v * v


def policy(w, base, b, **kw):
  """A path follower with arbitrary speeds and speed validity."""
  sp, ok = cell('speed', b + (N,)), cell('speed_ok', b + (N,), 'bool')
  cls = subclass(w, base, update_speed=Native('update_speed', lambda self, state, dt=0.1: (sp, ok)))
  return w.it.call(cls, [], kw), lambda i: sp.fn(i), lambda i: ok.fn(i)


def follow(st, i, s, ok, on_end):
  """Documented next state of object i given its new speed."""
  sim, log = field(st, 'sim_trajectory'), field(st, 'log_trajectory')
  tn = tnode(st, i[:-1])
  g = lambda f: asarr(field(sim, f)).fn(tuple(i) + (tn,))
  l = lambda f, k: asarr(field(log, f)).fn(tuple(i) + (k,))
  cur = t.sqrt(sq(g('vel_x')) + sq(g('vel_y')))
  new = t.ite(ok, s, cur)
  d = (new + cur) * C(0.5) * DT
  nx, ny = g('x') + d * t.cos(g('yaw')), g('y') + d * t.sin(g('yaw'))
  away = lambda k: t.ite(l('valid', k), t.sqrt(sq(l('x', k) - nx) + sq(l('y', k) - ny)), t.INF)
  k = t.red_fn('argmin', T, away)
  end = t.red_fn('argmax', T, lambda j: t.ite(l('valid', j), j, t.ZERO))
  left = t.sqrt(sq(l('x', end) - l('x', k)) + sq(l('y', end) - l('y', k)))
  reached = t.bor(t.lt(left, C(0.05)), t.lt(C(5.0), away(k)))
  cx, cy = t.cos(l('yaw', k)), t.sin(l('yaw', k))
  if on_end:
    cx, cy = t.ite(reached, t.ZERO, cx), t.ite(reached, t.ZERO, cy)
  along = cx * (nx - l('x', k)) + cy * (ny - l('y', k))
  rest = (t.ZERO, t.ZERO) if on_end else (g('vel_x'), g('vel_y'))
  valid = t.band(ok, g('valid'))
  if on_end:
    valid = t.band(valid, t.bnot(t.band(reached, t.lt(C(1.0), new))))
  out = {'x': l('x', k) + cx * along, 'y': l('y', k) + cy * along, 'yaw': l('yaw', k),
         'vel_x': t.ite(reached, rest[0], new * t.cos(g('yaw'))), 'vel_y': t.ite(reached, rest[1], new * t.sin(g('yaw')))}
  r = {f: t.ite(valid, v, C(-1)) for f, v in out.items()}
  r['valid'] = valid
  return r


def act(c, w, pol, st, lb):
  w.it.freeze(st, 'state')
  ok, out = c.run(w, 'select-total', lb, lambda: w.m(pol, 'select_action', {}, st, None, cell('key', (2,), 'uint32')))
  for site, what in w.it.effects:
    c.bad('no-mutation', f'{lb}: {what}', site)
  if ok:
    c.check(field(out, 'actor_state') is None, 'stateless', lb)
  return ok, out


def pose(c, rule, lb, a, b, want):
  for j, f in enumerate(CONTROLLABLE):
    data = asarr(field(a, 'data'))
    c.arr(rule, f'{lb} {f}', Arr(data.shape[:-1], data.dtype, lambda i: data.fn(tuple(i) + (t.lift(j),)), origin=data.origin), lambda *i: want(i)[f], shape=b + (N,))
  c.arr(rule, f'{lb} validity', field(a, 'valid'), lambda *i: want(i[:-1])['valid'], shape=b + (N, 1), dtype='bool')
  c.check(t.const_val(A.dv(asarr(field(a, 'data')).shape[-1])) == 5, rule, f'{lb} component count')


def following(c):
  for b in ((), (B,), (B, B2)):
    for base in ('waypoint_following_agent.WaypointFollowingPolicy', 'IDMRoutePolicy'):
      for on_end in (False, True, None):
        w = c.world()
        pol, s, ok_ = policy(w, F + base, b, **({} if on_end is None else {'invalidate_on_end': on_end}))
        st = w.state(b)
        lb = f'{base.split(".")[-1]}[end={on_end}, batch={len(b)}]'
        ok, out = act(c, w, pol, st, lb)
        if ok:
          pose(c, 'follow', lb, field(out, 'action'), b, lambda i: follow(st, i, s(i), ok_(i), bool(on_end)))
          c.arr('default-mask', lb, field(out, 'is_controlled'), lambda *i: t.bnot(asarr(field(field(st, 'object_metadata'), 'is_sdc')).fn(i)), shape=b + (N,), dtype='bool')


def constant(c):
  for b in ((), (B,)):
    for v in (None, 0.0, 7.5, 'sym'):
      w = c.world()
      st = w.state(b)
      lb = f'ConstantSpeedPolicy[{v}, batch={len(b)}]'
      sv = t.inp('v') if v == 'sym' else C(v or 0.0)
      pol = w.new('waymax.agents.constant_speed.ConstantSpeedPolicy', *([] if v is None else [A.sym(sv, 'float') if v == 'sym' else v]))
      ok, out = act(c, w, pol, st, lb)
      if ok:
        pose(c, 'constant', lb, field(out, 'action'), b, lambda i: follow(st, i, sv, t.TRUE, True))


def frozen(c):
  for b in ((), (B,)):
    w = c.world()
    st = w.state(b)
    ok, out = act(c, w, w.new(F + 'sim_agent.FrozenSimPolicy'), st, f'FrozenSimPolicy[batch={len(b)}]')
    if ok:
      pose(c, 'frozen', f'FrozenSimPolicy[batch={len(b)}]', field(out, 'action'), b,
           lambda i: {f: asarr(field(field(st, 'sim_trajectory'), f)).fn(tuple(i) + (tnode(st, i[:-1]),)) for f in CONTROLLABLE + ['valid']})


def current_path(st, i, ahead):
  """Look-ahead poses straight ahead of the current one: (x, y, yaw, l, w, valid, gap)."""
  tr, tn = field(st, 'sim_trajectory'), tnode(st, i[:-1])
  g = lambda f: asarr(field(tr, f)).fn(tuple(i) + (tn,))
  return [(g('x') + C(d) * t.cos(g('yaw')), g('y') + C(d) * t.sin(g('yaw')), g('length'), g('width'), g('yaw'), g('valid'), C(d)) for d in ahead]


def logged_path(st, i, num, extra, dist):
  """Logged poses from the one nearest to the object, then straight ahead."""
  sim, log, tn = field(st, 'sim_trajectory'), field(st, 'log_trajectory'), tnode(st, i[:-1])
  g = lambda f: asarr(field(sim, f)).fn(tuple(i) + (tn,))
  l = lambda f, k: asarr(field(log, f)).fn(tuple(i) + (k,))
  far = lambda k: t.sqrt(sum((sq(l(f, k) - g(f)) for f in 'xyz'), t.ZERO))
  k0 = t.red_fn('argmin', T, lambda k: t.ite(l('valid', k), far(k), t.INF))
  out = [[l(f, k0 + n) for f in ('x', 'y', 'length', 'width', 'yaw', 'valid', 'z')] for n in range(num)]
  x, y, ln, wd, yaw, ok, z = out[-1]
  for n in range(1, extra + 1):
    d = C(dist * n / extra)
    out.append([x + d * t.cos(yaw), y + d * t.sin(yaw), ln, wd, yaw, ok, z])
  gap = lambda p: t.sqrt(sq(p[0] - g('x')) + sq(p[1] - g('y')) + sq(p[6] - g('z')))
  return [(p[0], p[1], p[2], p[3], p[4], p[5], gap(p)) for p in out]


def driver(st, i, path, v0=30.0, s0=2.0, headway=2.0, a=2.0, b=4.0, delta=4, **_):
  """Intelligent-driver speed of object i after one step; the leader is the
  slowest other object met at the first occupied look-ahead position."""
  tr, tn = field(st, 'sim_trajectory'), tnode(st, i[:-1])
  g = lambda f, ix: asarr(field(tr, f)).fn(tuple(ix) + (tn,))
  speed = lambda ix: t.ite(g('valid', ix), t.sqrt(sq(g('vel_x', ix)) + sq(g('vel_y', ix))), C(-1))
  box = lambda ix: [g(f, ix) for f in ('x', 'y', 'length', 'width', 'yaw')]
  meets = lambda p, q: t.bor(t.fn('overlap', *p, *q, sort='b'), t.fn('overlap', *q, *p, sort='b'))
  v = speed(i)
  other = lambda j: tuple(i[:-1]) + (j,)
  hit = lambda j, p: t.conj(meets(list(p[:5]), box(other(j))), p[5], g('valid', other(j)), t.bnot(t.eq(j, i[-1])))

  def accel(lead, gap):
    s = t.ZERO
    if lead is not None:
      q = v * C(headway) + t.div(v * (v - lead), C(2) * t.sqrt(C(a * b)))
      s = t.div(C(s0) + t.ite(t.lt(t.ZERO, q), q, t.ZERO), gap)
    r, p = t.div(v, C(v0)), t.ONE
    for _ in range(delta):
      p = p * r
    return C(a) * (t.ONE - p - s * s)
  met = [t.reduce_('any', N, lambda j: hit(j, p)) for p in path]
  slow = [t.neg(t.reduce_('max', N, lambda j: t.ite(hit(j, p), t.neg(speed(other(j))), t.neg(t.INF)))) for p in path]
  lead, gap = t.ZERO, t.INF
  for p, h, s in reversed(list(zip(path, met, slow))):
    lead = t.ite(h, s, lead)
    gap = t.ite(h, t.minv(p[6], gap), gap)
  some = t.FALSE
  for h in met:
    some = t.bor(some, h)
  out = t.ite(some, accel(lead, t.ite(t.eq(gap, 0), C(0.1), gap)), accel(None, None))
  s = v + DT * out
  return t.ite(t.lt(s, 0), t.ZERO, s)


def finite(v):
  """Positions of the scene are finite numbers."""
  return [t.atom_v(a) for a in t.atoms_of(v) if a.kind == 'fn' and a.args[0] == 'isfinite']


PARAMS = [
    ({}, {}, 10, 10.0),
    (dict(additional_lookahead_points=4, additional_lookahead_distance=6.0), {}, 4, 6.0),
    (dict(additional_lookahead_points=0), {}, 0, 1.0),
    (dict(additional_lookahead_points=1, additional_lookahead_distance=3.0), {}, 1, 3.0),
    (dict(desired_vel=20.0, min_spacing=3.0, safe_time_headway=1.5, max_accel=1.0, max_decel=2.25, delta=2, additional_lookahead_points=3, additional_lookahead_distance=12.0),
     dict(v0=20.0, s0=3.0, headway=1.5, a=1.0, b=2.25, delta=2), 3, 12.0),
    (dict(desired_vel=12.0, additional_lookahead_points=2, invalidate_on_end=True), dict(v0=12.0), 2, 10.0),
    (dict(min_spacing=5.0, additional_lookahead_points=2, max_lookahead=3), dict(s0=5.0), 2, 10.0),
    (dict(safe_time_headway=0.5, additional_lookahead_points=2), dict(headway=0.5), 2, 10.0),
    (dict(max_accel=3.0, additional_lookahead_points=2), dict(a=3.0), 2, 10.0),
    (dict(max_decel=9.0, additional_lookahead_points=2), dict(b=9.0), 2, 10.0),
    (dict(lookahead_from_current_position=False, max_lookahead=1, additional_lookahead_points=0), {}, 0, 1.0),
    (dict(lookahead_from_current_position=False, max_lookahead=2, additional_lookahead_points=0), {}, 0, 1.0),
    (dict(lookahead_from_current_position=False, max_lookahead=1, additional_lookahead_points=1, additional_lookahead_distance=4.0), {}, 1, 4.0),
    (dict(delta=3.0, additional_lookahead_points=2), dict(delta=3), 2, 10.0),
]


def intelligent(c):
  for n, (kw, formula, pts, dist) in enumerate(PARAMS):
    for b in ((), (B,), (B, B2)):
      if len(b) > 1 and n != 1:
        continue
      w = c.world()
      used, restore = box_predicate(w)
      st = w.state(b)
      pol = w.new(F + 'IDMRoutePolicy', **kw)
      lb = f'speed model[{", ".join(f"{k}={v}" for k, v in kw.items()) or "defaults"}, batch={len(b)}]'
      w.it.freeze(st, 'state')
      ok, got = c.run(w, 'speed-total', lb, lambda: w.m(pol, 'update_speed', st))
      if ok:
        path = lambda i: logged_path(st, i, kw.get('max_lookahead', 10), pts, dist) if 'lookahead_from_current_position' in kw else current_path(st, i, [0.0] + [dist * k / pts for k in range(1, pts + 1)])
        seen = asarr(field(field(st, 'sim_trajectory'), 'valid'))
        sp, valid = w.it.iterate(got)
        c.arr('speed', lb, sp, lambda *i: driver(st, i, path(i), **formula), shape=b + (N,), facts=(lambda *i: finite(asarr(sp).fn(i)) + [asarr(seen).fn(tuple(i) + (tnode(st, i[:-1]),))]) if 'lookahead_from_current_position' in kw else None)
        c.arr('speed', f'{lb} validity', valid, lambda *i: t.TRUE, shape=b + (N,), dtype='bool')
        c.arr('non-negative', lb, A.elementwise(lambda v: t.ge(v, t.ZERO), asarr(sp), dtype='bool'), lambda *i: t.TRUE)
      for site, what in w.it.effects:
        c.bad('no-mutation', f'{lb}: {what}', site)
      restore()


def from_config(c):
  """Configured agents: class, parameters, control mask, refused settings."""
  for who, mask in (('SDC', lambda m: m), ('NON_SDC', t.bnot)):
    for b in ((), (B,)):
      w = c.world()
      used, restore = box_predicate(w)
      st = w.state(b)
      cfg = w.config('SimAgentConfig', agent_type=w.enum('waymax.config.SimAgentType', 'IDM'), controlled_objects=w.enum('waymax.config.ObjectType', who))
      lb = f'configured {who}[batch={len(b)}]'
      ok, pol = c.run(w, 'build-total', lb, lambda: w.call(F + 'create_sim_agents_from_config', cfg))
      if not ok:
        continue
      ok, out = act(c, w, pol, st, lb)
      if ok:
        c.arr('configured-mask', lb, field(out, 'is_controlled'), lambda *i: mask(asarr(field(field(st, 'object_metadata'), 'is_sdc')).fn(i)), shape=b + (N,), dtype='bool')
      ok, got = c.run(w, 'speed-total', lb, lambda: w.it.iterate(w.m(pol, 'update_speed', st)))
      if ok:
        c.arr('speed', lb, got[0], lambda *i: driver(st, i, current_path(st, i, [float(k) for k in range(11)])), shape=b + (N,))
      c.check(w.attr(pol, 'invalidate_on_end') is False, 'configured', f'{lb} keeps objects at the end of the path')
      restore()
  w = c.world()
  for who in w.get('waymax.config.ObjectType').members:
    if who not in ('SDC', 'NON_SDC'):
      cfg = w.config('SimAgentConfig', agent_type=w.enum('waymax.config.SimAgentType', 'IDM'), controlled_objects=w.enum('waymax.config.ObjectType', who))
      c.raises(w, 'rejects', f'agents controlling {who}', lambda: w.call(F + 'create_sim_agents_from_config', cfg))
  cfg = w.config('SimAgentConfig', agent_type='other', controlled_objects=w.enum('waymax.config.ObjectType', 'SDC'))
  c.raises(w, 'rejects', 'unknown agent type', lambda: w.call(F + 'create_sim_agents_from_config', cfg))


def masks(c):
  for b in ((), (B,)):
    for cls, kw in (('sim_agent.FrozenSimPolicy', {}), ('IDMRoutePolicy', dict(additional_lookahead_points=0))):
      w = c.world()
      used, restore = box_predicate(w)
      free = cell('ctl', b + (N,), 'bool')
      st = w.state(b)
      pol = w.new(F + cls, Native('mask', lambda s: free), **kw)
      lb = f'{cls.split(".")[-1]} mask[batch={len(b)}]'
      ok, out = act(c, w, pol, st, lb)
      if ok:
        c.arr('mask', lb, field(out, 'is_controlled'), lambda *i: free.fn(i), shape=b + (N,), dtype='bool')
      c.check(w.m(pol, 'init', cell('key', (2,), 'uint32'), st) is None, 'stateless', f'{lb} initial state')
      restore()


PARTS = [('path following', following), ('constant-speed policy', constant), ('frozen policy', frozen), ('intelligent-driver speed', intelligent), ('configured agents', from_config), ('control masks', masks)]
