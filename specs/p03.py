"""Value-graph congruence of the frame written by a step: with an arbitrary
dynamics update, each field of frame clock+1 equals the update for controlled
objects and the logged frame for the others, for every control setting."""
from .common import *

FLOOR = 200
ASSUME = ['the clock has a following frame (0 <= clock+1 < number of frames)']


def update_field(b, f):
  return cell(f'upd.{f}', tuple(b) + (N, 1), 'bool' if f == 'valid' else 'float32')


def want_frame(b, sim, log, upd, ctl, tn, f):
  """Value of field f at frame tn+1 for index i (batch.., object)."""
  def at(i):
    if f in CONTROLLABLE:
      return t.ite(ctl(i), upd(f, i), at_time(log, f, i, tn(i) + 1))
    if f == 'timestamp_micros':
      return at_time(log, f, i, tn(i) + 1)
    return at_time(sim, f, i, tn(i))
  return at


def check_frame(c, label, got, sim, log, upd, ctl, tn, fields=None):
  for f in fields or (CONTROLLABLE + CARRIED + ['timestamp_micros']):
    g = asarr(field(got, f))
    i = ixs(g.shape)[:-1]
    c.node('written-frame', f'{label} {f}', g.fn(i + (t.lift(tn(i)) + 1,)), want_frame((), sim, log, upd, ctl, tn, f)(i),
           facts=[t.ge(tn(i), 0)])


def mask(w, st, ctl, inj, init):
  m = field(st, 'object_metadata')
  if ctl == 'SDC':
    return lambda i: asarr(field(m, 'is_sdc')).fn(i)
  if ctl == 'MODELED':
    return lambda i: asarr(field(m, 'is_modeled')).fn(i)
  if inj:
    return lambda i: asarr(field(m, 'is_valid')).fn(i)
  return lambda i: asarr(field(field(st, 'sim_trajectory'), 'valid')).fn(i + (t.lift(init) - 1,))


def settings():
  for b, bt in (((), False), ((B,), False), ((B,), True), ((B, B2), True)):
    for ctl in ('SDC', 'MODELED', 'VALID'):
      for inj in (True, False):
        yield b, bt, ctl, inj


def stepped(c, b, bt, ctl, inj):
  w = c.world()
  st = w.state(b, batched_time=bt)
  rec = []
  env = w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w, b, rec),
              env_config(w, controlled_object=w.enum('waymax.config.ObjectType', ctl), allow_new_objects_after_warmup=inj,
                         init_steps=A.sym(t.dim('I'))))
  label = f'base[{ctl},inj={inj},batch={len(b)}{"t" if bt else ""}]'
  act = w.action(5, b)
  ok, out = c.run(w, 'step-total', label, lambda: w.m(env, 'step', st, act))
  if not ok:
    return None
  return w, st, act, rec, label, out


def base(c):
  for b, bt, ctl, inj in settings():
    r = stepped(c, b, bt, ctl, inj)
    if r is None:
      continue
    w, st, act, rec, label, out = r
    sim, log = field(st, 'sim_trajectory'), field(st, 'log_trajectory')
    nt = len(b) if bt else 0
    tn = lambda i: asarr(field(st, 'timestep')).fn(i[:nt])
    upd = lambda f, i: update_field(b, f).fn(i + (t.ZERO,))
    check_frame(c, label, field(out, 'sim_trajectory'), sim, log, upd, mask(w, st, ctl, inj, t.dim('I')), tn)
    # The dynamics receive the action and the current frame.
    c.check(len(rec) == 1, 'dynamics-input', f'{label} one dynamics update per step', detail=len(rec))
    for a, tr in rec:
      c.tree_same('dynamics-input', f'{label} action', a, act)
      for f in sim.fields:
        s = asarr(field(sim, f))
        c.arr('dynamics-input', f'{label} current {f}', field(tr, f), lambda *i, s=s: s.fn(i[:-1] + (tn(i),)),
              shape=s.shape[:-1] + (1,))


def merge(c):
  """apply_trajectory_update_to_state with and without the fallback."""
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    for inj in (None, True, False):
      for fb in (None, True, False):
        w = c.world()
        sim, log = w.traj('sim', b), w.traj('log', b)
        ctl = cell('ctl', b + (N,), 'bool')
        tm = cell('t', b if bt else (), 'int32')
        kw = {}
        if inj is not None:
          kw['allow_object_injection'] = inj
        if fb is not None:
          kw['use_fallback'] = fb
        label = f'merge[inj={inj},fallback={fb},batch={len(b)}{"t" if bt else ""}]'
        ok, out = c.run(w, 'step-total', label, lambda: w.call(
            'waymax.dynamics.abstract_dynamics.apply_trajectory_update_to_state',
            trajectory_update=w.update(b), sim_trajectory=sim, reference_trajectory=log,
            is_controlled=ctl, timestep=tm, **kw))
        if not ok:
          continue
        tn = lambda i: tm.fn(i[:tm.ndim])
        def upd(f, i):
          u = update_field(b, f).fn(i + (t.ZERO,))
          if not fb:
            return u
          at = lambda g: at_time(sim, g, i, tn(i))
          fall = {'x': at('x') + at('vel_x') * t.const(0.1), 'y': at('y') + at('vel_y') * t.const(0.1),
                  'yaw': t.atan2(at('vel_y'), at('vel_x')), 'vel_x': at('vel_x'), 'vel_y': at('vel_y')}[f]
          return t.ite(update_field(b, 'valid').fn(i + (t.ZERO,)), u, fall)
        check_frame(c, label, out, sim, log, upd, lambda i: ctl.fn(i), tn)


def models(c):
  """forward of every concrete model writes its own compute_update."""
  for b in ((), (B,)):
    w = c.world()
    for name, dyn, d in real_dynamics(w) + [('discrete', discrete(w), 2)]:
      sim, log = w.traj('sim', b), w.traj('log', b)
      ctl = cell('ctl', b + (N,), 'bool')
      tm = cell('t', (), 'int32')
      act = w.action(d, b) if name != 'discrete' else int_action(w, b, 1)
      label = f'forward {name}[batch={len(b)}]'
      ok, out = c.run(w, 'step-total', label, lambda: w.m(dyn, 'forward', act, sim, log, ctl, tm))
      if not ok:
        continue
      cur = w.call('waymax.datatypes.dynamic_slice', sim, tm, 1, -1)
      ok, up = c.run(w, 'step-total', label + ' update', lambda: w.m(dyn, 'compute_update', act, cur))
      if not ok:
        continue
      check_frame(c, label, out, sim, log, lambda f, i: asarr(field(up, f)).fn(i + (t.ZERO,)), lambda i: ctl.fn(i),
                  lambda i: tm.fn(()))


PARTS = [('environment step', base), ('update merge', merge), ('dynamics models', models)]
