"""Value-graph congruence: the state returned by a step of every environment,
dynamics model and option set is compared, field by field and at arbitrary
symbolic indices, with the incoming state outside frame clock+1."""
from .common import *

FLOOR = 200
ASSUME = ['the clock has a following frame (0 <= clock+1 < number of frames)']


def check_step(c, w, label, env, state, action, skip=()):
  w.it.freeze(state, 'state')
  ok, out = c.run(w, 'step-total', f'{label} step', lambda: w.m(env, 'step', state, action))
  if not ok:
    return None
  if not isinstance(out, Obj):
    c.bad('frame', f'{label} step result', '', f'{out!r}')
    return None
  inner = out
  c.tree_same('frame', f'{label} state', inner, state, skip=('sim_trajectory', 'timestep') + skip)
  ts = asarr(field(state, 'timestep'))
  c.arr('clock', f'{label} clock', field(inner, 'timestep'), lambda *i: ts.fn(i) + 1, shape=ts.shape)
  sim, got = field(state, 'sim_trajectory'), field(inner, 'sim_trajectory')
  only_frame(c, 'frame', f'{label} sim_trajectory', got, sim, lambda i: ts.fn(i[:ts.ndim]) + 1)
  for site, what in w.it.effects:
    c.bad('no-mutation', f'{label}: {what}', site)
  w.it.effects.clear()
  return out


def base(c):
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    for ctl in ('SDC', 'MODELED', 'VALID'):
      for inj in (True, False):
        w = c.world()
        st = w.state(b, batched_time=bt)
        env = w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w, b),
                    env_config(w, controlled_object=w.enum('waymax.config.ObjectType', ctl), allow_new_objects_after_warmup=inj))
        check_step(c, w, f'base[{ctl},inj={inj},batch={len(b)}{"t" if bt else ""}]', env, st, w.action(5, b))


def models(c):
  w = c.world()
  for name, dyn, d in real_dynamics(w):
    for b in ((), (B,)):
      env = w.new('waymax.env.MultiAgentEnvironment', dyn, env_config(w))
      check_step(c, w, f'base+{name}[batch={len(b)}]', env, w.state(b), w.action(d, b))


def plan(c):
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    for nsim in (0, 1, 2):
      for inj in (True, False):
        w = c.world()
        env, st, _, _ = planning(w, b, nsim, injection=inj, batched_time=bt)
        act = w.action(3, b, n=None)
        check_step(c, w, f'planning[sims={nsim},inj={inj},batch={len(b)}{"t" if bt else ""}]', env, st, act,
                   skip=('sim_agent_actor_states',))
  w = c.world()
  for name, dyn, d in real_dynamics(w):
    for b in ((), (B,)):
      env, st, _, _ = planning(w, b, 1, dyn=dyn)
      check_step(c, w, f'planning+{name}[batch={len(b)}]', env, st, w.action(d, b, n=None),
                 skip=('sim_agent_actor_states',))


PARTS = [('planning environment', plan), ('multi-agent environment', base), ('dynamics models', models)]
