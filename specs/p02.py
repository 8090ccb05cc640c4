"""Value-graph congruence of reset: for a symbolic warm-up length, every field of
the returned state is compared at arbitrary indices with the specified one."""
from .common import *

FLOOR = 150
ASSUME = ['the warm-up length is between 1 and the number of logged frames']


def want_sim(log, f, init):
  a = asarr(field(log, f))
  blank = t.lift(False) if a.dtype == 'bool' else t.lift(-1)
  return a, (lambda *i: t.ite(t.lt(i[-1], init), a.fn(i), blank))


def check_reset(c, w, label, st, out, init, cls):
  sim = field(out, 'sim_trajectory')
  log = field(st, 'log_trajectory')
  facts = lambda *i: [t.le(1, init), t.le(init, A.dv(T))]
  for f in log.fields:
    a, want = want_sim(log, f, init)
    c.arr('replay', f'{label} sim_trajectory.{f}', field(sim, f), want, shape=a.shape, dtype=a.dtype, facts=facts)
  ts = asarr(field(out, 'timestep'))
  c.arr('clock', f'{label} clock', ts, lambda *i: init - 1, facts=facts)
  for f in st.fields:
    if f not in ('sim_trajectory', 'timestep', 'sim_agent_actor_states'):
      c.tree_same('frame', f'{label} {f}', field(out, f), st.fields[f])
  c.check(out.cls.name == cls, 'type', f'{label} returns a {cls}', detail=out.cls.name)
  for site, what in w.it.effects:
    c.bad('no-mutation', f'{label}: {what}', site)
  w.it.effects.clear()


def run(c, make, cls, label):
  for b, bt in (((), False), ((B,), False), ((B,), True), ((B, B2), True)):
    for ctl in ('SDC',) if cls != 'SimulatorState' else ('SDC', 'MODELED', 'VALID'):
      w = c.world()
      init = t.dim('I')
      st = w.state(b, batched_time=bt)
      env = make(w, b, A.sym(init), ctl)
      w.it.freeze(st, 'state')
      for rng in (None, Obj(w.get('waymax.datatypes.object_state.Trajectory'))) if False else (None,):
        l = f'{label}[{ctl},batch={len(b)}{"t" if bt else ""}]'
        ok, out = c.run(w, 'reset-total', f'{l}', lambda: w.m(env, 'reset', st))
        if ok:
          check_reset(c, w, l, st, out, init, cls)


def base(c):
  run(c, lambda w, b, i, ctl: w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w, b),
                                    env_config(w, init_steps=i, controlled_object=w.enum('waymax.config.ObjectType', ctl))),
      'SimulatorState', 'base')


def plan(c):
  run(c, lambda w, b, i, ctl: planning(w, b, 0, init_steps=i)[0], 'PlanningAgentSimulatorState', 'planning')


def plan_agents(c):
  """Every simulated agent is initialised once, on the reset state."""
  for nsim in (1, 2, 3):
    w = c.world()
    init = t.dim('I')
    env, st, _, logs = planning(w, (), nsim, init_steps=A.sym(init))
    ok, out = c.run(w, 'reset-total', f'planning with {nsim} agents', lambda: w.m(env, 'reset', w.state(())))
    if not ok:
      continue
    states = field(out, 'sim_agent_actor_states')
    if not c.check(isinstance(states, (list, tuple)) and len(states) == nsim, 'agent-states', f'{nsim} agent states', detail=states):
      continue
    for k in range(nsim):
      calls = [x for x in logs[k] if x[0] == 'init']
      if not c.check(len(calls) == 1, 'agent-states', f'agent {k} of {nsim} initialised once', detail=len(calls)):
        continue
      s = arg(calls[0], 1, 'state')
      c.check(isinstance(s, Obj), 'agent-states', f'agent {k} initialised with a state')
      for f in out.fields:
        if f != 'sim_agent_actor_states' and isinstance(s, Obj):
          c.tree_same('agent-states', f'agent {k} of {nsim} sees reset {f}', s.fields.get(f), out.fields[f])
      c.tree_same('agent-states', f'agent {k} of {nsim} keeps its own initial state', states[k], {'s': cell(f'sim{k}.init', (2,))})


PARTS = [('base environment', base), ('planning environment', plan), ('simulated agents', plan_agents)]
