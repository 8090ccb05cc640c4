"""Value-graph congruence of the planning step with stub simulated agents whose
masks, actions and states are arbitrary inputs: merged data, validity, control
mask, per-agent arguments and carried states, for 0 to 3 agents."""
from .common import *
from .p03 import check_frame, update_field

FLOOR = 150
ASSUME = ['the clock has a following frame (0 <= clock+1 < number of frames)']


def key_name(k):
  k = asarr(k)
  return t.show(k.fn((t.ZERO,) * k.ndim))


def overlap0(w, log, b):
  """Any overlap with another object in the first logged frame."""
  box = lambda f: asarr(field(log, f))
  def pair(i, j):
    row = lambda k: A.stack([Arr((), 'float32', lambda _, f=f: box(f).fn(tuple(i[:-1]) + (k, t.ZERO))) for f in ('x', 'y', 'length', 'width', 'yaw')], -1)
    return asarr(w.call('waymax.utils.geometry.has_overlap', row(i[-1]), row(j))).fn(())
  return lambda i: t.reduce_('any', N, lambda j: t.band(t.bnot(t.eq(j, i[-1])), pair(i, j)))


def merged(w, b, nsim, base, log):
  """Field, validity and mask after the simulated agents overrode the planner."""
  ov = overlap0(w, log, b)
  def takes(k, i):
    return t.band(cell(f'sim{k}.ctl', b + (N,), 'bool').fn(i), t.bnot(ov(i)))
  def pick(i, start, val):
    r = start
    for k in range(nsim):
      r = t.ite(takes(k, i), val(k), r)
    return r
  order = ['x', 'y', 'yaw', 'vel_x', 'vel_y']
  def fld(f, i):
    return pick(i, update_field(b, f).fn(i + (t.ZERO,)),
                lambda k: cell(f'sim{k}.act.data', b + (N, 5)).fn(i + (t.lift(order.index(f)),)))
  def val(i):
    return pick(i, update_field(b, 'valid').fn(i + (t.ZERO,)),
                lambda k: cell(f'sim{k}.act.valid', b + (N, 1), 'bool').fn(i + (t.ZERO,)))
  def ctl(i):
    r = base(i)
    for k in range(nsim):
      r = t.bor(r, takes(k, i))
    return r
  return fld, val, ctl


def step(c):
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    for nsim in (0, 1, 2, 3):
      for inj in (True, False):
        for key in (False, True):
          if (nsim == 3 or key) and inj:
            continue
          w = c.world()
          used, restore = box_predicate(w)
          rec = []
          env, st, params, logs = planning(w, b, nsim, injection=inj, batched_time=bt, rec=rec)
          act = w.action(3, b, n=None)
          label = f'step[sims={nsim},inj={inj},key={key},batch={len(b)}{"t" if bt else ""}]'
          rng = cell('key', (2,), 'uint32') if key else None
          args = (st, act) + ((rng,) if key else ())
          ok, out = c.run(w, 'step-total', label, lambda: w.m(env, 'step', *args))
          if not ok:
            continue
          sim, log = field(st, 'sim_trajectory'), field(st, 'log_trajectory')
          sdc = asarr(field(field(st, 'object_metadata'), 'is_sdc'))
          asarr(field(field(out, 'sim_trajectory'), 'x')).fn(ixs(b + (N, T)))
          if not used:
            restore()
          fld, val, ctl = merged(w, b, nsim, sdc.fn, log)
          nt = len(b) if bt else 0
          tn = lambda i: asarr(field(st, 'timestep')).fn(i[:nt])
          got = field(out, 'sim_trajectory')
          check_frame(c, label, got, sim, log, fld, ctl, tn)
          v = asarr(field(got, 'valid'))
          i = ixs(v.shape)[:-1]
          now, nxt = at_time(sim, 'valid', i, tn(i)), at_time(log, 'valid', i, tn(i) + 1)
          free = nxt if inj else t.band(now, nxt)
          c.node('written-frame', f'{label} valid', v.fn(i + (t.lift(tn(i)) + 1,)),
                 t.bor(t.band(now, ctl(i)), free) if not inj else t.bor(t.band(now, ctl(i)), nxt), facts=[t.ge(tn(i), 0)])
          # Planner action goes, tiled over the objects, to the dynamics.
          c.check(len(rec) == 1, 'planner-input', f'{label} one dynamics update', detail=len(rec))
          for a, tr in rec:
            for f, dt in (('data', 'float32'), ('valid', 'bool')):
              src = asarr(field(act, f))
              c.arr('planner-input', f'{label} planner {f}', field(a, f), lambda *j, src=src: src.fn(j[:-2] + (j[-1],)),
                    shape=b + (N, src.shape[-1]), dtype=dt)
          # Agents: own parameters, own state, current simulator state, own key.
          states = field(out, 'sim_agent_actor_states')
          c.check(isinstance(states, (list, tuple)) and len(states) == nsim, 'agent-state', f'{label} number of states', detail=repr(states)[:200])
          seen = []
          for k in range(nsim):
            calls = [e for e in logs[k] if e[0] == 'select']
            if not c.check(len(calls) == 1, 'agent-input', f'{label} agent {k} asked once', detail=len(calls)):
              continue
            e = calls[0]
            c.tree_same('agent-input', f'{label} agent {k} parameters', arg(e, 0, 'params'), params[k])
            c.tree_same('agent-input', f'{label} agent {k} simulator state', arg(e, 1, 'state'), st)
            c.tree_same('agent-input', f'{label} agent {k} own state', arg(e, 2, 'actor_state'), field(st, 'sim_agent_actor_states')[k])
            kk = arg(e, 3, 'rng')
            c.check((kk is not None) == key, 'agent-input', f'{label} agent {k} key', detail=repr(kk))
            if kk is not None:
              seen.append(key_name(kk))
            if isinstance(states, (list, tuple)) and k < len(states):
              c.tree_same('agent-state', f'{label} agent {k} next state', states[k], field(e[3], 'actor_state'))
          c.check(len(set(seen)) == len(seen), 'agent-input', f'{label} keys differ between agents', detail=seen)


def reset(c):
  for b in ((), (B,)):
    for nsim in (0, 1, 2):
      for key in (False, True):
        w = c.world()
        env, st, params, logs = planning(w, b, nsim)
        base = w.state(b)
        label = f'reset[sims={nsim},key={key},batch={len(b)}]'
        rng = cell('key', (2,), 'uint32') if key else None
        ok, out = c.run(w, 'step-total', label, lambda: w.m(env, 'reset', base, *((rng,) if key else ())))
        if not ok:
          continue
        states = field(out, 'sim_agent_actor_states')
        c.check(isinstance(states, (list, tuple)) and len(states) == nsim, 'agent-state', f'{label} number of states', detail=repr(states)[:200])
        seen = []
        for k in range(nsim):
          calls = [e for e in logs[k] if e[0] == 'init']
          c.check(len(calls) == 1, 'agent-init', f'{label} agent {k} initialised once', detail=len(calls))
          for e in calls:
            s = arg(e, 1, 'state')
            c.tree_same('agent-init', f'{label} agent {k} simulator state', s, out, skip=('sim_agent_actor_states',)) \
                if isinstance(s, Obj) and s.cls is out.cls else \
                c.check(False, 'agent-init', f'{label} agent {k} simulator state', detail=repr(s)[:200])
            kk = arg(e, 0, 'rng')
            c.check((kk is not None) == key, 'agent-init', f'{label} agent {k} key', detail=repr(kk))
            if kk is not None:
              seen.append(key_name(kk))
          c.arr('agent-state', f'{label} agent {k} first state', states[k]['s'], cell(f'sim{k}.init', b + (2,)))
        c.check(len(set(seen)) == len(seen), 'agent-init', f'{label} keys differ between agents', detail=seen)


def mismatch(c):
  """Disagreeing numbers of agents, parameters and states are refused."""
  w = c.world()
  env, st, params, logs = planning(w, (), 2)
  short = w.m(st, 'replace', sim_agent_actor_states=field(st, 'sim_agent_actor_states')[:1])
  c.raises(w, 'rejects', 'step with fewer actor states than agents', lambda: w.m(env, 'step', short, w.action(3, (), n=None)), ('ValueError',))
  longer = w.m(st, 'replace', sim_agent_actor_states=list(field(st, 'sim_agent_actor_states')) * 2)
  c.raises(w, 'rejects', 'step with more actor states than agents', lambda: w.m(env, 'step', longer, w.action(3, (), n=None)), ('ValueError',))
  for na, np_ in ((2, 1), (0, 1), (1, 0)):
    c.raises(w, 'rejects', f'{na} agents with {np_} parameters', lambda: w.new(
        'waymax.env.PlanningAgentEnvironment', stub_dynamics(w), env_config(w),
        [stub_actor(w, f's{k}') for k in range(na)], [{} for _ in range(np_)]), ('ValueError',))


def free_states(c):
  """Whatever an agent returns as its state is what its next call receives."""
  w = c.world()
  other = {'a': cell('n.a', (3,)), 'b': (cell('n.b', ()),)}
  for nm, nxt in (('nothing', None), ('an empty tuple', ()), ('another structure', other)):
    for was in (None, {'s': cell('was', (2,))}):
      env = w.new('waymax.env.PlanningAgentEnvironment', stub_dynamics(w), env_config(w),
                  [stub_actor(w, 'p'), stub_actor(w, 'q', nxt=nxt)], [{}, {}])
      st = w.it.construct(w.get('waymax.env.PlanningAgentSimulatorState'), [],
                          dict(w.state(()).fields, sim_agent_actor_states=[{'s': cell('p0', (2,))}, was]))
      label = f'step with an agent returning {nm} after {"a state" if was else "nothing"}'
      ok, out = c.run(w, 'step-total', label, lambda: w.m(env, 'step', st, w.action(3, (), n=None)))
      if ok:
        got = field(out, 'sim_agent_actor_states')
        same = len(got) == 2 and (got[1] is nxt if not isinstance(nxt, dict) else isinstance(got[1], dict) and set(got[1]) == set(nxt))
        c.check(same, 'agent-state', f'{label}: carried as returned', detail=repr(got)[:200])


PARTS = [('step', step), ('returned states', free_states), ('reset', reset), ('mismatched agents', mismatch)]
