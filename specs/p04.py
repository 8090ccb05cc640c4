"""Value-graph congruence of the validity flag of the frame written by a step,
for every control setting, injection setting and batching, against the rule."""
from .common import *
from . import p03

FLOOR = 40
ASSUME = p03.ASSUME


def rule(ctl, cur, log, inj):
  if inj:
    return t.ite(t.band(ctl, cur), t.lift(True), log)
  return t.ite(t.band(ctl, cur), t.lift(True), t.band(cur, log))


def check_valid(c, label, got, sim, log, ctl, tn, inj):
  g = asarr(field(got, 'valid'))
  i = ixs(g.shape)[:-1]
  c.node('validity', label, g.fn(i + (t.lift(tn(i)) + 1,)),
         rule(ctl(i), at_time(sim, 'valid', i, tn(i)), at_time(log, 'valid', i, tn(i) + 1), inj), facts=[t.ge(tn(i), 0)])


def base(c):
  for b, bt, ctl, inj in p03.settings():
    r = p03.stepped(c, b, bt, ctl, inj)
    if r is None:
      continue
    w, st, act, rec, label, out = r
    nt = len(b) if bt else 0
    check_valid(c, label, field(out, 'sim_trajectory'), field(st, 'sim_trajectory'), field(st, 'log_trajectory'),
                p03.mask(w, st, ctl, inj, t.dim('I')), lambda i: asarr(field(st, 'timestep')).fn(i[:nt]), inj)


def merge(c):
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    for inj in (None, True, False):
      for fb in (None, True, False):
        w = c.world()
        sim, log = w.traj('sim', b), w.traj('log', b)
        ctl = cell('ctl', b + (N,), 'bool')
        tm = cell('t', b if bt else (), 'int32')
        kw = {}
        if inj is not None:
          kw['allow_object_injection'] = inj
        if fb is not None:
          kw['use_fallback'] = fb
        label = f'merge[inj={inj},fallback={fb},batch={len(b)}{"t" if bt else ""}]'
        ok, out = c.run(w, 'step-total', label, lambda: w.call(
            'waymax.dynamics.abstract_dynamics.apply_trajectory_update_to_state',
            trajectory_update=w.update(b), sim_trajectory=sim, reference_trajectory=log,
            is_controlled=ctl, timestep=tm, **kw))
        if ok:
          check_valid(c, label, out, sim, log, ctl.fn, lambda i: tm.fn(i[:tm.ndim]), bool(inj))


def models(c):
  for b in ((), (B,)):
    for inj in (None, True, False):
      w = c.world()
      dyns = [(n, d, w.action(k, b)) for n, d, k in real_dynamics(w)]
      dyns.append(('discrete', discrete(w), int_action(w, b, 1)))
      pd = w.new('waymax.env.PlanningAgentDynamics', w.new('waymax.dynamics.InvertibleBicycleModel'))
      dyns.append(('planning', pd, w.action(2, b, n=None)))
      for name, dyn, act in dyns:
        sim, log = w.traj('sim', b), w.traj('log', b)
        ctl = cell('ctl', b + (N,), 'bool')
        tm = cell('t', (), 'int32')
        kw = {} if inj is None else {'allow_object_injection': inj}
        label = f'forward {name}[inj={inj},batch={len(b)}]'
        ok, out = c.run(w, 'step-total', label, lambda: w.m(dyn, 'forward', act, sim, log, ctl, tm, **kw))
        if ok:
          check_valid(c, label, out, sim, log, ctl.fn, lambda i: tm.fn(()), bool(inj))


def plan(c):
  """Planning environment: control is the ego or a simulated agent."""
  for b in ((), (B,)):
    for nsim in (0, 1):
      for inj in (True, False):
        w = c.world()
        env, st, _, logs = planning(w, b, nsim, injection=inj)
        label = f'planning[sims={nsim},inj={inj},batch={len(b)}]'
        ok, out = c.run(w, 'step-total', label, lambda: w.m(env, 'step', st, w.action(3, b, n=None)))
        if not ok:
          continue
        m = asarr(field(field(st, 'object_metadata'), 'is_sdc'))
        ov = None
        if nsim:
          ov = asarr(w.call('waymax.env.planning_agent_environment._initialized_overlap', field(st, 'log_trajectory')))
        def ctl(i):
          r = m.fn(i)
          if nsim:
            sel = asarr(logs[0][-1][3].fields['is_controlled'])
            r = t.bor(r, t.band(sel.fn(i), t.bnot(ov.fn(i))))
          return r
        check_valid(c, label, field(out, 'sim_trajectory'), field(st, 'sim_trajectory'), field(st, 'log_trajectory'), ctl,
                    lambda i: asarr(field(st, 'timestep')).fn(()), inj)


PARTS = [('environment step', base), ('update merge', merge), ('dynamics models', models), ('planning environment', plan)]
