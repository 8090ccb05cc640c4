"""Value-graph congruence of the planning environment's outputs with the ego
entry of the per-object ones, for an arbitrary ego position (one-hot mask)."""
from .common import *

FLOOR = 60
ASSUME = ['exactly one object is marked as the ego vehicle']
PER_OBJECT = ['log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility']
EGO = ['sdc_wrongway', 'sdc_progression', 'sdc_off_route']


def setup(c, b, bt, stub=True, **cfg):
  w = c.world()
  calls = stub_metrics(w, b) if stub else None
  env, st, params, logs = planning(w, b, 0, batched_time=bt, **{k: v(w) for k, v in cfg.items()})
  e = ego(b)
  meta = field(st, 'object_metadata')
  meta = w.m(meta, 'replace', is_sdc=one_hot(b, e))
  st = w.m(st, 'replace', object_metadata=meta)
  return w, env, st, e


def at_ego(a, e):
  a = asarr(a)
  return lambda *i: a.fn(tuple(i) + (e(i),))


def modes():
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    yield b, bt, f'batch={len(b)}{"t" if bt else ""}'


def metrics(c):
  for b, bt, lb in modes():
    for names in (PER_OBJECT, EGO):
      I = t.dim('I')
      mc = lambda w: w.config('MetricsConfig', metrics_to_run=tuple(names))
      w, env, st, e = setup(c, b, bt, metrics=mc, init_steps=lambda w: A.sym(I))
      ok, got = c.run(w, 'metrics-total', f'metrics[{lb}]', lambda: w.m(env, 'metrics', st))
      ok2, ref = c.run(w, 'metrics-total', f'metrics[{lb}] reference', lambda: w.call('waymax.metrics.run_metrics', st, mc(w)))
      if not (ok and ok2):
        continue
      c.check(isinstance(got, dict) and sorted(got) == sorted(names), 'metric-names', f'metrics[{lb}]', detail=repr(got)[:200])
      for n in names:
        label = f'{n}[{lb}]'
        r, g = ref[n], got[n]
        if n in EGO:
          c.tree_same('ego-metric', label, g, r)
          continue
        v, m = at_ego(field(r, 'value'), e), at_ego(field(r, 'valid'), e)
        if n == 'kinematic_infeasibility':
          ts = asarr(field(st, 'timestep'))
          after = lambda *i: t.gt(ts.fn(i[:ts.ndim]), t.sub(I, 1))
          v, m = (lambda *i, v=v: t.ite(after(*i), v(*i), t.ZERO)), (lambda *i, m=m: t.band(m(*i), after(*i)))
        c.arr('ego-entry', f'{label} value', field(g, 'value'), v, shape=b, dtype='float32')
        c.arr('ego-entry', f'{label} validity', field(g, 'valid'), m, shape=b, dtype='bool')


def reward(c):
  for b, bt, lb in modes():
    for rw in ({'overlap': -1.0, 'offroad': 2.0}, {'log_divergence': 1.0}):
      rc = lambda w: w.config('LinearCombinationRewardConfig', rewards=dict(rw))
      for on in (True, False):
        w, env, st, e = setup(c, b, bt, rewards=rc, compute_reward=lambda w: on)
        label = f'reward[{"+".join(rw)},{"on" if on else "off"},{lb}]'
        act = w.action(5, b, n=None)
        ok, got = c.run(w, 'reward-total', label, lambda: w.m(env, 'reward', st, act))
        if not ok:
          continue
        if not on:
          c.arr('ego-reward', label, got, lambda *i: t.ZERO, shape=b, dtype='float32')
          continue
        mask = field(field(st, 'object_metadata'), 'is_sdc')
        rf = w.new('waymax.rewards.LinearCombinationReward', rc(w))
        ok, ref = c.run(w, 'reward-total', label + ' reference', lambda: w.m(rf, 'compute', st, act, mask))
        if ok:
          c.arr('ego-reward', label, got, at_ego(ref, e), shape=b, dtype='float32')


def spec(c):
  w = c.world()
  for name, dyn, d in real_dynamics(w) + [('discrete', discrete(w), 1)]:
    env, st, _, _ = planning(w, (), 0, dyn=dyn)
    s = w.m(env, 'action_spec')
    want = w.m(dyn, 'action_spec')
    got = field(s, 'data')
    for a in ('shape', 'dtype', 'minimum', 'maximum'):
      g, x = repr_spec(w.attr(got, a) if has(w, got, a) else None), repr_spec(w.attr(want, a) if has(w, want, a) else None)
      c.check(g == x, 'ego-action-spec', f'{name} {a}', detail=f'{g} instead of {x}')
    v = field(s, 'valid')
    c.check(repr_spec(w.attr(v, 'shape')) == '(1)', 'ego-action-spec', f'{name} validity shape', detail=repr_spec(w.attr(v, 'shape')))
    c.check('bool' in repr(w.attr(v, 'dtype')), 'ego-action-spec', f'{name} validity type', detail=repr(w.attr(v, 'dtype')))
  env, st, _, _ = planning(w, (), 0)
  c.check(repr_spec(w.attr(w.m(env, 'reward_spec'), 'shape')) == '()', 'ego-reward-spec', 'shape')
  c.check(repr_spec(w.attr(w.m(env, 'discount_spec'), 'shape')) == '()', 'ego-reward-spec', 'discount shape')


def has(w, o, a):
  try:
    w.attr(o, a)
    return True
  except PyRaise:
    return False


def repr_spec(x):
  if isinstance(x, (tuple, list)):
    return '(' + ','.join(repr_spec(y) for y in x) + ')'
  if isinstance(x, Arr):
    n = x.shape[-1] if x.ndim else 1
    if x.ndim == 0:
      return t.show(x.fn(()))
    if x.ndim == 1 and isinstance(n, int):
      return '(' + ','.join(t.show(x.fn((t.lift(k),))) for k in range(n)) + ')'
    raise Gap('spec array')
  if isinstance(x, (int, float)):
    return t.show(t.lift(x))
  return repr(x)


def only_ego(c):
  """The planner action moves the ego and nobody else."""
  for b, bt, lb in modes():
    w0 = c.world()
    for name, _, d in real_dynamics(w0):
      w = c.world()
      dyn = dict((n, x) for n, x, _ in real_dynamics(w))[name]
      env, st, _, _ = planning(w, b, 0, dyn=dyn, batched_time=bt, injection=False)
      e = ego(b)
      st = w.m(st, 'replace', object_metadata=w.m(field(st, 'object_metadata'), 'replace', is_sdc=one_hot(b, e)))
      label = f'step {name}[{lb}]'
      ok, out = c.run(w, 'step-total', label, lambda: w.m(env, 'step', st, w.action(d, b, n=None)))
      if not ok:
        continue
      ts = asarr(field(st, 'timestep'))
      for f in CONTROLLABLE + ['valid']:
        g = asarr(field(field(out, 'sim_trajectory'), f))
        i = ixs(g.shape)[:-1]
        tn = ts.fn(i[:ts.ndim])
        log = at_time(field(st, 'log_trajectory'), f, i, tn + 1)
        if f == 'valid':
          log = t.band(log, at_time(field(st, 'sim_trajectory'), 'valid', i, tn))
        c.node('others-replay', f'{label} {f}', g.fn(i + (tn + 1,)), log, facts=[t.ge(tn, 0), t.bnot(t.eq(i[-1], e(i)))])


def inverse(c):
  for b in ((), (B,)):
    w = c.world()
    for name, dyn, d in real_dynamics(w) + [('discrete', discrete(w), 1)]:
      env, st, _, _ = planning(w, b, 0, dyn=dyn)
      e = ego(b)
      meta = w.m(w.meta('meta', b), 'replace', is_sdc=one_hot(b, e))
      tr, tm = w.traj('tr', b), cell('t', (), 'int32')
      label = f'inverse {name}[batch={len(b)}]'
      pd = w.attr(env, 'dynamics')
      ok, got = c.run(w, 'inverse-total', label, lambda: w.m(pd, 'inverse', tr, meta, tm))
      ok2, ref = c.run(w, 'inverse-total', label, lambda: w.m(dyn, 'inverse', tr, meta, tm))
      if not (ok and ok2):
        continue
      for f in ('data', 'valid'):
        r = asarr(field(ref, f))
        c.arr('ego-inverse', f'{label} {f}', field(got, f), lambda *i, r=r: r.fn(i[:-1] + (e(i), i[-1])), shape=b + (r.shape[-1],), dtype=r.dtype)


def refuses(c):
  w = c.world()
  for m in ('MODELED', 'VALID', 'NON_SDC'):
    c.raises(w, 'rejects', f'planning environment controlling {m}', lambda: w.new(
        'waymax.env.PlanningAgentEnvironment', stub_dynamics(w), env_config(w, controlled_object=w.enum('waymax.config.ObjectType', m))), ('ValueError',))


PARTS = [('metrics', metrics), ('reward', reward), ('specs', spec), ('others replay', only_ego), ('inverse', inverse), ('refuses', refuses)]
