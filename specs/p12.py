"""Value-graph congruence of rewards with the weighted masked sum, for arbitrary
weights, metric values, metric validity and agent masks."""
from .common import *

FLOOR = 50
ASSUME = ['metric values and weights are finite']
TABLES = [('overlap',), ('overlap', 'offroad'), ('log_divergence', 'kinematic_infeasibility', 'offroad', 'overlap'),
          ('sdc_progression',), ('sdc_off_route', 'overlap', 'sdc_wrongway'), ()]


NUMBERS = (-1.0, 0.5, 0.0, 2)


def weight(n):
  return t.inp(f'w.{n}')


def table(w, names, fixed=False):
  return w.config('LinearCombinationRewardConfig', rewards={
      n: NUMBERS[k % 4] if fixed else A.sym(weight(n), 'float') for k, n in enumerate(names)})


def total(names, b, mask, fixed=False):
  def want(*i):
    s = t.ZERO
    for k, n in enumerate(names):
      v, ok = metric_cell(n, b)
      j = i[:v.ndim]
      s = t.add(s, t.mul(t.lift(NUMBERS[k % 4]) if fixed else weight(n), t.ite(ok.fn(j), v.fn(j), t.ZERO)))
    return t.ite(mask(i), s, t.ZERO)
  return want


def linear(c, fixed=False):
  for b in ((), (B,)) if fixed else ((), (B,), (B, B2)):
    for names in TABLES:
      w = c.world()
      calls = stub_metrics(w, b)
      st = w.state(b)
      mask = cell('mask', b + (N,), 'bool')
      label = f'linear[{"numbers " if fixed else ""}{"+".join(names) or "empty"},batch={len(b)}]'
      ok, rf = c.run(w, 'reward-total', label + ' construction', lambda: w.new('waymax.rewards.LinearCombinationReward', table(w, names, fixed)))
      if not ok:
        continue
      w.it.freeze(st, 'state')
      ok, got = c.run(w, 'reward-total', label, lambda: w.m(rf, 'compute', st, w.action(3, b), mask))
      if not ok:
        continue
      c.arr('weighted-sum', label, got, total(names, b, mask.fn, fixed), shape=b + (N,), dtype='float32')
      for name, s in calls:
        c.tree_same('same-state', f'{label} {name}', s, st)
      for site, what in w.it.effects:
        c.bad('no-mutation', f'{label}: {what}', site)


def env(c):
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    for ctl, f, inject, on in [(k, m, j, o) for k, m in (('SDC', 'is_sdc'), ('MODELED', 'is_modeled'), ('VALID', 'is_valid'))
                               for j in ((False, True) if k == 'VALID' else (False,)) for o in (True, False)]:
      names = ('overlap', 'log_divergence')
      w = c.world()
      stub_metrics(w, b)
      st = w.state(b, batched_time=bt)
      e = w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w, b), env_config(
          w, controlled_object=w.enum('waymax.config.ObjectType', ctl), compute_reward=on, rewards=table(w, names),
          allow_new_objects_after_warmup=inject))
      label = f'env[{ctl},{"inject," if inject else ""}{"on" if on else "off"},batch={len(b)}{"t" if bt else ""}]'
      ok, got = c.run(w, 'reward-total', label, lambda: w.m(e, 'reward', st, w.action(5, b)))
      if not ok:
        continue
      m = asarr(field(field(st, 'object_metadata'), f))
      want = total(names, b, m.fn) if on else (lambda *i: t.ZERO)
      c.arr('env-reward', label, got, want, shape=b + (N,), dtype='float32')


def masked(c):
  """Masked values take the fill where invalid."""
  for shape in ((N,), (B, N), ()):
    for fill in (None, -1.0):
      w = c.world()
      ma = w.rec('waymax.datatypes.MaskedArray', 'ma', shape, ['value', 'valid'])
      label = f'masked value[rank={len(shape)},fill={fill}]'
      ok, got = c.run(w, 'reward-total', label, lambda: w.m(ma, 'masked_value', *([] if fill is None else [fill])))
      if ok:
        v, ok_ = cell('ma.value', shape), cell('ma.valid', shape, 'bool')
        c.arr('masked-value', label, got, lambda *i: t.ite(ok_.fn(i), v.fn(i), t.lift(0 if fill is None else -1)), shape=shape, dtype='float32')


def rejects(c):
  w = c.world()
  c.raises(w, 'rejects', 'reward over an unknown metric', lambda: w.new(
      'waymax.rewards.LinearCombinationReward', w.config('LinearCombinationRewardConfig', rewards={'no_such_metric': 1.0})), ('ValueError',))
  c.raises(w, 'rejects', 'reward over a known and an unknown metric', lambda: w.new(
      'waymax.rewards.LinearCombinationReward', w.config('LinearCombinationRewardConfig', rewards={'overlap': 1.0, 'no_such': 1.0})), ('ValueError',))


PARTS = [('linear combination', linear), ('concrete weights', lambda c: linear(c, True)), ('environment reward', env), ('masked values', masked), ('rejects', rejects)]
