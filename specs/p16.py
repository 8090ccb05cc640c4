"""Registry dispatch: the metric functions are compiled with every metric
implementation replaced by its own free result, so that the result under a name
identifies the implementation that produced it and the state it was given."""
from .common import *

FLOOR = 200
ASSUME = ['metric names are the literal names of the documentation']
NAMES = list(METRIC_CLASSES)
SETS = [tuple(NAMES), tuple(reversed(NAMES)), ()] + [(n,) for n in NAMES] + [
    (a, b) for a in NAMES for b in NAMES if a != b]


def expect(c, w, rule, label, got, st, calls, names, b):
  if not isinstance(got, dict):
    c.bad(rule, f'{label}: {got!r} instead of a mapping')
    return
  c.check(sorted(got) == sorted(names), rule, f'{label}: one entry per requested name', detail=f'{list(got)} instead of {list(names)}')
  for n in names:
    if n not in got:
      continue
    v, ok = metric_cell(n, b)
    c.arr(rule, f'{label}[{n}]', field(got[n], 'value'), v, dtype='float32')
    c.arr(rule, f'{label}[{n}] validity', field(got[n], 'valid'), ok, dtype='bool')
  for n, s in calls:
    if s is st:
      c.ok('same-state', f'{label} {n}')
    else:
      c.tree_same('same-state', f'{label} {n}', s, st)


def run(c):
  for b in ((), (B,)):
    w = c.world()
    calls = stub_metrics(w, b)
    st = w.state(b)
    f = w.get('waymax.metrics.run_metrics')
    for names in SETS:
      del calls[:]
      label = f'run_metrics({"+".join(names) or "nothing"})[batch={len(b)}]'
      ok, got = c.run(w, 'registry-total', label, lambda: w.call(
          f, simulator_state=st, metrics_config=w.config('MetricsConfig', metrics_to_run=names)))
      if ok:
        expect(c, w, 'registry-dispatch', label, got, st, calls, names, b)


def unknown(c):
  for names in (('nope',), ('overlap', 'nope'), ('nope', 'overlap'), ('Overlap',), ('overlap ',), ('',), ('sdc_overlap',),
                ('log_divergence', 'offroad', 'kinematic_infeasability')):
    w = c.world()
    stub_metrics(w)
    st = w.state()
    c.raises(w, 'unknown-metric', f'run_metrics({names})', lambda: w.call(
        'waymax.metrics.run_metrics', st, w.config('MetricsConfig', metrics_to_run=names)), ('ValueError', 'KeyError'))


def own_metric(w, tag, b=()):
  mr = w.get('waymax.metrics.MetricResult')
  seen = []

  def compute(self, simulator_state):
    seen.append(simulator_state)
    return w.it.construct(mr, [], dict(value=cell(f'u.{tag}', tuple(b) + (N,)), valid=cell(f'u.{tag}.ok', tuple(b) + (N,), 'bool')))
  return Obj(subclass(w, 'waymax.metrics.AbstractMetric', compute=Native('compute', compute))), seen


def names_of(w, v):
  return list(w.it.iterate(v))


def register(c):
  w = c.world()
  calls = stub_metrics(w)
  st = w.state()
  reg, run_, list_ = (w.get(f'waymax.metrics.{n}') for n in ('register_metric', 'run_metrics', 'get_metric_names'))
  c.check(set(NAMES) <= set(names_of(w, w.call(list_))), 'registered-names', 'every documented name is registered')
  m1, seen1 = own_metric(w, 'one')
  m2, seen2 = own_metric(w, 'two')
  ok, _ = c.run(w, 'registration', 'register_metric(one)', lambda: w.call(reg, 'one', m1))
  ok2, _ = c.run(w, 'registration', 'register_metric(two)', lambda: w.call(reg, metric_name='two', metric=m2))
  if not (ok and ok2):
    return
  c.check(set(NAMES) | {'one', 'two'} == set(names_of(w, w.call(list_))), 'registered-names', 'names after registration',
          detail=names_of(w, w.call(list_)))
  for n in NAMES + ['one', 'two']:
    c.raises(w, 'no-replacement', f'register_metric({n!r}) twice', lambda: w.call(reg, n, own_metric(w, 'other')[0]), ('ValueError',))
  held = dict(w.it.module('waymax.metrics.metric_factory').ns['_METRICS_REGISTRY']) if '_METRICS_REGISTRY' in w.it.module('waymax.metrics.metric_factory').ns else {}
  for n, m in {**held, 'one': m1, 'two': m2}.items():
    c.raises(w, 'no-replacement', f'register_metric({n!r}) with the metric it holds', lambda: w.call(reg, n, m), ('ValueError',))
    if n in NAMES:
      same = w.new('waymax.metrics.' + METRIC_CLASSES[n])
      c.raises(w, 'no-replacement', f'register_metric({n!r}) with another instance of its class', lambda: w.call(reg, n, same), ('ValueError',))
  for names in (('one',), ('two', 'one'), ('overlap', 'two', 'offroad'), tuple(NAMES)):
    ok, got = c.run(w, 'registration', f'run_metrics({names}) after registration', lambda: w.call(
        run_, st, w.config('MetricsConfig', metrics_to_run=names)))
    if not ok:
      continue
    c.check(sorted(got) == sorted(names), 'registry-dispatch', f'names {names} after registration', detail=list(got))
    for n in names:
      v, okc = metric_cell(n) if n in NAMES else (cell(f'u.{n}', (N,)), cell(f'u.{n}.ok', (N,), 'bool'))
      if n in got:
        c.arr('no-replacement', f'{names}[{n}] after registration', field(got[n], 'value'), v)
        c.arr('no-replacement', f'{names}[{n}] validity after registration', field(got[n], 'valid'), okc)
  for s in seen1 + seen2:
    c.tree_same('same-state', 'registered metric', s, st)


def envs(c):
  for names in SETS:
    w = c.world()
    calls = stub_metrics(w)
    st = w.state()
    e = w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w),
              env_config(w, metrics=w.config('MetricsConfig', metrics_to_run=names)))
    label = f'MultiAgentEnvironment.metrics({"+".join(names) or "nothing"})'
    ok, got = c.run(w, 'registry-total', label, lambda: w.m(e, 'metrics', st))
    if ok:
      expect(c, w, 'registry-dispatch', label, got, st, calls, names, ())
  for names in SETS:
    w = c.world()
    stub_metrics(w)
    env, st, _, _ = planning(w, metrics=w.config('MetricsConfig', metrics_to_run=names))
    label = f'PlanningAgentEnvironment.metrics({"+".join(names) or "nothing"})'
    ok, got = c.run(w, 'registry-total', label, lambda: w.m(env, 'metrics', st))
    if ok:
      c.check(isinstance(got, dict) and sorted(got) == sorted(names), 'registry-dispatch', label, detail=got)


PARTS = [('run_metrics', run), ('unknown names', unknown), ('registration', register), ('environments', envs)]
