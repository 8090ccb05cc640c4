"""Read-set analysis: every input cell a metric's value or validity can depend on
is collected from its value graph (through reductions, selections and gathers)
and its frame, batch entry and container are checked."""
from .common import *

FLOOR = 60
ASSUME = ['the clock has a preceding frame for the kinematic metric']

# metric -> containers it may read beside the simulated trajectory
MAY = {
    'log_divergence': {'log': 'now'},
    'overlap': {}, 'kinematic_infeasibility': {},
    'offroad': {'road': 'any'},
    'sdc_wrongway': {'paths': 'any', 'meta.is_sdc': 'any'},
    'sdc_off_route': {'paths': 'any', 'meta.is_sdc': 'any'},
    'sdc_progression': {'paths': 'any', 'meta.is_sdc': 'any', 'log': 'ends'},
}


def check_reads(c, label, name, node, b, bidx, tn, where):
  for at in c.reads(node):
    cell_name, idx = at.args[0], at.args[1:]
    if cell_name == 't':
      if idx and not all(t.same(x, y) for x, y in zip(idx, bidx)):
        c.bad('own-batch-entry', label, where, f'reads {t.show_atom(at)[:200]}')
        return
      continue
    root = cell_name.split('.')[0]
    if len(b) and not all(t.same(x, y) for x, y in zip(idx[:len(b)], bidx)):
      c.bad('own-batch-entry', label, where, f'reads {t.show_atom(at)[:200]}')
      return
    if root == 'sim':
      j = idx[-1]
      ok = t.same(j, tn) or (name == 'kinematic_infeasibility' and t.same(j, t.sub(tn, t.ONE)))
      if not ok:
        c.bad('current-frame', label, where, f'reads {t.show_atom(at)[:200]}')
        return
      continue
    may = MAY[name]
    how = may.get(cell_name, may.get(root))
    if how is None:
      c.bad('documented-inputs', label, where, f'reads {t.show_atom(at)[:200]}')
      return
    if how == 'now' and not t.same(idx[-1], tn):
      c.bad('current-frame', label, where, f'reads {t.show_atom(at)[:200]}')
      return
    if how == 'ends' and not (t.same(idx[-1], t.ZERO) or t.same(idx[-1], t.sub(T, t.ONE))):
      c.bad('documented-inputs', label, where, f'reads {t.show_atom(at)[:200]}')
      return
  c.ok('reads', label)


def every(c):
  for b, bt in (((), False), ((B,), False), ((B,), True), ((B, B2), True)):
    for name in METRIC_CLASSES:
      w = c.world()
      st = w.state(b, batched_time=bt)
      m = w.new('waymax.metrics.' + METRIC_CLASSES[name])
      label = f'{name}[batch={len(b)}{"t" if bt else ""}]'
      ok, r = c.run(w, 'metric-total', label, lambda: w.m(m, 'compute', st))
      if not ok:
        continue
      ts = asarr(field(st, 'timestep'))
      for f in ('value', 'valid'):
        a = asarr(field(r, f))
        want = b if name.startswith('sdc_') else b + (N,)
        c.check(len(a.shape) == len(want) and all(A.same_dim(x, y) for x, y in zip(a.shape, want)), 'shape', f'{label} {f}', a.origin or '', a.shape)
        c.check(a.dtype == ('float32' if f == 'value' else 'bool'), 'element-type', f'{label} {f}', a.origin or '', a.dtype)
        if len(a.shape) != len(want):
          continue
        i = ixs(a.shape)
        check_reads(c, f'{label} {f}', name, a.fn(i), b, i[:len(b)], ts.fn(i[:ts.ndim]), a.origin or '')


def no_action(c):
  """The metrics of an environment are those of its current state."""
  for b in ((), (B,)):
    w = c.world()
    stub_metrics(w, b)
    names = list(METRIC_CLASSES)
    env = w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w, b), env_config(
        w, metrics=w.config('MetricsConfig', metrics_to_run=tuple(names))))
    st = w.state(b)
    ok, r = c.run(w, 'metric-total', f'environment metrics[batch={len(b)}]', lambda: w.m(env, 'metrics', st))
    if ok:
      c.check(isinstance(r, dict) and list(r) == names, 'environment-metrics', f'names[batch={len(b)}]', detail=repr(r)[:200])
      for n in names:
        v, k = metric_cell(n, b)
        c.arr('environment-metrics', f'{n} value[batch={len(b)}]', field(r[n], 'value'), v)
        c.arr('environment-metrics', f'{n} validity[batch={len(b)}]', field(r[n], 'valid'), k)


PARTS = [('read sets', every), ('environment metrics', no_action)]
