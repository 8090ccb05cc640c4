"""Value-graph congruence of record parsing with the record format: requested
features, time concatenation, field mapping and derived flags."""
from .common import *
from .womd import *

FLOOR = 650
ASSUME = ['a recorded marker is 1, 0 or -1; road and path validity is 0 or 1', 'tf.io.parse_example returns each requested feature in the requested shape',
          'identifiers and types recorded as floats hold whole numbers']
WU, WF, WL = 'waymax.dataloader.womd_utils.', 'waymax.dataloader.womd_factories.', 'waymax.dataloader.womd_dataloader.'


def requested(c):
  """Every feature of the format is requested in its recorded shape and type."""
  for paths in (None, (A.sym(t.dim('P')), A.sym(t.dim('Q')))):
    w = c.world()
    tf_model(w)
    n, rg, tl = A.sym(N), A.sym(R), A.sym(L)
    kw = dict(max_num_objects=n, max_num_rg_points=rg, num_tls=tl, include_sdc_paths=paths is not None)
    if paths:
      kw.update(num_paths=paths[0], num_points_per_path=paths[1])
    ok, d = c.run(w, 'requested-features', f'paths={paths is not None}', lambda: w.call(WU + 'get_features_description', **kw))
    if not ok:
      continue
    for k, (shape, kind) in table(n, rg, tl, paths).items():
      if not c.check(k in d, 'requested-features', f'{k} requested'):
        continue
      got = list(w.it.iterate(w.it.getattr(d[k], 'shape')))
      c.check(dims_same(got, shape), 'requested-features', f'{k} shape', detail=f'{got} instead of {shape}')
      from wx.lib import need_dtype
      c.check(need_dtype(w.it.getattr(d[k], 'dtype')).name == DTY[kind], 'requested-features', f'{k} type')
    if paths is None:
      c.check(not [k for k in d if k.startswith('path_samples/')], 'requested-features', 'no route features unless asked for')
  for bad in (dict(num_paths=None), dict(num_points_per_path=None)):
    w = c.world()
    c.raises(w, 'requested-features', f'routes without their size {list(bad)}', lambda: w.call(WU + 'get_features_description', include_sdc_paths=True, **bad), ('ValueError',))


def example(n, rg, tl, paths=None):
  return {k: recorded(k, tuple(A.norm_dim(x) for x in sh), kind) for k, (sh, kind) in table(n, rg, tl, paths).items()}


def aggregation(c):
  w = c.world()
  tf_model(w)
  ex = example(N, R, L, (t.dim('P'), t.dim('Q')))
  ok, d = c.run(w, 'time-order', 'aggregate', lambda: w.call(WU + 'aggregate_time_tensors', dict(ex)))
  if not ok:
    return
  for f in STATE_F:
    p = {tm: ex[f'state/{tm}/{f}'] for tm in STEPS}
    if c.check(f'state/all/{f}' in d, 'time-order', f'state/all/{f}'):
      c.arr('time-order', f'state/all/{f} is past, current, future', d[f'state/all/{f}'],
            lambda i, j: joined({tm: (lambda jj, a=a: a.fn((i, jj))) for tm, a in p.items()}, j), shape=(N, 91))
  for f in LIGHT_F:
    p = {tm: ex[f'traffic_light_state/{tm}/{f}'] for tm in STEPS}
    if c.check(f'traffic_light_state/all/{f}' in d, 'time-order', f'traffic_light_state/all/{f}'):
      c.arr('time-order', f'traffic_light_state/all/{f} is past, current, future', d[f'traffic_light_state/all/{f}'],
            lambda j, i: joined({tm: (lambda jj, a=a: a.fn((jj, i))) for tm, a in p.items()}, j), shape=(91, L))
  p = {tm: ex[f'traffic_light_state/{tm}/timestamp_micros'] for tm in STEPS}
  k = 'traffic_light_state/all/timestamp_micros'
  if c.check(k in d, 'time-order', k):
    c.arr('time-order', k, d[k], lambda j: joined({tm: (lambda jj, a=a: a.fn((jj,))) for tm, a in p.items()}, j), shape=(91,))
  c.check(not [x for x in d if any(f'/{tm}/' in x for tm in STEPS)], 'time-order', 'the parts are replaced by the joined features')
  for kk, a in ex.items():
    if not any(f'/{tm}/' in kk for tm in STEPS):
      c.check(kk in d, 'untimed-kept', kk) and c.arr('untimed-kept', kk, d[kk], a)
  if c.check('state/which_time' in d, 'time-order', 'which_time'):
    c.arr('time-order', 'which_time', d['state/which_time'], lambda j: t.ite(t.lt(j, t.const(10)), t.const(-1), t.ite(t.eq(j, t.const(10)), t.ZERO, t.ONE)), shape=(91,))


def timed(b, tk, n=N, tt=T):
  """Example with the joined (or one part's) features and batch dimensions."""
  ex = {}
  for f, k in STATE_F.items():
    ex[f'state/{tk}/{f}'] = recorded(f'state/{tk}/{f}', b + (n, tt), k)
  for f, k in LIGHT_F.items():
    ex[f'traffic_light_state/{tk}/{f}'] = recorded(f'traffic_light_state/{tk}/{f}', b + (tt, L), k)
  for f, k in OBJ_F.items():
    ex['state/' + f] = recorded('state/' + f, b + (n,), k)
  for f, k, wd in (('dir', 'f', 3), ('id', 'i', 1), ('type', 'i', 1), ('valid', 'i', 1), ('xyz', 'f', 3)):
    ex['roadgraph_samples/' + f] = recorded('roadgraph_samples/' + f, b + (R, wd), k)
  pq = (t.dim('P'), t.dim('Q'))
  for f, k, sh in (('xyz', 'f', pq + (3,)), ('valid', 'i', pq), ('id', 'i', pq), ('arc_length', 'f', pq), ('on_route', 'i', (pq[0], 1))):
    ex['path_samples/' + f] = recorded('path_samples/' + f, b + sh, k)
  return ex


def whole(a):
  from wx.lib import cast
  return cast(a, 'int32')


def check_state(c, rule, lb, st, ex, tk, b, n=N, tt=T, paths=True, yaw=lambda x: x, nl=L):
  tr = field(st, 'log_trajectory')
  src = lambda f: ex[f'state/{tk}/{TRAJ_SRC[f]}']
  ok = is_set(src('valid'))
  for f in TRAJ:
    dt = {'valid': 'bool', 'timestamp_micros': 'int32'}.get(f, 'float32')
    s = src(f)
    if f == 'valid':
      want = ok
    elif f in ('length', 'width', 'height'):
      want = lambda *i: mean_valid(s, ok, i)
    elif f == 'yaw':
      want = lambda *i: yaw(s.fn(i))
    else:
      want = lambda *i: s.fn(i)
    c.arr(rule, f'{lb} trajectory.{f}', field(tr, f), want, shape=b + (n, tt), dtype=dt)
  for f in LIGHT:
    s = ex[f'traffic_light_state/{tk}/{LIGHT_SRC[f]}']
    sw = lambda i: i[:-2] + (i[-1], i[-2])
    dt = {'valid': 'bool', 'state': 'int32', 'lane_ids': 'int32'}.get(f, 'float32')
    want = (lambda *i: is_set(s)(*sw(i))) if f == 'valid' else (lambda *i: s.fn(sw(i)))
    c.arr(rule, f'{lb} lights.{f}', field(field(st, 'log_traffic_light'), f), want, shape=b + (nl, tt), dtype=dt)
  md = field(st, 'object_metadata')
  g = lambda f: ex['state/' + f]
  for f, want, dt in (('ids', lambda *i: whole(g('id')).fn(i), 'int32'), ('object_types', lambda *i: whole(g('type')).fn(i), 'int32'),
                      ('is_sdc', is_set(g('is_sdc')), 'bool'), ('is_modeled', is_set(g('tracks_to_predict')), 'bool'),
                      ('objects_of_interest', is_set(g('objects_of_interest')), 'bool'),
                      ('is_valid', lambda *i: t.bnot(t.eq(g('tracks_to_predict').fn(i), t.const(-1))), 'bool')):
    c.arr(rule, f'{lb} metadata.{f}', field(md, f), want, shape=b + (n,), dtype=dt)
  rd = field(st, 'roadgraph_points')
  for f, (key, k) in {'x': ('xyz', 0), 'y': ('xyz', 1), 'z': ('xyz', 2), 'dir_x': ('dir', 0), 'dir_y': ('dir', 1), 'dir_z': ('dir', 2),
                      'types': ('type', 0), 'ids': ('id', 0), 'valid': ('valid', 0)}.items():
    s = ex['roadgraph_samples/' + key]
    at = lambda i: s.fn(i + (t.const(k),))
    want = (lambda *i: t.eq(at(i), t.ONE)) if f == 'valid' else (lambda *i: at(i))
    c.arr(rule, f'{lb} road.{f}', field(rd, f), want, shape=b + (s.shape[-2],), dtype=DT.get(f, 'float32'))
  pa = field(st, 'sdc_paths')
  if not paths:
    c.check(pa is None, rule, f'{lb} no routes')
  elif c.check(pa is not None, rule, f'{lb} routes'):
    for f, (key, k) in {'x': ('xyz', 0), 'y': ('xyz', 1), 'z': ('xyz', 2), 'ids': ('id', None), 'valid': ('valid', None),
                        'arc_length': ('arc_length', None), 'on_route': ('on_route', None)}.items():
      s = ex['path_samples/' + key]
      at = lambda i: s.fn(i if k is None else i + (t.const(k),))
      want = (lambda *i: t.eq(at(i), t.ONE)) if f in ('valid', 'on_route') else (lambda *i: at(i))
      c.arr(rule, f'{lb} routes.{f}', field(pa, f), want, shape=s.shape if k is None else s.shape[:-1], dtype=DT.get(f, 'float32'))
  sim = field(st, 'sim_trajectory')
  for f in TRAJ:
    lg = asarr(field(tr, f))
    g0, g1 = asarr(field(sim, f)), lg
    i = ixs(lg.shape)[:-1]
    c.node(rule, f'{lb} simulated {f} starts as logged', g0.fn(i + (t.ZERO,)), g1.fn(i + (t.ZERO,)))
  c.arr(rule, f'{lb} only the first frame is simulated', field(sim, 'valid'), lambda *i: t.band(t.eq(i[-1], t.ZERO), asarr(field(tr, 'valid')).fn(i[:-1] + (t.ZERO,))), dtype='bool')
  c.arr(rule, f'{lb} clock', field(st, 'timestep'), lambda *i: t.ZERO, shape=b, dtype='int32')


def mapping(c):
  for b in ((), (B,), (B, B2)):
    for tk in ('all', 'past', 'current', 'future'):
      if tk != 'all' and b:
        continue
      for paths in (True, False):
        w = c.world()
        tf_model(w)
        ex = timed(b, tk)
        lb = f'[{tk},batch={len(b)},routes={paths}]'
        ok, st = c.run(w, 'field-mapping', lb, lambda: w.call(WF + 'simulator_state_from_womd_dict', ex, include_sdc_paths=paths, time_key=tk))
        if ok:
          check_state(c, 'field-mapping', lb, st, ex, tk, b, paths=paths)
  w = c.world()
  c.raises(w, 'field-mapping', 'unknown time key', lambda: w.call(WF + 'simulator_state_from_womd_dict', timed((), 'all'), time_key='later'), ('ValueError',))
  w = c.world()
  c.raises(w, 'field-mapping', 'unknown time key for lights', lambda: w.call(WF + 'traffic_lights_from_womd_dict', timed((), 'all'), time_key='later'), ('ValueError',))


def end_to_end(c):
  """Serialised record -> features -> joined, truncated -> state, per configuration."""
  for paths in (False, True):
    for most in (None, 32):
      w = c.world()
      log = []
      tf_model(w, log)
      cfg = w.config('DatasetConfig', path='x', include_sdc_paths=paths, max_num_objects=most, max_num_rg_points=A.sym(R),
                     num_paths=A.sym(t.dim('P')) if paths else None, num_points_per_path=A.sym(t.dim('Q')) if paths else None)
      lb = f'record[routes={paths},objects={most}]'
      raw = Opq('record')
      ok, d = c.run(w, 'end-to-end', lb, lambda: w.call(WL + 'preprocess_serialized_womd_data', raw, cfg))
      if not ok:
        continue
      c.check(len(log) == 1 and log[0][0] is raw, 'end-to-end', f'{lb} parses the given record once')
      ok, st = c.run(w, 'end-to-end', lb, lambda: w.call(WF + 'simulator_state_from_womd_dict', d, include_sdc_paths=paths))
      if not ok:
        continue
      full = example(128, R, 16, (t.dim('P'), t.dim('Q')))
      n = most or 128
      ex = {}
      for f in STATE_F:
        p = {tm: full[f'state/{tm}/{f}'] for tm in STEPS}
        ex[f'state/all/{f}'] = Arr((n, 91), DTY[STATE_F[f]], lambda i, p=p: joined({tm: (lambda jj, a=a: a.fn((i[0], jj))) for tm, a in p.items()}, i[1]))
      for f in LIGHT_F:
        p = {tm: full[f'traffic_light_state/{tm}/{f}'] for tm in STEPS}
        ex[f'traffic_light_state/all/{f}'] = Arr((91, 16), DTY[LIGHT_F[f]], lambda i, p=p: joined({tm: (lambda jj, a=a: a.fn((jj, i[1]))) for tm, a in p.items()}, i[0]))
      for k, a in full.items():
        if k.startswith(('road', 'path')):
          ex[k] = a
        elif k in ['state/' + f for f in OBJ_F]:
          ex[k] = Arr((n,), a.dtype, a.fn)
      check_state(c, 'end-to-end', lb, st, ex, 'all', (), n, 91, paths, wrapped, 16)
      k = 'state/which_time'
      if k in d:
        c.arr('end-to-end', f'{lb} {k} keeps every frame', d[k], lambda j: t.ite(t.lt(j, t.const(10)), t.const(-1), t.ite(t.eq(j, t.const(10)), t.ZERO, t.ONE)), shape=(91,))


CODES = {
    'ObjectTypeIds': {'UNSET': 0, 'VEHICLE': 1, 'PEDESTRIAN': 2, 'CYCLIST': 3, 'OTHER': 4},
    'TrafficLightStates': {k: i for i, k in enumerate(('UNKNOWN', 'ARROW_STOP', 'ARROW_CAUTION', 'ARROW_GO', 'STOP', 'CAUTION', 'GO', 'FLASHING_STOP', 'FLASHING_CAUTION'))},
    'MapElementIds': {
        'UNKNOWN': -1, 'LANE_UNDEFINED': 0, 'LANE_FREEWAY': 1, 'LANE_SURFACE_STREET': 2, 'LANE_BIKE_LANE': 3,
        'ROAD_LINE_UNKNOWN': 5, 'ROAD_LINE_BROKEN_SINGLE_WHITE': 6, 'ROAD_LINE_SOLID_SINGLE_WHITE': 7, 'ROAD_LINE_SOLID_DOUBLE_WHITE': 8,
        'ROAD_LINE_BROKEN_SINGLE_YELLOW': 9, 'ROAD_LINE_BROKEN_DOUBLE_YELLOW': 10, 'ROAD_LINE_SOLID_SINGLE_YELLOW': 11,
        'ROAD_LINE_SOLID_DOUBLE_YELLOW': 12, 'ROAD_LINE_PASSING_DOUBLE_YELLOW': 13, 'ROAD_EDGE_UNKNOWN': 14, 'ROAD_EDGE_BOUNDARY': 15,
        'ROAD_EDGE_MEDIAN': 16, 'STOP_SIGN': 17, 'CROSSWALK': 18, 'SPEED_BUMP': 19},
}


def codes(c):
  """The integer codes the dataset publishes for what the scenes contain."""
  w = c.world()
  for cls, want in CODES.items():
    e = w.get('waymax.datatypes.' + cls)
    for k, v in want.items():
      ok, got = c.run(w, 'codes-total', f'{cls}.{k}', lambda: w.it.getattr(w.it.getattr(e, k), 'value'))
      if ok:
        c.check(t.const_val(asarr(got).fn(())) == v, 'codes', f'{cls}.{k} = {v}', detail=f'{got}')


PARTS = [('requested', requested), ('aggregation', aggregation), ('mapping', mapping), ('end-to-end', end_to_end), ('codes', codes)]
