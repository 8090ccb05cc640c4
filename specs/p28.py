"""Field-exhaustive congruence of container validation, equality, constructors
and derived views: each field in turn is replaced or spoiled."""
from .common import *

FLOOR = 1450
ASSUME = ['array_equal compares shape and every element']
DTN = 'waymax.datatypes.'
TJ, MD, TL_, RG, PA = (DTN + 'object_state.Trajectory', DTN + 'object_state.ObjectMetadata', DTN + 'traffic_lights.TrafficLights',
                       DTN + 'roadgraph.RoadgraphPoints', DTN + 'route.Paths')
FL, I4, BO = 'float32', 'int32', 'bool'
NF = {**{f: FL for f in TRAJ}, 'valid': BO, 'timestamp_micros': I4}
# container -> (fields with documented type, tail shape per field or one tail)
FLAT = {
    TJ: (NF, (3, 5)),
    MD: ({'ids': I4, 'object_types': I4, 'is_sdc': BO, 'is_modeled': BO, 'is_valid': BO, 'objects_of_interest': BO, 'is_controlled': BO}, (3,)),
    TL_: ({'x': FL, 'y': FL, 'z': FL, 'state': I4, 'lane_ids': I4, 'valid': BO}, (4, 5)),
    RG: ({'x': FL, 'y': FL, 'z': FL, 'dir_x': FL, 'dir_y': FL, 'dir_z': FL, 'types': I4, 'ids': I4, 'valid': BO}, (7,)),
    PA: ({'x': FL, 'y': FL, 'z': FL, 'ids': I4, 'valid': BO, 'arc_length': FL, 'on_route': BO}, (6, 8)),
    DTN + 'action.TrajectoryUpdate': ({'x': FL, 'y': FL, 'yaw': FL, 'vel_x': FL, 'vel_y': FL, 'valid': BO}, (3, 1)),
}
BATCHES = ((), (2,), (2, 9))
_w = {}


def shared(c):
  """One analysis of the sources for checks that only read."""
  if id(c) not in _w:
    _w.clear()
    _w[id(c)] = c.world()
  return _w[id(c)]

OTHER = {FL: (I4, BO, 'float16', 'uint32'), I4: (FL, BO, 'int16', 'int8', 'uint32'), BO: (FL, I4, 'uint8')}


def tail(cls, f, base):
  return (base[0], 1) if cls == PA and f == 'on_route' else base


SYM = {TJ: (N, T), MD: (N,), TL_: (L, T), RG: (R,), PA: (t.dim('P'), t.dim('Q')), DTN + 'action.TrajectoryUpdate': (N, 1)}


def make(w, cls, b, name='v', sym=False, **over):
  fs, base = FLAT[cls]
  base = SYM[cls] if sym else base
  vals = {f: cell(f'{name}.{f}', b + tail(cls, f, base), d) for f, d in fs.items()}
  vals.update(over)
  return w.it.construct(w.get(cls), [], vals)


def short(cls):
  return cls.split('.')[-1]


def spoilt(cls, f, b, d, base):
  """(what, array) wrong in exactly one documented respect."""
  tl = tail(cls, f, base)
  s = b + tl
  for k in range(len(s)):
    yield f'dimension {k - len(s)} longer', cell('w', s[:k] + (s[k] + 1,) + s[k + 1:], d)
    if s[k] > 1:
      yield f'dimension {k - len(s)} broadcast', cell('w', s[:k] + (1,) + s[k + 1:], d)
  yield 'a dimension more', cell('w', (2,) + s, d)
  yield 'a trailing dimension', cell('w', s + (1,), d)
  yield 'a dimension less', cell('w', s[:-1], d)
  for o in OTHER[d]:
    yield f'type {o}', cell('w', s, o)


def validate(c):
  for cls, (fs, base) in FLAT.items():
    w = shared(c)
    declared = [n for n, _ in w.get(cls).all_fields()]
    c.check(set(declared) == set(fs), 'fields', f'{short(cls)} has the documented fields', detail=str(set(declared) ^ set(fs)))
    sym = (N,) if len(base) == 1 else (N, T)
    for b in BATCHES + ((B, B2),):
      for bs in (base,) + ((sym,) if cls != DTN + 'action.TrajectoryUpdate' else ()):
        w = shared(c)
        vals = {f: cell(f'v.{f}', b + tail(cls, f, bs), d) for f, d in fs.items()}
        o = w.it.construct(w.get(cls), [], vals)
        c.run(w, 'accepts', f'{short(cls)} well formed {b + bs}', lambda: w.m(o, 'validate'))
        ok, v = c.run(w, 'shape', f'{short(cls)} {b + bs}', lambda: w.attr(o, 'shape'))
        if ok:
          want = b + bs
          c.check(len(v) == len(want) and all(A.same_dim(A.norm_dim(x), A.norm_dim(y)) for x, y in zip(v, want)), 'shape', f'{short(cls)} {want}', detail=str(v))
    for b in BATCHES:
      for f, d in fs.items():
        for what, a in spoilt(cls, f, b, d, base):
          w = shared(c)
          o = make(w, cls, b, **{f: a})
          c.raises(w, 'rejects', f'{short(cls)}.{f} {what} (batch {len(b)})', lambda: w.m(o, 'validate'), ('AssertionError',))


def act(w, b, data=None, valid=None, n=(3, 4)):
  return w.it.construct(w.get(DTN + 'action.Action'), [], dict(data=data if data is not None else cell('a', b + (n[0], 2)), valid=valid if valid is not None else cell('v', b + (n[0], 1), BO)))


def masked(w, b, value=None, valid=None, n=(3, 4)):
  return w.it.construct(w.get(DTN + 'array.MaskedArray'), [], dict(value=value if value is not None else cell('a', b + n + (2,)), valid=valid if valid is not None else cell('v', b + n, BO)))


def pose(w, b, n=(3, 4), **over):
  k = b + n[:1]
  vals = dict(original_xy=cell('xy', k + (2,)), original_yaw=cell('yaw', k), matrix=cell('m', k + (3, 3)), delta_yaw=cell('dy', k), valid=cell('v', k, BO))
  vals.update(over)
  return w.it.construct(w.get(DTN + 'observation.ObjectPose2D'), [], vals)


def lead(b, rest, d):
  """Arrays whose leading (batch, object) part is wrong."""
  s = b + (3,)
  for k in range(len(s)):
    yield f'leading dimension {k} longer', cell('w', s[:k] + (s[k] + 1,) + s[k + 1:] + rest, d)
  yield 'a leading dimension more', cell('w', (2,) + (4,) * len(s) + rest, d)


def validate_prefixed(c):
  for b in BATCHES:
    n = len(b)
    for lb, mk, bads in (
        ('Action', act, [('data ' + k, dict(data=v)) for k, v in lead(b, (2,), FL)] + [
            ('valid wider', dict(valid=cell('w', b + (3, 2), BO))), ('valid as float', dict(valid=cell('w', b + (3, 1), FL))),
            ('valid as int', dict(valid=cell('w', b + (3, 1), I4))), ('valid for other objects', dict(valid=cell('w', b + (4, 1), BO)))]),
        ('MaskedArray', masked, [('value ' + k, dict(value=v)) for k, v in lead(b, (4, 2), FL)] + [
            ('value with another inner dimension', dict(value=cell('w', b + (3, 5, 2)))),
            ('valid as float', dict(valid=cell('w', b + (3, 4), FL))), ('valid as int', dict(valid=cell('w', b + (3, 4), I4))),
            ('valid broadcast', dict(valid=cell('w', b + (3, 1), BO))), ('valid deeper', dict(valid=cell('w', b + (3, 4, 3), BO)))]),
        ('ObjectPose2D', pose, [(f'{f} {k}', {f: v}) for f, rest, d in (('original_xy', (2,), FL), ('original_yaw', (), FL), ('matrix', (3, 3), FL), ('delta_yaw', (), FL), ('valid', (), BO)) for k, v in lead(b, rest, d)] + [
            (f'{f} as {o}', {f: cell('w', b + (3,) + rest, o)}) for f, rest, d in (('original_xy', (2,), FL), ('original_yaw', (), FL), ('matrix', (3, 3), FL), ('delta_yaw', (), FL), ('valid', (), BO)) for o in OTHER[d]]),
    ):
      w = shared(c)
      c.run(w, 'accepts', f'{lb} well formed (batch {n})', lambda: w.m(mk(w, b), 'validate'))
      for what, kw in bads:
        w = shared(c)
        c.raises(w, 'rejects', f'{lb} {what} (batch {n})', lambda: w.m(mk(w, b, **kw), 'validate'), ('AssertionError',))
        if lb == 'MaskedArray':
          w = shared(c)
          v = dict(value=cell('a', b + (3, 4, 2)), valid=cell('v', b + (3, 4), BO))
          v.update(kw)
          c.raises(w, 'rejects', f'{lb}.create_and_validate {what} (batch {n})', lambda: w.m(w.get(DTN + 'array.MaskedArray'), 'create_and_validate', **v), ('AssertionError',))


def make_state(w, b, sub=None, paths=True, road=True, sym=False):
  """A state; sub: (field, batch) built with another batch."""
  bb = lambda f: sub[1] if sub and sub[0] == f else b
  vals = dict(sim_trajectory=make(w, TJ, bb('sim_trajectory'), 'sim', sym), log_trajectory=make(w, TJ, bb('log_trajectory'), 'log', sym),
              log_traffic_light=make(w, TL_, bb('log_traffic_light'), 'tl', sym), object_metadata=make(w, MD, bb('object_metadata'), 'meta', sym),
              timestep=cell('t', bb('timestep'), I4), sdc_paths=make(w, PA, bb('sdc_paths'), 'paths', sym) if paths else None,
              roadgraph_points=make(w, RG, bb('roadgraph_points'), 'road', sym) if road else None)
  return w.it.construct(w.get(DTN + 'simulator_state.SimulatorState'), [], vals)


STATE_PARTS = ('sim_trajectory', 'log_trajectory', 'log_traffic_light', 'object_metadata', 'timestep', 'sdc_paths', 'roadgraph_points')


def validate_state(c):
  for b in ((2,), (2, 9)):
    for paths in (True, False):
      for road in (True, False):
        w = shared(c)
        c.run(w, 'accepts', f'SimulatorState {b} routes={paths} road={road}', lambda: w.m(make_state(w, b, None, paths, road), 'validate'))
        for f in STATE_PARTS:
          if f == 'sdc_paths' and not paths or f == 'roadgraph_points' and not road:
            continue
          for k in range(len(b)):
            nb = b[:k] + (b[k] + 1,) + b[k + 1:]
            w = shared(c)
            c.raises(w, 'rejects', f'SimulatorState.{f} of batch {nb} in {b} (routes={paths}, road={road})',
                     lambda: w.m(make_state(w, b, (f, nb), paths, road), 'validate'), ('AssertionError',))
          if f == 'timestep':
            w = shared(c)
            c.raises(w, 'rejects', f'SimulatorState.{f} scalar in {b}', lambda: w.m(make_state(w, b, (f, ()), paths, road), 'validate'), ('AssertionError',))
  w = shared(c)
  c.run(w, 'accepts', 'SimulatorState ()', lambda: w.m(make_state(w, ()), 'validate'))


OBS_TAIL = {'trajectory': TJ, 'metadata': MD, 'roadgraph_static_points': RG, 'traffic_lights': TL_, 'sdc_paths': PA}


def make_obs(w, b, sub=None, paths=True, ego=None):
  bb = lambda f: sub[1] if sub and sub[0] == f else b
  k = b[-1]
  vals = {f: make(w, cls, bb(f), f) for f, cls in OBS_TAIL.items()}
  if not paths:
    vals['sdc_paths'] = None
  pb = bb('pose2d')
  vals['pose2d'] = w.it.construct(w.get(DTN + 'observation.ObjectPose2D'), [], dict(
      original_xy=cell('xy', pb + (2,)), original_yaw=cell('yaw', pb), matrix=cell('m', pb + (3, 3)), delta_yaw=cell('dy', pb), valid=cell('v', pb, BO)))
  vals['is_ego'] = ego if ego is not None else cell('ego', b + (3,), BO)
  return w.it.construct(w.get(DTN + 'observation.Observation'), [], vals)


def validate_obs(c):
  for b in ((5,), (2, 5)):
    for paths in (True, False):
      w = shared(c)
      c.run(w, 'accepts', f'Observation {b} routes={paths}', lambda: w.m(make_obs(w, b, None, paths), 'validate'))
      for f in ('trajectory', 'pose2d', 'metadata', 'roadgraph_static_points', 'traffic_lights') + (('sdc_paths',) if paths else ()):
        for k in range(len(b)):
          nb = b[:k] + (b[k] + 1,) + b[k + 1:]
          w = shared(c)
          c.raises(w, 'rejects', f'Observation.{f} of batch {nb} in {b} (routes={paths})', lambda: w.m(make_obs(w, b, (f, nb), paths), 'validate'), ('AssertionError',))
        if f != 'pose2d':
          for nb, lb in ((b + (4,), 'a dimension more'), (b[:-1], 'a dimension less')):
            w = shared(c)
            c.raises(w, 'rejects', f'Observation.{f} {lb} in {b} (routes={paths})', lambda: w.m(make_obs(w, b, (f, nb), paths), 'validate'), ('AssertionError',))
      for lb, ego in (('of other objects', cell('e', b + (4,), BO)), ('without objects', cell('e', b, BO)), ('as numbers', cell('e', b + (3,), I4)), ('as float', cell('e', b + (3,), FL))):
        w = shared(c)
        c.raises(w, 'rejects', f'Observation.is_ego {lb} in {b} (routes={paths})', lambda: w.m(make_obs(w, b, None, paths, ego), 'validate'), ('AssertionError',))


def eq(w, a, b):
  return w.it.compare1('==', a, b) if hasattr(w.it, 'compare1') else None


def as_bit(v):
  return asarr(v).fn(()) if not isinstance(v, bool) else t.lift(v)


def same_fn(a, b):
  """All elements of two equally shaped arrays agree."""
  a, b = asarr(a), asarr(b)

  def over(k, idx):
    if k == a.ndim:
      return t.eq(a.fn(idx), b.fn(idx))
    return t.bnot(t.reduce_('any', A.dv(a.shape[k]), lambda j: t.bnot(over(k + 1, idx + (j,)))))
  return over(0, ())


def equality(c):
  """x == y exactly when every element of every field agrees."""
  def pair(mk, f, new):
    w = shared(c)
    a, b = mk(w), mk(w)
    b.fields[f] = new
    return w, a, b
  cases = []
  for cls, (fs, base) in FLAT.items():
    for f, d in fs.items():
      for bt in ((), (B,)):
        cases.append((short(cls), (lambda w, cls=cls, bt=bt: make(w, cls, bt, sym=True)), f, lambda bt=bt, cls=cls, f=f, d=d, base=base: cell('new', bt + tail(cls, f, SYM[cls]), d)))
  for lb, mk, fs in (('Action', act, {'data': (N, 2), 'valid': (N, 1)}), ('MaskedArray', masked, {'value': (N, T, 2), 'valid': (N, T)}),
                     ('ObjectPose2D', pose, {'original_xy': (N, 2), 'original_yaw': (N,), 'matrix': (N, 3, 3), 'delta_yaw': (N,), 'valid': (N,)})):
    for f, s in fs.items():
      cases.append((lb, (lambda w, mk=mk: mk(w, (B,), n=(N, T))), f, lambda f=f, s=s: cell('new', (B,) + s, BO if f == 'valid' else FL)))
  for lb, mk, f, new in cases:
    n = new()
    w, a, b = pair(mk, f, n)
    ok, v = c.run(w, 'equality', f'{lb}.{f} differs', lambda: w.m(a, '__eq__', b))
    if ok:
      c.node('equality', f'{lb} equal exactly when {f} is (rank {asarr(n).ndim})', as_bit(v), same_fn(a.fields[f], n))
    w, a, b = pair(mk, f, cell('bigger', (2,) + asarr(n).shape, asarr(n).dtype))
    ok, v = c.run(w, 'equality', f'{lb}.{f} has another shape', lambda: w.m(a, '__eq__', b))
    if ok:
      c.node('equality', f'{lb} unequal when {f} has another shape', as_bit(v), t.FALSE)
    w = shared(c)
    a, b = mk(w), mk(w)
    ok, v = c.run(w, 'equality', f'{lb} itself', lambda: w.m(a, '__eq__', b))
    if ok:
      c.node('equality', f'{lb} equals its copy', as_bit(v), t.TRUE)
    for o in (3, None, 'x', cell('arr', (3,))):
      w = shared(c)
      ok, v = c.run(w, 'equality', f'{lb} against {type(o).__name__}', lambda: w.m(mk(w), '__eq__', o))
      if ok:
        c.node('equality', f'{lb} differs from {type(o).__name__}', as_bit(v), t.FALSE)
  kinds = [(short(k), lambda w, k=k: make(w, k, (), sym=True)) for k in FLAT]
  for la, ma in kinds:
    for lb, mb in kinds:
      if la != lb:
        w = shared(c)
        ok, v = c.run(w, 'equality', f'{la} against {lb}', lambda: w.m(ma(w), '__eq__', mb(w)))
        if ok:
          c.node('equality', f'{la} differs from {lb}', as_bit(v), t.FALSE)


def state_equality(c):
  for part in STATE_PARTS:
    if part == 'timestep':
      w = shared(c)
      a, b = make_state(w, (B,), sym=True), make_state(w, (B,), sym=True)
      b.fields['timestep'] = n = cell('new', (B,), I4)
      ok, v = c.run(w, 'equality', 'SimulatorState.timestep', lambda: w.m(a, '__eq__', b))
      if ok:
        c.node('equality', 'SimulatorState equal exactly when timestep is', as_bit(v), same_fn(a.fields['timestep'], n))
      continue
    w = shared(c)
    fs = [n for n, _ in field(make_state(w, (B,), sym=True), part).cls.all_fields()]
    for f in fs:
      w = shared(c)
      a, b = make_state(w, (B,), sym=True), make_state(w, (B,), sym=True)
      old = asarr(field(field(b, part), f))
      n = cell('new', old.shape, old.dtype)
      b.fields[part].fields[f] = n
      ok, v = c.run(w, 'equality', f'SimulatorState.{part}.{f}', lambda: w.m(a, '__eq__', b))
      if ok:
        c.node('equality', f'SimulatorState equal exactly when {part}.{f} is', as_bit(v), same_fn(old, n))
  for paths in ((True, False), (False, True)):
    for lb, kw in (('routes', ('paths',)), ('road points', ('road',)), ('both', ('paths', 'road'))):
      w = shared(c)
      a, b = (make_state(w, (B,), None, sym=True, **{k: p for k in kw}) for p in paths)
      ok, v = c.run(w, 'equality', f'only one state has {lb}', lambda: w.m(a, '__eq__', b))
      if ok:
        c.node('equality', f'states of which only {"the first" if paths[0] else "the second"} has {lb} differ', as_bit(v), t.FALSE)
  w = shared(c)
  a, b = make_state(w, (B,), None, False, False, True), make_state(w, (B,), None, False, False, True)
  ok, v = c.run(w, 'equality', 'states without optional parts', lambda: w.m(a, '__eq__', b))
  if ok:
    c.node('equality', 'a state without optional parts equals its copy', as_bit(v), t.TRUE)


def constructors(c):
  for s in ((N, T), (B, N, T), (3, 1)):
    w = shared(c)
    ok, z = c.run(w, 'zeros', f'Trajectory.zeros rank {len(s)}', lambda: w.m(w.get(TJ), 'zeros', s))
    if ok:
      for f, d in NF.items():
        c.arr('zeros', f'Trajectory.zeros {f}', field(z, f), lambda *i, d=d: t.FALSE if d == BO else t.ZERO, shape=s, dtype=d)
    w = shared(c)
    src = w.traj('sim', s[:-2], s[-2], s[-1])
    ok, z = c.run(w, 'blank', f'fill_invalid_trajectory rank {len(s)}', lambda: w.call(DTN + 'object_state.fill_invalid_trajectory', src))
    if ok:
      for f, d in NF.items():
        c.arr('blank', f'invalid trajectory {f}', field(z, f), lambda *i, d=d: t.FALSE if d == BO else t.const(-1), shape=s, dtype=d)
  for b in ((), (B,)):
    w = shared(c)
    st = w.state(b, N, T)
    tree = [field(st, k) for k in ('sim_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points', 'sdc_paths')]
    for o in tree:
      for f, _ in o.cls.all_fields():
        a = asarr(field(o, f))
        ok, z = c.run(w, 'blank', f'make_invalid_data {o.cls.name}.{f}', lambda: w.call(DTN + 'operations.make_invalid_data', a))
        if ok:
          c.arr('blank', f'make_invalid_data {o.cls.name}.{f}', z, lambda *i: t.FALSE if a.dtype == 'bool' else t.const(-1), shape=a.shape, dtype=a.dtype)


def views(c):
  """Derived views are built of the fields they are named after."""
  for b in ((), (B,), (B, B2)):
    w = shared(c)
    st = w.state(b, N, T)
    tr, md, tl, rd, pa = (field(st, k) for k in ('sim_trajectory', 'object_metadata', 'log_traffic_light', 'roadgraph_points', 'sdc_paths'))
    for o, prop, parts in ((tr, 'xy', 'x y'), (tr, 'xyz', 'x y z'), (tr, 'vel_xy', 'vel_x vel_y'), (tl, 'xy', 'x y'), (rd, 'xy', 'x y'), (rd, 'xyz', 'x y z'),
                           (rd, 'dir_xy', 'dir_x dir_y'), (rd, 'dir_xyz', 'dir_x dir_y dir_z'), (pa, 'xy', 'x y'), (pa, 'xyz', 'x y z')):
      parts = parts.split()
      ok, v = c.run(w, 'views', f'{o.cls.name}.{prop}', lambda: w.attr(o, prop))
      if ok:
        v = asarr(v)
        first = asarr(field(o, parts[0]))
        c.check(v.ndim == first.ndim + 1 and A.same_dim(v.shape[-1], len(parts)), 'views', f'{o.cls.name}.{prop} shape (batch {len(b)})')
        i = ixs(first.shape)
        for k, f in enumerate(parts):
          c.node('views', f'{o.cls.name}.{prop}[{k}] is {f} (batch {len(b)})', v.fn(i + (t.const(k),)), asarr(field(o, f)).fn(i))
    for f3 in (['vel_y', 'x', 'valid'], ['yaw'], ['length', 'width', 'height', 'z']):
      ok, v = c.run(w, 'views', f'stack_fields {f3}', lambda: w.m(tr, 'stack_fields', f3))
      if ok:
        i = ixs(b + (N, T))
        for k, f in enumerate(f3):
          g, x = asarr(v).fn(i + (t.const(k),)), asarr(field(tr, f)).fn(i)
          c.node('views', f'stack_fields {f3}[{k}] (batch {len(b)})', g, t.ite(x, t.ONE, t.ZERO) if f == 'valid' else x)
    g = lambda f: asarr(field(tr, f)).fn
    ok, v = c.run(w, 'views', 'speed', lambda: w.attr(tr, 'speed'))
    if ok:
      c.arr('views', f'speed (batch {len(b)})', v, lambda *i: t.ite(g('valid')(i), t.sqrt(t.add(t.mul(g('vel_x')(i), g('vel_x')(i)), t.mul(g('vel_y')(i), g('vel_y')(i)))), t.const(-1)), shape=b + (N, T))
    ok, v = c.run(w, 'views', 'vel_yaw', lambda: w.attr(tr, 'vel_yaw'))
    if ok:
      c.arr('views', f'vel_yaw (batch {len(b)})', v, lambda *i: t.ite(g('valid')(i), t.atan2(g('vel_y')(i), g('vel_x')(i)), t.const(-1)), shape=b + (N, T))
    for o, prop, want in ((tr, 'num_objects', N), (tr, 'num_timesteps', T), (md, 'num_objects', N), (tl, 'num_traffic_lights', L), (tl, 'num_timesteps', T),
                          (rd, 'num_points', R), (pa, 'num_paths', asarr(field(pa, 'x')).shape[-2]), (pa, 'num_points_per_path', asarr(field(pa, 'x')).shape[-1]), (st, 'num_objects', N)):
      ok, v = c.run(w, 'views', f'{o.cls.name}.{prop}', lambda: w.attr(o, prop))
      if ok:
        c.check(A.same_dim(A.norm_dim(v), A.norm_dim(want)), 'views', f'{o.cls.name}.{prop} (batch {len(b)})', detail=str(v))
    for prop in ('shape', 'batch_dims'):
      ok, v = c.run(w, 'views', f'SimulatorState.{prop}', lambda: w.attr(st, prop))
      if ok:
        c.check(len(v) == len(b) and all(A.same_dim(A.norm_dim(x), A.norm_dim(y)) for x, y in zip(v, b)), 'views', f'SimulatorState.{prop} (batch {len(b)})', detail=str(v))
    up = w.update(b, N)
    ok, a = c.run(w, 'views', 'as_action', lambda: w.m(up, 'as_action'))
    if ok:
      i = ixs(b + (N,))
      d = asarr(field(a, 'data'))
      c.check(d.ndim == len(b) + 2 and A.same_dim(d.shape[-1], 5), 'views', f'as_action shape (batch {len(b)})')
      for k, f in enumerate(('x', 'y', 'yaw', 'vel_x', 'vel_y')):
        c.node('views', f'as_action[{k}] is {f} (batch {len(b)})', d.fn(i + (t.const(k),)), asarr(field(up, f)).fn(i + (t.ZERO,)))
      c.arr('views', f'as_action valid (batch {len(b)})', field(a, 'valid'), field(up, 'valid'))
    m = w.it.construct(w.get(DTN + 'array.MaskedArray'), [], dict(value=cell('mv', b + (N,)), valid=cell('mk', b + (N,), BO)))
    for fill in (0.0, -1.0, 7):
      ok, v = c.run(w, 'views', 'masked_value', lambda: w.m(m, 'masked_value', fill))
      if ok:
        c.arr('views', f'masked_value {fill} (batch {len(b)})', v, lambda *i: t.ite(asarr(field(m, 'valid')).fn(i), asarr(field(m, 'value')).fn(i), t.const(fill)), shape=b + (N,))
    ok, v = c.run(w, 'views', 'create_and_validate', lambda: w.m(w.get(DTN + 'array.MaskedArray'), 'create_and_validate', value=field(m, 'value'), valid=field(m, 'valid')))
    if ok:
      c.tree_same('views', f'create_and_validate (batch {len(b)})', v, m)


def frames(c):
  """The current frames of a state are the frames at its clock, one frame wide."""
  for b, bt in (((), False), ((B,), False), ((B,), True), ((B, B2), True)):
    lb = f'(batch {len(b)}{", own clocks" if bt else ""})'
    w = shared(c)
    st = w.state(b, N, T, batched_time=bt)
    tc = asarr(field(st, 'timestep'))
    for prop, src in (('current_sim_trajectory', 'sim_trajectory'), ('current_log_trajectory', 'log_trajectory')):
      ok, v = c.run(w, 'frames', f'{prop} {lb}', lambda: w.attr(st, prop))
      if ok:
        for f in NF:
          x = asarr(field(field(st, src), f))
          c.arr('frames', f'{prop}.{f} {lb}', field(v, f), lambda *i: x.fn(i[:-1] + (A.clamp_start(tc.fn(i[:len(b)] if bt else ()), T, 1),)), shape=b + (N, 1), dtype=x.dtype)


def sizes(c):
  """Shapes and counts of observations and poses; the parts of a pose matrix."""
  for b in ((5,), (2, 5)):
    w = shared(c)
    o = make_obs(w, b)
    ps = field(o, 'pose2d')
    ops = [w.m(o, 'for_obj', 1)]
    for x, prop, want in ((o, 'shape', b), (o, 'batch_dims', b[:-1]), (o, 'num_objects', 3), (ps, 'shape', b), (ps, 'num_objects', b[-1]), (ops[0], 'shape', b[:-1] + (1,))):
      ok, v = c.run(w, 'sizes', f'{x.cls.name}.{prop} {b}', lambda: w.attr(x, prop))
      if ok:
        c.check(v == want, 'sizes', f'{x.cls.name}.{prop} {b}', detail=str(v))
    m = asarr(field(ps, 'matrix'))
    for x, prop, want, shape in ((ps, 'rotation_matrix', m.fn, b + (2, 2)), (ps, 'translation_vector', lambda i: m.fn(i + (t.const(2),)), b + (2,)),
                                 (o, 'valid', asarr(field(ps, 'valid')).fn, b)):
      ok, v = c.run(w, 'sizes', f'{x.cls.name}.{prop} {b}', lambda: w.attr(x, prop))
      if ok:
        c.arr('sizes', f'{x.cls.name}.{prop} {b}', v, lambda *i: want(i), shape=shape)


PARTS = [('frames', frames), ('sizes', sizes), ('validate', validate), ('validate prefixed', validate_prefixed), ('validate state', validate_state), ('validate observation', validate_obs),
         ('equality', equality), ('state equality', state_equality), ('constructors', constructors), ('views', views)]
