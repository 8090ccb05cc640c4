"""Value-graph congruence of state export with the record format that parsing
reads: every key, the split in time, blanked future and invalid objects."""
from .common import *
from .womd import *

FLOOR = 250
ASSUME = ['the clock is at least the recorded history length, as the export documents', 'identifiers and types hold whole numbers',
          'a state without batch dimensions, as the record format has none']
WU, WF = 'waymax.dataloader.womd_utils.', 'waymax.dataloader.womd_factories.'
H = 10
MINUS = t.const(-1)


def bit(v):
  return t.ite(v, t.ONE, t.ZERO)


def wanted(st, n=N, nl=L):
  """key -> (shape, element) of everything parsing can read."""
  now = asarr(field(st, 'timestep')).fn(())
  sim, lights, md, rd = (field(st, f) for f in ('sim_trajectory', 'log_traffic_light', 'object_metadata', 'roadgraph_points'))
  f_ = lambda o, f: asarr(field(o, f)).fn
  d = {}
  for tm, k in STEPS.items():
    fr = (lambda j: t.add(t.sub(now, t.const(H)), j)) if tm == 'past' else (lambda j: now)
    fut = tm == 'future'
    for f, src in TRAJ_SRC.items():
      def el(i, j, f=f, fr=fr):
        v = f_(sim, f)((i, fr(j)))
        return bit(v) if f == 'valid' else v
      d[f'state/{tm}/{src}'] = ((n, k), (lambda i, j: MINUS) if fut else el)
    vx, vy, ok = f_(sim, 'vel_x'), f_(sim, 'vel_y'), f_(sim, 'valid')
    sp = lambda i, j, fr=fr: t.ite(ok((i, fr(j))), t.sqrt(t.add(t.mul(vx((i, fr(j))), vx((i, fr(j)))), t.mul(vy((i, fr(j))), vy((i, fr(j)))))), MINUS)
    vy_ = lambda i, j, fr=fr: t.ite(ok((i, fr(j))), t.atan2(vy((i, fr(j))), vx((i, fr(j)))), MINUS)
    d[f'state/{tm}/speed'] = ((n, k), (lambda i, j: MINUS) if fut else sp)
    d[f'state/{tm}/vel_yaw'] = ((n, k), (lambda i, j: MINUS) if fut else vy_)
    for f, src in LIGHT_SRC.items():
      def el(j, i, f=f, fr=fr):
        v = f_(lights, f)((i, fr(j)))
        return bit(v) if f == 'valid' else v
      d[f'traffic_light_state/{tm}/{src}'] = ((k, nl), (lambda j, i: MINUS) if fut else el)
  mark = lambda f, b: lambda i: t.ite(f_(md, 'is_valid')((i,)), bit(f_(md, f)((i,))) if b else f_(md, f)((i,)), MINUS)
  for key, f, b in (('id', 'ids', 0), ('type', 'object_types', 0), ('is_sdc', 'is_sdc', 1), ('tracks_to_predict', 'is_modeled', 1),
                    ('objects_of_interest', 'objects_of_interest', 1)):
    d['state/' + key] = ((n,), mark(f, b))
  for key, f in (('id', 'ids'), ('type', 'types'), ('valid', 'valid')):
    d['roadgraph_samples/' + key] = ((R, 1), lambda i, j, f=f: bit(f_(rd, f)((i,))) if f == 'valid' else f_(rd, f)((i,)))
  for key, p in (('xyz', ''), ('dir', 'dir_')):
    d['roadgraph_samples/' + key] = ((R, 3), lambda i, j, p=p: t.ite(t.eq(j, t.ZERO), f_(rd, p + 'x')((i,)), t.ite(t.eq(j, t.ONE), f_(rd, p + 'y')((i,)), f_(rd, p + 'z')((i,)))))
  return d


def setup(c):
  w = c.world()
  tf_model(w)
  st = w.state((), N, T)
  ok, fd = c.run(w, 'export', 'format', lambda: w.call(WU + 'get_features_description', max_num_objects=A.sym(N), max_num_rg_points=A.sym(R), num_tls=A.sym(L)))
  return w, st, fd if ok else None


def export(c):
  from wx.lib import need_dtype
  w, st, fd = setup(c)
  if fd is None:
    return
  ok, d = c.run(w, 'export', 'state to record', lambda: w.call(WU + 'simulator_state_to_womd_dict', st, fd))
  if not ok:
    return
  c.check(set(d) == set(fd), 'export', 'exactly the requested features', detail=str(set(d) ^ set(fd)))
  for k, (shape, fn) in wanted(st).items():
    if not c.check(k in d, 'export', f'{k} exported'):
      continue
    c.arr('export', k, d[k], lambda *i, fn=fn: fn(*i), shape=shape)
    if k in fd:
      kind = 'float' in need_dtype(w.it.getattr(fd[k], 'dtype')).name
      c.check(('float' in asarr(d[k]).dtype) == kind, 'export', f'{k} type', detail=asarr(d[k]).dtype)


def subset(c):
  """Only what the given description names comes back, in its shape."""
  for drop in ('state/past/x', 'roadgraph_samples/xyz', 'traffic_light_state/future/x', 'state/is_sdc'):
    w, st, fd = setup(c)
    if fd is None:
      return
    fd = {k: v for k, v in fd.items() if k != drop}
    ok, d = c.run(w, 'requested', f'without {drop}', lambda: w.call(WU + 'simulator_state_to_womd_dict', st, fd))
    if ok:
      c.check(drop not in d and len(d) == len(fd), 'requested', f'without {drop}')


def again(c):
  """Parsing the exported record: the simulated past and present come back."""
  w, st, fd = setup(c)
  if fd is None:
    return
  def both():
    d = w.call(WU + 'simulator_state_to_womd_dict', st, fd)
    d = w.call(WU + 'aggregate_time_tensors', d)
    return w.call(WF + 'simulator_state_from_womd_dict', d)
  ok, back = c.run(w, 'round-trip', 'export then parse', both)
  if not ok:
    return
  now = asarr(field(st, 'timestep')).fn(())
  sim, lights = field(st, 'sim_trajectory'), field(st, 'log_traffic_light')
  for f in TRAJ:
    if f in ('length', 'width', 'height'):
      continue
    g, s = asarr(field(field(back, 'log_trajectory'), f)), asarr(field(sim, f))
    i = ixs((N,))
    for j in range(H + 1):
      c.node('round-trip', f'{f} at recorded frame {j}', g.fn(i + (t.const(j),)), s.fn(i + (t.add(now, t.const(j - H)),)))
  for f in LIGHT:
    g, s = asarr(field(field(back, 'log_traffic_light'), f)), asarr(field(lights, f))
    i = ixs((L,))
    for j in range(H + 1):
      c.node('round-trip', f'light {f} at recorded frame {j}', g.fn(i + (t.const(j),)), s.fn(i + (t.add(now, t.const(j - H)),)))
  md = field(back, 'object_metadata')
  old = field(st, 'object_metadata')
  v = asarr(field(old, 'is_valid')).fn
  for f in ('is_valid', 'is_sdc', 'is_modeled', 'objects_of_interest'):
    c.arr('round-trip', f'metadata {f}', field(md, f), lambda i, f=f: t.band(v((i,)), asarr(field(old, f)).fn((i,))))
  for f in ('ids', 'object_types'):
    c.arr('round-trip', f'metadata {f}', field(md, f), lambda i, f=f: t.ite(v((i,)), t.trunc(asarr(field(old, f)).fn((i,))), MINUS))
  c.tree_same('round-trip', 'road points', field(back, 'roadgraph_points'), field(st, 'roadgraph_points'))


def validation(c):
  """Asking for validation adds a check and changes nothing that is exported."""
  w, st, fd = setup(c)
  if fd is None:
    return
  seen = []
  w.it.ext_hooks['jax.experimental.checkify.check'] = lambda p, m, *a, **k: seen.append(p)
  ok, d = c.run(w, 'validate', 'export with validation', lambda: w.call(WU + 'simulator_state_to_womd_dict', st, fd, validate=True))
  if not ok:
    return
  now = asarr(field(st, 'timestep')).fn(())
  if c.check(len(seen) >= 1, 'validate', 'a validation is requested'):
    c.node('validate', 'exactly the recorded history has been simulated', asarr(seen[0]).fn(()), t.eq(now, t.const(H)))
  for k, (shape, fn) in wanted(st).items():
    k in d and c.arr('validate', f'{k} unchanged', d[k], lambda *i, fn=fn: fn(*i), shape=shape)


def converted(c):
  w, st, fd = setup(c)
  if fd is None:
    return
  ok, d = c.run(w, 'tensors', 'state to tensors', lambda: w.call(WU + 'simulator_state_to_womd_dict_tensorflow', st, fd))
  if ok:
    c.check(set(d) == set(fd), 'tensors', 'the same features')
    for k, (shape, fn) in wanted(st).items():
      k in d and c.arr('tensors', k, d[k], lambda *i, fn=fn: fn(*i), shape=shape)


PARTS = [('export', export), ('subset', subset), ('again', again), ('validation', validation), ('converted', converted)]
