"""Call-site and value-graph congruence of the expert and constant-speed actors
and of the merging of actor outputs, against the documented transition."""
from .common import *

FLOOR = 450
ASSUME = ['exact real arithmetic', 'time indices in range']
DT, MICROS = t.const(0.1), 100000
F = 'waymax.agents.'


def all_dynamics(w, b):
  for nm, dyn, d in real_dynamics(w):
    yield nm, dyn
  yield 'discrete', discrete(w)


def inferring(w, b, log):
  """A dynamics model whose inferred action is a free input."""
  act = w.action(4, b, N, 'inferred')

  def inverse(self, trajectory, metadata, timestep):
    log.append((trajectory, metadata, timestep))
    return act
  cls = subclass(w, 'waymax.dynamics.DynamicsModel', inverse=Native('inverse', inverse))
  for n in w.it.abstracts(cls):
    cls.ns[n] = Native(n, lambda *a, n=n, **k: (_ for _ in ()).throw(Gap(f'stub dynamics {n} called')))
  return Obj(cls), act


def two_frames(c, lb, call, st, first, second):
  """The inferred step joins the two wanted frames of this state's objects."""
  tr, meta, tm = call
  c.tree_same('metadata', f'{lb} object metadata', meta, field(st, 'object_metadata'))
  tn = asarr(tm)
  for f in tr.fields:
    g = asarr(field(tr, f))
    for k, want in ((0, first), (1, second)):
      what = f'{lb} {"current" if k == 0 else "next"} {f}'
      ix = ixs(g.shape[:-1])
      at = tn.fn(ix[:tn.ndim]) if tn.ndim else tn.fn(())
      c.node('frames', what, g.fn(ix + (at + k,)), want(f, ix), where=g.origin or '')


def current(st, f, ix):
  return asarr(field(field(st, 'sim_trajectory'), f)).fn(tuple(ix) + (tnode(st, ix),))


def logged_next(st, f, ix):
  return asarr(field(field(st, 'log_trajectory'), f)).fn(tuple(ix) + (tnode(st, ix) + 1,))


def masks(w, b):
  """(label, predicate argument or None, wanted mask of a state)."""
  free = cell('ctl', b + (N,), 'bool')
  yield 'default', None, lambda st: asarr(field(field(st, 'object_metadata'), 'is_sdc'))
  yield 'given mask', Native('mask', lambda s: free), lambda st: free
  yield 'modelled', Native('modelled', lambda s: field(field(s, 'object_metadata'), 'is_modeled')), lambda st: asarr(field(field(st, 'object_metadata'), 'is_modeled'))


def select(c, w, actor, st, lb):
  args = [{'p': cell('par', (3,))}, st, {'s': cell('as', (2,))}, cell('key', (2,), 'uint32')]
  w.it.freeze(st, 'state')
  ok, out = c.run(w, 'select-total', lb, lambda: w.m(actor, 'select_action', *args))
  for site, what in w.it.effects:
    c.bad('no-mutation', f'{lb}: {what}', site)
  return ok, out


def expert(c):
  for b in ((), (B,), (B, B2)):
    for mk, pred, want_mask in masks(c.world(), b):
      w = c.world()
      log = []
      dyn, act = inferring(w, b, log)
      a = [dyn] if pred is None else [dyn, pred]
      lb = f'expert[{mk}, batch={len(b)}]'
      actor = w.call(F + 'create_expert_actor', *a)
      c.check(w.attr(actor, 'name') == 'expert', 'expert-name', lb)
      st = w.state(b)
      ok, out = select(c, w, actor, st, lb)
      if not ok:
        continue
      c.check(len(log) == 1, 'inferred', f'{lb} infers one action', detail=f'{len(log)} calls')
      c.tree_same('inferred', f'{lb} action', field(out, 'action'), act)
      c.check(field(out, 'actor_state') is None, 'stateless', lb)
      m = want_mask(st)
      c.arr('expert-mask', lb, field(out, 'is_controlled'), lambda *i: m.fn(i), shape=b + (N,), dtype='bool')
      for call in log:
        two_frames(c, lb, call, st, lambda f, ix: current(st, f, ix), lambda f, ix: logged_next(st, f, ix))


def expert_real(c):
  """With each concrete model: inference on the joined pair of frames."""
  for b in ((), (B,)):
    w = c.world()
    for nm, dyn in all_dynamics(w, b):
      st = w.state(b)
      lb = f'expert {nm}[batch={len(b)}]'
      ok, got = c.run(w, 'select-total', lb, lambda: w.call(F + 'expert.infer_expert_action', st, dyn))
      ok2, out = c.run(w, 'select-total', lb, lambda: w.m(w.call(F + 'create_expert_actor', dyn), 'select_action', {}, st, None, None))
      tr = field(st, 'sim_trajectory')
      pair = w.it.construct(tr.cls, [], {f: pair_of(st, f, b) for f in tr.fields})
      want = w.m(dyn, 'inverse', pair, field(st, 'object_metadata'), 0)
      if ok:
        c.tree_same('inferred', f'{lb} inferred action', got, want)
      if ok2:
        c.tree_same('inferred', f'{lb} selected action', field(out, 'action'), want)


def pair_of(st, f, b):
  src = asarr(field(field(st, 'sim_trajectory'), f))
  return A.Arr(src.shape[:-1] + (2,), src.dtype, lambda i: t.ite(t.eq(i[-1], 0), current(st, f, i[:-1]), logged_next(st, f, i[:-1])))


def logged_pose(c):
  """State-setting model: the expert puts each object on its logged next frame."""
  for b in ((), (B,)):
    w = c.world()
    dyn = w.new('waymax.dynamics.StateDynamics')
    st = w.state(b)
    ok, out = c.run(w, 'select-total', f'replay[batch={len(b)}]', lambda: w.m(w.call(F + 'create_expert_actor', dyn), 'select_action', {}, st, None, None))
    if not ok:
      continue
    up = w.m(dyn, 'compute_update', field(out, 'action'), w.traj('cur', b, N, 1))
    for f in CONTROLLABLE + ['valid']:
      c.arr('logged-next', f'replay[batch={len(b)}] {f}', field(up, f),
            lambda *i: logged_next(st, f, i[:-1]), shape=b + (N, 1), facts=lambda *i: [logged_next(st, 'valid', i[:-1])])


def constant(c):
  for b in ((), (B,), (B, B2)):
    for speed in (None, 0.0, 7.5, 'sym'):
      w = c.world()
      log = []
      dyn, act = inferring(w, b, log)
      free = cell('ctl', b + (N,), 'bool')
      sv = A.sym(t.inp('speed'), 'float') if speed == 'sym' else speed
      a = [dyn, Native('mask', lambda s: free)] + ([] if speed is None else [sv])
      lb = f'constant-speed[{speed}, batch={len(b)}]'
      actor = w.call(F + 'create_constant_speed_actor', *a)
      st = w.state(b)
      ok, out = select(c, w, actor, st, lb)
      if not ok:
        continue
      c.check(len(log) == 1, 'inferred', f'{lb} infers one action', detail=f'{len(log)} calls')
      c.tree_same('inferred', f'{lb} action', field(out, 'action'), act)
      c.check(field(out, 'actor_state') is None, 'stateless', lb)
      c.arr('mask', lb, field(out, 'is_controlled'), lambda *i: free.fn(i), shape=b + (N,), dtype='bool')

      def nxt(f, ix):
        g = lambda q: current(st, q, ix)
        s = asarr(sv).fn(()) if speed is not None else None
        v = {'vel_x': g('vel_x') if s is None else s * t.cos(g('yaw')), 'vel_y': g('vel_y') if s is None else s * t.sin(g('yaw'))}
        if f in v:
          return v[f]
        if f in ('x', 'y'):
          return g(f) + v['vel_' + f] * DT
        if f == 'valid':
          return t.band(free.fn(ix), g('valid'))
        if f == 'timestamp_micros':
          return g(f) + MICROS
        return g(f)
      for call in log:
        two_frames(c, lb, call, st, lambda f, ix: current(st, f, ix), nxt)


def merging(c):
  for b in ((), (B,), (B, B2)):
    for d in (1, 2, 5):
      for k in (1, 2, 3, 4):
        w = c.world()
        cls = w.get(F + 'WaymaxActorOutput')
        outs = [w.it.construct(cls, [], dict(actor_state=None, action=w.action(d, b, N, f'a{j}'), is_controlled=cell(f'c{j}', b + (N,), 'bool'))) for j in range(k)]
        w.it.freeze(outs, 'actor outputs')
        lb = f'merge {k} actors[width={d}, batch={len(b)}]'
        for wrap in (list, tuple):
          ok, got = c.run(w, 'merge-total', lb, lambda: w.call(F + 'merge_actions', wrap(outs)))
          if not ok:
            continue
          for f, sh in (('data', d), ('valid', 1)):
            def want(*i):
              r = asarr(field(field(outs[0], 'action'), f)).fn(i)
              for o in outs[1:]:
                r = t.ite(asarr(field(o, 'is_controlled')).fn(i[:-1]), asarr(field(field(o, 'action'), f)).fn(i), r)
              return r
            c.arr('merge', f'{lb} {f}', field(got, f), want, shape=b + (N, sh), dtype='bool' if f == 'valid' else 'float32')
        for site, what in w.it.effects:
          c.bad('no-mutation', f'{lb}: {what}', site)
  w = c.world()
  c.raises(w, 'rejects', 'merging no actors', lambda: w.call(F + 'merge_actions', []))


def factory(c):
  """Actors built from functions forward every argument and result."""
  for nm in (None, 'custom'):
    w = c.world()
    seen = []
    r1, r2 = {'s': cell('init', (2,))}, Obj(w.get(F + 'WaymaxActorOutput'))

    def init(*a):
      seen.append(a)
      return r1

    def sel(*a):
      seen.append(a)
      return r2
    kw = {} if nm is None else {'name': nm}
    actor = w.call(F + 'actor_core_factory', Native('init', init), Native('sel', sel), **kw)
    c.check(w.attr(actor, 'name') == (nm or 'WaymaxActorCore'), 'factory', f'name {nm}')
    st, key, par, ast = w.state(), cell('key', (2,), 'uint32'), {'p': cell('par', (3,))}, {'s': cell('as', (2,))}
    got = w.m(actor, 'init', key, st)
    c.check(got is r1, 'factory', 'init result')
    got = w.m(actor, 'select_action', par, st, ast, key)
    c.check(got is r2, 'factory', 'selected output')
    c.check(len(seen) == 2 and all(x is y for x, y in zip(seen[0], (key, st))) and all(x is y for x, y in zip(seen[1], (par, st, ast, key))), 'factory', 'arguments forwarded')


PARTS = [('expert actor', expert), ('expert with concrete models', expert_real), ('expert replays the log', logged_pose), ('constant-speed actor', constant), ('merged actions', merging), ('actors from functions', factory)]
