"""Value-graph congruence of the inferred actions' validity, zeros and bounds
(idempotence under clipping to the declared bounds), and a read-set analysis:
every trajectory cell an inferred action depends on lies in the two frames."""
from .common import *

FLOOR = 60
ASSUME = ['the start frame has a following frame']


def tau(b, bt=False):
  return cell('t', b if bt else (), 'int32')


def clipped(v, lo, hi):
  return t.minv(t.maxv(v, lo), hi)


def frames_ok(c, what, v, tn, where):
  """Every read of the trajectory is at frame tn or tn+1."""
  for at in c.reads(v):
    name, idx = at.args[0], at.args[1:]
    if not str(name).startswith('tr.'):
      continue
    j = idx[-1]
    ok = t.same(j, tn) or t.same(j, tn + 1)
    if not ok:
      c.bad('reads-two-frames', what, where, f'reads {t.show_atom(at)[:200]}')
      return
  c.ok('reads-two-frames', what)


def zero_rule(c, label, data, valid, n):
  g = asarr(data)
  va = asarr(valid)
  want = lambda *i: t.ite(va.fn(i[:-1] + (t.ZERO,)), g.fn(i), t.ZERO)
  c.arr('zero-when-invalid', label, g, want)


def pair_valid(tr, tm):
  v = asarr(field(tr, 'valid'))
  return lambda *i: t.band(v.fn(i[:-1] + (tm.fn(()),)), v.fn(i[:-1] + (tm.fn(()) + 1,)))


def last_valid(tr, tm):
  v = asarr(field(tr, 'valid'))
  return lambda *i: v.fn(i[:-1] + (tm.fn(()) + 1,))


def every(c):
  for b in ((), (B,), (B, B2)):
    w = c.world()
    tm = tau(b)
    for name, dyn, d in real_dynamics(w):
      tr, meta = w.traj('tr', b), w.meta('meta', b)
      label = f'{name}[batch={len(b)}]'
      ok, act = c.run(w, 'inverse-total', label, lambda: w.m(dyn, 'inverse', tr, meta, tm))
      if not ok:
        continue
      data, valid = asarr(field(act, 'data')), asarr(field(act, 'valid'))
      c.check(len(data.shape) == len(b) + 2 and A.same_dim(data.shape[-1], d) and A.same_dim(data.shape[-2], N), 'shape', f'{label} data',
              detail=data.shape)
      rule = last_valid if name == 'state' else pair_valid
      c.arr('validity', label, valid, rule(tr, tm), shape=b + (N, 1), dtype='bool')
      if name != 'state':
        zero_rule(c, label, data, valid, d)
      for k in range(d):
        i = ixs(data.shape)[:-1] + (t.lift(k),)
        frames_ok(c, f'{label} component {k}', data.fn(i), tm.fn(()), data.origin)
      frames_ok(c, f'{label} validity', valid.fn(ixs(valid.shape)), tm.fn(()), valid.origin)
      if name != 'state':
        ok, spec = c.run(w, 'spec-total', label, lambda: w.m(dyn, 'action_spec'))
        lo, hi = asarr(w.attr(spec, 'minimum')), asarr(w.attr(spec, 'maximum'))
        for k in range(d):
          i = ixs(data.shape)[:-1] + (t.lift(k),)
          v = data.fn(i)
          c.node('bounds', f'{label} component {k}', v, clipped(v, lo.fn((t.lift(k),)), hi.fn((t.lift(k),))), where=data.origin)


def searchable(w, b):
  """A one-dimensional model: its update is an arbitrary function of the action."""
  def update(self, action, trajectory):
    u = w.update(b, action_n(action), 'upd')
    av = asarr(field(action, 'data'))
    nb = av.ndim - 1
    for f in CONTROLLABLE:
      u.fields[f] = Arr(asarr(field(trajectory, f)).shape, 'float32', lambda i, f=f: t.inp(f'upd.{f}', *i, av.fn(i[:nb] + (t.ZERO,))))
    u.fields['valid'] = field(action, 'valid')
    return u
  spec = lambda self: w.call(w.get('waymax.dynamics.bicycle_model.specs.BoundedArray'), shape=(1,), dtype='float32',
                             minimum=Arr((1,), 'float32', lambda i: t.const(-1)), maximum=Arr((1,), 'float32', lambda i: t.const(1)))
  cls = subclass(w, 'waymax.dynamics.DynamicsModel', compute_update=Native('compute_update', update), action_spec=Native('action_spec', spec),
                 inverse=Native('inverse', lambda *a, **k: (_ for _ in ()).throw(Gap('inverse of the stub'))))
  return Obj(cls)


def discretised(c):
  for b in ((), (B,)):
    for search in (False, True):
      w = c.world()
      tm = tau(b)
      for name, dyn, d in [('stub', searchable(w, b), 1)] if search else real_dynamics(w):
        if d == 5:
          continue
        kw = dict(bin_inverse=False) if search else {}
        dd = w.new('waymax.dynamics.DiscreteActionSpaceWrapper', dyn, int_array([1] if search else [4, 6, 3][:d]), **kw)
        tr, meta = w.traj('tr', b), w.meta('meta', b)
        label = f'discrete {name}[batch={len(b)},search={search}]'
        ok, act = c.run(w, 'inverse-total', label, lambda: w.m(dd, 'inverse', tr, meta, tm))
        if not ok:
          continue
        data, valid = asarr(field(act, 'data')), asarr(field(act, 'valid'))
        c.arr('validity', label, valid, pair_valid(tr, tm), shape=b + (N, 1), dtype='bool')
        c.check('int' in data.dtype and A.same_dim(data.shape[-1], 1), 'shape', f'{label} integer index', detail=(data.shape, data.dtype))
        frames_ok(c, f'{label} index', data.fn(ixs(data.shape)), tm.fn(()), data.origin)


def plan(c):
  """The planning dynamics infer the ego's action alone."""
  for b in ((), (B,)):
    w = c.world()
    tm = tau(b)
    for name, dyn, d in real_dynamics(w):
      e = ego(b)
      tr, meta = w.traj('tr', b), w.m(w.meta('meta', b), 'replace', is_sdc=one_hot(b, e))
      pd = w.new('waymax.env.PlanningAgentDynamics', dyn)
      ok, one = c.run(w, 'inverse-total', f'planning {name}', lambda: w.m(pd, 'inverse', tr, meta, tm))
      ok2, full = c.run(w, 'inverse-total', f'{name}', lambda: w.m(dyn, 'inverse', tr, meta, tm))
      if not (ok and ok2):
        continue
      for f in ('data', 'valid'):
        g, a = asarr(field(one, f)), asarr(field(full, f))
        i = ixs(g.shape)
        if not c.check(len(g.shape) == len(b) + 1, 'ego-only', f'planning {name}[batch={len(b)}] {f} shape', detail=g.shape):
          continue
        c.node('ego-only', f'planning {name}[batch={len(b)}] {f}', g.fn(i), a.fn(i[:len(b)] + (e(i),) + i[len(b):]))


def heading(c):
  """The turn an action infers is the heading change wrapped to half a turn."""
  from . import p07, p08
  for b in ((), (B,)):
    w = c.world()
    tm = tau(b)
    t0 = tm.fn(())
    for kind, k, src in (('bicycle', 1, p07), ('delta', 2, p08)):
      for name, dyn, *nums in src.models(w):
        tr = w.traj('tr', b)
        label = f'{kind} {name}[batch={len(b)}] turn'
        ok, act = c.run(w, 'inverse-total', label, lambda: w.m(dyn, 'inverse', tr, w.meta('m', b), tm))
        if not ok:
          continue
        data = asarr(field(act, 'data'))
        if not c.check(data.ndim == len(b) + 2, 'shape', f'{label} data', detail=data.shape):
          continue
        i = ixs(data.shape)[:-1] + (t.lift(k),)
        if kind == 'bicycle':
          dt, _, ms, norm = nums
          st = p07.want_inverse(tr, tm, dt, True)(i)[1]
          want = clipped(t.div(st, ms), t.const(-1), t.const(1)) if norm else clipped(st, t.neg(ms), ms)
        else:
          mw = nums[-1]
          g = lambda f, j: asarr(field(tr, f)).fn(i[:-1] + (t0 + j,))
          v = t.band(g('valid', 0), g('valid', 1))
          want = clipped(p08.wrap(t.ite(v, g('yaw', 1) - g('yaw', 0), t.ZERO)), t.neg(mw), mw)
        c.node('wrapped-turn', label, data.fn(i), want, where=data.origin)


PARTS = [('models', every), ('heading change', heading), ('discretised', discretised), ('planning', plan)]
