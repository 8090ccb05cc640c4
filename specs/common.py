"""Shared set-ups of the specifications."""
from wx import terms as t
from wx import arrays as A
from wx.arrays import Arr, asarr, Gap, ShapeErr
from wx.interp import Obj, Native, Phi, PyRaise, Cls, Opq
from wx.model import *  # noqa: F401,F403
from wx.model import N, T, B, R, L, cell, ixs, field, Missing, World, Checker

CONTROLLABLE = ['x', 'y', 'yaw', 'vel_x', 'vel_y']
CARRIED = ['z', 'length', 'width', 'height']


def subclass(w, base, **ns):
  """An instance-less stand-in class deriving from a class of the tree."""
  cls = w.get(base)
  out = Cls('Stub' + cls.name, cls.mod, [cls], dict(ns), cls.node)
  out.ann_src = {}
  return out


def stub_dynamics(w, b=(), rec=None, name='upd'):
  """Dynamics whose update is arbitrary: every field is a free input."""
  log = rec if rec is not None else []

  def compute_update(self, action, trajectory):
    log.append((action, trajectory))
    return w.update(b, action_n(action), name)
  cls = subclass(w, 'waymax.dynamics.DynamicsModel',
                 compute_update=Native('compute_update', compute_update))
  for n in w.it.abstracts(cls):
    cls.ns[n] = Native(n, lambda *a, n=n, **k: (_ for _ in ()).throw(Gap(f'stub dynamics {n} called')))
  return Obj(cls)


def action_n(action):
  return asarr(action.fields['data']).shape[-2]


def real_dynamics(w):
  """(name, instance, action width) for every concrete model and option."""
  out = []
  out.append(('bicycle', w.new('waymax.dynamics.InvertibleBicycleModel'), 2))
  out.append(('bicycle-normalized', w.new('waymax.dynamics.InvertibleBicycleModel', normalize_actions=True), 2))
  out.append(('delta-global', w.new('waymax.dynamics.DeltaGlobal'), 3))
  out.append(('delta-local', w.new('waymax.dynamics.DeltaLocal'), 3))
  out.append(('state', w.new('waymax.dynamics.StateDynamics'), 5))
  return out


def at_time(tr, f, idx, tt):
  """Cell of trajectory field f at object index idx (batch + object) and time tt."""
  return asarr(field(tr, f)).fn(tuple(idx) + (tt,))


def tnode(state, bidx=()):
  ts = asarr(field(state, 'timestep'))
  return ts.fn(tuple(bidx)[:ts.ndim])


def only_frame(c, rule, what, got, sim, tn, where=''):
  """got trajectory equals sim outside frame tn."""
  for f in sim.fields:
    s = asarr(field(sim, f))
    g = asarr(field(got, f))
    def want(*i, g=g, s=s):
      j = i[-1]
      return t.ite(t.eq(j, t.lift(tn(i))), g.fn(i), s.fn(i))
    c.arr(rule, f'{what}.{f} outside the written frame', g, want, shape=s.shape, dtype=s.dtype, where=where)


def env_config(w, **kw):
  kw.setdefault('max_num_objects', A.sym(N))
  return w.config(**kw)


KEEP = object()


def stub_actor(w, name, b=(), d=5, n=N, log=None, consume=False, nxt=KEEP):
  """An actor whose action, mask and next state are free inputs."""
  log = log if log is not None else []

  def use(pos, a, k):
    key = arg((0, a, k), pos, 'rng')
    if consume and key is not None:
      w.it.lib.use_key(key, f'{name}')
  out_cls = w.get('waymax.agents.WaymaxActorOutput')

  def init(self, *a, **k):
    use(0, a, k)
    log.append(('init', a, k))
    return {'s': cell(f'{name}.init', tuple(b) + (2,))}

  def select(self, *a, **k):
    use(3, a, k)
    r = out_cls_new(w, out_cls, dict(
        actor_state={'s': cell(f'{name}.next', tuple(b) + (2,))} if nxt is KEEP else nxt,
        action=w.action(d, b, n, f'{name}.act'),
        is_controlled=cell(f'{name}.ctl', tuple(b) + (n,), 'bool')))
    log.append(('select', a, k, r))
    return r
  cls = subclass(w, 'waymax.agents.WaymaxActorCore', init=Native('init', init),
                 select_action=Native('select_action', select), name=name)
  return Obj(cls)


def out_cls_new(w, cls, f):
  return w.it.construct(cls, [], f)


def arg(call, pos, name):
  """Argument of a recorded stub call, by position or keyword."""
  a, k = call[1], call[2]
  if name in k:
    return k[name]
  if pos < len(a):
    return a[pos]
  return None


def planning(w, b=(), nsim=0, dyn=None, injection=True, logs=None, batched_time=False, rec=None, n=N, consume=False, **cfg):
  """Planning environment with stub simulated agents and a state for it."""
  logs = logs if logs is not None else [[] for _ in range(nsim)]
  actors = [stub_actor(w, f'sim{k}', b, log=logs[k], n=n, consume=consume) for k in range(nsim)]
  params = [{'p': cell(f'par{k}', (3,))} for k in range(nsim)]
  env = w.new('waymax.env.PlanningAgentEnvironment', dyn if dyn is not None else stub_dynamics(w, b, rec),
              env_config(w, allow_new_objects_after_warmup=injection, max_num_objects=A.sym(n) if not isinstance(n, int) else n, **cfg), actors, params)
  base = w.state(b, batched_time=batched_time, n=n)
  cls = w.get('waymax.env.PlanningAgentSimulatorState')
  st = w.it.construct(cls, [], dict(base.fields, sim_agent_actor_states=[
      {'s': cell(f'sim{k}.state', tuple(b) + (2,))} for k in range(nsim)]))
  return env, st, params, logs


def discrete(w, inner=None, bins=None):
  """Discretised bicycle model with literal bin counts."""
  inner = inner if inner is not None else w.new('waymax.dynamics.InvertibleBicycleModel')
  return w.new('waymax.dynamics.DiscreteActionSpaceWrapper', inner, int_array(bins or [4, 6]))


def int_array(vals):
  a = A.Arr((len(vals),), 'int32', lambda idx: A.select_list(idx[0], [lambda v=v: t.lift(v) for v in vals]))
  a.concrete = True
  return a


def int_action(w, b, d, n=N, name='act'):
  a = w.action(d, b, n, name)
  old = asarr(a.fields['data'])
  a.fields['data'] = cell(f'{name}.data', old.shape, 'int32')
  return a


def all_classes(w):
  """Every class defined in the package's non-test modules."""
  import os
  root = w.it.root
  for d, _, fs in os.walk(os.path.join(root, 'waymax')):
    for f in fs:
      if f.endswith('.py') and not f.endswith('_test.py') and 'test' not in f:
        m = os.path.relpath(os.path.join(d, f), root)[:-3].replace('/', '.')
        if m.endswith('.__init__'):
          m = m[:-9]
        w.it.module(m)
  seen = {}
  for m in list(w.it.mods.values()):
    for v in list(getattr(m, 'ns', getattr(m, 'vars', {})).values()):
      if isinstance(v, Cls) and v.mod is m:
        seen[id(v)] = v
  return list(seen.values())


METRIC_CLASSES = {
    'log_divergence': 'imitation.LogDivergenceMetric', 'overlap': 'overlap.OverlapMetric',
    'offroad': 'roadgraph.OffroadMetric', 'kinematic_infeasibility': 'comfort.KinematicsInfeasibilityMetric',
    'sdc_wrongway': 'roadgraph.WrongWayMetric', 'sdc_progression': 'route.ProgressionMetric',
    'sdc_off_route': 'route.OffRouteMetric'}


def stub_metrics(w, b=(), n=N):
  """Replaces every metric computation by arbitrary values and validity."""
  mr = w.get('waymax.metrics.MetricResult')
  calls = []
  for name, path in METRIC_CLASSES.items():
    cls = w.get('waymax.metrics.' + path)
    shape = tuple(b) if name.startswith('sdc_') else tuple(b) + (n,)

    def compute(self, simulator_state, name=name, shape=shape):
      calls.append((name, simulator_state))
      return w.it.construct(mr, [], dict(value=cell(f'm.{name}', shape), valid=cell(f'm.{name}.ok', shape, 'bool')))
    cls.ns['compute'] = Native('compute', compute)
  return calls


def metric_cell(name, b=(), n=N):
  shape = tuple(b) if name.startswith('sdc_') else tuple(b) + (n,)
  return cell(f'm.{name}', shape), cell(f'm.{name}.ok', shape, 'bool')


class StubEnv:
  """Stand-in environment: records its calls; every result is a free input."""

  OPS = ('reset', 'step', 'observe', 'metrics', 'reward', 'termination', 'truncation', 'action_spec', 'reward_spec', 'discount_spec', 'observation_spec')

  def __init__(self, w, b=(), n=N, base='waymax.env.AbstractEnvironment', **fields):
    self.w, self.b, self.n, self.k, self.calls = w, tuple(b), n, 0, []
    cls = subclass(w, base)
    for a in w.it.abstracts(cls):
      cls.ns[a] = Native(a, lambda *x, a=a, **k: (_ for _ in ()).throw(Gap(f'stand-in environment {a} called')))
    for op in self.OPS:
      cls.ns[op] = Native(op, lambda slf, *a, op=op, **k: self.do(op, a, k))
    self.env = Obj(cls)
    self.env.fields.update(fields)

  def do(self, op, a, k):
    self.k += 1
    b, w, i = self.b, self.w, self.k
    if op in ('reset', 'step'):
      r = w.state(b, batched_time=True, timestep=cell(f'{op}{i}.t', b, 'int32'))
      r.fields['sim_trajectory'] = w.traj(f'{op}{i}', b)
    elif op == 'observe':
      r = cell(f'obs{i}', b + (3,))
    elif op == 'metrics':
      mr = w.get('waymax.metrics.MetricResult')
      r = {'overlap': w.it.construct(mr, [], dict(value=cell(f'met{i}', b + (self.n,)), valid=cell(f'met{i}.ok', b + (self.n,), 'bool')))}
    elif op == 'reward':
      r = cell(f'reward{i}', b + (self.n,))
    elif op in ('termination', 'truncation'):
      r = cell(f'{op}{i}', b, 'bool')
    else:
      shape = {'reward_spec': (A.sym(self.n),), 'discount_spec': (), 'action_spec': (A.sym(self.n), 3), 'observation_spec': (3,)}[op]
      r = Opq('dm_env.specs.Array', [], dict(shape=shape, dtype=w.it.getattr(w.it.import_('jax.numpy'), 'float32')), call=True)
    self.calls.append((op, a, k, r))
    return r

  def of(self, op, start=0):
    return [x for x in self.calls[start:] if x[0] == op]


def call_arg(call, pos, *names):
  """Argument of a StubEnv call by position or by any of its names."""
  _, a, k, _ = call
  for n in names:
    if n in k:
      return k[n]
  return a[pos] if pos < len(a) else None


def ego(b):
  """Arbitrary ego position: one in-range index per batch element."""
  t.IN_BOUND['ego'] = A.dv(N)
  nb = len(b)
  return lambda i: t.inp('ego', *i[:nb], isint=True)


def one_hot(b, e):
  return Arr(tuple(b) + (N,), 'bool', lambda i: t.eq(i[-1], e(i)))


def one_ego(w, b, st):
  """The state with exactly one ego object, and its position."""
  e = ego(b)
  return w.m(st, 'replace', object_metadata=w.m(field(st, 'object_metadata'), 'replace', is_sdc=one_hot(b, e))), e


def box_predicate(w):
  """Lets the box intersection test stand for any symmetric predicate of two
  boxes (its own formula is decided in p31); restore() puts the code back."""
  mod = w.it.module('waymax.utils.geometry')
  real, used = mod.ns.get('has_overlap'), []
  if real is None:
    return used, lambda: None

  def test(x, y):
    x, y = asarr(x), asarr(y)
    if x.shape != y.shape or x.shape[-1:] != (5,):
      raise ShapeErr(f'box shapes {x.shape} and {y.shape}')
    used.append(1)
    g = lambda u, v, i: t.fn('overlap', *[q.fn(tuple(i) + (t.lift(k),)) for q in (u, v) for k in range(5)], sort='b')
    return Arr(x.shape[:-1], 'bool', lambda i: t.bor(g(x, y, i), g(y, x, i)))
  mod.ns['has_overlap'] = Native('has_overlap', test)

  def restore():
    mod.ns['has_overlap'] = real
  return used, restore
