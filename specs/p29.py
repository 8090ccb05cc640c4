"""Class-hierarchy signature analysis of every override, instantiability of
every leaf class, and congruence of positional with keyword calls and of
wrapper operations with those of the wrapped object."""
from .catalog import *
from wx.interp import Prop, Func, SMeth, CMeth
from wx.lib import tree_leaves

FLOOR = 1150
ASSUME = ['the dm_env.Environment interface is the published one']
# interface -> base-class path; each must exist and have implementations
IFACES = ['waymax.env.AbstractEnvironment', 'waymax.dynamics.DynamicsModel', 'waymax.metrics.AbstractMetric', 'waymax.agents.WaymaxActorCore',
          'waymax.agents.SimAgentActor', 'waymax.agents.WaypointFollowingPolicy', 'waymax.rewards.AbstractRewardFunction']
DM = {'reset': (), 'step': ('action',), 'reward_spec': (), 'discount_spec': (), 'observation_spec': (), 'action_spec': ()}


def plain(v):
  return v.fget if isinstance(v, Prop) else v.f if isinstance(v, (SMeth, CMeth)) else v


def kind(v):
  return 'property' if isinstance(v, Prop) else 'static' if isinstance(v, SMeth) else 'class' if isinstance(v, CMeth) else 'method'


class Sig:
  def __init__(self, f):
    a = f.node.args
    self.pos = [x.arg for x in a.posonlyargs + a.args]
    self.ponly = len(a.posonlyargs)
    self.kw = [x.arg for x in a.kwonlyargs]
    self.va, self.vk = a.vararg is not None, a.kwarg is not None
    ds = list(f.defaults)
    self.default = dict(zip(self.pos[len(self.pos) - len(ds):], ds))
    self.kwdefault = dict(f.kwdefaults or {})

  def __repr__(self):
    return f'({", ".join(self.pos + ["*"] * bool(self.kw) + self.kw)})'


def clash(p, q):
  """Why a call legal on p would be wrong on q (None: compatible)."""
  for i, n in enumerate(p.pos):
    if i >= len(q.pos):
      if not (q.va and (q.vk or n in q.kw)):
        return f'no parameter for {n}'
      continue
    if i and q.pos[i] != n and not (i < p.ponly):
      return f'parameter {i} is {q.pos[i]} instead of {n}'
    if i and i < q.ponly and i >= p.ponly:
      return f'{n} cannot be passed by name'
    if n in p.default and q.pos[i] not in q.default:
      return f'{n} lost its default'
    if n in p.default:
      a, b = p.default[n], q.default[q.pos[i]]
      if isinstance(a, (bool, int, float, str, type(None))) and isinstance(b, (bool, int, float, str, type(None))) and a != b:
        return f'{n} defaults to {b!r} instead of {a!r}'
  for n in q.pos[len(p.pos):]:
    if n not in q.default and n not in p.kw:
      return f'additional required parameter {n}'
  for n in p.kw:
    if n not in q.kw and n not in q.pos and not q.vk:
      return f'no parameter for {n}'
  for n in q.kw:
    if n not in q.kwdefault and n not in p.kw:
      return f'additional required parameter {n}'
  if p.va and not q.va or p.vk and not q.vk:
    return 'extra arguments are not accepted'
  return None


def at(f):
  return f'{f.mod.path if hasattr(f.mod, "path") else f.mod.name}:{f.node.lineno}' if isinstance(f, Func) else ''


def signatures(c):
  w = c.world()
  classes = all_classes(w)
  n = {}
  for cls in classes:
    for base in cls.mro()[1:]:
      if not isinstance(base, Cls):
        continue
      for name, v in base.ns.items():
        if name.startswith('_') and name != '__call__' or not isinstance(plain(v), Func):
          continue
        iv, owner = cls.lookup(name)
        if owner is base or base not in owner.mro():
          continue
        lb = f'{cls.name}.{name} as {base.name}.{name}'
        if not c.check(kind(iv) == kind(v), 'override', f'{lb}: {kind(v)}', at(plain(iv)), f'is a {kind(iv)}'):
          continue
        f = plain(iv)
        if not isinstance(f, Func):
          c.gap('override', lb, f'{f!r}')
          continue
        why = clash(Sig(plain(v)), Sig(f))
        c.check(why is None, 'override', lb, at(f), why)
        n[base.name] = n.get(base.name, 0) + 1
  for path in IFACES:
    c.check(n.get(w.get(path).name, 0) > 0, 'override', f'{path} has implementations')
  wrap = w.get('waymax.env.DMEnvWrapper')
  for op, ps in DM.items():
    f, _ = wrap.lookup(op)
    if c.check(isinstance(f, Func), 'override', f'DMEnvWrapper.{op} implements dm_env.Environment'):
      s = Sig(f)
      c.check(s.pos[1:1 + len(ps)] == list(ps) and all(x in s.default for x in s.pos[1 + len(ps):]), 'override', f'DMEnvWrapper.{op} as dm_env.Environment.{op}', at(f), f'{s}')
  brax, env = w.get('waymax.env.BraxWrapper'), w.get('waymax.env.AbstractEnvironment')
  for op in ('observe', 'metrics', 'reward', 'termination', 'truncation', 'action_spec', 'reward_spec', 'discount_spec', 'observation_spec'):
    f, g = brax.lookup(op)[0], env.lookup(op)[0]
    if c.check(isinstance(f, Func), 'override', f'BraxWrapper offers {op}'):
      why = clash(Sig(g), Sig(f))
      c.check(why is None, 'override', f'BraxWrapper.{op} as AbstractEnvironment.{op}', at(f), why)


def complete(c):
  """A class nobody derives from leaves no operation of its interface open."""
  w = c.world()
  classes = all_classes(w)
  parents = {id(b) for k in classes for b in k.mro()[1:]}
  seen = set()
  for k in classes:
    if id(k) in parents or not any(isinstance(b, Cls) and w.it.abstracts(b) for b in k.mro()[1:]):
      continue
    left = w.it.abstracts(k)
    c.check(not left, 'complete', f'{k.name} implements its whole interface', f'{k.mod.name}', f'missing {left}')
    seen.add(k.name)
  for k in classes:
    if id(k) in parents and any(isinstance(b, Cls) and w.it.abstracts(b) for b in k.mro()[1:]) and not k.name.startswith(('Abstract', 'SimAgentActor', 'WaypointFollowing', 'DynamicsModel', 'WaymaxActorCore')):
      left = w.it.abstracts(k)
      c.check(not left, 'complete', f'{k.name} implements its whole interface', f'{k.mod.name}', f'missing {left}')
  for name in ('InvertibleBicycleModel', 'DeltaLocal', 'StateDynamics', 'DiscreteActionSpaceWrapper', 'PlanningAgentDynamics', 'BaseEnvironment', 'PlanningAgentEnvironment',
               'LinearCombinationReward', 'FrozenSimPolicy', 'IDMRoutePolicy'):
    k = [x for x in classes if x.name == name]
    c.check(k and not w.it.abstracts(k[0]), 'complete', f'{name} can be constructed')


def names_of(w, path, op):
  f = plain(w.get(path).lookup(op)[0])
  return Sig(f).pos[1:]


def forms(c):
  """Every operation called by position, by name and mixed gives one result."""
  for b in ((), (B,)):
    w = c.world()
    st = w.state(b)
    sim, log, meta, ts = (field(st, f) for f in ('sim_trajectory', 'log_trajectory', 'object_metadata', 'timestep'))
    ctl = cell('ctl', b + (N,), 'bool')
    jobs = []
    dm = 'waymax.dynamics.DynamicsModel'
    for nm, dyn, d in models(w):
      act = mk_action(w, nm, b, d)
      jobs += [(dyn, dm, 'compute_update', (act, w.traj('cur', b, N, 1)), nm), (dyn, dm, 'inverse', (sim, meta, ts), nm),
               (dyn, dm, 'forward', (act, sim, log, ctl, ts, True), nm), (dyn, dm, 'forward', (act, sim, log, ctl, ts), nm)]
    pd = w.new('waymax.env.planning_agent_environment.PlanningAgentDynamics', w.new('waymax.dynamics.StateDynamics'))
    jobs += [(pd, dm, 'forward', (w.action(5, b, None), sim, log, ctl, ts, True), 'planning'), (pd, dm, 'inverse', (sim, meta, ts), 'planning')]
    for nm, path in METRIC_CLASSES.items():
      jobs.append((w.new('waymax.metrics.' + path), 'waymax.metrics.AbstractMetric', 'compute', (st,), nm))
    rf = w.new('waymax.rewards.LinearCombinationReward', w.config('LinearCombinationRewardConfig', rewards={'overlap': -1.0}))
    jobs.append((rf, 'waymax.rewards.AbstractRewardFunction', 'compute', (st, w.action(3, b), ctl), 'linear'))
    k = key()
    cn = Native('ctl', lambda s: field(field(s, 'object_metadata'), 'is_modeled'))
    core = 'waymax.agents.WaymaxActorCore'
    for nm, a in (('expert', w.call('waymax.agents.create_expert_actor', w.new('waymax.dynamics.DeltaGlobal'), cn)),
                  ('constant speed', w.call('waymax.agents.create_constant_speed_actor', w.new('waymax.dynamics.StateDynamics'), cn)),
                  ('frozen', w.new('waymax.agents.FrozenSimPolicy', cn)), ('idm', w.new('waymax.agents.IDMRoutePolicy', cn))):
      jobs += [(a, core, 'init', (k, st), nm), (a, core, 'select_action', ({}, st, None, k), nm)]
    for nm, a in (('frozen', w.new('waymax.agents.FrozenSimPolicy', cn)), ('idm', w.new('waymax.agents.IDMRoutePolicy', cn))):
      jobs.append((a, 'waymax.agents.SimAgentActor', 'update_trajectory', (st,), nm))
    jobs += [(w.new('waymax.agents.IDMRoutePolicy', cn), 'waymax.agents.WaypointFollowingPolicy', 'update_speed', (st,), 'idm'),
             (w.new('waymax.agents.constant_speed.ConstantSpeedPolicy', 3.0), 'waymax.agents.WaypointFollowingPolicy', 'update_speed', (st, 0.2), 'constant speed')]
    ae = 'waymax.env.AbstractEnvironment'
    dyn = w.new('waymax.dynamics.DeltaGlobal')
    env = w.new('waymax.env.MultiAgentEnvironment', dyn, env_config(w))
    pe, pst, _, _ = planning(w, b, 1, dyn=w.new('waymax.dynamics.DeltaGlobal'))
    for nm, e, s, act in (('multi', env, st, w.action(3, b)), ('planning', pe, pst, w.action(3, b, None))):
      jobs += [(e, ae, 'step', (s, act), nm), (e, ae, 'reward', (s, act), nm)] + [(e, ae, op, (s,), nm) for op in ('metrics', 'observe', 'termination', 'truncation', 'reset')]
    for o, path, op, args, nm in jobs:
      lb = f'{nm}.{op}({len(args)}, batch {len(b)})'
      names = names_of(w, path, op)
      ok, base = c.run(w, 'call-forms', f'{lb} by position', lambda: w.m(o, op, *args))
      if not ok:
        continue
      ok, by = c.run(w, 'call-forms', f'{lb} by name', lambda: w.m(o, op, **dict(zip(names, args))))
      if ok and nm != 'idm':
        c.tree_same('call-forms', f'{lb} by name', by, base)
      if len(args) > 1:
        ok, by = c.run(w, 'call-forms', f'{lb} mixed', lambda: w.m(o, op, args[0], **dict(zip(names[1:], args[1:]))))
        if ok and nm != 'idm':
          c.tree_same('call-forms', f'{lb} mixed', by, base)


def is_same(a, b):
  return a is b or isinstance(a, Arr) and isinstance(b, Arr) and Checker('x').arr('s', 's', a, b.fn, shape=b.shape) is not False


def forwards(c):
  """A wrapper's operation is the wrapped object's operation on the same arguments."""
  for b in ((), (B,)):
    w = c.world()
    st, act = w.state(b), w.action(3, b)
    for path, mk in (('waymax.env.BraxWrapper', lambda e: w.new('waymax.env.BraxWrapper', e, w.new('waymax.dynamics.DeltaGlobal'), env_config(w))),
                     ('waymax.env.DMEnvWrapper', lambda e: w.new('waymax.env.DMEnvWrapper', iter_of(w, st), e))):
      ops = [('observe', (st,)), ('reward_spec', ()), ('discount_spec', ())]
      if 'Brax' in path:
        ops += [('metrics', (st,)), ('reward', (st, act)), ('termination', (st,)), ('truncation', (st,)), ('action_spec', ()), ('observation_spec', ())]
      for op, args in ops:
        sim = StubEnv(w, b)
        ok, wr = c.run(w, 'forward', f'{path} built', lambda: mk(sim.env))
        if not ok:
          continue
        n0 = len(sim.calls)
        ok, r = c.run(w, 'forward', f'{wr.cls.name}.{op}', lambda: w.m(wr, op, *args))
        if not ok:
          continue
        new = sim.of(op, n0)
        lb = f'{wr.cls.name}.{op} (batch {len(b)})'
        if c.check(len(new) == 1, 'forward', f'{lb} asks the wrapped environment once', detail=f'{[x[0] for x in sim.calls[n0:]]}'):
          got = list(new[0][1]) + list(new[0][2].values())
          c.check(len(got) == len(args) and all(x is y for x, y in zip(got, args)), 'forward', f'{lb} passes its arguments on')
          if isinstance(r, Opq) or isinstance(new[0][3], Opq):
            c.check(r is new[0][3], 'forward', f'{lb} returns the answer')
          else:
            c.tree_same('forward', f'{lb} returns the answer', r, new[0][3])
    planning_dynamics(c, w, b)


def iter_of(w, st):
  from wx.lib import IterVal
  return IterVal([st] * 4)


def planning_dynamics(c, w, b):
  """The single-object dynamics forwards every operation a model may override."""
  st = w.state(b)
  sim, log, meta, ts = (field(st, f) for f in ('sim_trajectory', 'log_trajectory', 'object_metadata', 'timestep'))
  ctl = cell('ctl', b + (N,), 'bool')
  act = w.action(3, b, None)
  calls = []
  multi = w.action(3, b, N, 'multi')

  def stub(op, ret):
    return Native(op, lambda slf, *a, **k: (calls.append((op, a, k)), ret)[1])
  base = w.get('waymax.dynamics.DynamicsModel')
  upd, out, spec = w.update(b, N, 'u'), w.traj('out', b), cell('spec', (3,))
  ops = {'compute_update': upd, 'forward': out, 'inverse': multi, 'action_spec': spec}
  known = [n for n, v in base.ns.items() if isinstance(v, Func) and not n.startswith('_')]
  cls = subclass(w, 'waymax.dynamics.DynamicsModel', **{n: stub(n, r) for n, r in ops.items()})
  for n in w.it.abstracts(cls):
    cls.ns[n] = Native(n, lambda *a, n=n, **k: (_ for _ in ()).throw(Gap(f'stand-in dynamics {n} called')))
  pd_cls = w.get('waymax.env.planning_agent_environment.PlanningAgentDynamics')
  for n in known:
    c.check(pd_cls.lookup(n)[1] is not base, 'forward', f'PlanningAgentDynamics forwards {n}', base.mod.name, 'the inherited version ignores the wrapped model')
  pd = w.new('waymax.env.planning_agent_environment.PlanningAgentDynamics', Obj(cls))
  cur = w.traj('cur', b, N, 1)
  for op, args in (('compute_update', (act, cur)), ('forward', (act, sim, log, ctl, ts, True)), ('forward', (act, sim, log, ctl, ts, False)), ('forward', (act, sim, log, ctl, ts)),
                   ('inverse', (sim, meta, ts)), ('action_spec', ())):
    calls.clear()
    lb = f'PlanningAgentDynamics.{op}({len(args)}, batch {len(b)})'
    ok, r = c.run(w, 'forward', lb, lambda: w.m(pd, op, *args))
    if not ok:
      continue
    if not c.check([x[0] for x in calls] == [op], 'forward', f'{lb} asks the wrapped model once', detail=f'{[x[0] for x in calls]}'):
      continue
    names = Sig(plain(base.lookup(op)[0])).pos[1:]
    call = calls[0]
    for i, (n, v) in enumerate(zip(names, args)):
      g = arg(call, i, n)
      if v is act:
        i3 = ixs(b + (N,))
        for f, k in (('data', 3), ('valid', 1)):
          ga = asarr(field(g, f))
          c.check(ga.ndim == len(b) + 2, 'forward', f'{lb} {f} of every object') and c.node(
              'forward', f'{lb} hands the {f} to every object', ga.fn(i3 + (t.const(0),)), asarr(field(act, f)).fn(i3[:-1] + (t.const(0),)))
      elif isinstance(v, bool):
        c.check(g is v, 'forward', f'{lb} passes {n}', detail=f'{g!r}')
      else:
        c.tree_same('forward', f'{lb} passes {n}', g, v)
    if op == 'forward' and len(args) == 5:
      g = arg(call, 5, 'allow_object_injection')
      c.check(g is None or g is False, 'forward', f'{lb} leaves object injection off', detail=f'{g!r}')
    if op != 'inverse':
      c.check(r is ops[op], 'forward', f'{lb} returns the answer') if not isinstance(r, Arr) else c.tree_same('forward', f'{lb} returns the answer', r, ops[op])


PARTS = [('signatures', signatures), ('complete', complete), ('call forms', forms), ('forwarding', forwards)]
