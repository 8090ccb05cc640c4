"""Every public operation of the simulation packages on symbolic inputs.

ops(w, b) yields (label, inputs, thunk): `inputs` is everything the caller can
see (arguments, receivers, closures); the thunk performs one operation.
"""
from .common import *

MODELS = ['bicycle', 'bicycle-normalized', 'delta-global', 'delta-local', 'state', 'discrete']


def models(w):
  return real_dynamics(w) + [('discrete', discrete(w), 1)]


def mk_action(w, nm, b, d, n=N):
  return int_action(w, b, d, n) if nm == 'discrete' else w.action(d, b, n)


ALL = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility', 'sdc_wrongway', 'sdc_progression', 'sdc_off_route')


def key(name='key'):
  return cell(name, (2,), 'uint32')


def dynamics_ops(w, b):
  for nm, dyn, d in models(w):
    st = w.state(b)
    act = mk_action(w, nm, b, d)
    tr = w.m(st, 'replace')
    inp = dict(dyn=dyn, state=st, act=act)
    yield f'{nm}.action_spec', inp, lambda dyn=dyn: w.m(dyn, 'action_spec')
    yield f'{nm}.compute_update', inp, lambda dyn=dyn, act=act: w.m(dyn, 'compute_update', act, w.traj('cur', b, N, 1))
    yield f'{nm}.inverse', inp, lambda dyn=dyn, st=st: w.m(dyn, 'inverse', field(st, 'sim_trajectory'), field(st, 'object_metadata'), field(st, 'timestep'))
    for inj in (False, True):
      ctl = cell('ctl', b + (N,), 'bool')
      yield f'{nm}.forward[inj={inj}]', dict(inp, ctl=ctl), lambda dyn=dyn, act=act, st=st, ctl=ctl, inj=inj: w.m(
          dyn, 'forward', action=act, trajectory=field(st, 'sim_trajectory'), reference_trajectory=field(st, 'log_trajectory'),
          is_controlled=ctl, timestep=field(st, 'timestep'), allow_object_injection=inj)


def env_ops(w, b):
  names = ALL
  for ctl in ('SDC', 'MODELED', 'VALID'):
    for inj in (False, True):
      for nm, dyn, d in models(w):
        if ctl != 'SDC' and nm != 'bicycle':
          continue
        cfg = env_config(w, controlled_object=w.enum('waymax.config.ObjectType', ctl), allow_new_objects_after_warmup=inj,
                         metrics=w.config('MetricsConfig', metrics_to_run=names), init_steps=A.sym(t.dim('I')),
                         rewards=w.config('LinearCombinationRewardConfig', rewards={'overlap': -1.0, 'log_divergence': 0.5}))
        env = w.new('waymax.env.MultiAgentEnvironment', dyn, cfg)
        st, act = w.state(b), mk_action(w, nm, b, d)
        inp = dict(env=env, state=st, act=act)
        lb = f'MultiAgent[{nm},{ctl},inj={inj}]'
        yield f'{lb}.step', inp, lambda env=env, st=st, act=act: w.m(env, 'step', st, act)
        if nm != 'bicycle':
          continue
        for op in ('reset', 'observe', 'metrics', 'termination', 'truncation'):
          yield f'{lb}.{op}', inp, lambda env=env, st=st, op=op: w.m(env, op, st)
        yield f'{lb}.reward', inp, lambda env=env, st=st, act=act: w.m(env, 'reward', st, act)
        for op in ('action_spec', 'reward_spec', 'discount_spec'):
          yield f'{lb}.{op}', inp, lambda env=env, op=op: w.m(env, op)
  for nm, dyn, d in models(w):
    for nsim in (0, 2):
      env, st, params, logs = planning(w, b, nsim, dyn=dyn, metrics=w.config('MetricsConfig', metrics_to_run=names),
                                       rewards=w.config('LinearCombinationRewardConfig', rewards={'overlap': -1.0, 'sdc_progression': 0.5}))
      act = mk_action(w, nm, b, d, None)
      k = key()
      inp = dict(env=env, state=st, act=act, key=k)
      lb = f'Planning[{nm},sims={nsim}]'
      yield f'{lb}.step', inp, lambda env=env, st=st, act=act: w.m(env, 'step', st, act)
      yield f'{lb}.step with key', inp, lambda env=env, st=st, act=act, k=k: w.m(env, 'step', st, act, k)
      if nm != 'bicycle':
        continue
      base = w.state(b)
      yield f'{lb}.reset', dict(inp, base=base), lambda env=env, base=base: w.m(env, 'reset', base)
      yield f'{lb}.reset with key', dict(inp, base=base), lambda env=env, base=base, k=k: w.m(env, 'reset', base, k)
      for op in ('observe', 'metrics', 'termination', 'truncation'):
        yield f'{lb}.{op}', inp, lambda env=env, st=st, op=op: w.m(env, op, st)
      yield f'{lb}.reward', inp, lambda env=env, st=st, act=act: w.m(env, 'reward', st, act)
      for op in ('action_spec', 'reward_spec', 'discount_spec'):
        yield f'{lb}.{op}', inp, lambda env=env, op=op: w.m(env, op)


def wrapper_ops(w, b):
  dyn = w.new('waymax.dynamics.DeltaGlobal')
  cfg = env_config(w)
  env = w.new('waymax.env.MultiAgentEnvironment', dyn, cfg)
  br = w.new('waymax.env.BraxWrapper', env, dyn, cfg)
  st, act = w.state(b), w.action(3, b)
  inp = dict(env=br, state=st, act=act)
  yield 'Brax.reset', inp, lambda: w.m(br, 'reset', st)
  yield 'Brax.step', inp, lambda: w.m(br, 'step', w.it.freeze(w.m(br, 'reset', st), 'timestep'), act)
  for op in ('metrics', 'observe', 'termination', 'truncation'):
    yield f'Brax.{op}', inp, lambda op=op: w.m(br, op, st)
  yield 'Brax.reward', inp, lambda: w.m(br, 'reward', st, act)
  for op in ('action_spec', 'reward_spec', 'discount_spec'):
    yield f'Brax.{op}', inp, lambda op=op: w.m(br, op)


def rollout_ops(w, b):
  for nm in ('delta-global', 'state'):
    dyn = dict((n, x) for n, x, _ in real_dynamics(w))[nm]
    env = w.new('waymax.env.MultiAgentEnvironment', dyn, env_config(w))
    st, k = w.state(b), key()
    inp = dict(env=env, state=st, key=k)
    actor = stub_actor(w, 'actor', b, d=3 if nm != 'state' else 5)
    for n in (1, 3):
      yield f'rollout[{nm},steps={n}]', dict(inp, actor=actor), lambda actor=actor, env=env, st=st, k=k, n=n: w.call(
          'waymax.env.rollout.rollout', st, actor, env, k, n, {'p': cell('par', (3,))})
    yield f'rollout_log_by_expert_sdc[{nm}]', inp, lambda env=env, st=st, dyn=dyn: w.call(
        'waymax.env.rollout.rollout_log_by_expert_sdc', st, env, dyn, 2)


def agent_ops(w, b):
  st, k = w.state(b), key()
  ctl = Native('ctl', lambda s: field(field(s, 'object_metadata'), 'is_modeled'))
  agents = []
  for nm, dyn, d in models(w):
    agents.append((f'expert[{nm}]', w.call('waymax.agents.create_expert_actor', dyn, ctl)))
    agents.append((f'constant_speed[{nm}]', w.call('waymax.agents.create_constant_speed_actor', dyn, ctl)))
  agents.append(('constant_speed[5]', w.call('waymax.agents.create_constant_speed_actor', w.new('waymax.dynamics.StateDynamics'), ctl, 5.0)))
  agents.append(('ConstantSpeedPolicy', w.new('waymax.agents.constant_speed.ConstantSpeedPolicy', 3.0)))
  agents.append(('FrozenSimPolicy', w.new('waymax.agents.FrozenSimPolicy', ctl)))
  agents.append(('IDM', w.new('waymax.agents.IDMRoutePolicy', ctl)))
  agents.append(('IDM[log]', w.new('waymax.agents.IDMRoutePolicy', ctl, lookahead_from_current_position=False, invalidate_on_end=True)))
  for o in ('SDC', 'NON_SDC'):
    agents.append((f'built[{o}]', w.call('waymax.agents.create_sim_agents_from_config', w.config(
        'SimAgentConfig', agent_type=w.enum('waymax.config.SimAgentType', 'IDM'), controlled_objects=w.enum('waymax.config.ObjectType', o)))))
  for nm, a in agents:
    inp = dict(agent=a, state=st, key=k)
    yield f'{nm}.init', inp, lambda a=a: w.m(a, 'init', k, st)
    yield f'{nm}.select_action', inp, lambda a=a: w.m(a, 'select_action', {}, st, None, k)
    yield f'{nm}.name', inp, lambda a=a: w.attr(a, 'name')
  out = w.get('waymax.agents.WaymaxActorOutput')
  outs = [out_cls_new(w, out, dict(actor_state=None, action=w.action(3, b, name=f'a{j}'), is_controlled=cell(f'c{j}', b + (N,), 'bool'))) for j in range(3)]
  for n in (1, 2, 3):
    yield f'merge_actions({n})', dict(outs=outs), lambda n=n: w.call('waymax.agents.merge_actions', outs[:n])


def metric_ops(w, b):
  st = w.state(b)
  for nm, path in METRIC_CLASSES.items():
    m = w.new('waymax.metrics.' + path)
    yield f'{nm}.compute', dict(metric=m, state=st), lambda m=m: w.m(m, 'compute', st)
  cfg = w.config('MetricsConfig', metrics_to_run=ALL)
  yield 'run_metrics', dict(state=st, cfg=cfg), lambda: w.call('waymax.metrics.run_metrics', st, cfg)
  yield 'get_metric_names', {}, lambda: w.call('waymax.metrics.get_metric_names')
  for names in (('overlap', 'offroad'), ()):
    rf = w.new('waymax.rewards.LinearCombinationReward', w.config('LinearCombinationRewardConfig', rewards={n: 1.0 for n in names}))
    act, mask = w.action(3, b), cell('mask', b + (N,), 'bool')
    yield f'reward[{len(names)}]', dict(rf=rf, state=st, act=act, mask=mask), lambda rf=rf, act=act, mask=mask: w.m(rf, 'compute', st, act, mask)


def container_ops(w, b):
  st = w.state(b, batched_time=True)
  tr, meta, tl, road, paths = (field(st, f) for f in ('sim_trajectory', 'object_metadata', 'log_traffic_light', 'roadgraph_points', 'sdc_paths'))
  act = w.action(3, b)
  upd = w.update(b)
  ma = w.it.construct(w.get('waymax.datatypes.array.MaskedArray'), [], dict(value=cell('ma', b + (N,)), valid=cell('ma.ok', b + (N,), 'bool')))
  objs = dict(SimulatorState=st, Trajectory=tr, ObjectMetadata=meta, TrafficLights=tl, RoadgraphPoints=road, Paths=paths,
              Action=act, TrajectoryUpdate=upd, MaskedArray=ma)
  for nm, o in objs.items():
    for p in public(w, o.cls):
      kind, _ = p
      name = p[1]
      if kind == 'prop':
        yield f'{nm}.{name}', {nm: o}, lambda o=o, name=name: w.attr(o, name)
      elif kind == 'method0':
        yield f'{nm}.{name}()', {nm: o}, lambda o=o, name=name: w.m(o, name)
    yield f'{nm} == {nm}', {nm: o}, lambda o=o: w.it.call(w.attr(o, '__eq__'), [o], {})
  yield 'Trajectory.stack_fields', dict(tr=tr), lambda: w.m(tr, 'stack_fields', ['x', 'y', 'yaw'])
  yield 'Trajectory.zeros', {}, lambda: w.m(w.get('waymax.datatypes.Trajectory'), 'zeros', [A.sym(N), A.sym(T)])


def public(w, cls):
  from wx.interp import Prop, Func, CMeth, SMeth
  seen = {}
  for c in cls.mro():
    if not isinstance(c, Cls):
      continue
    for n, v in c.ns.items():
      if n.startswith('_') or n in seen:
        continue
      if isinstance(v, Prop):
        seen[n] = 'prop'
      elif isinstance(v, Func):
        a = v.node.args
        need = len(a.posonlyargs) + len(a.args) - len(a.defaults)
        seen[n] = 'method0' if need <= 1 else 'method'
  return [(k, n) for n, k in sorted(seen.items())]


def helper_ops(w, b):
  st = w.state(b, roadgraph_points=w.road('road', b, t.dim('RR', 4000)))
  tr, road, tl = field(st, 'sim_trajectory'), field(st, 'roadgraph_points'), field(st, 'log_traffic_light')
  D = 'waymax.datatypes.'
  for op, args in {
      'dynamic_slice': (tr, field(st, 'timestep'), 1, -1), 'dynamic_index': (tr, field(st, 'timestep'), -1, True),
      'select_by_onehot': (tr, field(field(st, 'object_metadata'), 'is_sdc')[..., None] if False else cell('oh', b + (N, T), 'bool'), True),
      'update_by_mask': (tr, w.traj('other', b), cell('mask', b + (N, T), 'bool')),
      'make_invalid_data': (tr,), 'fill_invalid_trajectory': (tr,),
      'masked_mean': (cell('mm', b + (N, T)), cell('mm.ok', b + (N, T), 'bool'), -1),
      'update_by_slice_in_dim': (tr, w.traj('other', b), A.sym(t.inp('k', isint=True)) if False else cell('k', (), 'int32'), cell('k2', (), 'int32'), 1, -1),
      'compare_all_leaf_nodes': (tr, w.traj('other', b)),
      'get_control_mask': (field(st, 'object_metadata'), w.enum('waymax.config.ObjectType', 'SDC')),
      'update_state_by_log': (st, 1), 'update_state_by_dynamics_trajectory': None,
  }.items():
    if args is None:
      continue
    def thunk(op=op, args=args):
      for mod in (D, D + 'operations.', D + 'simulator_state.', D + 'object_state.'):
        try:
          f = w.get(mod + op)
        except Missing:
          continue
        if op == 'make_invalid_data':
          return w.call(f, field(args[0], 'x'))
        return w.call(f, *args)
      raise Missing(op)
    yield f'datatypes.{op}', dict(args=[a for a in args]), thunk
  e = cell('pose', b + (2,))
  yaw = cell('pose.yaw', b)
  pose = w.it.construct(w.get('waymax.datatypes.observation.ObjectPose2D'), [], dict(
      original_xy=e, original_yaw=yaw, matrix=cell('pose.m', b + (3, 3)), delta_yaw=cell('pose.d', b), valid=cell('pose.ok', b, 'bool')))
  yield 'observation_from_state', dict(st=st), lambda: w.call('waymax.datatypes.observation_from_state', st)
  yield 'observation_from_state[local]', dict(st=st), lambda: w.call('waymax.datatypes.observation_from_state', st, 10, 20, 'coordinate_frame' and w.enum('waymax.config.CoordinateFrame', 'OBJECT') if False else w.enum('waymax.config.CoordinateFrame', 'OBJECT'))
  yield 'sdc_observation_from_state', dict(st=st), lambda: w.call('waymax.datatypes.sdc_observation_from_state', st)
  yield 'global_observation_from_state', dict(st=st), lambda: w.call('waymax.datatypes.observation.global_observation_from_state', st, 1)
  yield 'filter_topk_roadgraph_points', dict(road=road, e=e), lambda: w.call(
      'waymax.datatypes.roadgraph.filter_topk_roadgraph_points', road, e, 5)
  G = 'waymax.utils.geometry.'
  boxes = cell('box', b + (N, 5))
  yield 'geometry.compute_pairwise_overlaps', dict(boxes=boxes), lambda: w.call(G + 'compute_pairwise_overlaps', boxes)
  for op, args in {
      'corners_from_bboxes': (boxes,), 'corners_from_bbox': (cell('bb', (5,)),), 'has_overlap': (boxes, cell('box2', b + (N, 5))),
      'wrap_yaws': (yaw,), 'rotation_matrix_2d': (cell('ang', ()),), 'pose_from_xy_yaw': (e, yaw),
      'rotate_points': (cell('rm', b + (2, 2)), cell('pts', b + (N, 2))),
      'transform_points': (cell('rm3', b + (3, 3)), cell('pts', b + (N, 2))),
      'transform_yaw': (yaw, yaw), 'transform_direction': (cell('rm3', b + (3, 3)), cell('pts', b + (N, 2))),
      'transform_trajectory': (tr, pose), }.items():
    def thunk(op=op, args=args):
      return w.call(G + op if op != 'transform_trajectory' else 'waymax.datatypes.observation.transform_trajectory', *args)
    yield f'geometry.{op}', dict(args=list(args)), thunk
  yield 'is_offroad', dict(tr=tr, road=road), lambda: w.call('waymax.metrics.roadgraph.is_offroad', w.m(st, 'replace') and w.attr(st, 'current_sim_trajectory'), road)


GROUPS = [('dynamics', dynamics_ops), ('environments', env_ops), ('wrappers', wrapper_ops), ('rollout', rollout_ops),
          ('agents', agent_ops), ('metrics', metric_ops), ('containers', container_ops), ('helpers', helper_ops)]
