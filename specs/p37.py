"""Value-graph congruence of declared specifications with what the operations
accept and return: shape, element type and bounds of actions, rewards, discounts
and observations, for every environment, wrapper and dynamics model."""
from .catalog import *
from wx.interp import Opq
from wx.lib import IterVal, tree_leaves, same_structure

FLOOR = 2800
ASSUME = ['the state has as many objects as the configuration names']
F4, I4 = 'float32', 'int32'


def dims(w, v, name='shape'):
  return tuple(A.norm_dim(d) for d in w.it.iterate(w.attr(v, name)))


def kind(w, spec):
  """Element type a specification declares."""
  d = w.attr(spec, 'dtype')
  r = repr(d)
  for n in ('float32', 'int32', 'bool', 'float64', 'int64', 'float16', 'uint32'):
    if n in r:
      return n
  return r


def norm(shape):
  return tuple(A.norm_dim(d) for d in shape)


def bound(w, spec, which, shape):
  """The bound of every entry, broadcast as the specification library does."""
  v = w.attr(spec, which)
  a = asarr(v)
  if len(a.shape) > len(shape):
    raise ShapeErr(f'{which} of shape {a.shape} for a specification of shape {shape}')
  return A.broadcast_to(a, shape)


def check_spec(c, w, rule, label, spec, shape, dtype, lo=None, hi=None):
  ok, got = c.run(w, rule, label, lambda: dims(w, spec))
  if not ok:
    return
  if not c.check(got == norm(shape), rule, f'{label}: declared shape', detail=f'{got} instead of {norm(shape)}'):
    return
  c.check(kind(w, spec) == dtype, rule, f'{label}: declared element type', detail=f'{kind(w, spec)} instead of {dtype}')
  for which, want in (('minimum', lo), ('maximum', hi)):
    if want is not None:
      ok, b = c.run(w, rule, f'{label}: {which}', lambda: bound(w, spec, which, shape))
      if ok:
        c.node(rule, f'{label}: {which}', b.fn(ixs(shape)), want(*ixs(shape)))


def produced(c, w, rule, label, spec, got, b, batched=True):
  """got is of the declared shape and type after the batch dimensions."""
  got = asarr(got)
  check_spec(c, w, rule, label, spec, got.shape[len(b):], got.dtype)
  if batched:
    c.check(norm(got.shape[:len(b)]) == norm(b), rule, f'{label}: batch dimensions come first', detail=repr(got.shape))


def pick(vals):
  return lambda *i: A.select_list(i[-1], [lambda v=v: t.lift(v) for v in vals])


def tables(w):
  """(label, model, action width, element type, lower and upper bounds)."""
  g = w.new
  D = 'waymax.dynamics.'
  p = lambda n: t.inp(n)
  sc = lambda n: A.sym(p(n), 'float')
  pi, inf = None, t.INF
  yield 'bicycle', g(D + 'InvertibleBicycleModel', max_accel=sc('acc'), max_steering=sc('st')), 2, F4, [t.neg(p('acc')), t.neg(p('st'))], [p('acc'), p('st')]
  yield 'bicycle-normalized', g(D + 'InvertibleBicycleModel', normalize_actions=True), 2, F4, [-1, -1], [1, 1]
  for nm, cls in (('delta-global', 'DeltaGlobal'), ('delta-local', 'DeltaLocal')):
    yield nm, g(D + cls, max_dx=sc('mx'), max_dy=sc('my'), max_dyaw=sc('mw')), 3, F4, [t.neg(p('mx')), t.neg(p('my')), t.neg(p('mw'))], [p('mx'), p('my'), p('mw')]
  yield 'state', g(D + 'StateDynamics'), 5, F4, None, None
  for bins in ([4, 6], [1, 2], [0, 3]):
    yield f'discrete{bins}', discrete(w, bins=bins), 1, I4, [0], [(bins[0] + 1) * (bins[1] + 1) - 1]


def dynamics(c):
  for b in ((), (B,), (B, B2)):
    w = c.world()
    for nm, dyn, d, dt, lo, hi in tables(w):
      lb = f'{nm}[batch={len(b)}]'
      ok, s = c.run(w, 'total', lb, lambda: w.m(dyn, 'action_spec'))
      if not ok:
        continue
      check_spec(c, w, 'action-spec', lb, s, (d,), dt, lo and pick(lo), hi and pick(hi))
      act = w.action(d, b)
      if dt == I4:
        act.fields['data'] = cell('act.data', b + (N, d), I4)
      c.run(w, 'action-accepted', f'{lb} accepts the declared action', lambda: w.m(dyn, 'compute_update', act, w.traj('cur', b, N, 1)))
      tr, meta = w.traj('tr', b), w.meta('meta', b)
      ok, inv = c.run(w, 'total', f'{lb} inverse', lambda: w.m(dyn, 'inverse', tr, meta, cell('t', (), I4)))
      if ok:
        produced(c, w, 'action-inferred', f'{lb} inferred action', s, field(inv, 'data'), b + (N,))
    for nm, dyn, d, dt, lo, hi in tables(w):
      pd = w.new('waymax.env.PlanningAgentDynamics', dyn)
      ok, s = c.run(w, 'total', f'planning {nm}', lambda: w.m(pd, 'action_spec'))
      if ok:
        check_spec(c, w, 'action-spec', f'planning {nm}', s, (d,), dt, lo and pick(lo), hi and pick(hi))


def variants(w, b):
  """(label, environment, per-agent shape prefix, state, configuration)."""
  stub_metrics(w, b)
  for comp in (True, False):
    for nm, dyn, d, dt, lo, hi in tables(w):
      if nm.startswith('discrete') and nm != 'discrete[4, 6]':
        continue
      for ctl in ('SDC', 'MODELED', 'VALID'):
        if ctl != 'SDC' and nm != 'bicycle':
          continue
        cfg = dict(compute_reward=comp, controlled_object=w.enum('waymax.config.ObjectType', ctl),
                   rewards=w.config('LinearCombinationRewardConfig', rewards={'overlap': -1.0, 'offroad': -0.5}))
        env = w.new('waymax.env.MultiAgentEnvironment', dyn, env_config(w, **cfg))
        yield f'multi-agent[{nm},{ctl},reward={comp}]', env, (N,), w.state(b), dyn, d, dt, lo, hi
        if ctl == 'SDC':
          env, st, _, _ = planning(w, b, 0, dyn=dyn, **cfg)
          yield f'planning[{nm},reward={comp}]', env, (), st, dyn, d, dt, lo, hi
          br = w.new('waymax.env.BraxWrapper', env, dyn, env_config(w, **cfg))
          yield f'brax[planning,{nm},reward={comp}]', br, (), st, dyn, d, dt, lo, hi


def environments(c):
  for b in ((), (B,), (B, B2)):
    w = c.world()
    for label, env, pre, st, dyn, d, dt, lo, hi in variants(w, b):
      lb = f'{label}[batch={len(b)}]'
      ok, s = c.run(w, 'total', lb, lambda: w.m(env, 'action_spec'))
      if not ok:
        continue
      data, valid = field(s, 'data'), field(s, 'valid')
      check_spec(c, w, 'action-spec', f'{lb} action', data, pre + (d,), dt, lo and pick(lo), hi and pick(hi))
      check_spec(c, w, 'action-spec', f'{lb} action validity', valid, pre + (1,), 'bool')
      act = w.action(d, b)
      act.fields['data'] = cell('act.data', b + pre + (d,), dt)
      act.fields['valid'] = cell('act.valid', b + pre + (1,), 'bool')
      brax = label.startswith('brax')
      if not brax:
        ok, nxt = c.run(w, 'action-accepted', f'{lb} steps with the declared action', lambda: w.m(env, 'step', st, act))
        if ok:
          same = all(norm(asarr(g).shape) == norm(asarr(f).shape) for g, f in zip(tree_leaves(nxt), tree_leaves(st))) and same_structure(nxt, st)
          c.check(same, 'action-accepted', f'{lb} the next state has the shape of the state')
      ok, r = c.run(w, 'total', f'{lb} reward', lambda: w.m(env, 'reward', st, act))
      ok2, rs = c.run(w, 'total', f'{lb} reward_spec', lambda: w.m(env, 'reward_spec'))
      if ok and ok2:
        produced(c, w, 'reward-spec', f'{lb} reward', rs, r, b)
        c.check(dims(w, rs) == norm(pre), 'reward-spec', f'{lb} one reward per agent', detail=repr(dims(w, rs)))
      ok, ds = c.run(w, 'total', f'{lb} discount_spec', lambda: w.m(env, 'discount_spec'))
      if ok:
        check_spec(c, w, 'discount-spec', f'{lb} discount', ds, (), F4, lambda: t.ZERO, lambda: t.ONE)
      if brax:
        ok, ts = c.run(w, 'total', f'{lb} reset', lambda: w.m(env, 'reset', st))
        if ok and ok2:
          produced(c, w, 'reward-spec', f'{lb} reset reward', rs, field(ts, 'reward'), b)
          produced(c, w, 'discount-spec', f'{lb} reset discount', ds, field(ts, 'discount'), b)
          ok, ts = c.run(w, 'total', f'{lb} step', lambda: w.m(env, 'step', ts, act))
          if ok:
            produced(c, w, 'reward-spec', f'{lb} step reward', rs, field(ts, 'reward'), b)
            produced(c, w, 'discount-spec', f'{lb} step discount', ds, field(ts, 'discount'), b)


def episodes(c):
  """The single-episode wrapper's specifications describe its time steps."""
  for b in ((), (B,)):
    for squeeze in (True, False):
      w = c.world()
      stub_metrics(w, b)
      for nm, dyn, d, dt, lo, hi in tables(w):
        if nm.startswith('delta-l'):
          continue
        lb = f'episodes[{nm},squeeze={squeeze},batch={len(b)}]'
        obs = w.config('ObservationConfig', num_steps=2, roadgraph_top_k=3)
        env, st, _, _ = planning(w, b, 0, dyn=dyn, observation=obs, init_steps=5,
                                 rewards=w.config('LinearCombinationRewardConfig', rewards={'overlap': -1.0}))
        made = []
        real = w.it.getattr(env, 'observe')
        env.cls = subclass_of(env.cls, observe=Native('observe', lambda slf, *a, **k: _keep(made, w.it.call(real, list(a), k))),
                              termination=Native('termination', lambda slf, *a, **k: Arr(b, 'bool', lambda i: t.FALSE)),
                              truncation=Native('truncation', lambda slf, *a, **k: Arr(b, 'bool', lambda i: t.FALSE)))
        st.fields.update(w.state(b, T_=20).fields)
        st.fields['timestep'] = asarr(A.sym(t.lift(4)))
        dm = w.new('waymax.env.DMEnvWrapper', IterVal([st, st, st, st]), env, squeeze_scalar_actions=squeeze)
        ok, s = c.run(w, 'total', f'{lb} action_spec', lambda: w.m(dm, 'action_spec'))
        if not ok:
          continue
        shape = () if squeeze and d == 1 else (d,)
        check_spec(c, w, 'action-spec', f'{lb} action', s, shape, dt, lo and (pick(lo) if shape else (lambda: t.lift(lo[0]))),
                   hi and (pick(hi) if shape else (lambda: t.lift(hi[0]))))
        for op in ('reward', 'discount'):
          ok, rs = c.run(w, 'total', f'{lb} {op}_spec', lambda: w.m(dm, f'{op}_spec'))
          if ok:
            check_spec(c, w, f'{op}-spec', f'{lb} {op}', rs, (), F4)
        ok, os_ = c.run(w, 'total', f'{lb} observation_spec', lambda: w.m(dm, 'observation_spec'))
        if ok and c.check(bool(made), 'observation-spec', f'{lb} describes an observation of the environment'):
          gl, ol = tree_leaves(made[-1]), tree_leaves(os_)
          if c.check(same_structure(made[-1], os_) and len(gl) == len(ol), 'observation-spec', f'{lb} has the structure of the observation'):
            for k, (g, o) in enumerate(zip(gl, ol)):
              produced(c, w, 'observation-spec', f'{lb} entry {k}', o, g, b, batched=False)  # the clock may be shared by a batch
        ok, ts = c.run(w, 'total', f'{lb} reset', lambda: w.m(dm, 'reset'))
        if not ok:
          continue
        act = cell('act', b + shape, dt)
        c.run(w, 'action-accepted', f'{lb} steps with the declared action', lambda: w.m(dm, 'step', act))


def _keep(made, v):
  made.append(v)
  return v


def subclass_of(cls, **ns):
  from wx.interp import Cls
  out = Cls('Stub' + cls.name, cls.mod, [cls], dict(ns), cls.node)
  out.ann_src = {}
  return out


PARTS = [('dynamics models', dynamics), ('environments', environments), ('episodes', episodes)]
