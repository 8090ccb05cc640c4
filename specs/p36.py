"""Value-graph congruence of every control mask with the object flag its setting
names: the mask function, the frame a step writes, the reward, and the masks of
the simulated agents, for every member of the setting enumeration."""
from .common import *
from .p03 import check_frame, mask, update_field
from .p12 import table, total

FLOOR = 400
ASSUME = ['the clock has a following frame and the warm-up lies inside the log']
FLAG = {'SDC': 'is_sdc', 'MODELED': 'is_modeled', 'VALID': 'is_valid'}
BS = ((), (B,), (B, B2))


def members(w):
  return list(w.get('waymax.config.ObjectType').members)


def flags(c):
  w = c.world()
  names = members(w)
  c.check(set(FLAG) <= set(names), 'setting', 'every documented setting exists', detail=names)
  for b in BS:
    meta = w.meta(b=b)
    for n in names:
      o = w.enum('waymax.config.ObjectType', n)
      lb = f'get_control_mask[{n},batch={len(b)}]'
      if n not in FLAG:
        c.raises(w, 'setting', lb + ' is refused', lambda: w.call('waymax.datatypes.get_control_mask', meta, o), ('ValueError',))
        continue
      ok, got = c.run(w, 'setting', lb, lambda: w.call('waymax.datatypes.get_control_mask', meta, o))
      if ok:
        want = asarr(field(meta, FLAG[n]))
        c.arr('mask', lb, got, lambda *i: want.fn(i), shape=b + (N,), dtype='bool')
  for bad in (None, 'sdc', 99):
    c.raises(w, 'setting', f'get_control_mask of {bad!r} is refused', lambda: w.call('waymax.datatypes.get_control_mask', w.meta(), bad), ('ValueError',))


def step(c):
  """The frame written by a step, one warm-up length per run, literal or symbolic."""
  for b, bt in (((), False), ((B,), False), ((B,), True)):
    for n in FLAG:
      for inj in (True, False, None):
        for init in (1, 2, 11, t.dim('I')):
          w = c.world()
          st = w.state(b, batched_time=bt)
          kw = {} if inj is None else dict(allow_new_objects_after_warmup=inj)
          env = w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w, b), env_config(
              w, controlled_object=w.enum('waymax.config.ObjectType', n), init_steps=init if isinstance(init, int) else A.sym(init), **kw))
          lb = f'step[{n},inj={inj},init={init if isinstance(init, int) else "any"},batch={len(b)}{"t" if bt else ""}]'
          ok, out = c.run(w, 'setting', lb, lambda: w.m(env, 'step', st, w.action(5, b)))
          if not ok:
            continue
          tn = lambda i: asarr(field(st, 'timestep')).fn(i[:len(b) if bt else 0])
          check_frame(c, lb, field(out, 'sim_trajectory'), field(st, 'sim_trajectory'), field(st, 'log_trajectory'),
                      lambda f, i: update_field(b, f).fn(i + (t.ZERO,)), mask(w, st, n, inj is not False, init), tn, fields=CONTROLLABLE)


def refused(c):
  """An environment over an unsupported setting fails when it is used."""
  w = c.world()
  for n in members(w):
    if n in FLAG:
      continue
    def use(n=n):
      e = w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w), env_config(w, controlled_object=w.enum('waymax.config.ObjectType', n)))
      return w.m(e, 'step', w.state(), w.action(5))
    c.raises(w, 'setting', f'step over {n} is refused', use, ('ValueError',))


def reward(c):
  for b in ((), (B,)):
    for n, f in FLAG.items():
      for inj in (True, False):
        w = c.world()
        stub_metrics(w, b)
        st = w.state(b)
        names = ('overlap', 'offroad')
        e = w.new('waymax.env.MultiAgentEnvironment', stub_dynamics(w, b), env_config(
            w, controlled_object=w.enum('waymax.config.ObjectType', n), allow_new_objects_after_warmup=inj, rewards=table(w, names)))
        lb = f'reward[{n},inj={inj},batch={len(b)}]'
        ok, got = c.run(w, 'setting', lb, lambda: w.m(e, 'reward', st, w.action(5, b)))
        if ok:
          c.arr('mask', lb, got, total(names, b, asarr(field(field(st, 'object_metadata'), f)).fn), shape=b + (N,))


def agents(c):
  """Masks of simulated agents: default, given and built from a configuration."""
  for b in BS:
    w = c.world()
    st = w.state(b)
    sdc = asarr(field(field(st, 'object_metadata'), 'is_sdc'))
    not_sdc = lambda *i: t.bnot(sdc.fn(i))
    seen = []

    def given(state):
      seen.append(state)
      return cell('given', b + (N,), 'bool')
    for cls in ('waymax.agents.FrozenSimPolicy', 'waymax.agents.IDMRoutePolicy'):
      if b == (B, B2) and 'IDM' in cls:
        continue
      for kind, a, want in (('default', (), not_sdc), ('none', (None,), not_sdc), ('given', (Native('given', given),), lambda *i: cell('given', b + (N,), 'bool').fn(i))):
        lb = f'{cls.split(".")[-1]} {kind} mask (batch {len(b)})'
        ok, ag = c.run(w, 'agent', lb + ' construction', lambda: w.new(cls, *a))
        if not ok:
          continue
        ok, out = c.run(w, 'agent', lb, lambda: w.m(ag, 'select_action', {}, st, None, cell('key', (2,), 'uint32')))
        if ok:
          c.arr('agent-mask', lb, field(out, 'is_controlled'), want, shape=b + (N,), dtype='bool')
    for s in seen:
      c.tree_same('agent-mask', f'given mask function sees the state (batch {len(b)})', s, st)
    if b == (B, B2):
      continue
    for n in members(w):
      cfg = w.config('SimAgentConfig', agent_type=w.enum('waymax.config.SimAgentType', 'IDM'), controlled_objects=w.enum('waymax.config.ObjectType', n))
      lb = f'built from {n} (batch {len(b)})'
      if n not in ('SDC', 'NON_SDC'):
        c.raises(w, 'agent', lb + ' is refused', lambda: w.call('waymax.agents.create_sim_agents_from_config', cfg), ('NotImplementedError',))
        continue
      ok, ag = c.run(w, 'agent', lb, lambda: w.call('waymax.agents.create_sim_agents_from_config', cfg))
      if not ok:
        continue
      c.check(ag.cls.name == 'IDMRoutePolicy', 'agent', lb + ' is an IDM agent', detail=ag.cls.name)
      ok, out = c.run(w, 'agent', lb + ' mask', lambda: w.m(ag, 'select_action', {}, st, None, cell('key', (2,), 'uint32')))
      if ok:
        c.arr('agent-mask', lb, field(out, 'is_controlled'), (lambda *i: sdc.fn(i)) if n == 'SDC' else not_sdc, shape=b + (N,), dtype='bool')


PARTS = [('mask function', flags), ('step', step), ('refused settings', refused), ('reward', reward), ('simulated agents', agents)]
