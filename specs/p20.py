"""Typestate analysis of the single-episode wrapper.

The wrapped environment is a stand-in whose results are free inputs. From the
constructor on, every operation (reset with a usable / an already finished
episode; step whose successor is running / terminated / truncated / both) is
compiled in every abstract wrapper configuration reached (the wrapper's own
fields, the current state abstracted to "the last one produced") until no new
configuration appears, so the result holds for every call sequence."""
from .catalog import *
from wx.interp import Opq
from wx.lib import IterVal

FLOOR = 120
ASSUME = ['the wrapped environment is pure (P17)', 'jax.jit does not change results']
ERR = {'uninit': ('SimulationNotInitializedError',), 'done': ('EpisodeAlreadyFinishedError',)}


def bool_arr(v, b):
  return Arr(b, 'bool', lambda idx: t.lift(v))


class Sim:
  """Stand-in environment: records calls, returns fresh states."""

  def __init__(self, w, b, spec_shape):
    self.w, self.b, self.calls, self.n = w, b, [], 0
    self.outcome = None
    self.next_done = False
    self.spec = spec_shape
    cls = subclass(w, 'waymax.env.AbstractEnvironment')
    for n in w.it.abstracts(cls):
      cls.ns[n] = Native(n, lambda *a, n=n, **k: (_ for _ in ()).throw(Gap(f'stand-in environment {n} called')))
    for n in ('reset', 'step', 'observe', 'reward', 'termination', 'truncation', 'action_spec'):
      cls.ns[n] = Native(n, lambda slf, *a, n=n, **k: self.do(n, a, k))
    self.env = Obj(cls)

  def state(self, done):
    self.n += 1
    s = self.w.state(self.b, timestep=asarr(A.sym(t.dim('T') - (1 if done else 3))))
    s.fields['sim_trajectory'] = self.w.traj(f's{self.n}', self.b)
    return s

  def do(self, op, a, k):
    r = None
    if op == 'reset':
      r = self.state(self.next_done)
    elif op == 'step':
      r = self.state(bool(self.outcome[1]))
    elif op == 'observe':
      self.n += 1
      r = {'obs': cell(f'obs{self.n}', self.b + (3,))}
    elif op == 'reward':
      self.n += 1
      r = cell(f'reward{self.n}', self.b + (N,))
    elif op == 'termination':
      r = bool_arr(self.outcome[0], self.b)
    elif op == 'truncation':
      r = bool_arr(self.outcome[1], self.b)
    elif op == 'action_spec':
      cls = self.w.get('waymax.datatypes.action.Action')
      r = self.w.it.construct(cls, [], dict(
          data=Opq('dm_env.specs.BoundedArray', [], dict(shape=self.spec, dtype=self.w.it.getattr(self.w.it.import_('jax.numpy'), 'float32'), minimum=[0], maximum=[1]), call=True), valid=None))
    self.calls.append((op, a, k, r))
    return r


def build(w, b, spec, n=40):
  sim = Sim(w, b, spec)
  scen = [w.state(b) for _ in range(n)]
  for k, s in enumerate(scen):
    s.fields['sim_trajectory'] = w.traj(f'scenario{k}', b)
  gen = IterVal(scen)
  wrap = w.new('waymax.env.DMEnvWrapper', gen, sim.env)
  return sim, wrap, scen, gen


def summary(wrap):
  out = []
  for k, v in sorted(wrap.fields.items()):
    if isinstance(v, (bool, int, str, type(None))):
      out.append((k, repr(v)))
    elif isinstance(v, Arr) and not v.shape and t.const_val(v.fn(())) is not None:
      out.append((k, repr(t.const_val(v.fn(())))))
    elif isinstance(v, (Obj, Native, IterVal, Opq, tuple, list)) or callable(v):
      out.append((k, type(v).__name__))
    else:
      out.append((k, repr(v)[:80]))
  return tuple(out)


OPS = ['reset', 'reset-finished'] + [f'step-{a}{b}' for a in 'rT' for b in 'rC']


def apply(c, w, sim, wrap, scen, gen, op, st, label, spec):
  """One operation in model state st = (phase, state); returns the next model state."""
  phase, cur = st
  n0 = len(sim.calls)
  new = lambda: sim.calls[n0:]
  b = sim.b
  if op.startswith('reset'):
    sim.next_done = op == 'reset-finished'
    pos = gen.pos
    if sim.next_done:
      c.raises(w, 'lifecycle', f'{label}: reset onto a finished episode is refused', lambda: w.m(wrap, 'reset'), ERR['uninit'])
      return ('uninit', None)
    ok, ts = c.run(w, 'lifecycle', f'{label}: reset', lambda: w.m(wrap, 'reset'))
    if not ok:
      return None
    r = [x for x in new() if x[0] == 'reset']
    if c.check(len(r) == 1, 'lifecycle', f'{label}: reset resets the wrapped environment once', detail=len(r)):
      c.check(r[0][1] and r[0][1][0] is scen[pos] and gen.pos == pos + 1, 'lifecycle', f'{label}: reset uses the next scenario', detail=repr(r[0][1])[:200])
      cur = r[0][3]
      transition(c, w, sim, ts, label + ': first step', 'FIRST', None, None, cur, new())
      current(c, w, wrap, cur, label)
    return ('live', cur)
  sim.outcome = (op[5] == 'T', op[6] == 'C')
  data = cell('a', b + tuple(spec) if spec != (1,) else b, 'float32')
  if phase in ('uninit', 'done'):
    c.raises(w, 'lifecycle', f'{label}: stepping is refused', lambda: w.m(wrap, 'step', data), ERR[phase])
    c.check(not new(), 'lifecycle', f'{label}: a refused step does not touch the environment', detail=[x[0] for x in new()])
    if phase == 'uninit':
      c.raises(w, 'lifecycle', f'{label}: the simulation state is not available', lambda: w.attr(wrap, 'simulation_state'), ERR['uninit'])
    return st
  ok, ts = c.run(w, 'lifecycle', f'{label}: step', lambda: w.m(wrap, 'step', data))
  if not ok:
    return None
  steps = [x for x in new() if x[0] == 'step']
  if not c.check(len(steps) == 1, 'transition', f'{label}: one step of the environment', detail=len(steps)):
    return None
  _, a, k, nxt = steps[0]
  c.check((a[0] if a else k.get('state')) is cur, 'transition', f'{label}: the current state is advanced')
  act = a[1] if len(a) > 1 else k.get('action')
  executed(c, act, data, b, spec, f'{label}: executed action')
  rew = [x for x in new() if x[0] == 'reward']
  if c.check(len(rew) == 1, 'transition', f'{label}: one reward', detail=len(rew)):
    a, k = rew[0][1:3]
    c.check((a[0] if a else k.get('state')) is cur, 'transition', f'{label}: reward of the state the action was taken in')
    executed(c, a[1] if len(a) > 1 else k.get('action'), data, b, spec, f'{label}: rewarded action')
    for op2 in ('termination', 'truncation'):
      for x in new():
        if x[0] == op2:
          c.check(x[1][0] is nxt, 'transition', f'{label}: {op2} of the new state')
    over = any(sim.outcome)
    disc = (0.0 if sim.outcome[0] else 1.0) if over else 1.0
    transition(c, w, sim, ts, label, 'LAST' if over else 'MID', rew[0][3], disc, nxt, new())
    current(c, w, wrap, nxt, label)
    return ('done' if over else 'live', nxt)


def current(c, w, wrap, cur, label):
  ok, s = c.run(w, 'lifecycle', f'{label}: simulation_state', lambda: w.attr(wrap, 'simulation_state'))
  if ok:
    c.check(s is cur, 'lifecycle', f'{label}: simulation_state is the new state', detail=repr(s)[:200])


def executed(c, act, data, b, spec, label):
  if not c.check(isinstance(act, Obj) and act.cls.name == 'Action', 'transition', f'{label} is an Action', detail=repr(act)[:200]):
    return
  want = (lambda *i: data.fn(i)) if spec != (1,) else (lambda *i: data.fn(i[:-1]))
  c.arr('transition', f'{label} data', field(act, 'data'), want, shape=b + tuple(spec))
  c.arr('transition', f'{label} is valid', field(act, 'valid'), lambda *i: t.TRUE, shape=b + tuple(spec[:-1]) + (1,), dtype='bool')


def transition(c, w, sim, ts, label, kind, reward, discount, nxt, calls):
  if not c.check(isinstance(ts, Opq), 'transition', f'{label}: returns a TimeStep', detail=repr(ts)[:200]):
    return
  g = lambda n: ts.kwargs.get(n)
  c.check(g('step_type') == kind, 'transition', f'{label}: step type {kind}', detail=repr(g('step_type')))
  c.check(g('reward') is reward if reward is None else g('reward') is not None, 'transition', f'{label}: reward present', detail=repr(g('reward')))
  if reward is not None and g('reward') is not None:
    c.arr('transition', f'{label}: reward', g('reward'), reward)
  if discount is None:
    c.check(g('discount') is None, 'transition', f'{label}: no discount', detail=repr(g('discount')))
  elif g('discount') is None:
    c.bad('transition', f'{label}: discount missing')
  else:
    c.arr('transition', f'{label}: discount {discount}', g('discount'), lambda *i: t.const(discount))
  obs = [x for x in calls if x[0] == 'observe' and x[3] is g('observation')]
  c.check(bool(obs) and obs[0][1][0] is nxt, 'transition', f'{label}: observation of the new state', detail=repr(g('observation'))[:200])


def lifecycle(c):
  for b in ((), (B,)):
    for spec in ((N, 3), (1,), (3,)):
      seen, todo, runs = {}, [()], 0
      while todo:
        path = todo.pop(0)
        w = c.world()
        sim, wrap, scen, gen = build(w, b, tuple(A.sym(d) if not isinstance(d, int) else d for d in spec))
        st = ('uninit', None)
        quiet = Checker(c.pid)
        for op in path:   # replay the (already checked) prefix
          st = apply(quiet, w, sim, wrap, scen, gen, op, st, '', spec)
        if path == ():
          seen[(st[0], summary(wrap))] = path
        if len(path) > 6 or len(seen) > 24:
          c.gap('lifecycle', f'more wrapper configurations than expected after {path}', Gap('no fixpoint'))
          break
        for op in OPS:
          w2 = c.world() if False else w
          sim, wrap, scen, gen = build(w2, b, tuple(A.sym(d) if not isinstance(d, int) else d for d in spec))
          s = ('uninit', None)
          for o in path:
            s = apply(quiet, w2, sim, wrap, scen, gen, o, s, '', spec)
          lb = f'[{len(b)},{len(spec)}] {" ".join(path) or "new"} -> {op}'
          s = apply(c, w2, sim, wrap, scen, gen, op, s, lb, spec)
          runs += 1
          if s is None:
            continue
          key_ = (s[0], summary(wrap))
          if key_ not in seen:
            seen[key_] = path + (op,)
            todo.append(path + (op,))
      c.count('configurations', len(seen))
      c.count('transitions', runs)


def batched_partial(c):
  """Some but not all episodes of a batch end: refused, never reported as an ordinary step."""
  w = c.world()
  b = (2,)
  sim, wrap, scen, gen = build(w, b, (3,))
  c.run(w, 'lifecycle', 'mixed batch: reset', lambda: w.m(wrap, 'reset'))
  for which in ('termination', 'truncation'):
    mixed = Arr(b, 'bool', lambda idx: t.eq(idx[0], t.ZERO))
    none = bool_arr(False, b)
    do = sim.do
    sim.outcome = (False, False)
    sim.do = lambda op, a, k: mixed if op == which else none if op in ('termination', 'truncation') else do(op, a, k)
    c.raises(w, 'lifecycle', f'a batch with mixed {which} is refused', lambda: w.m(wrap, 'step', cell('a', b + (3,))), ('NotImplementedError',))
    sim.do = do


def forwards(c):
  w = c.world()
  sim, wrap, scen, gen = build(w, (), (3,))
  s = w.state()
  ok, r = c.run(w, 'forward', 'observe', lambda: w.m(wrap, 'observe', s))
  c.check(ok and sim.calls and sim.calls[-1][0] == 'observe' and sim.calls[-1][1][0] is s and sim.calls[-1][3] is r, 'forward', 'observe is the wrapped observation')
  ok, r = c.run(w, 'forward', 'stateless_env', lambda: w.attr(wrap, 'stateless_env'))
  c.check(ok and r is sim.env, 'forward', 'stateless_env is the wrapped environment')
  c.raises(w, 'forward', 'config of an environment without configuration', lambda: w.attr(wrap, 'config'), ('ValueError',))
  cfg = env_config(w)
  sim.env.fields['config'] = cfg
  ok, r = c.run(w, 'forward', 'config', lambda: w.attr(wrap, 'config'))
  c.check(ok and r is cfg, 'forward', 'config is the wrapped configuration')


PARTS = [('life cycle', lifecycle), ('mixed batches', batched_partial), ('forwarding', forwards)]
