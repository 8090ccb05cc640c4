"""Trace congruence of rollouts over a stand-in environment and actor.

Short horizons are unrolled and the whole recorded output is compared with the
calls made; for an arbitrary horizon the loop body is checked as an inductive
step from an arbitrary carried state."""
from .common import *

FLOOR = 250
ASSUME = ['environment and actor are pure (P17)']
ST, AC = ('state', 'timestep', 'scenario'), ('action',)


def find(sim, op, got, k):
  """The call of op whose result is entry k of the stacked tree got."""
  from wx.lib import tree_leaves
  gl = [asarr(x) for x in tree_leaves(got)]
  for call in sim.of(op):
    cl = [asarr(x) for x in tree_leaves(call[3])]
    if len(cl) != len(gl):
      continue
    good = True
    for g, r in zip(gl, cl):
      if g.ndim != r.ndim + 1 or not all(A.same_dim(a, b) for a, b in zip(g.shape[1:], r.shape)):
        good = False
        break
      i = ixs(r.shape)
      if t.differ(g.fn((t.const(k),) + i), r.fn(i)) is not None:
        good = False
        break
    if good:
      return call
  return None


def entry(tree, k):
  from wx.lib import tree_map
  return tree_map(lambda a: A.getitem(asarr(a), k), tree)


def same(got, want):
  """Congruence of two trees, without recording."""
  q = Checker('x')
  q.tree_same('s', 's', got, want)
  return not q.viol and not q.gaps


def setup(c, b, unroll):
  w = c.world()
  w.it.unroll = unroll
  sim = StubEnv(w, b)
  log = []
  actor = counting_actor(w, b, log)
  return w, sim, log, actor


def counting_actor(w, b, log):
  """Stand-in actor whose every answer is a different free input."""
  out_cls = w.get('waymax.agents.WaymaxActorOutput')

  def init(self, *a, **k):
    r = {'s': cell(f'as.init{len(log)}', b + (2,))}
    log.append(('init', a, k, r))
    return r

  def select(self, *a, **k):
    j = len(log)
    r = out_cls_new(w, out_cls, dict(actor_state={'s': cell(f'as{j}', b + (2,))}, action=w.action(3, b, name=f'act{j}'),
                                     is_controlled=cell(f'ctl{j}', b + (N,), 'bool')))
    log.append(('select', a, k, r))
    return r
  cls = subclass(w, 'waymax.agents.WaymaxActorCore', init=Native('init', init), select_action=Native('select_action', select), name='actor')
  return Obj(cls)


def short(c):
  for b in ((), (B,)):
    for n in (1, 2, 3):
      w, sim, log, actor = setup(c, b, 3)
      s0, par, key = w.state(b), {'p': cell('par', (3,))}, cell('key', (2,), 'uint32')
      lb = f'rollout[steps={n},batch={len(b)}]'
      ok, out = c.run(w, 'total', lb, lambda: w.call('waymax.env.rollout.rollout', s0, actor, sim.env, key, n, par))
      if not ok:
        continue
      resets = sim.of('reset')
      if not c.check(len(resets) == 1 and call_arg(resets[0], 0, *ST) is s0, 'start', f'{lb} resets the scenario once'):
        continue
      states = [resets[0][3]]
      steps = sim.of('step')
      if not c.check(len(steps) == n, 'length', f'{lb} steps {n} times', detail=len(steps)):
        continue
      inits = [x for x in log if x[0] == 'init']
      c.check(len(inits) == 1 and same(arg(inits[0], 1, 'state'), states[0]), 'start', f'{lb} the actor is initialised on the reset state')
      sel = [x for x in log if x[0] == 'select']
      if not c.check(len(sel) == n, 'length', f'{lb} asks the actor {n} times', detail=len(sel)):
        continue
      carried = inits[0][3] if inits else None
      for k in range(n):
        e = sel[k]
        c.check(same(arg(e, 1, 'state'), states[k]), 'aligned', f'{lb} action {k} is chosen in state {k}')
        c.check(same(arg(e, 0, 'params'), par), 'aligned', f'{lb} action {k} uses the given parameters')
        c.check(same(arg(e, 2, 'actor_state'), carried), 'carried', f'{lb} action {k} uses the actor state of the previous call', detail=repr(arg(e, 2, 'actor_state'))[:200])
        act = field(e[3], 'action')
        carried = field(e[3], 'actor_state')
        c.check(same(call_arg(steps[k], 0, *ST), states[k]) and same(call_arg(steps[k], 1, *AC), act), 'aligned', f'{lb} step {k} applies action {k} to state {k}')
        c.tree_same('recorded', f'{lb} recorded action {k}', entry(field(out, 'action'), k), act)
        states.append(steps[k][3])
      zero = entry(field(out, 'action'), n)
      for f in ('data', 'valid'):
        c.arr('recorded', f'{lb} final action {f} is empty', field(zero, f), lambda *i: t.ZERO if f == 'data' else t.FALSE)
      for k in range(n + 1):
        c.tree_same('recorded', f'{lb} recorded state {k}', entry(field(out, 'state'), k), states[k])
        for op, f in (('observe', 'observation'), ('metrics', 'metrics'), ('reward', 'reward')):
          call = find(sim, op, field(out, f), k)
          if not c.check(call is not None, 'recorded', f'{lb} recorded {f} {k} comes from the environment'):
            continue
          c.check(same(call_arg(call, 0, *ST), states[k]), 'recorded', f'{lb} recorded {f} {k} belongs to state {k}')
          if op == 'reward':
            want = field(sel[k][3], 'action') if k < n else zero
            c.check(same(call_arg(call, 1, *AC), want), 'recorded', f'{lb} reward {k} is of action {k}')
      for f in ('reward',):
        c.check(A.same_dim(asarr(field(out, f)).shape[0], n + 1), 'length', f'{lb} {n + 1} entries of {f}')


def inductive(c):
  for b in ((), (B,)):
    for n in (A.sym(t.dim('H')), 7):
      w, sim, log, actor = setup(c, b, 0)
      s0, par, key = w.state(b), {'p': cell('par', (3,))}, cell('key', (2,), 'uint32')
      lb = f'loop[steps={n},batch={len(b)}]'
      ok, out = c.run(w, 'total', lb, lambda: w.call('waymax.env.rollout.rollout', s0, actor, sim.env, key, n, par))
      if not ok:
        continue
      if len(w.it.scans) != 1:
        c.gap('inductive', lb, Gap('rollout is not one loop'))
        continue
      rec = w.it.scans[0]
      c.check(A.same_dim(rec.length, n), 'length', f'{lb} number of iterations', detail=rec.length)
      if not isinstance(rec.carry, Obj) or not {'state', 'observation', 'actor_state'} <= set(rec.carry.fields):
        c.gap('inductive', lb, Gap('unknown loop carry'))
        continue
      g = lambda o, f: field(o, f)
      steps, sel = sim.of('step'), [x for x in log if x[0] == 'select']
      if not c.check(len(steps) == 1 and len(sel) == 1, 'inductive', f'{lb} one step and one action per iteration', detail=(len(steps), len(sel))):
        continue
      cur, e = g(rec.carry, 'state'), sel[0]
      act, nxt = field(e[3], 'action'), steps[0][3]
      inits = [x for x in log if x[0] == 'init']
      c.check(same(g(rec.init, 'state'), sim.of('reset')[0][3]), 'inductive', f'{lb} starts from the reset state')
      c.check(bool(inits) and same(g(rec.init, 'actor_state'), inits[0][3]), 'inductive', f'{lb} starts from the initial actor state')
      c.check(same(arg(e, 1, 'state'), cur), 'inductive', f'{lb} action chosen in the current state')
      c.check(same(arg(e, 0, 'params'), par), 'inductive', f'{lb} action uses the given parameters')
      c.check(same(arg(e, 2, 'actor_state'), g(rec.carry, 'actor_state')), 'inductive', f'{lb} action uses the carried actor state')
      c.check(same(call_arg(steps[0], 0, *ST), cur) and same(call_arg(steps[0], 1, *AC), act), 'inductive', f'{lb} applies the chosen action to the current state')
      c.check(same(g(rec.carry_out, 'state'), nxt), 'inductive', f'{lb} carries the new state')
      c.check(same(g(rec.carry_out, 'actor_state'), field(e[3], 'actor_state')), 'inductive', f'{lb} carries the new actor state')
      obs = {id(x[3]): x for x in sim.of('observe')}
      for what, tree, st in (('first', rec.init, g(rec.init, 'state')), ('next', rec.carry_out, nxt)):
        o = [x for x in sim.of('observe') if same(x[3], g(tree, 'observation'))]
        c.check(len(o) == 1 and same(call_arg(o[0], 0, *ST), st), 'inductive', f'{lb} {what} observation is of that state')
      y = rec.y
      if isinstance(y, Obj):
        c.tree_same('inductive', f'{lb} recorded action', g(y, 'action'), act)
        c.tree_same('inductive', f'{lb} recorded state', g(y, 'state'), cur)
        c.tree_same('inductive', f'{lb} recorded observation', g(y, 'observation'), g(rec.carry, 'observation'))
        for op in ('metrics', 'reward'):
          o = [x for x in sim.of(op) if same(x[3], g(y, op))]
          c.check(len(o) == 1 and same(call_arg(o[0], 0, *ST), cur) and (op == 'metrics' or same(call_arg(o[0], 1, *AC), act)), 'inductive', f'{lb} recorded {op} is of the current state and action')
      else:
        c.gap('inductive', f'{lb} recorded output', Gap('unknown structure'))
      # the stacked output is the loop's output followed by one entry of the final state
      st = field(field(field(out, 'state'), 'sim_trajectory'), 'x')
      nv = t.lift(n.v if isinstance(n, A.Sym) else n)
      fin = asarr(field(field(g(rec.final, 'state'), 'sim_trajectory'), 'x'))
      i = ixs(fin.shape)
      c.check(A.same_dim(asarr(st).shape[0], A.norm_dim(t.add(nv, t.ONE))), 'length', f'{lb} one entry more than steps', detail=asarr(st).shape)
      c.node('inductive', f'{lb} last entry is the final state', asarr(st).fn((nv,) + i), fin.fn(i))
      fo = asarr(field(out, 'observation'))
      ff = asarr(g(rec.final, 'observation'))
      i = ixs(ff.shape)
      c.node('inductive', f'{lb} last observation is the final one', fo.fn((nv,) + i), ff.fn(i))
      for op in ('metrics', 'reward'):
        o = [x for x in sim.of(op) if same(call_arg(x, 0, *ST), g(rec.final, 'state'))]
        c.check(len(o) == 1, 'inductive', f'{lb} last {op} is of the final state', detail=len(o))


def by_expert(c):
  """The logged-expert rollout is the rollout of the expert actor."""
  for b in ((), (B,)):
    w = c.world()
    w.it.unroll = 3
    sim = StubEnv(w, b)
    made = []
    dyn = stub_dynamics(w, b)
    def inverse(self, *a, **k):
      made.append((a, k))
      return w.action(3, b, name=f'inv{len(made)}')
    dyn.cls.ns['inverse'] = Native('inverse', inverse)
    s0 = w.state(b)
    for n in (1, 2):
      del sim.calls[:], made[:]
      lb = f'expert rollout[steps={n},batch={len(b)}]'
      ok, out = c.run(w, 'expert', lb, lambda: w.call('waymax.env.rollout.rollout_log_by_expert_sdc', s0, sim.env, dyn, n))
      if ok:
        c.check(len(sim.of('step')) == n and len(made) == n, 'expert', f'{lb} {n} expert actions', detail=(len(sim.of('step')), len(made)))
        for k, call in enumerate(sim.of('step')):
          a = call_arg(call, 1, *AC)
          c.arr('expert', f'{lb} step {k} applies the fitted action', field(a, 'data'), cell(f'inv{k + 1}.data', b + (N, 3)))


PARTS = [('short horizons', short), ('any horizon', inductive), ('expert rollouts', by_expert)]
