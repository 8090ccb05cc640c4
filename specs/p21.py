"""Value-graph congruence of the brax-style transition over a stand-in
environment whose every result is a free input."""
from .common import *

FLOOR = 60
ASSUME = ['the wrapped environment is pure (P17)']


def wrapper(w, b):
  sim = StubEnv(w, b)
  cfg = env_config(w)
  dyn = stub_dynamics(w, b)
  return sim, w.new('waymax.env.BraxWrapper', sim.env, dyn, cfg), dyn, cfg


def same_result(c, sim, rule, what, op, got, want_args, start=0):
  """got is the result of the one call `op` made on exactly these arguments."""
  made = [x for x in sim.of(op, start) if x[3] is got]
  if not c.check(len(made) == 1, rule, f'{what} is the wrapped {op}', detail=repr(got)[:200]):
    return
  for pos, (names, v) in enumerate(want_args):
    c.check(call_arg(made[0], pos, *names) is v, rule, f'{what}: {op} of the right {names[0]}', detail=repr(call_arg(made[0], pos, *names))[:200])


ST, AC = ('state', 'timestep', 'scenario'), ('action',)


def reset(c):
  for b in ((), (B,), (B, B2)):
    w = c.world()
    sim, br, _, _ = wrapper(w, b)
    s0 = w.state(b)
    lb = f'reset[batch={len(b)}]'
    ok, ts = c.run(w, 'reset', lb, lambda: w.m(br, 'reset', s0))
    if not ok:
      continue
    s1 = field(ts, 'state')
    same_result(c, sim, 'reset', f'{lb} state', 'reset', s1, [(ST, s0)])
    same_result(c, sim, 'reset', f'{lb} observation', 'observe', field(ts, 'observation'), [(ST, s1)])
    same_result(c, sim, 'reset', f'{lb} metrics', 'metrics', field(ts, 'metrics'), [(ST, s1)])
    c.arr('reset', f'{lb} reward is zero', field(ts, 'reward'), lambda *i: t.ZERO, shape=b + (N,), dtype='float32')
    c.arr('reset', f'{lb} discount is one', field(ts, 'discount'), lambda *i: t.ONE, shape=b, dtype='float32')
    term = sim.of('termination')
    done = asarr(field(ts, 'done'))
    cells_ = [x for x in term if call_arg(x, 0, *ST) is s1]
    if c.check(bool(cells_), 'reset', f'{lb} done asks the termination of the reset state'):
      e = asarr(cells_[0][3])
      i = ixs(b)
      # Whether an exhausted log also counts is left open; a terminated state is always done.
      c.node('reset', f'{lb} a terminated reset state is done', t.ite(e.fn(i), done.fn(i), t.TRUE), t.TRUE)


def step(c):
  for b in ((), (B,), (B, B2)):
    w = c.world()
    sim, br, _, _ = wrapper(w, b)
    s0 = w.state(b)
    TS = w.get('waymax.env.wrappers.brax_wrapper.TimeStep')
    prev = w.it.construct(TS, [], dict(state=s0, observation={'o': cell('o', b)}, reward=cell('r0', b + (N,)), done=cell('d0', b, 'bool'),
                                       discount=cell('g0', b), metrics={}, info={}))
    act = w.action(3, b)
    lb = f'step[batch={len(b)}]'
    ok, ts = c.run(w, 'transition', lb, lambda: w.m(br, 'step', prev, act))
    if not ok:
      continue
    s1 = field(ts, 'state')
    same_result(c, sim, 'transition', f'{lb} state', 'step', s1, [(ST, s0), (AC, act)])
    c.check(len(sim.of('step')) == 1, 'transition', f'{lb} one step of the wrapped environment', detail=len(sim.of('step')))
    same_result(c, sim, 'transition', f'{lb} observation', 'observe', field(ts, 'observation'), [(ST, s1)])
    same_result(c, sim, 'transition', f'{lb} reward', 'reward', field(ts, 'reward'), [(ST, s0), (AC, act)])
    same_result(c, sim, 'transition', f'{lb} metrics', 'metrics', field(ts, 'metrics'), [(ST, s0)])
    te = [x for x in sim.of('termination') if call_arg(x, 0, *ST) is s1]
    tr = [x for x in sim.of('truncation') if call_arg(x, 0, *ST) is s1]
    if c.check(bool(te) and bool(tr), 'transition', f'{lb} end flags of the new state'):
      e, u = asarr(te[0][3]), asarr(tr[0][3])
      c.arr('transition', f'{lb} done', field(ts, 'done'), lambda *i: t.bor(e.fn(i), u.fn(i)), shape=b, dtype='bool')
      c.arr('transition', f'{lb} discount', field(ts, 'discount'), lambda *i: t.b2n(t.bnot(e.fn(i))), shape=b, dtype='float32')
    sh = w.attr(ts, 'shape')
    c.check(len(sh) == len(b), 'transition', f'{lb} shape of the result', detail=repr(sh))


def forwards(c):
  for b in ((), (B,)):
    w = c.world()
    sim, br, dyn, cfg = wrapper(w, b)
    s, a = w.state(b), w.action(3, b)
    for op, args in (('metrics', [s]), ('observe', [s]), ('reward', [s, a]), ('termination', [s]), ('truncation', [s]),
                     ('action_spec', []), ('reward_spec', []), ('discount_spec', []), ('observation_spec', [])):
      n = len(sim.calls)
      ok, r = c.run(w, 'forward', f'{op}[batch={len(b)}]', lambda: w.m(br, op, *args))
      if ok:
        same_result(c, sim, 'forward', f'{op}[batch={len(b)}]', op, r, list(zip((ST, AC), args)), n)
    c.check(w.attr(br, 'dynamics') is dyn, 'forward', 'dynamics is the given model')
    c.check(w.attr(br, 'config') is cfg, 'forward', 'config is the given configuration')


PARTS = [('reset', reset), ('step', step), ('forwarding', forwards)]
