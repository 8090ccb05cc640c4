"""Value-graph congruence of the episode-end predicates for every clock value
and log length, over every environment and wrapper of the package."""
from .common import *

FLOOR = 100
ASSUME = ['the clock and the log length are integers']


def cases(c):
  for b, bt in (((), False), ((B,), False), ((B,), True), ((B, B2), True)):
    for steps in (T, 91, 10):
      yield b, bt, steps


def tcell(b, bt):
  return cell('t', b if bt else (), 'int32')


def flag(c, rule, what, got, want, b, bt):
  """A flag of the batch shape, or of the clock's shape where the clock is shared."""
  got = asarr(got)
  ok = [b, b if bt else ()]
  if not any(len(s) == got.ndim and all(A.same_dim(x, y) for x, y in zip(s, got.shape)) for s in ok):
    c.bad(rule, what, '', f'shape {got.shape}')
    return
  c.arr(rule, what, got, want, dtype='bool')


def clock(c):
  for b, bt, n in cases(c):
    w = c.world()
    st = w.state(b, T_=n, batched_time=bt)
    tc = tcell(b, bt)
    lb = f'[frames={n},batch={len(b)}{"t" if bt else ""}]'
    N_ = t.lift(n) if isinstance(n, int) else A.dv(n)
    left = lambda *i: t.sub(t.sub(N_, tc.fn(i[:tc.ndim])), t.ONE)
    ok, r = c.run(w, 'remaining', f'remaining_timesteps{lb}', lambda: w.attr(st, 'remaining_timesteps'))
    if ok:
      c.arr('remaining', f'remaining_timesteps{lb}', r, left, shape=tc.shape, dtype='int32')
    ok, r = c.run(w, 'done', f'is_done{lb}', lambda: w.attr(st, 'is_done'))
    if ok:
      c.arr('done', f'is_done{lb}', r, lambda *i: t.le(left(*i), t.ZERO), shape=tc.shape, dtype='bool')
    # the simulated copy never decides the end: it may be shorter or longer
    other = w.m(st, 'replace', sim_trajectory=w.traj('sim', b, N, t.dim('Q')))
    ok, r = c.run(w, 'done', f'is_done with another simulated length{lb}', lambda: w.attr(other, 'is_done'))
    if ok:
      c.arr('done', f'is_done with another simulated length{lb}', r, lambda *i: t.le(left(*i), t.ZERO), shape=tc.shape, dtype='bool')


def envs(w, b):
  dyn = w.new('waymax.dynamics.DeltaGlobal')
  for ctl in ('SDC', 'MODELED', 'VALID'):
    yield f'MultiAgent[{ctl}]', w.new('waymax.env.MultiAgentEnvironment', dyn, env_config(w, controlled_object=w.enum('waymax.config.ObjectType', ctl)))
  e = planning(w, b, 1)[0]
  yield 'Planning', e
  cfg = env_config(w)
  base = w.new('waymax.env.MultiAgentEnvironment', dyn, cfg)
  yield 'Brax', w.new('waymax.env.BraxWrapper', base, dyn, cfg)


def ends(c):
  for b, bt, n in cases(c):
    w = c.world()
    for nm, env in envs(w, b):
      st = w.state(b, T_=n, batched_time=bt)
      tc = tcell(b, bt)
      N_ = A.dv(n) if not isinstance(n, int) else t.lift(n)
      lb = f'{nm}[frames={n},batch={len(b)}{"t" if bt else ""}]'
      over = lambda *i: t.le(t.sub(t.sub(N_, tc.fn(i[:tc.ndim])), t.ONE), t.ZERO)
      ok, r = c.run(w, 'truncation', f'{lb}.truncation', lambda: w.m(env, 'truncation', st))
      if ok:
        flag(c, 'truncation', f'{lb}.truncation', r, over, b, bt)
      ok, r = c.run(w, 'termination', f'{lb}.termination', lambda: w.m(env, 'termination', st))
      if ok:
        flag(c, 'termination', f'{lb}.termination', r, lambda *i: t.FALSE, b, bt)


PARTS = [('clock', clock), ('environments', ends)]
