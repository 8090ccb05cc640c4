"""Linear-use analysis of random keys.

Every consumption of a key (split, draw, hand-over to an agent, carry into the
next loop iteration) is collected with the value-graph identity of the key and
the condition under which it happens; two consumptions of one key under
compatible conditions are a reuse."""
from .catalog import *
from wx.lib import tree_leaves, is_arrlike

FLOOR = 100
ASSUME = ['a consumer (agent) derives nothing from its key after returning', 'split and fold_in are injective (random-number library)']


def is_key(a):
  return is_arrlike(a) and asarr(a).dtype == 'uint32' and len(asarr(a).shape) == 1


def kid(a):
  return asarr(a).fn((t.ZERO,))


def has_atom(v, atom):
  return any(a is atom for a in t.atoms_of(v))


def linear(c, w, label, keys, f):
  """Run f and check the uses of keys inside it."""
  it = w.it
  u0, n0, s0 = len(it.rng_uses), len(it.rng_new), len(it.scans)
  ok, out = c.run(w, 'linear', label, f)
  if not ok:
    return
  uses = list(it.rng_uses[u0:])
  for site, seed in it.rng_new[n0:]:
    c.check(not keys, 'no-own-key', f'{label}: a key is created from {t.show(seed)} although the caller supplied one', where=site)
  for rec in it.scans[s0:]:
    pairs = list(zip(tree_leaves(rec.init), tree_leaves(rec.carry), tree_leaves(rec.carry_out)))
    sv = t.ATOMS[rec.var.p.terms[0][0][0][0]]
    inner = it.rng_uses[rec.rng_in[0]:rec.rng_in[1]]
    for a, b, o in pairs:
      if not is_key(b):
        continue
      uses.append((kid(a), 'loop start', rec.site, t.TRUE))
      used = any(x[0] is kid(b) for x in inner)
      if used or kid(o) is not kid(b):
        uses.append((kid(o), 'next iteration', rec.site, t.TRUE))
        c.check(has_atom(kid(o), sv), 'fresh-per-step', f'{label}: the key carried to the next iteration does not derive from the current one', where=rec.site)
    # A key carried unchanged is the one the loop starts with.
    kept = {t.ATOMS[kid(b).p.terms[0][0][0][0]]: kid(a) for a, b, o in pairs if is_key(b) and kid(o) is kid(b)}
    for k, what, site, pc in inner:
      steps = min(rec.length, 16) if isinstance(rec.length, int) else 16
      at = [t.subst(k, {**kept, sv: t.const(j)}) for j in range(steps)]
      twin = [(i, j) for j in range(steps) for i in range(j) if at[i] is at[j]]
      c.check(not twin or not has_atom(k, sv), 'fresh-per-step', f'{label}: {what} in a loop uses another key in every iteration', where=site,
              detail=f'{t.show(k)[:160]} is the same in iterations {twin[:3]}')
      c.check(rec.length == 1 or has_atom(k, sv), 'fresh-per-step', f'{label}: {what} in a loop uses a key that is the same in every iteration: {t.show(k)[:120]}', where=site)
  if not uses:
    c.ok('linear', f'{label}: no key consumed')
  for i, (k, what, site, pc) in enumerate(uses):
    clash = [u for u in uses[:i] if u[0] is k and t.band(u[3], pc) is not t.FALSE]
    c.check(not clash, 'linear', f'{label}: {what} consumes a fresh key', where=site,
            detail=f'{t.show(k)[:160]} already consumed by {[(u[1], u[2]) for u in clash]}' if clash else '')
  return uses


def operations(c):
  for gen in (env_ops, agent_ops, rollout_ops, wrapper_ops):
    for b in ((), (B,)):
      w = c.world()
      for label, inputs, thunk in gen(w, b):
        keys = 'key' in inputs and 'by_expert' not in label and not (' with key' not in label and 'Planning' in label)
        linear(c, w, f'{label}[batch={len(b)}]', keys, thunk)


def planner(c):
  for b in ((), (B,)):
    for nsim in (1, 2, 3):
      w = c.world()
      env, st, params, logs = planning(w, b, nsim, consume=True)
      k, act, base = key(), w.action(3, b, n=None), w.state(b)
      for op, f in (('reset', lambda: w.m(env, 'reset', base, k)), ('step', lambda: w.m(env, 'step', st, act, k))):
        u = linear(c, w, f'planning.{op}[agents={nsim},batch={len(b)}]', True, f)
        if u is not None:
          got = [x[0] for x in u if x[1].startswith('sim')]
          c.check(len(got) == nsim and len(set(got)) == nsim, 'distinct-agents', f'planning.{op}: {nsim} agents get {nsim} different keys', detail=[t.show(g)[:80] for g in got])
          src = t.atoms_of(kid(k))
          c.check(all(any(a in t.atoms_of(g) for a in src) for g in got), 'derived', f'planning.{op}: agent keys derive from the given key')


def rollouts(c):
  for b in ((), (B,)):
    for n in (1, 2, 5, A.sym(t.dim('H'))):
      w = c.world()
      env = w.new('waymax.env.MultiAgentEnvironment', w.new('waymax.dynamics.DeltaGlobal'), env_config(w))
      actor = stub_actor(w, 'actor', b, d=3, consume=True)
      k, st = key(), w.state(b)
      lb = f'rollout[steps={n},batch={len(b)}]'
      u = linear(c, w, lb, True, lambda: w.call('waymax.env.rollout.rollout', st, actor, env, k, n, {'p': cell('par', (3,))}))
      if u is not None:
        got = [x for x in u if x[1] == 'actor']
        c.check(len(got) == 2, 'linear', f'{lb}: the actor is initialised once and asked once per step with a key', detail=[(x[1], t.show(x[0])[:80]) for x in got])
        c.check(len({x[0] for x in got}) == len(got), 'distinct-agents', f'{lb}: initialisation and steps use different keys')


def wrappers(c):
  """Adapters hand the key they are given to the wrapped function, once."""
  for b in ((), (B,)):
    w = c.world()
    from wx import lib
    seen = []
    def init(*a, **k):
      seen.append(('init', a, k)); lib.use_key(arg(('', a, k), 0, 'rng'), 'init'); return None
    def select(*a, **k):
      seen.append(('select', a, k)); lib.use_key(arg(('', a, k), 3, 'rng'), 'select'); return None
    actor = w.call('waymax.agents.actor_core_factory', Native('init', init), Native('select', select), 'nm')
    st, k1, k2 = w.state(b), key('k1'), key('k2')
    for nm, f, k in (('init', lambda: w.m(actor, 'init', k1, st), k1), ('select_action', lambda: w.m(actor, 'select_action', {}, st, None, k2), k2)):
      u = linear(c, w, f'actor_core_factory.{nm}[batch={len(b)}]', True, f)
      c.check(u is not None and [x[0] for x in u] == [kid(k)], 'derived', f'actor_core_factory.{nm} passes the given key', detail=repr(u)[:200])


PARTS = [('operations', operations), ('planning agents', planner), ('rollouts', rollouts), ('adapters', wrappers)]
