"""Effect analysis: every public operation is compiled with everything its caller
can see (arguments, receivers, closures, defaults, class attributes and module
variables) marked; any reachable write to marked state is an effect."""
from .catalog import *

FLOOR = 200


ASSUME = ['third-party library functions are pure except the listed in-place and random/time ones',
          'user-supplied agents and dynamics models are pure']


def group(gen):
  def part(c):
    for b in ((), (B,)):
      w = c.world()
      for label, inputs, thunk in gen(w, b):
        lb = f'{label}[batch={len(b)}]'
        for k, v in inputs.items():
          w.it.freeze(v, k)
        w.it.freeze_globals()
        n = len(w.it.effects)
        try:
          thunk()
        except (PyRaise, ShapeErr) as e:   # totality is another property
          c.gap('pure', lb, e)
          continue
        except UNDECIDED as e:
          c.gap('pure', lb, e)
          continue
        eff = w.it.effects[n:]
        for site, what in eff:
          c.bad('pure', f'{lb}: {what}', site)
        if not eff:
          c.ok('pure', lb)
  return part


PARTS = [(n, group(g)) for n, g in GROUPS]
