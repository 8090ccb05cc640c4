"""Tracing analysis: every public operation is compiled with all array inputs
abstract; any Python branch, container index, host number, string, or host array
taken from such a value is reported where it happens."""
from .catalog import *

FLOOR = 200
ASSUME = ['shapes, configuration values and metric names are static under tracing; every array is traced']


def group(gen):
  def part(c):
    for b in ((), (B,)):
      w = c.world()
      for label, inputs, thunk in gen(w, b):
        if '_spec' in label and gen is not dynamics_ops:
          continue   # takes no arrays; read on the host, outside any trace
        if ' == ' in label:
          continue   # answers a host bool; raises when traced, by design
        lb = f'{label}[batch={len(b)}]'
        n, m = len(w.it.traced_branches), len(w.it.host_reads)
        try:
          thunk()
        except (PyRaise, ShapeErr) as e:   # totality is another property
          if not (w.it.traced_branches[n:] or w.it.host_reads[m:]):
            c.gap('traceable', lb, e)
            continue
        except UNDECIDED as e:
          if not (w.it.traced_branches[n:] or w.it.host_reads[m:]):
            c.gap('traceable', lb, e)
            continue
        bad = w.it.traced_branches[n:] + w.it.host_reads[m:]
        for site, what in bad:
          c.bad('traceable', f'{lb}: {what}', site)
        if not bad:
          c.ok('traceable', lb)
  return part


PARTS = [(n, group(g)) for n, g in GROUPS]
