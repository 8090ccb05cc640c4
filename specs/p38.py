"""Value-graph congruence of every selected road-point attribute with that
attribute at the point of the slot's distance rank, for any number of leading
axes, requested points and arbitrary (also integer) attributes."""
from .common import *

FLOOR = 135
ASSUME = ['exact real arithmetic; equally distant points resolve by position']
F = 'waymax.datatypes.filter_topk_roadgraph_points'
RR = t.dim('RR', 4000)


def rank(road, ref, pre, j):
  """Position of the j-th nearest valid point (invalid points last)."""
  g = lambda f, k: asarr(field(road, f)).fn(tuple(pre) + (k,))
  dx = lambda k: ref.fn(tuple(pre) + (t.ZERO,)) - g('x', k)
  dy = lambda k: ref.fn(tuple(pre) + (t.ONE,)) - g('y', k)
  key = lambda k: t.ite(g('valid', k), t.sqrt(dx(k) * dx(k) + dy(k) * dy(k)), t.INF)
  return t.red_fn('rank', RR, key, extra=(j,))


def select(c):
  for p in ((), (B,), (B, N), (B, B2, N)):
    for k in (1, 2, 5, 2000, 3999):
      w = c.world()
      road = w.road('road', p, RR)
      ref = cell('ref', p + (2,))
      lb = f'nearest {k} ({len(p)} leading axes)'
      w.it.freeze(road, 'road graph')
      ok, got = c.run(w, 'select-total', lb, lambda: w.call(F, road, ref, k))
      if not ok:
        continue
      c.check(isinstance(got, Obj) and got.cls is road.cls, 'select', f'{lb} returns road points', detail=f'{got!r}')
      for f in road.fields:
        src = asarr(field(road, f))
        c.arr('select', f'{lb} {f}', field(got, f), lambda *i: src.fn(i[:-1] + (rank(road, ref, i[:-1], i[-1]),)), shape=p + (k,), dtype=src.dtype)
      for site, what in w.it.effects:
        c.bad('no-mutation', f'{lb}: {what}', site)


def whole(c):
  """All points requested, more than all, and mismatching references."""
  for p in ((), (B,), (B, N)):
    for r in (1, 7):
      w = c.world()
      road = w.road('road', p, r)
      ref = cell('ref', p + (2,))
      lb = f'{{}} of {r} points ({len(p)} leading axes)'
      ok, got = c.run(w, 'select-total', lb.format('all'), lambda: w.call(F, road, ref, r))
      if ok:
        for f in road.fields:
          src = asarr(field(road, f))
          c.arr('whole', f'{lb.format("all")} {f}', field(got, f), lambda *i: src.fn(i), shape=p + (r,), dtype=src.dtype)
      for k in (r + 1, 2000):
        c.raises(w, 'rejects', lb.format(k), lambda: w.call(F, road, ref, k))
  w = c.world()
  for nm, road, ref in (('reference of another batch size', w.road('road', (B,), RR), cell('q', (B2, 2))), ('reference of rank three', w.road('road', (B,), RR), cell('q', (B, N, 2))),
                        ('three-dimensional reference', w.road('road', (B,), RR), cell('q', (B, 3))), ('single reference for a batch', w.road('road', (B,), RR), cell('q', (2,)))):
    c.raises(w, 'rejects', nm, lambda: w.call(F, road, ref, 5))


PARTS = [('selection', select), ('all points and errors', whole)]
