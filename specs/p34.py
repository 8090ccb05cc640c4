"""Data flow from scene fields to drawing calls: every loop over objects, points
or lights is compiled at one representative position, boolean filters become
selections, and each call on the axes is recorded with its path condition.
A position that reaches a drawing call must be masked by its own validity."""
from .common import *

FLOOR = 45
ASSUME = ['matplotlib draws what it is given', 'one ego object, valid at the drawn step, in whole-scene drawings']
V = 'waymax.visualization.viz.'
VC = 'waymax.visualization.utils.VizConfig'
VIEW = ('axis', 'set_xlim', 'set_ylim', 'legend', 'grid', 'set_aspect', 'set_title', 'set_xlabel', 'set_ylabel', 'set_facecolor')
SHOWN = (1, 2, 3, 15, 16, 17, 18, 19)
RED, YELLOW, GREEN = (1, 0, 0), (1, 1, 0), (0, 1, 0)
LIGHTS = {1: RED, 4: RED, 2: YELLOW, 5: YELLOW, 3: GREEN, 6: GREEN}


def canvas(w):
  """Stand-in figure and axes; loops over scene axes run once, symbolically."""
  it = w.it
  it.each = {}
  fig, ax = Opq('figure'), Opq('axes')
  fig.attrs['gca'] = Native('gca', lambda: ax)
  for m in ('pylab', 'pyplot'):
    it.ext_hooks[f'matplotlib.{m}.subplots'] = lambda *a, **k: setattr(it, 'figure_kwargs', k) or (fig, ax)
  img = Opq('image')
  w.it.module('waymax.visualization.utils').ns['img_from_fig'] = Native('img_from_fig', lambda *a, **k: img)
  t.IN_BOUND['tl.state'] = t.const(9)
  t.IN_BOUND['otl.state'] = t.const(9)
  return ax, img


def settle(v, cond):
  """The value with alternatives dropped that the condition excludes."""
  while isinstance(v, Phi):
    if t.band(cond, v.c) is t.FALSE:
      v = v.b
    elif t.band(cond, t.bnot(v.c)) is t.FALSE:
      v = v.a
    else:
      a, b = settle(v.a, t.band(cond, v.c)), settle(v.b, t.band(cond, t.bnot(v.c)))
      return v if a is v.a and b is v.b else Phi(v.c, a, b)
  if isinstance(v, (list, tuple)):
    return [settle(x, cond) for x in v]
  return v


def flat(v):
  if isinstance(v, Phi):
    return flat(v.a) + flat(v.b)
  if isinstance(v, (list, tuple)):
    return [y for x in v for y in flat(x)]
  if isinstance(v, (Arr, A.Sym)):
    return [asarr(v)]
  return []


def channels(v, by=None):
  """The (r, g, b) components of a drawing colour, as terms; [] if none."""
  if isinstance(v, Phi):
    a, b = channels(v.a, by), channels(v.b, by)
    return [t.ite(v.c, p, q) for p, q in zip(a, b)] if a and b else []
  if isinstance(v, (list, tuple)) and len(v) in (3, 4):
    return [asarr(p).fn(()) if isinstance(p, (Arr, A.Sym)) else t.lift(p) for p in v[:3]]
  if isinstance(v, (list, tuple)) and len(v) == 1:
    return channels(v[0], by)
  if isinstance(v, Arr) and v.shape in ((3,), (4,)):
    return [v.fn((t.const(k),)) for k in range(3)]
  if isinstance(v, Arr) and v.ndim == 2 and v.shape[1] in (3, 4):
    i = (by or {}).get(A.dv(v.shape[0]).id)
    return [v.fn((i, t.const(k))) for k in range(3)] if i is not None else []
  return []


def is_place(at):
  return at.kind == 'in' and at.args[0].rsplit('.', 1)[-1] in ('x', 'y') and '.' in at.args[0]


def inside(at):
  return {at} | t.atoms_of(t.atom_v(at))


class Draw:
  """One recorded call: values drawn, and the condition, over free positions."""

  def __init__(self, pc, call, site, each):
    self.call, self.site, self.path = call, site, call.path
    self.cond = pc
    self.vars = {}
    for v in each.values():
      at = t._single_atom(v.v if isinstance(v, A.Sym) else v.fn(()))
      if at.kind == 'var':
        self.vars[at] = at.args[1]
    args = [a for a in call.args] + [v for k, v in call.kwargs.items() if k in ('xy', 'x', 'y', 'xs', 'ys', 'offsets', 'data')]
    self.nodes = []
    args = settle(args, pc)
    arrs, self.axes = [], []
    for k, v in enumerate(args):
      for a in flat(v):
        arrs.append(a)
        self.axes.append('xy'[k] if self.path in ('plot', 'scatter', 'text') and k < 2 else '')
    by = {k: v.v if isinstance(v, A.Sym) else v.fn(()) for k, v in each.items()}
    for a in arrs:
      idx = []
      for d in a.shape:
        k = A.dv(d).id
        if k not in by:
          by[k] = self.var(A.dv(d))
        idx.append(by[k])
      self.nodes.append(t.b2n(a.fn(tuple(idx))))
    self.color = settle(call.kwargs.get('color', call.kwargs.get('c')), pc)
    k = len(self.nodes)
    self.nodes += channels(self.color, by)
    self.resolve()
    self.nodes, self.rgb = self.nodes[:k], self.nodes[k:]

  def var(self, size, v=None):
    v = t.fresh_var(size) if v is None else v
    self.vars[t._single_atom(v)] = size
    return v

  def atoms(self):
    out = set()
    for n in self.nodes + [self.cond]:
      out |= t.atoms_of(n)
    return out

  def put(self, at, val):
    self.nodes = [t._subst_atom(n, at, val) for n in self.nodes]
    self.cond = t._subst_atom(self.cond, at, val)

  def resolve(self):
    """Replace the k-th selected element by an arbitrary selected element."""
    gates, todo = set(), [self.cond]
    while todo:
      x = todo.pop()
      if x.kind == 'd' and x.atom not in gates:
        gates.add(x.atom)
        todo += [x.hi, x.lo]
    for a in gates:
      for pol in (True, False):
        if t.cofactor(self.cond, a, not pol) is t.FALSE:
          self.nodes = [t.cofactor(n, a, pol) for n in self.nodes]
    for _ in range(40):
      ats = self.atoms()
      sel = [a for a in ats if a.kind == 'red' and a.args[0] == 'nth_true' and t._single_atom(a.args[4]) in self.vars]
      sel = [a for a in sel if not any(b is not a and t._single_atom(b.args[4]) is t._single_atom(a.args[4]) and b in t.atoms_of(a.args[3]) for b in sel)]
      if not sel:
        break
      a = min(sel, key=lambda a: a.id)
      size, d, body = a.args[1], a.args[2], a.args[3]
      parts = [size]
      if len(size.p.terms) == 1 and len(size.p.terms[0][0]) > 1:
        bv = t.mk_atom('bv', (d, size), 'n', True)
        dv = t._radix(size, bv, body)
        if dv is not None:
          (ms, cs), (mi, ci) = size.p.terms[0], dv.p.terms[0]
          parts = [t._leaf(t.mk_poly({t._mono_div(ms, mi): cs / ci})), dv]
      s = t.ZERO
      for p in parts:
        s = t.add(t.mul(s, p), self.var(p))
      for b in sel:
        if t._single_atom(b.args[4]) is t._single_atom(a.args[4]) and b.args[1:4] == a.args[1:4]:
          self.put(b, s)
      here = t.as_bool(t.subst(body, {t.mk_atom('bv', (d, size), 'n', True): s}))
      self.cond = t.band(self.cond, here)

  def misplaced(self):
    """A drawn coordinate that is not its element's own, merely shifted."""
    for n, ax in zip(self.nodes, self.axes):
      for l in t.leaves(n):
        if l.kind != 'n':
          continue
        parts = [(mono, cf) for mono, cf in l.p.terms if any(is_place(a) for aid, _ in mono for a in inside(t.ATOMS[aid]))]
        if not parts:
          continue
        mono, cf = parts[0]
        if len(parts) > 1 or cf != 1 or len(mono) != 1 or mono[0][1] != 1 or not is_place(t.ATOMS[mono[0][0]]):
          return l
        if ax and not t.ATOMS[mono[0][0]].args[0].endswith('.' + ax):
          return l

  def cells(self):
    """Positions of the scene drawn by this call: (family, index) -> condition."""
    out = {}
    for n in self.nodes:
      for l in t.leaves(n):
        for at in t.atoms_of(l) if l.kind == 'n' else ():
          if at.kind == 'in' and at.args[0].rsplit('.', 1)[-1] in ('x', 'y'):
            k = (at.args[0].rsplit('.', 1)[0], at.args[1:])
            here = t.lift_apply(lambda z, at=at: t.TRUE if z.kind == 'n' and at in t.atoms_of(z) else t.FALSE, [n])
            out[k] = t.bor(out.get(k, t.FALSE), t.band(self.cond, here))
    return out

  def some(self, cond):
    """cond for some choice of this call's free positions."""
    for at, size in self.vars.items():
      if at in cond.fv or at in t.atoms_of(cond):
        cond = t.reduce_('any', size, lambda i, at=at, cond=cond: t.subst(cond, {at: i}))
    return cond


def draws(w, ax, start):
  out = []
  for pc, r, site in w.it.opq_calls[start:]:
    if r.parent is ax and r.path not in VIEW:
      out.append(Draw(pc, r, site, w.it.each))
  return out


def drawn(ds, fam, at, pick=lambda d: True):
  """Condition that some call draws this cell of the family."""
  acc = t.FALSE
  for d in ds:
    if not pick(d):
      continue
    for (f, idx), cond in d.cells().items():
      if f != fam:
        continue
      pins, rest = {}, []
      for p, q in zip(idx, at):
        k = t._single_atom(p)
        if k in d.vars and k not in pins:
          pins[k] = q
        else:
          rest.append((p, q))
      for p, q in rest:
        cond = t.band(cond, t.eq(p, q))
      acc = t.bor(acc, d.some(t.subst(cond, pins)))
  return acc


def only_valid(c, what, ds, facts=()):
  for d in ds:
    cells_ = d.cells()
    n = 0
    for (f, idx), cond in cells_.items():
      n += 1
      ok = t.inp(f + '.valid', *idx, sort='b')
      c.node('masked', f'{what}: {d.path} of {f} #{n}', t.ite(ok, t.FALSE, cond), t.FALSE, where=d.site, facts=facts)
    odd = d.misplaced()
    c.check(odd is None, 'position', f'{what}: {d.path} draws elements where they are', where=d.site, detail=repr(odd)[:300])
    if d.path != 'text':
      got = t.FALSE
      for cond in cells_.values():
        got = t.bor(got, cond)
      c.node('element', f'{what}: {d.path} draws scene elements', t.ite(d.cond, got, t.TRUE), t.TRUE, where=d.site, facts=facts)


def is_colour(d, want):
  """Condition that a call's drawing colour equals (r, g, b)."""
  if not d.rgb:
    return t.FALSE
  acc = t.TRUE
  for p, q in zip(d.rgb, want):
    acc = t.band(acc, t.eq(p, t.lift(q)))
  return acc


def table(w, name):
  d = w.get('waymax.visualization.color.COLOR_DICT')
  a = asarr(w.it.getitem(d, name))
  return [a.fn((t.const(k),)) for k in range(3)]


def step_of():
  v = t.fresh_var(A.dv(T))
  return Arr((), 'int32', lambda i: v), v


def freeze(w, *vs):
  for k, v in enumerate(vs):
    w.it.freeze(v, f'argument {k}')


def untouched(c, w, what, n):
  eff = w.it.effects[n:]
  c.check(not eff, 'input-kept', f'{what} leaves its inputs alone', where=eff[0][0] if eff else '', detail=eff[0][1] if eff else '')


def sized(d, pos, full):
  """Condition that the call draws the object at pos in (other than) its extent."""
  acc = t.FALSE
  for (f, idx), cond in d.cells().items():
    pins = {t._single_atom(p): q for p, q in zip(idx, pos) if t._single_atom(p) in d.vars}
    for p, q in zip(idx, pos):
      cond = t.band(cond, t.eq(p, q))
    cond = t.subst(cond, pins)
    for n in d.nodes:
      def odd(l):
        if l.kind != 'n':
          return t.FALSE
        size = [cf for mono, cf in l.p.terms if any(a.kind == 'in' and a.args[0].endswith(('.length', '.width')) for aid, _ in mono for a in inside(t.ATOMS[aid]))]
        return t.TRUE if any((abs(cf) * 2 == 1) == full for cf in size) else t.FALSE
      acc = t.bor(acc, t.band(cond, t.lift_apply(odd, [t.subst(n, pins)])))
  return d.some(acc)


def objects(c):
  for name in ('step', 'last', 'none'):
    w = c.world()
    box_predicate(w)
    ax, _ = canvas(w)
    tr, ctl, ids = w.traj('log'), cell('ctl', (N,), 'bool'), cell('ids', (N,), 'int32')
    ctl.host = ids.host = True
    arr, now = step_of()
    freeze(w, tr, ctl, ids)
    n, e = len(w.it.opq_calls), len(w.it.effects)
    kw = {} if name == 'none' else {'time_idx': arr if name == 'step' else -1}
    ok, _ = c.run(w, 'runs', f'plot_trajectory {name}', lambda: w.call(V + 'plot_trajectory', ax, tr, ctl, indices=ids, **kw))
    if not ok:
      continue
    untouched(c, w, f'plot_trajectory {name}', e)
    ds = draws(w, ax, n)
    c.count('drawing calls', len(ds))
    only_valid(c, f'plot_trajectory {name}', ds)
    if name == 'none':
      i, j = ixs((N, T))
      c.node('complete', 'plot_trajectory without a step shows every valid position',
             t.ite(t.inp('log.valid', i, j, sort='b'), drawn(ds, 'log', (i, j)), t.TRUE), t.TRUE)
      continue
    now = now if name == 'step' else t.sub(A.dv(T), t.ONE)
    i, = ixs((N,))
    ok = t.inp('log.valid', i, now, sort='b')
    mine = ctl.fn((i,))
    boxes = [d for d in ds if d.path != 'text']
    def coloured(k, boxes=boxes, w=w):
      want = table(w, k)
      return lambda d: is_colour(d, want) is t.TRUE
    pos = (i, now)
    c.node('complete', f'{name}: every valid object is drawn', t.ite(ok, drawn(boxes, 'log', pos), t.TRUE), t.TRUE)
    c.node('complete', f'{name}: every valid object has its id', t.ite(ok, drawn([d for d in ds if d.path == 'text'], 'log', pos), t.TRUE), t.TRUE)
    c.node('category', f'{name}: controlled objects', drawn(ds, 'log', pos, coloured('controlled')), t.band(ok, mine))
    c.node('category', f'{name}: context objects', drawn(ds, 'log', pos, coloured('context')), t.band(ok, t.bnot(mine)))
    c.node('category', f'{name}: past positions only as history', drawn(ds, 'log', pos, coloured('history')), t.FALSE)
    for d in boxes:
      c.check(d.color is not None, 'category', f'{name}: {d.path} has a colour', where=d.site)
    for d in boxes:
      if is_colour(d, table(w, 'history')) is t.TRUE:
        continue
      c.node('extent', f'{name}: objects of the step are drawn in full size', sized(d, pos, False), t.FALSE, where=d.site)
      k, j = ixs((N, T))
      c.node('extent', f'{name}: objects of another step are not', t.ite(t.eq(j, now), t.FALSE, sized(d, (k, j), True)), t.FALSE, where=d.site)

  w = c.world()
  ax, _ = canvas(w)
  ctl = cell('ctl', (N,), 'bool')
  ctl.host = True
  for k in (5, 6):
    c.raises(w, 'rejects', f'plot_trajectory at step {k} of 5', lambda: w.call(V + 'plot_trajectory', ax, w.traj('log', (), N, 5), ctl, time_idx=k), ('ValueError',))
  c.raises(w, 'rejects', 'plot_trajectory of a batch', lambda: w.call(V + 'plot_trajectory', ax, w.traj('log', (B,), N, 5), ctl, time_idx=2), ('ValueError',))



def overlapping(c):
  w = c.world()
  used, _ = box_predicate(w)
  ax, _ = canvas(w)
  tr, ctl = w.traj('log'), cell('ctl', (N,), 'bool')
  arr, now = step_of()
  n = len(w.it.opq_calls)
  ok, _ = c.run(w, 'runs', 'plot_trajectory (overlaps)', lambda: w.call(V + 'plot_trajectory', ax, tr, ctl, time_idx=arr))
  if not ok:
    return
  ds = [d for d in draws(w, ax, n) if is_colour(d, table(w, 'overlap')) is t.TRUE]
  i, = ixs((N,))
  five = lambda k: [t.inp('log.' + f, k, now) for f in ('x', 'y', 'length', 'width', 'yaw')]
  ok = lambda k: t.inp('log.valid', k, now, sort='b')
  hit = lambda k: t.bor(t.fn('overlap', *five(i), *five(k), sort='b'), t.fn('overlap', *five(k), *five(i), sort='b'))
  want = t.band(ok(i), t.reduce_('any', A.dv(N), lambda k: t.band(t.bnot(t.eq(i, k)), t.band(ok(k), hit(k)))))
  c.node('category', 'overlapping objects are the valid ones touching another valid one', drawn(ds, 'log', (i, now)), want)


def rows(a, m=5):
  """The m corners of a closed outline, each over the boxes."""
  if isinstance(a, Arr) and a.ndim == 2 and a.shape[0] == m:
    return [A.getitem(a, k) for k in range(m)]
  return a if isinstance(a, (list, tuple)) and len(a) == m else None


def outline(c):
  """Full boxes are drawn at the object's position, extent and heading."""
  w = c.world()
  ax, _ = canvas(w)
  bb = cell('box', (N, 5))
  n, e = len(w.it.opq_calls), len(w.it.effects)
  bb.host = True
  freeze(w, bb)
  col = Arr((3,), 'float32', lambda i: t.inp('col', i[0]))
  for pts in (False, True):
    n = len(w.it.opq_calls)
    ok, _ = c.run(w, 'runs', f'boxes centre={pts}', lambda: w.call('waymax.visualization.utils.plot_numpy_bounding_boxes', ax, bb, col, as_center_pts=pts))
    if not ok:
      continue
    untouched(c, w, f'boxes centre={pts}', e)
    calls = [r for _, r, _ in w.it.opq_calls[n:] if r.parent is ax and r.path == 'plot']
    i, = ixs((N,))
    f = [t.inp('box', i, t.const(k)) for k in range(5)]
    if pts:
      xs, ys = asarr(calls[0].args[0]), asarr(calls[0].args[1])
      c.node('outline', 'centre x', xs.fn((i,)), f[0])
      c.node('outline', 'centre y', ys.fn((i,)), f[1])
      continue
    polys = [r for r in calls if len(r.args) >= 2 and all(rows(a) is not None for a in r.args[:2])]
    if not polys:
      c.gap('outline', 'outline of a box', Gap('no closed four-cornered outline found'))
      continue
    xs, ys = [[asarr(v).fn((i,)) for v in rows(a)] for a in polys[0].args[:2]]
    co, si = t.cos(f[4]), t.sin(f[4])
    half = t.div(t.ONE, t.const(2))
    want = []
    for p, q in ((1, 1), (1, -1), (-1, -1), (-1, 1)):
      l, m = t.mul(t.mul(t.const(p), half), f[2]), t.mul(t.mul(t.const(q), half), f[3])
      want.append((t.add(f[0], t.sub(t.mul(l, co), t.mul(m, si))), t.add(f[1], t.add(t.mul(l, si), t.mul(m, co)))))
    got = list(zip(xs, ys))
    c.check(got[0][0] is got[4][0] and got[0][1] is got[4][1], 'outline', 'the outline is closed')
    k = next((k for k, q in enumerate(want) if q[0] is got[0][0] and q[1] is got[0][1]), None)
    if c.check(k is not None, 'outline', 'the outline starts at a corner', detail=repr(got[0])[:300]):
      turn = [want[(k + s) % 4] for s in range(4)], [want[(k - s) % 4] for s in range(4)]
      c.check(any(all(p[0] is q[0] and p[1] is q[1] for p, q in zip(o, got)) for o in turn), 'outline', 'the outline visits the corners in turn', detail=repr(got)[:600])
    # a mark pointing from the two sides to the front
    tip = lambda l, m: (t.add(f[0], t.sub(t.mul(l, co), t.mul(m, si))), t.add(f[1], t.add(t.mul(l, si), t.mul(m, co))))
    hl, hw = t.mul(half, f[2]), t.mul(half, f[3])
    mark = [tip(hl, t.ZERO), tip(t.ZERO, hw), tip(t.ZERO, t.neg(hw))]
    tris = [r for r in calls if r is not polys[0] and len(r.args) >= 2 and all(rows(a, 4) is not None for a in r.args[:2])]
    for r in tris:
      pts_ = list(zip(*([asarr(v).fn((i,)) for v in rows(a, 4)] for a in r.args[:2])))
      eq = lambda p, q: p[0] is q[0] and p[1] is q[1]
      c.check(eq(pts_[0], pts_[3]) and all(any(eq(p, q) for q in pts_[:3]) for p in mark), 'outline', 'the heading mark joins both sides and the front', detail=repr(pts_)[:600])
    if not tris:
      c.gap('outline', 'heading mark of a box', Gap('no closed triangle found'))
  for what, a, k in (('boxes of another width', cell('box', (N, 6)), col), ('boxes of another rank', cell('box', (B, N, 5)), col), ('a colour of another size', bb, Arr((4,), 'float32', lambda i: t.inp('col', i[0])))):
    c.raises(w, 'refuses', f'{what}', lambda: w.call('waymax.visualization.utils.plot_numpy_bounding_boxes', ax, a, k), ('ValueError',))


def helpers(c):
  """The figure size and the view follow the drawing configuration."""
  w = c.world()
  ax, _ = canvas(w)
  cfg = w.new(VC, **SPAN, px_per_meter=3.)
  n = len(w.it.opq_calls)
  ok, _ = c.run(w, 'runs', 'init_fig_ax', lambda: w.call('waymax.visualization.utils.init_fig_ax', cfg))
  if ok:
    pixels(c, w, n, "init_fig_ax", 3.)
  n = len(w.it.opq_calls)
  xy = Arr((2,), 'float32', lambda i: t.inp('xy', i[0]))
  ok, _ = c.run(w, 'runs', 'center_at_xy', lambda: w.call('waymax.visualization.utils.center_at_xy', ax, xy, cfg))
  if ok:
    p, q = t.inp('xy', t.ZERO), t.inp('xy', t.ONE)
    want = [t.sub(p, t.lift(13.)), t.add(p, t.lift(11.)), t.sub(q, t.lift(19.)), t.add(q, t.lift(17.))]
    for k, (g, x) in enumerate(zip(limits(w.it.opq_calls[n:], ax), want)):
      if c.check(g is not None, 'view', f'center_at_xy: limit {k} is set'):
        c.node('view', f'center_at_xy: limit {k}', asarr(g).fn(()), x)


def pixels(c, w, n, name, ppm):
  """The pixel size of the figure is the configured extent times the scale."""
  size, dpi, other = None, None, False
  for _, r, _ in w.it.opq_calls[n:]:
    if r.path == 'set_size_inches':
      a = r.args[0] if len(r.args) == 1 else r.args
      size = list(a) if isinstance(a, (list, tuple)) and len(a) == 2 else None
      other |= size is None
    elif r.path in ('set_dpi',):
      dpi = r.args[0] if r.args else None
    elif r.path in ('set_figwidth', 'set_figheight'):
      other = True
  made = getattr(w.it, 'figure_kwargs', {})
  size = size or made.get('figsize')
  dpi = dpi if dpi is not None else made.get('dpi')
  if size is None or dpi is None or other:
    return c.gap('view', f'{name}: figure size', Gap('the figure size is set in an unknown way'))
  for k, span in enumerate((24., 36.)):
    got = t.mul(asarr(size[k]).fn(()), asarr(dpi).fn(()))
    c.node('view', f'{name}: pixels along axis {k}', got, t.lift(span * ppm))


def roads(c):
  w = c.world()
  ax, _ = canvas(w)
  rg = w.road('road')
  freeze(w, rg)
  n, e = len(w.it.opq_calls), len(w.it.effects)
  ok, _ = c.run(w, 'runs', 'plot_roadgraph_points', lambda: w.call(V + 'plot_roadgraph_points', ax, rg))
  if not ok:
    return
  untouched(c, w, 'plot_roadgraph_points', e)
  ds = draws(w, ax, n)
  only_valid(c, 'plot_roadgraph_points', ds)
  i, = ixs((R,))
  ty = t.inp('road.types', i, isint=True)
  shown = t.FALSE
  for k in SHOWN:
    shown = t.bor(shown, t.eq(ty, t.const(k)))
  c.node('complete', 'every valid point of a shown type is drawn',
         t.ite(t.band(shown, t.inp('road.valid', i, sort='b')), drawn(ds, 'road', (i,)), t.TRUE), t.TRUE)
  for d in ds:
    c.check(d.color is not None, 'colour', 'road points have a colour', where=d.site)
  cols = w.get('waymax.visualization.color.ROAD_GRAPH_COLORS')
  for k in SHOWN:
    v = cols.get(k) if isinstance(cols, dict) else None
    c.check(v is not None and asarr(v).shape == (3,), 'colour', f'road type {k} has a colour', where='waymax/visualization/color.py')


def lights(c):
  w = c.world()
  ax, _ = canvas(w)
  tl = w.lights('tl')
  arr, now = step_of()
  freeze(w, tl)
  n, e = len(w.it.opq_calls), len(w.it.effects)
  ok, _ = c.run(w, 'runs', 'plot_traffic_light_signals_as_points', lambda: w.call(V + 'plot_traffic_light_signals_as_points', ax, tl, arr))
  if not ok:
    return
  untouched(c, w, 'plot_traffic_light_signals_as_points', e)
  ds = draws(w, ax, n)
  only_valid(c, 'plot_traffic_light_signals_as_points', ds)
  i, j = ixs((L, T))
  c.node('complete', 'every valid light of the step is drawn', drawn(ds, 'tl', (i, now)), t.inp('tl.valid', i, now, sort='b'))
  c.node('frame', 'lights of the asked step only', t.ite(t.eq(j, now), t.FALSE, drawn(ds, 'tl', (i, j))), t.FALSE)
  for d in ds:
    for (f, idx), cond in d.cells().items():
      st = t.inp('tl.state', *idx, isint=True)
      for k, want in LIGHTS.items():
        c.node('colour', f'light state {k}', t.ite(t.band(cond, t.eq(st, t.const(k))), is_colour(d, want), t.TRUE), t.TRUE, where=d.site)
  cols = w.get('waymax.visualization.color.TRAFFIC_LIGHT_COLORS')
  for k in range(9):
    v = cols.get(k) if isinstance(cols, dict) else None
    c.check(v is not None and asarr(v).shape == (3,), 'colour', f'light state {k} has a colour', where='waymax/visualization/color.py')


def choices(v):
  """(condition, value) for each value a partly chosen value may take."""
  if isinstance(v, Phi):
    return [(t.band(v.c, g), x) for g, x in choices(v.a)] + [(t.band(t.bnot(v.c), g), x) for g, x in choices(v.b)]
  if isinstance(v, (list, tuple)):
    out = [(t.TRUE, [])]
    for x in v:
      out = [(t.band(g, h), y + [z]) for g, y in out for h, z in choices(x)]
    return out
  return [(t.TRUE, v)]


def routes(c):
  w = c.world()
  ax, _ = canvas(w)
  pa = w.paths('paths')
  freeze(w, pa)
  n, e = len(w.it.opq_calls), len(w.it.effects)
  ok, _ = c.run(w, 'runs', '_plot_path_points', lambda: w.call(V + '_plot_path_points', ax, pa))
  if ok:
    untouched(c, w, '_plot_path_points', e)
    ds = draws(w, ax, n)
    only_valid(c, '_plot_path_points', ds)
    i, j = ixs((PATHS, PPTS))
    v = lambda k: t.inp('paths.valid', i, k, sort='b')
    c.node('complete', 'every valid point of a route with a valid start is drawn',
           t.ite(t.band(v(t.ZERO), v(j)), drawn(ds, 'paths', (i, j)), t.TRUE), t.TRUE)
    styles = {}
    for d in ds:
      key = [x for x in d.call.args if isinstance(x, (str, Phi)) and not flat(x)] + [d.call.kwargs[k] for k in ('color', 'c', 'marker', 'fmt') if k in d.call.kwargs]
      for cond, k in choices(key):
        styles.setdefault(repr((k, [x.id for x in d.rgb])), []).append((d, cond))
    on = t.inp('paths.on_route', i, t.ZERO, sort='b')
    for k, group in styles.items():
      got = t.FALSE
      for d, cond in group:
        was, d.cond = d.cond, t.band(d.cond, cond)
        got = t.bor(got, drawn([d], 'paths', (i, j)))
        d.cond = was
      same = [t.differ(t.ite(on, t.FALSE, got), t.FALSE, ()), t.differ(t.ite(on, got, t.FALSE), t.FALSE, ())]
      c.check(None in same, 'category', 'one style is used for routes or for other paths, not both', where=group[0][0].site)


SPAN = dict(front_x=11., back_x=13., front_y=17., back_y=19.)


def limits(calls, ax):
  """The last (left, right, bottom, top) given to the axes."""
  out = [None] * 4
  for _, r, _ in calls:
    if r.parent is not ax or r.path not in ('axis', 'set_xlim', 'set_ylim'):
      continue
    a = r.args[0] if r.args and isinstance(r.args[0], (list, tuple)) else r.args
    at = 2 if r.path == 'set_ylim' else 0
    if isinstance(a, (list, tuple)) and len(a) == (4 if r.path == 'axis' else 2):
      out[at:at + len(a)] = a
    for k, v in r.kwargs.items():
      q = {'xmin': 0, 'left': 0, 'xmax': 1, 'right': 1, 'ymin': 2, 'bottom': 2, 'ymax': 3, 'top': 3}.get(k)
      if q is not None:
        out[q] = v
  return out


def scene(c, w, ax, img, name, call, inputs, traj, at, me, ctl, road, tls, now_tl, facts, shift=lambda i: i):
  """Rules every whole-scene drawing meets.  traj/road/tls: cell families;
  at(i)/now_tl(l): cell position of object i / light l at the drawn step."""
  freeze(w, *inputs)
  n, e = len(w.it.opq_calls), len(w.it.effects)
  ok, out = c.run(w, 'runs', name, call)
  if not ok:
    return
  untouched(c, w, name, e)
  c.check(out is img, 'image', f'{name} returns the image of its figure')
  ds = draws(w, ax, n)
  c.count('drawing calls', len(ds))
  only_valid(c, name, ds, facts)
  fams = {f for d in ds for f, _ in d.cells()}
  known = {traj, road, tls, 'paths'}
  c.check(fams <= known, 'source', f'{name} draws the chosen scene only', detail=str(fams - known))
  i, = ixs((N,))
  pos = at(i)
  good = t.inp(traj + '.valid', *pos, sort='b')
  mine = ctl(i)
  boxes = [d for d in ds if d.path != 'text']
  def coloured(k):
    want = table(w, k)
    return lambda d: is_colour(d, want) is t.TRUE
  c.node('complete', f'{name}: every valid object is drawn', t.ite(good, drawn(boxes, traj, pos), t.TRUE), t.TRUE, facts=facts)
  c.node('category', f'{name}: highlighted objects', drawn(ds, traj, pos, coloured('controlled')), t.band(good, mine), facts=facts)
  c.node('category', f'{name}: other objects', drawn(ds, traj, pos, coloured('context')), t.band(good, t.bnot(mine)), facts=facts)
  l, = ixs((L,))
  c.node('complete', f'{name}: the lights of the drawn step', drawn(ds, tls, now_tl(l)), t.inp(tls + '.valid', *now_tl(l), sort='b'), facts=facts)
  l, j = ixs((L, T))
  c.node('frame', f'{name}: no other light frame', t.ite(t.eq(j, now_tl(l)[-1]), t.FALSE, drawn(ds, tls, now_tl(l)[:-1] + (j,))), t.FALSE, facts=facts)
  pixels(c, w, n, name, 4.)
  lim = limits(w.it.opq_calls[n:], ax)
  spot = [t.inp(f'{traj}.{k}', *at(me), sort='n') for k in 'xy']
  want = [t.sub(spot[0], t.lift(13.)), t.add(spot[0], t.lift(11.)), t.sub(spot[1], t.lift(19.)), t.add(spot[1], t.lift(17.))]
  for k, (g, x) in enumerate(zip(lim, want)):
    if c.check(g is not None, 'view', f'{name}: limit {k} is set'):
      c.node('view', f'{name}: limit {k}', asarr(g).fn(()), x, facts=facts)
  return ds


def states(c):
  ty = 'waymax.config.ObjectType'
  for log, batch, centre, kind, brax, bare in (
      (True, False, -1, 'SDC', False, False), (False, True, -1, 'VALID', False, False), (False, False, 2, 'MODELED', False, True),
      (True, True, 2, 'SDC', True, False), (False, False, -1, 'SDC', True, False), (False, False, -1, 'SDC', True, True)):
    w = c.world()
    box_predicate(w)
    ax, img = canvas(w)
    b = (B,) if batch else ()
    t.IN_BOUND['t'] = A.dv(T)
    st, e = one_ego(w, b, w.state(b, batched_time=batch, paths=not bare, road=not bare))
    bi = (t.ONE,) if batch else ()
    now = t.inp('t', *bi, isint=True)
    fam = 'log' if log else 'sim'
    cfg = dict(SPAN, center_agent_idx=centre)
    kw = dict(use_log_traj=log, viz_config=cfg, batch_idx=1 if batch else -1)
    me = e(bi) if centre < 0 else t.const(centre)
    name = ('plot_single_agent_brax_timestep' if brax else 'plot_simulator_state') + f'({fam}, batch={batch}, centre={centre}, {kind}, bare={bare})'
    meta = field(st, 'object_metadata')
    if brax:
      met = w.rec('waymax.metrics.abstract_metric.MetricResult', 'met', b, dict(value='float32', valid='bool'))
      ts = w.new('waymax.env.wrappers.brax_wrapper.TimeStep', state=st, observation=None, reward=cell('rew', b), done=cell('done', b, 'bool'),
                 discount=cell('disc', b), metrics={'score': met})
      call = lambda: w.call(V + 'plot_single_agent_brax_timestep', ts, **kw)
      ctl = lambda i: t.eq(i, e(bi))
      ins = [ts]
    else:
      kind = w.enum(ty, kind)
      call = lambda: w.call(V + 'plot_simulator_state', st, highlight_obj=kind, **kw)
      ok, m = c.run(w, 'runs', 'get_control_mask', lambda: w.call('waymax.datatypes.get_control_mask', meta, kind))
      if not ok:
        continue
      ctl = lambda i: m.fn(bi + (i,))
      ins = [st]
    at = lambda i: bi + (i, now)
    facts = (t.inp(fam + '.valid', *at(me), sort='b'),)
    n = len(w.it.opq_calls)
    ds = scene(c, w, ax, img, name, call, ins, fam, at, me, ctl, 'road', 'tl', lambda l: bi + (l, now), facts)
    if ds is None:
      continue
    if brax:
      shows = t.FALSE
      for pc, r, site in w.it.opq_calls[n:]:
        if r.parent is ax and r.path == 'text' and 'score' in repr(r.args):
          shows = t.bor(shows, pc)
      c.node('metrics', f'{name}: valid metrics are written, others are not', shows, t.inp('met.valid', *bi, sort='b'), facts=facts)
    if not bare:
      i, = ixs((R,))
      kd = t.inp('road.types', *bi, i, isint=True)
      shown = t.FALSE
      for k in SHOWN:
        shown = t.bor(shown, t.eq(kd, t.const(k)))
      c.node('complete', f'{name}: road points', t.ite(t.band(shown, t.inp('road.valid', *bi, i, sort='b')), drawn(ds, 'road', bi + (i,)), t.TRUE), t.TRUE, facts=facts)


def observations(c):
  O = t.dim('O')
  for batch, centre in ((False, -1), (True, -1), (True, 1)):
    w = c.world()
    box_predicate(w)
    ax, img = canvas(w)
    b = ((B, O) if batch else (O,))
    bi = (t.const(1), t.const(2)) if batch else (t.const(2),)
    e = ego(b)
    obs = w.rec('waymax.datatypes.observation.Observation', 'obs', b, {}, trajectory=w.traj('otraj', b),
                is_ego=cell('is_ego', b + (N,), 'bool'), pose2d=w.rec('waymax.datatypes.observation.ObjectPose2D', 'pose', b, ['delta_yaw', 'valid'],
                             original_xy=cell('pose.xy', b + (2,)), original_yaw=cell('pose.yaw', b), matrix=cell('pose.matrix', b + (3, 3))),
                metadata=w.meta('ometa', b, is_sdc=one_hot(b, e)), roadgraph_static_points=w.road('oroad', b),
                traffic_lights=w.lights('otl', b), sdc_paths=None)
    name = f'plot_observation(batch={batch}, centre={centre})'
    call = lambda: w.call(V + 'plot_observation', obs, 2, viz_config=dict(SPAN, center_agent_idx=centre), batch_idx=1 if batch else -1)
    now = t.sub(A.dv(T), t.ONE)
    at = lambda i: bi + (i, now)
    me = e(bi) if centre < 0 else t.const(centre)
    facts = (t.inp('otraj.valid', *at(me), sort='b'),)
    scene(c, w, ax, img, name, call, [obs], 'otraj', at, me, lambda i: t.eq(i, e(bi)), 'oroad', 'otl', lambda l: bi + (l, now), facts)


PARTS = [('objects', objects), ('overlapping', overlapping), ('outline', outline), ('helpers', helpers), ('roads', roads), ('lights', lights), ('routes', routes), ('states', states), ('observations', observations)]
