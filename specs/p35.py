"""Value-graph congruence of every structural helper with its per-leaf formula at
arbitrary symbolic indices, over containers of every data class and nesting,
each axis, and scalar as well as per-batch-entry index vectors."""
from .common import *
from wx.lib import tree_leaves, same_structure

FLOOR = 4700
ASSUME = ['requested windows and indices lie inside the array', 'a selection vector has exactly one set entry', 'values are finite']
OPS = 'waymax.datatypes.operations.'
BS = ((), (B,), (B, B2))


def leaves(v):
  return [asarr(x) for x in tree_leaves(v)]


def box(w, b, name, time=True):
  """Containers whose leaves share the shape b+(N,T) (or b+(N,))."""
  shape = tuple(b) + (N, T) if time else tuple(b) + (N,)
  yield 'trajectory', w.traj(name, b) if time else w.meta(name, b=b)
  yield 'array', cell(name + '.arr', shape)
  yield 'flags', cell(name + '.flag', shape, 'bool')
  yield 'ints', cell(name + '.int', shape, 'int32')
  yield 'nested', {'a': (cell(name + '.n0', shape, 'int32'), [w.rec('waymax.datatypes.MaskedArray', name + '.m', shape, ['value', 'valid'])]), 'z': None,
                   'b': cell(name + '.n1', shape, 'bool')}


def deep(w, b, name):
  """Leaves of several ranks sharing the prefix b+(N,)."""
  yield 'deep', cell(name + '.d', tuple(b) + (N, T, 3))
  yield 'deeper flags', cell(name + '.dd', tuple(b) + (N, T, 3, 2), 'bool')
  yield 'mixed ranks', {'a': cell(name + '.r1', tuple(b) + (N,), 'int32'), 'b': [cell(name + '.r2', tuple(b) + (N, T), 'bool'), cell(name + '.r3', tuple(b) + (N, T, 3))],
                        'c': cell(name + '.r4', tuple(b) + (N, 2, T, 3))}


def pair(w, b, time=True):
  return [(k, x, y) for (k, x), (_, y) in zip(box(w, b, 'in', time), box(w, b, 'up', time))]


def each(c, w, rule, lb, got, ins, want, shape=None):
  """Every leaf of got against want(leaves of the inputs)."""
  ok, gl = c.run(w, rule, lb + ' result', lambda: leaves(got))
  il = [leaves(x) for x in ins]
  if not ok or not c.check(len(gl) == len(il[0]), rule, f'{lb} keeps every leaf', detail=f'{len(gl)} of {len(il[0])}'):
    return
  c.check(same_structure(got, ins[0]), rule, f'{lb} keeps the structure')
  for k, g in enumerate(gl):
    xs = [l[k] for l in il]
    c.arr(rule, f'{lb} leaf {k}', g, want(*xs), shape=shape(xs[0]) if shape else xs[0].shape, dtype=xs[0].dtype)


def masks(c):
  for b in BS:
    w = c.world()
    for nm, x, y in pair(w, b):
      for kind, m in (('full', cell('mask', b + (N, T), 'bool')), ('per object', cell('mask1', b + (N, 1), 'bool')), ('scalar', cell('mask0', (), 'bool')),
                      ('last axis', cell('maskl', (T,), 'bool'))):
        lb = f'update_by_mask({nm}, {kind}, batch {len(b)})'
        ok, got = c.run(w, 'mask', lb, lambda: w.call(OPS + 'update_by_mask', x, y, m))
        if not ok:
          continue
        def at(i, m=m):
          j = i[len(i) - m.ndim:] if m.ndim else ()
          return m.fn(tuple(t.ZERO if s == 1 else q for q, s in zip(j, m.shape)))
        each(c, w, 'mask', lb, got, [x, y], lambda p, q: lambda *i: t.ite(at(i), q.fn(i), p.fn(i)))


def index_kinds(b):
  yield 'scalar', cell('k', (), 'int32'), 0
  for n in range(1, len(b) + 1):
    yield f'{n} batch axes', cell(f'k{n}', b[:n], 'int32'), n


def axes(b, nb):
  """(axis argument, axis position in the whole array) for arrays b+(N,T)."""
  r = len(b) + 2
  for a in range(nb, r):
    yield a - nb, a
    yield a - r, a


def slices(c):
  for b in BS:
    for kn, k, nb in index_kinds(b):
      for ax, pos in axes(b, nb):
        w = c.world()
        for nm, x in list(box(w, b, 'in')) + (list(deep(w, b, 'in')) if ax >= 0 and pos <= len(b) else []):
          if nm in ('flags', 'ints') and b:
            continue
          at = lambda i: k.fn(i[:nb])
          for size in (1, 3):
            lb = f'dynamic_slice({nm}, {kn}, axis {ax}, size {size}, batch {len(b)})'
            ok, got = c.run(w, 'slice', lb, lambda: w.call(OPS + 'dynamic_slice', x, k, size, ax))
            if ok:
              each(c, w, 'slice', lb, got, [x], lambda p: lambda *i: p.fn(i[:pos] + (at(i) + i[pos],) + i[pos + 1:]),
                   shape=lambda p: p.shape[:pos] + (size,) + p.shape[pos + 1:])
          for keep in (None, True, False):
            lb = f'dynamic_index({nm}, {kn}, axis {ax}, keepdims {keep}, batch {len(b)})'
            ok, got = c.run(w, 'index', lb, lambda: w.call(OPS + 'dynamic_index', x, k, ax, *([] if keep is None else [keep])))
            if ok and keep is False:
              each(c, w, 'index', lb, got, [x], lambda p: lambda *i: p.fn(i[:pos] + (at(i),) + i[pos:]), shape=lambda p: p.shape[:pos] + p.shape[pos + 1:])
            elif ok:
              each(c, w, 'index', lb, got, [x], lambda p: lambda *i: p.fn(i[:pos] + (at(i),) + i[pos + 1:]), shape=lambda p: p.shape[:pos] + (1,) + p.shape[pos + 1:])


def replaced(c):
  """Windows taken from the update at its own start, and whole updates."""
  for b in BS:
    for kn, k, nb in index_kinds(b):
      for ax, pos in axes(b, nb):
        w = c.world()
        for nm, x, y in pair(w, b) + ([(q, x, y) for (q, x), (_, y) in zip(deep(w, b, 'in'), deep(w, b, 'up'))] if ax >= 0 and pos <= len(b) else []):
          if nm in ('flags', 'ints') and b:
            continue
          at = lambda i: k.fn(i[:nb])
          starts = [('same', None, at), ('number', 2, lambda i: t.lift(2))]
          starts += [('own', cell(f'u{n}', b[:n], 'int32'), lambda i, n=n: cell(f'u{n}', b[:n], 'int32').fn(i[:n])) for n in {0, nb}]
          for sn, s, sat in starts:
            for size in (1, 3):
              kw = {} if s is None else dict(updates_start_idx=s)
              lb = f'update_by_slice({nm}, {kn}, axis {ax}, from {sn}, size {size}, batch {len(b)})'
              ok, got = c.run(w, 'replace', lb, lambda: w.call(OPS + 'update_by_slice_in_dim', x, y, k, slice_size=size, axis=ax, **kw))
              if ok:
                def want(p, q):
                  def f(*i):
                    o = t.sub(i[pos], at(i))
                    return t.ite(t.band(t.ge(o, 0), t.lt(o, size)), q.fn(i[:pos] + (sat(i) + o,) + i[pos + 1:]), p.fn(i))
                  return f
                each(c, w, 'replace', lb, got, [x, y], want)
  for b in ((), (B,)):
    for kn, k, nb in index_kinds(b):
      w = c.world()
      x, y = w.traj('in', b), w.traj('up', b, T_=2)
      for nm, f in (('update_by_slice_in_dim', lambda: w.call(OPS + 'update_by_slice_in_dim', x, y, k, axis=-1)),
                    ('dynamic_update_slice_in_dim', lambda: w.call(OPS + 'dynamic_update_slice_in_dim', x, y, k, axis=-1))):
        lb = f'{nm}(whole update, {kn}, batch {len(b)})'
        ok, got = c.run(w, 'replace', lb, f)
        if ok:
          def want(p, q):
            def f(*i):
              o = t.sub(i[-1], k.fn(i[:nb]))
              return t.ite(t.band(t.ge(o, 0), t.lt(o, 2)), q.fn(i[:-1] + (o,)), p.fn(i))
            return f
          each(c, w, 'replace', lb, got, [x, y], want)


def onehot(c):
  for b in BS:
    w = c.world()
    e = ego(b)
    for time in (False, True):
      for nm, x in list(box(w, b, 'in', time)) + ([] if time else list(deep(w, b, 'in'))):
        if nm == 'trajectory' and not time and b == (B, B2):
          continue
        for keep in (None, True, False):
          lb = f'select_by_onehot({nm}{", time" if time else ""}, keepdims {keep}, batch {len(b)})'
          ok, got = c.run(w, 'one-hot', lb, lambda: w.call(OPS + 'select_by_onehot', x, one_hot(b, e), *([] if keep is None else [keep])))
          if not ok:
            continue
          p = len(b)
          if keep:
            each(c, w, 'one-hot', lb, got, [x], lambda q: lambda *i: q.fn(i[:p] + (e(i),) + i[p + 1:]), shape=lambda q: q.shape[:p] + (1,) + q.shape[p + 1:])
          else:
            each(c, w, 'one-hot', lb, got, [x], lambda q: lambda *i: q.fn(i[:p] + (e(i),) + i[p:]), shape=lambda q: q.shape[:p] + q.shape[p + 1:])
    c.raises(w, 'one-hot', f'select_by_onehot of a mismatching selection (batch {len(b)})',
             lambda: w.call(OPS + 'select_by_onehot', cell('bad', b + (N, T)), cell('sel', b + (T,), 'bool')))


def blanks(c):
  for b in BS:
    w = c.world()
    for nm, x in (('float', cell('x', b + (N, T))), ('int', cell('xi', b + (N,), 'int32')), ('bool', cell('xb', b + (N, T), 'bool'))):
      ok, got = c.run(w, 'blank', f'make_invalid_data({nm})', lambda: w.call(OPS + 'make_invalid_data', x))
      if ok:
        c.arr('blank', f'make_invalid_data({nm}, batch {len(b)})', got, lambda *i: t.FALSE if nm == 'bool' else t.lift(-1), shape=x.shape, dtype=x.dtype)


def means(c):
  """Masked means over each axis, broadcast back."""
  for b in ((), (B,)):
    shape = b + (N, T)
    x, m = cell('x', shape), cell('m', shape, 'bool')
    for ax in (*range(-len(shape), len(shape)), (-1, -2), (0, 1), None):
      for inv in (None, 7.0):
        w = c.world()
        lb = f'masked_mean(axis {ax}, invalid {inv}, batch {len(b)})'
        pos = tuple(range(len(shape))) if ax is None else tuple(a % len(shape) for a in (ax if isinstance(ax, tuple) else (ax,)))
        ok, got = c.run(w, 'mean', lb, lambda: w.call(OPS + 'masked_mean', x, m, ax, *([] if inv is None else [inv])))
        if not ok:
          continue
        def want(*i):
          def total(f, ps=tuple(sorted(pos)), j=i):
            if not ps:
              return f(j)
            return t.reduce_('sum', A.dv(shape[ps[0]]), lambda k: total(f, ps[1:], j[:ps[0]] + (k,) + j[ps[0] + 1:]))
          num = total(lambda j: t.ite(m.fn(j), t.ONE, t.ZERO))
          s = total(lambda j: t.ite(m.fn(j), x.fn(j), t.ZERO))
          return t.ite(t.eq(num, 0), t.lift(-1 if inv is None else 7), t.div(s, num))
        c.arr('mean', lb, got, want, shape=shape, dtype='float32')


PARTS = [('masked update', masks), ('slice and index', slices), ('slice update', replaced), ('one-hot', onehot), ('invalid data', blanks), ('masked mean', means)]
