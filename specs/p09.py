"""Value-graph congruence of the discretizer (decode, encode, wrapper update and
inverse, declared bounds) with the grid it documents, for several bin tables
with symbolic bounds and arbitrary values."""
from .common import *

FLOOR = 60
ASSUME = ['exact real arithmetic', 'the bin tables analysed are literal; bounds, values and indices are symbolic']
TABLES = ([4], [4, 6], [2, 3, 5], [1, 1], [3, 2, 2, 1, 4])


def vec(name, n):
  return cell(name, (n,))


def disc(w, bins):
  n = len(bins)
  return w.new('waymax.dynamics.discretizer.Discretizer', vec('lo', n), vec('hi', n), int_array(bins))


def at(a, k):
  return asarr(a).fn((t.lift(k),))


def grid(bins, digits, lo, hi):
  def f(k, dig):
    return t.add(lo[k], t.mul(dig, t.div(t.sub(hi[k], lo[k]), t.lift(bins[k]))))
  return [f(k, d) for k, d in enumerate(digits)]


def per(a, k):
  """Component k of the last axis, kept as an axis of size one."""
  return Arr(a.shape[:-1] + (1,), a.dtype, lambda i: a.fn(tuple(i[:-1]) + (t.lift(k),)))


def nearest(x, b):
  """Index of the grid line nearest to x, kept on the grid."""
  return clip(t.rint(clip(x, b)), b)


def clip(x, b):
  return t.minv(t.maxv(x, t.ZERO), t.lift(b))


def pack(bins, digits):
  acc = t.ZERO
  for b, d in zip(bins, digits):
    acc = t.add(t.mul(acc, t.lift(b + 1)), d)
  return acc


def digits_of(bins, x):
  """Mixed-radix digits of x, last one fastest."""
  out = []
  for b in reversed(bins):
    out.append(t.modv(x, t.lift(b + 1)))
    x = t.floordiv(x, t.lift(b + 1))
  return out[::-1]


def bounds(n):
  return [at(vec('lo', n), k) for k in range(n)], [at(vec('hi', n), k) for k in range(n)]


def decode(c):
  """Every legal index, written in mixed radix, decodes to its grid point."""
  for bins in TABLES:
    n = len(bins)
    lo, hi = bounds(n)
    w = c.world()
    d = disc(w, bins)
    for shape in ((1,), (N, 1), (B, N, 1)):
      digs = [cell(f'dig{k}', (t.lift(b + 1),) if False else (), 'int32') for k, b in enumerate(bins)]
      # Index digits range over the bins: use bounded index variables.
      vs = [t.fresh_var(t.lift(b + 1)) for b in bins]
      ind = Arr(shape, 'int32', lambda i: pack(bins, vs))
      label = f'decode{bins}[rank={len(shape)}]'
      ok, out = c.run(w, 'total', label, lambda: w.m(d, 'make_continuous', ind))
      if not ok:
        continue
      want = grid(bins, vs, lo, hi)
      out = asarr(out)
      for k in range(n):
        c.arr('decode', f'{label} component {k}', per(out, k), lambda *i: want[k], shape=shape[:-1] + (1,), dtype='float32')
      c.check(len(out.shape) == len(shape) and A.same_dim(out.shape[-1], n), 'decode', f'{label} width', detail=out.shape)


def beyond(c):
  """An index past the last one decodes to the last grid point."""
  for bins in TABLES:
    n = len(bins)
    _, hi = bounds(n)
    w = c.world()
    d = disc(w, bins)
    total = 1
    for b in bins:
      total *= b + 1
    for v in (total - 1, total, total + 1, 7 * total + 3):
      label = f'decode{bins} of index {v}'
      ok, out = c.run(w, 'total', label, lambda: w.m(d, 'make_continuous', Arr((1,), 'int32', lambda i: t.lift(v))))
      if ok:
        for k in range(n):
          c.arr('beyond', f'{label} component {k}', per(asarr(out), k), lambda *i: hi[k], shape=(1,))


def encode(c):
  for bins in TABLES:
    n = len(bins)
    lo, hi = bounds(n)
    w = c.world()
    d = disc(w, bins)
    for pre in ((), (N,), (B, N)):
      val = cell('val', pre + (n,))
      label = f'encode{bins}[rank={len(pre) + 1}]'
      ok, out = c.run(w, 'total', label, lambda: w.m(d, 'discretize', val))
      if not ok:
        continue
      def want(*i):
        digs = []
        for k, b in enumerate(bins):
          x = t.mul(t.sub(val.fn(i[:-1] + (t.lift(k),)), lo[k]), t.div(t.lift(b), t.sub(hi[k], lo[k])))
          digs.append(nearest(x, b))
        return pack(bins, digs)
      out = out if isinstance(out, Arr) else asarr(out[0] if isinstance(out, (list, tuple)) else out)
      c.arr('encode', label, out, want, shape=pre + (1,), dtype='int32')
  # Values of the wrong width are refused.
  w = c.world()
  d = disc(w, [4, 6])
  c.raises(w, 'rejects', 'value of the wrong width', lambda: w.m(d, 'discretize', cell('val', (N, 3))), ('ValueError',))
  for a, b_, k in ((2, 2, 3), (2, 3, 2), (3, 2, 2)):
    c.raises(w, 'rejects', f'bounds of widths {a},{b_} with {k} bins',
             lambda: w.new('waymax.dynamics.discretizer.Discretizer', vec('lo', a), vec('hi', b_), int_array([4] * k)), ('ValueError',))


def wrapper(c):
  for b in ((), (B,)):
    w = c.world()
    for name, dyn, n in real_dynamics(w):
      if n == 5:
        continue
      bins = [3, 5, 4][:n]
      dd = discrete(w, dyn, bins)
      vs = [t.fresh_var(t.lift(k + 1)) for k in bins]
      act = int_action(w, b, 1)
      act.fields['data'] = Arr(b + (N, 1), 'int32', lambda i: pack(bins, vs))
      cur = w.traj('cur', b, T_=1)
      label = f'{name}[batch={len(b)}]'
      ok, up = c.run(w, 'total', label, lambda: w.m(dd, 'compute_update', act, cur))
      spec = w.m(dyn, 'action_spec')
      lo = [asarr(w.attr(spec, 'minimum')).fn((t.lift(k),)) for k in range(n)]
      hi = [asarr(w.attr(spec, 'maximum')).fn((t.lift(k),)) for k in range(n)]
      cont = w.action(n, b)
      want = grid(bins, vs, lo, hi)
      cont.fields['data'] = Arr(b + (N, n), 'float32', lambda i: A.select_list(i[-1], [lambda v=v: v for v in want]))
      ok2, up2 = c.run(w, 'total', label, lambda: w.m(dyn, 'compute_update', cont, cur))
      if ok and ok2:
        c.tree_same('wrapper-update', label, up, up2)
      # inverse: continuous inverse, encoded
      tr, meta, tm = w.traj('tr', b), w.meta('meta', b), cell('t', (), 'int32')
      ok, inv = c.run(w, 'total', label + ' inverse', lambda: w.m(dd, 'inverse', tr, meta, tm))
      ok2, ci = c.run(w, 'total', label + ' inverse', lambda: w.m(dyn, 'inverse', tr, meta, tm))
      if ok and ok2:
        data = asarr(field(ci, 'data'))
        def code(*i):
          digs = []
          for k in range(n):
            x = t.mul(t.sub(data.fn(i[:-1] + (t.lift(k),)), lo[k]), t.div(t.lift(bins[k]), t.sub(hi[k], lo[k])))
            digs.append(nearest(x, bins[k]))
          return pack(bins, digs)
        c.arr('wrapper-inverse', label, field(inv, 'data'), code, shape=b + (N, 1))
        v = asarr(field(ci, 'valid'))
        c.arr('wrapper-inverse', label + ' validity', field(inv, 'valid'), v)
      s = w.m(dd, 'action_spec')
      tot = 1
      for k in bins:
        tot *= k + 1
      c.arr('declared-bounds', f'{label} minimum', Arr((1,), 'int32', lambda i: asarr(w.attr(s, 'minimum')).fn(i)), lambda *i: t.ZERO)
      c.arr('declared-bounds', f'{label} maximum', Arr((1,), 'int32', lambda i: asarr(w.attr(s, 'maximum')).fn(i)), lambda *i: t.lift(tot - 1))
      c.check('int32' in repr(w.attr(s, 'dtype')), 'declared-bounds', f'{label} element type', detail=repr(w.attr(s, 'dtype')))


def search(c):
  """The search inverse picks, for every object, the update closest to the log."""
  from .p06 import searchable
  for b in ((), (B,)):
    w = c.world()
    dd = w.new('waymax.dynamics.DiscreteActionSpaceWrapper', searchable(w, b), int_array([1]), bin_inverse=False)
    tr, meta, tm = w.traj('tr', b), w.meta('meta', b), cell('t', (), 'int32')
    label = f'search[batch={len(b)}]'
    ok, inv = c.run(w, 'total', label, lambda: w.m(dd, 'inverse', tr, meta, tm))
    if not ok:
      continue
    nxt = w.call('waymax.datatypes.dynamic_slice', tr, A.sym(tm.fn(()) + 1), 1, -1)
    lc = asarr(w.attr(nxt, 'bbox_corners'))
    cur = w.call('waymax.datatypes.dynamic_slice', tr, tm, 1, -1)
    def dist(i, a):
      cand = Obj(nxt.cls, dict(cur.fields))
      for f in CONTROLLABLE:
        cand.fields[f] = Arr(asarr(field(cur, f)).shape, 'float32', lambda j, f=f: t.inp(f'upd.{f}', *j, t.const(a)))
      cc = asarr(w.attr(cand, 'bbox_corners'))
      acc = t.ZERO
      for p in range(4):
        for q in range(2):
          j = i[:-1] + (t.ZERO, t.lift(p), t.lift(q))
          e = t.sub(cc.fn(j), lc.fn(j))
          acc = t.add(acc, t.mul(e, e))
      return t.sqrt(acc)
    valid = asarr(field(tr, 'valid'))
    def want(*i):
      v = t.band(valid.fn(i[:-1] + (tm.fn(()),)), valid.fn(i[:-1] + (tm.fn(()) + 1,)))
      # 0 decodes to the lower bound -1, 1 to the upper bound 1; ties keep the first.
      best = t.ite(t.lt(dist(i, 1), dist(i, -1)), t.ONE, t.ZERO)
      # An invalid object gets the code of the zero action (rounded half to even).
      return t.ite(v, best, t.ZERO)
    c.arr('search-inverse', label, field(inv, 'data'), want, shape=b + (N, 1))


PARTS = [('decode', decode), ('beyond the range', beyond), ('encode', encode), ('wrapper', wrapper), ('search inverse', search)]
