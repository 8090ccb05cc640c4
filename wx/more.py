"""Further library operations, written in terms of the basic handlers."""
import ast
import math

from . import arrays as A
from . import terms as t
from .arrays import Arr, DType, Gap, ShapeErr, Sym, sym


def build(L):
  """Returns (numpy-style handlers, full-path handlers) built on lib module L."""
  arr, ew, NP, cast, shp = L.arr, L.ew, L.NP, L.cast, L.shp
  it = lambda: L.IT
  cst = L.const_of

  def num(v, what):
    c = cst(v)
    if isinstance(c, bool) or not isinstance(c, (int, float)):
      raise Gap(what)
    return c

  def dims(n):
    return n if isinstance(n, int) else Sym(A.dv(n))

  # ------------------------------------------------------------ reductions
  def average(x, axis=None, weights=None, returned=False, keepdims=False):
    if returned:
      raise Gap('average returned')
    if weights is None:
      return L._mean(x, axis, keepdims)
    x, wt = arr(x), arr(weights)
    if wt.ndim != x.ndim:
      if wt.ndim != 1 or not isinstance(axis, int):
        raise Gap('average weights')
      k = A.norm_axis(axis, x.ndim)
      w1 = wt
      wt = Arr(tuple(w1.shape[0] if j == k else 1 for j in range(x.ndim)), w1.dtype, lambda idx: w1.fn((idx[k],)))
    wt = A.broadcast_to(wt, x.shape)
    s = A.reduce_axes(A.elementwise(t.mul, x, wt, dtype='float32'), 'sum', axis, keepdims)
    return A.elementwise(t.div, s, A.reduce_axes(A.elementwise(t.b2n, wt, dtype='float32'), 'sum', axis, keepdims))

  def var(x, axis=None, ddof=0, keepdims=False, where=None, mean=None, correction=None):
    if mean is not None:
      raise Gap('var with a given mean')
    x = arr(x)
    d = ddof if correction is None else correction
    m = L._mean(x, axis, True, where)
    s = L.red('sum')(A.elementwise(lambda a, b: t.mul(t.sub(a, b), t.sub(a, b)), x, m, dtype='float32'), axis, None, keepdims, where)
    if where is None:
      one = Arr(x.shape, 'float32', lambda idx: t.ONE)
    else:
      one = A.elementwise(t.b2n, A.broadcast_to(arr(where), x.shape), dtype='float32')
    n = A.reduce_axes(one, 'sum', axis, keepdims)
    return A.elementwise(lambda p, q: t.div(p, t.sub(q, t.lift(d))), s, n)

  def std(x, *a, **k):
    return A.elementwise(t.sqrt, var(x, *a, **k))

  def ptp(x, axis=None, keepdims=False):
    return A.elementwise(t.sub, NP['max'](x, axis, keepdims=keepdims), L._min(x, axis, keepdims))

  def order_stat(name):
    def f(x, axis=None, keepdims=False):
      x = arr(x)
      if axis is None:
        y = A.reshape(x, [-1])
        if keepdims:
          raise Gap(name)
        axis = 0
        x = y
      if not isinstance(axis, int):
        raise Gap(name)
      k = A.norm_axis(axis, x.ndim)
      kd = it().truth(keepdims) is True
      shape = x.shape[:k] + ((1,) if kd else ()) + x.shape[k + 1:]
      if x.shape[k] == 1:
        return Arr(shape, 'float32', lambda idx: x.fn(idx[:k] + (t.ZERO,) + idx[(k + 1 if kd else k):]))
      return Arr(shape, 'float32', lambda idx: t.red_fn(name, A.dv(x.shape[k]), lambda i: x.fn(idx[:k] + (i,) + idx[(k + 1 if kd else k):])))
    return f

  def quantile(scale):
    def f(x, q, axis=None, keepdims=False):
      qv = arr(q)
      if qv.ndim:
        raise Gap('several quantiles')
      c = t.const_val(qv.fn(()))
      if c is None:
        raise Gap('quantile level')
      c = c / scale
      if c == 0:
        return L._min(x, axis, keepdims)
      if c == 1:
        return NP['max'](x, axis, keepdims=keepdims)
      return order_stat('median' if c * 2 == 1 else f'quantile:{c}')(x, axis, keepdims)
    return f

  def trace(x, offset=0, axis1=0, axis2=1):
    return A.reduce_axes(diagonal(x, offset, axis1, axis2), 'sum', -1)

  def diagonal(x, offset=0, axis1=0, axis2=1):
    x = arr(x)
    p, q = A.norm_axis(axis1, x.ndim), A.norm_axis(axis2, x.ndim)
    o = int(num(offset, 'diagonal offset'))
    rest = [k for k in range(x.ndim) if k not in (p, q)]
    a, b = x.shape[p], x.shape[q]
    if isinstance(a, int) and isinstance(b, int):
      n = max(0, min(a, b - o) if o >= 0 else min(a + o, b))
    elif A.same_dim(a, b):
      n = A.norm_dim(t.sub(A.dv(a), t.const(abs(o))))
    else:
      raise Gap('diagonal of a non-square matrix')

    def fn(idx):
      full = [None] * x.ndim
      for k, i in zip(rest, idx):
        full[k] = i
      full[p] = t.add(idx[-1], t.const(max(0, -o)))
      full[q] = t.add(idx[-1], t.const(max(0, o)))
      return x.fn(tuple(full))
    return Arr(tuple(x.shape[k] for k in rest) + (n,), x.dtype, fn)

  def cumulative(name, comb):
    def f(x, axis=None, dtype=None, reverse=False):
      x = arr(x)
      if axis is None:
        x, axis = A.reshape(x, [-1]), 0
      k = A.norm_axis(axis, x.ndim)
      n = x.shape[k]
      if reverse:
        return L._flip(f(L._flip(x, k), k, dtype), k)
      if name == 'cumsum':
        r = L._cumsum(x, k)
      else:
        def fn(idx):
          j = idx[k]
          at = lambda m: t.b2n(x.fn(idx[:k] + (m,) + idx[k + 1:]))
          if isinstance(n, int) and n <= 16:
            acc, accs = None, []
            for m in range(n):
              v = at(t.const(m))
              acc = v if acc is None else comb(acc, v)
              accs.append(acc)
            return A.select_list(j, [lambda a=a: a for a in accs])
          return t.red_fn(name, A.dv(n), at, extra=(j,))
        r = Arr(x.shape, x.dtype if x.dtype != 'bool' else 'int32', fn)
      return cast(r, L.need_dtype(dtype).name) if dtype is not None else r
    return f

  cumprod = cumulative('cumprod', t.mul)
  cummax = cumulative('cummax', t.maxv)
  cummin = cumulative('cummin', t.minv)
  cumsum = cumulative('cumsum', t.add)

  # ------------------------------------------------------------ elementwise
  def rnd(x, decimals=0):
    d = int(num(decimals, 'round decimals'))
    if d == 0:
      return ew(t.rint)(x)
    s = t.const(10 ** abs(d)) if d > 0 else t.inverse(t.const(10 ** -d))
    return ew(lambda v: t.div(t.rint(t.mul(v, s)), s))(x)

  fmod = ew(lambda x, y: t.ite(t.lt(x, t.ZERO), t.neg(t.modv(t.neg(x), t.absv(y))), t.modv(x, t.absv(y))))
  copysign = ew(lambda x, y: t.ite(t.lt(y, t.ZERO), t.neg(t.absv(x)), t.absv(x)), fl=True)
  opq = lambda name: ew(lambda *v: t.fn(name, *v), fl=True)
  exp = lambda v: t.fn('exp', v)
  log = lambda v: t.fn('log', v)
  tol = lambda v: t.b2n(arr(v).fn(()))

  def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r, s = tol(rtol), tol(atol)
    return ew(lambda x, y: t.bor(t.eq(x, y), t.le(t.absv(t.sub(x, y)), t.add(s, t.mul(r, t.absv(y))))), 'bool')(a, b)

  def nan_to_num(x, nan=0.0, posinf=None, neginf=None):
    if posinf is None and neginf is None and t.const_val(tol(nan)) == 0:
      return ew(lambda v: t.fn('nan_to_num', v))(x)
    ex = [tol(v) if v is not None else t.const(0) for v in (nan, posinf, neginf)]
    tag = 'nan_to_num' + ''.join('-' if v is None else '+' for v in (posinf, neginf))
    return ew(lambda v: t.fn(tag, v, *ex))(x)

  def shift(op):
    return lambda a, b: it().binop(op, arr(a), arr(b))

  def divmod_(a, b):
    return (ew(t.floordiv)(a, b), ew(t.modv)(a, b))

  def modf(x):
    i = ew(t.trunc, fl=True)(x)
    return (A.elementwise(t.sub, arr(x), i), i)

  def polyval(p, x, unroll=None):
    p, x = arr(p), arr(x)
    if p.ndim != 1 or not isinstance(p.shape[0], int):
      raise Gap('polyval')
    acc = None
    for k in range(p.shape[0]):
      c = A.getitem(p, k)
      acc = c if acc is None else A.elementwise(t.add, A.elementwise(t.mul, acc, x), c)
    return A.broadcast_to(acc, A.bshape(acc.shape, x.shape))

  def interp(x, xp, fp, left=None, right=None, period=None):
    x, xp, fp = arr(x), arr(xp), arr(fp)
    n = xp.shape[0]
    if period is not None or xp.ndim != 1 or not isinstance(n, int) or n > 24:
      raise Gap('interp')
    at = lambda a, k: a.fn((t.const(k),))
    lo = at(fp, 0) if left is None else tol(left)
    hi = at(fp, n - 1) if right is None else tol(right)

    def f(v):
      acc = t.ite(t.eq(v, at(xp, n - 1)), at(fp, n - 1), hi)
      for k in reversed(range(n - 1)):
        x0, x1, y0, y1 = at(xp, k), at(xp, k + 1), at(fp, k), at(fp, k + 1)
        seg = t.add(y0, t.mul(t.sub(v, x0), t.div(t.sub(y1, y0), t.sub(x1, x0))))
        acc = t.ite(t.lt(v, x1), seg, acc)
      return t.ite(t.lt(v, at(xp, 0)), lo, acc)
    return ew(f, fl=True)(x)

  def counted(a, v, cmp):
    a, v = arr(a), arr(v)
    if a.ndim != 1:
      raise Gap('searchsorted')
    return Arr(v.shape, 'int32', lambda idx: t.reduce_('sum', A.dv(a.shape[0]), lambda i: t.b2n(cmp(a.fn((i,)), v.fn(idx)))))

  def searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
      raise Gap('searchsorted sorter')
    return counted(a, v, t.lt if side == 'left' else t.le)

  def digitize(x, bins, right=False):
    bins = arr(bins)
    n = bins.shape[0]
    vals = [t.const_val(bins.fn((t.const(k),))) for k in range(n)] if isinstance(n, int) else [None]
    if any(v is None for v in vals) or any(p > q for p, q in zip(vals, vals[1:])):
      raise Gap('digitize bins')
    return counted(bins, x, t.lt if right else t.le)

  def isin(x, test, assume_unique=False, invert=False):
    x, test = arr(x), A.reshape(arr(test), [-1])
    r = Arr(x.shape, 'bool', lambda idx: t.reduce_('any', A.dv(test.shape[0]), lambda i: t.eq(x.fn(idx), test.fn((i,)))))
    return L._not(r) if it().truth(invert) is True else r

  def gradient(f, *varargs, axis=None):
    x = arr(f)
    if len(varargs) > 1:
      raise Gap('gradient spacing')
    h = arr(varargs[0]) if varargs else None
    if h is not None and h.ndim:
      raise Gap('gradient spacing')
    hv = h.fn(()) if h is not None else t.ONE
    axes = list(range(x.ndim)) if axis is None else [axis] if isinstance(axis, int) else list(it().iterate(axis))

    def one(k):
      n = A.dv(x.shape[k])

      def fn(idx):
        at = lambda i: x.fn(idx[:k] + (i,) + idx[k + 1:])
        i, last = idx[k], t.sub(n, t.ONE)
        mid = t.div(t.sub(at(t.add(i, t.ONE)), at(t.sub(i, t.ONE))), t.mul(t.const(2), hv))
        first = t.div(t.sub(at(t.ONE), at(t.ZERO)), hv)
        end = t.div(t.sub(at(last), at(t.sub(last, t.ONE))), hv)
        return t.ite(t.eq(i, t.ZERO), first, t.ite(t.eq(i, last), end, mid))
      return Arr(x.shape, x.dtype if 'float' in x.dtype else 'float32', fn)
    out = [one(A.norm_axis(k, x.ndim)) for k in axes]
    return out[0] if len(out) == 1 else out

  def diff(x, n=1, axis=-1, prepend=None, append=None):
    x = arr(x)
    k = A.norm_axis(axis, x.ndim)
    def edge(v):
      v = arr(v)
      if v.ndim == 0:
        return A.broadcast_to(v, x.shape[:k] + (1,) + x.shape[k + 1:])
      return v
    parts = ([edge(prepend)] if prepend is not None else []) + [x] + ([edge(append)] if append is not None else [])
    return L._diff(A.concatenate(parts, k) if len(parts) > 1 else x, n, k)

  # ------------------------------------------------------------ shapes
  def atleast(n):
    def one(x):
      x = arr(x)
      if n == 2:
        while x.ndim < 2:
          x = A.expand_dims(x, 0)
        return x
      if x.ndim == 0:
        return A.reshape(x, [1, 1, 1])
      if x.ndim == 1:
        return A.expand_dims(A.expand_dims(x, 0), 2)
      return A.expand_dims(x, 2) if x.ndim == 2 else x
    return lambda *xs: one(xs[0]) if len(xs) == 1 else [one(x) for x in xs]

  def column_stack(tup):
    return A.concatenate([A.expand_dims(x, 1) if x.ndim == 1 else x for x in map(arr, it().iterate(tup))], 1)

  def dstack(tup):
    return A.concatenate([atleast(3)(x) for x in it().iterate(tup)], 2)

  def block(x):
    def depth(v):
      return 1 + depth(v[0]) if isinstance(v, list) else 0
    d = depth(x)
    def rec(v, k):
      if not isinstance(v, list):
        v = arr(v)
        while v.ndim < d:
          v = A.expand_dims(v, 0)
        return v
      return A.concatenate([rec(z, k + 1) for z in v], k - d)
    return rec(x, 0)

  def rot90(m, k=1, axes=(0, 1)):
    m = arr(m)
    a, b = [A.norm_axis(z, m.ndim) for z in axes]
    k = int(num(k, 'rot90')) % 4
    if k == 0:
      return m
    if k == 2:
      return L._flip(L._flip(m, a), b)
    return A.swapaxes(L._flip(m, b), a, b) if k == 1 else L._flip(A.swapaxes(m, a, b), b)

  def unstack(x, axis=0):
    x = arr(x)
    k = A.norm_axis(axis, x.ndim)
    if not isinstance(x.shape[k], int):
      raise Gap('unstack along a symbolic axis')
    return tuple(A.getitem(x, (slice(None),) * k + (j,)) for j in range(x.shape[k]))

  def ix_(*args):
    xs = [arr(x) for x in args]
    n = len(xs)
    return tuple(Arr(tuple(x.shape[0] if j == k else 1 for j in range(n)), x.dtype, lambda idx, k=k, x=x: x.fn((idx[k],))) for k, x in enumerate(xs))

  def indices(dimensions, dtype=None, sparse=False):
    s = shp(dimensions)
    dt = L.need_dtype(dtype).name if dtype is not None else 'int32'
    rows = [Arr(s, dt, lambda idx, k=k: idx[k]) for k in range(len(s))]
    if sparse:
      raise Gap('sparse indices')
    return A.stack(rows, 0)

  def tri_idx(lower):
    def f(n, k=0, m=None):
      n, k = int(num(n, 'indices')), int(num(k, 'indices'))
      m = n if m is None else int(num(m, 'indices'))
      pr = [(i, j) for i in range(n) for j in range(m) if (j - i <= k if lower else j - i >= k)]
      return tuple(cast(L._array([p[c] for p in pr]), 'int32') for c in (0, 1))
    return f

  def diag_indices(n, ndim=2):
    return tuple(L._arange(dims(A.norm_dim(n))) for _ in range(ndim))

  def fill_diagonal(a, val, wrap=False, inplace=True):
    if it().truth(inplace) is not False:
      raise Gap('fill_diagonal in place')
    a, v = arr(a), arr(val)
    if a.ndim != 2 or v.ndim > 1:
      raise Gap('fill_diagonal')
    return Arr(a.shape, a.dtype, lambda idx: t.ite(t.eq(idx[0], idx[1]), A.cast_v(v.fn((idx[0],) if v.ndim else ()), v.dtype, a.dtype), a.fn(idx)))

  def delete(x, obj, axis=None):
    x = arr(x)
    if axis is None:
      x, axis = A.reshape(x, [-1]), 0
    k = A.norm_axis(axis, x.ndim)
    o = cst(obj)
    if isinstance(o, bool) or not isinstance(o, int):
      raise Gap('delete')
    pos = A.norm_index(o, x.shape[k])
    n = A.norm_dim(t.sub(A.dv(x.shape[k]), t.ONE))
    return Arr(x.shape[:k] + (n,) + x.shape[k + 1:], x.dtype,
               lambda idx: x.fn(idx[:k] + (t.ite(t.lt(idx[k], pos), idx[k], t.add(idx[k], t.ONE)),) + idx[k + 1:]))

  def insert(x, obj, values, axis=None):
    x, v = arr(x), arr(values)
    if axis is None:
      x, axis = A.reshape(x, [-1]), 0
    k = A.norm_axis(axis, x.ndim)
    o = cst(obj)
    if isinstance(o, bool) or not isinstance(o, int):
      raise Gap('insert')
    cut = slice(None)
    pre = A.getitem(x, (cut,) * k + (slice(None, o),))
    suf = A.getitem(x, (cut,) * k + (slice(o, None),))
    if v.ndim and v.ndim != x.ndim - 1:
      raise Gap('insert values')
    mid = A.broadcast_to(A.expand_dims(v, k) if v.ndim else v, x.shape[:k] + (1,) + x.shape[k + 1:])
    return A.concatenate([pre, cast(mid, x.dtype), suf], k)

  def roll(x, s, axis=None):
    x = arr(x)
    if axis is None:
      shape = [dims(d) for d in x.shape]
      return A.reshape(L._roll(A.reshape(x, [-1]), s, 0), shape)
    if isinstance(axis, (tuple, list)):
      sh = list(it().iterate(s)) if isinstance(s, (tuple, list)) else [s] * len(axis)
      for k, z in zip(axis, sh):
        x = L._roll(x, z, k)
      return x
    return L._roll(x, s, axis)

  def choose(a, choices, mode=None):
    if mode not in (None, 'raise'):
      raise Gap('choose mode')
    a = arr(a)
    cs = [arr(c) for c in it().iterate(choices)]
    sh = A.bshape(a.shape, *[c.shape for c in cs])
    return Arr(sh, A.promote(*cs)[0], lambda idx: A.select_list(a.fn(A.bidx(a.shape, idx)), [lambda c=c: c.fn(A.bidx(c.shape, idx)) for c in cs]))

  def vecdot(a, b, axis=-1):
    return A.reduce_axes(A.elementwise(t.mul, arr(a), arr(b)), 'sum', axis)

  def tensordot(a, b, axes=2):
    a, b = arr(a), arr(b)
    if isinstance(axes, int):
      pa, pb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
      pa, pb = [list(it().iterate(z)) if isinstance(z, (tuple, list)) else [z] for z in it().iterate(axes)]
    return contract(a, b, [A.norm_axis(z, a.ndim) for z in pa], [A.norm_axis(z, b.ndim) for z in pb], [], [])

  def contract(a, b, ca, cb, ba, bb):
    lt = iter('abcdefghijklmnopqrstuvwxyz')
    la, lb = [None] * a.ndim, [None] * b.ndim
    for p, q in list(zip(ba, bb)) + list(zip(ca, cb)):
      la[p] = lb[q] = next(lt)
    for l in (la, lb):
      for k, z in enumerate(l):
        if z is None:
          l[k] = next(lt)
    out = [la[p] for p in ba] + [la[k] for k in range(a.ndim) if k not in ca and k not in ba] + [lb[k] for k in range(b.ndim) if k not in cb and k not in bb]
    return A.einsum(f"{''.join(la)},{''.join(lb)}->{''.join(out)}", a, b)

  def matvec(a, v):
    return A.einsum('...ij,...j->...i', arr(a), arr(v)) if arr(a).ndim > 2 else A.matmul(arr(a), arr(v))

  def norm(x, ord=None, axis=None, keepdims=False):
    x = arr(x)
    o = ord.v if isinstance(ord, Sym) else ord
    if o is t.INF or ord == math.inf:
      if axis is None and x.ndim > 1 or isinstance(axis, (tuple, list)):
        raise Gap('matrix norm')
      return NP['max'](A.elementwise(t.absv, x), axis, keepdims=keepdims)
    if ord == 2 and (axis is None and x.ndim > 1 or isinstance(axis, (tuple, list)) and len(axis) == 2):
      raise Gap('spectral norm')
    if ord == 1 and (axis is None and x.ndim > 1 or isinstance(axis, (tuple, list)) and len(axis) == 2):
      raise Gap('matrix norm')
    return L._norm(x, ord, axis, keepdims)

  def vector_norm(x, axis=None, keepdims=False, ord=2):
    x = arr(x)
    if axis is None:
      if keepdims:
        raise Gap('vector_norm')
      return norm(A.reshape(x, [-1]), ord, 0)
    if isinstance(axis, (tuple, list)) and ord != 2:
      raise Gap('vector_norm')
    return norm(x, None if isinstance(axis, (tuple, list)) else ord, axis, keepdims)

  def det(a):
    a = arr(a)
    g = lambda idx, r, c: a.fn(idx + (t.const(r), t.const(c)))
    if a.shape[-1] == 2:
      return Arr(a.shape[:-2], a.dtype, lambda i: t.sub(t.mul(g(i, 0, 0), g(i, 1, 1)), t.mul(g(i, 0, 1), g(i, 1, 0))))
    if a.shape[-1] != 3:
      raise Gap('det')
    def fn(i):
      acc = t.ZERO
      for c in range(3):
        p, q = (c + 1) % 3, (c + 2) % 3
        acc = t.add(acc, t.mul(g(i, 0, c), t.sub(t.mul(g(i, 1, p), g(i, 2, q)), t.mul(g(i, 1, q), g(i, 2, p)))))
      return acc
    return Arr(a.shape[:-2], a.dtype, fn)

  def sort(a, axis=-1, stable=True, descending=False, kind=None):
    a = arr(a)
    if axis is None:
      a, axis = A.reshape(a, [-1]), 0
    if it().truth(descending) is True:
      return L._neg(L._sort(L._neg(a), axis))
    return L._sort(a, axis)

  def apply_along_axis(func1d, axis, arr_, *args, **kw):
    x = arr(arr_)
    x = A.moveaxis(x, A.norm_axis(axis, x.ndim), x.ndim - 1)
    if axis not in (-1, arr(arr_).ndim - 1) and x.ndim > 1:
      # result axes stand where the axis was
      def place(r):
        if r.ndim == x.ndim - 1:
          return r
        if r.ndim == x.ndim:
          return A.moveaxis(r, r.ndim - 1, A.norm_axis(axis, x.ndim))
        raise Gap('apply_along_axis')
    else:
      place = lambda r: r
    f = L.Native('along', lambda z: it().call(func1d, [z] + list(args), kw))
    for _ in range(x.ndim - 1):
      f = L._vmap(f)
    return place(it().call(f, [x], {}))

  def array_split(x, n, axis=0):
    x = arr(x)
    k = A.norm_axis(axis, x.ndim)
    d = x.shape[k]
    if isinstance(n, int) and isinstance(d, int) and d % n:
      q, r = divmod(d, n)
      cuts, at = [], 0
      for j in range(n - 1):
        at += q + (1 if j < r else 0)
        cuts.append(at)
      return L._split(x, cuts, k)
    return L._split(x, n, k)

  def compress(condition, a, axis=None, size=None, fill_value=0):
    c, x = arr(condition), arr(a)
    if size is not None or c.ndim != 1 or not isinstance(c.shape[0], int):
      raise Gap('compress')
    vals = [t.const_val(t.b2n(c.fn((t.const(k),)))) for k in range(c.shape[0])]
    if any(v is None for v in vals):
      L.static(condition, 'compress by a traced mask (data-dependent shape)')
      raise Gap('compress')
    if axis is None:
      x, axis = A.reshape(x, [-1]), 0
    return L._take(x, L._array([k for k, v in enumerate(vals) if v]), axis)

  def vectorize(pyfunc, excluded=(), signature=None):
    if signature is not None or list(it().iterate(excluded)):
      raise Gap('vectorize signature')

    def g(*args):
      xs = [arr(x) for x in args]
      sh = A.bshape(*[x.shape for x in xs])
      xs = [A.broadcast_to(x, sh) for x in xs]
      f = pyfunc
      for _ in sh:
        f = L._vmap(f)
      return it().call(f, xs, {})
    return L.Native('vectorized', g)

  def piecewise(x, condlist, funclist, *args, **kw):
    x = arr(x)
    cs, fs = list(it().iterate(condlist)), list(it().iterate(funclist))
    if len(fs) == len(cs) + 1:
      acc = fs[-1]
      acc = acc if A.is_scalar(acc) or isinstance(acc, Arr) else it().call(acc, [x] + list(args), kw)
    else:
      acc = 0
    out = A.broadcast_to(cast(arr(acc), x.dtype), x.shape)
    for c, f in reversed(list(zip(cs, fs))):     # the first condition that holds decides
      v = f if A.is_scalar(f) or isinstance(f, Arr) else it().call(f, [x] + list(args), kw)
      out = L._where(c, cast(arr(v), x.dtype), out)
    return out

  def segment(kind):
    def f(data, segment_ids, num_segments=None):
      x, ids = arr(data), arr(segment_ids)
      if num_segments is None or ids.ndim != 1:
        raise Gap('segment reduction')
      n, d = A.norm_dim(num_segments), A.dv(ids.shape[0])
      neutral = {'sum': t.ZERO, 'prod': t.ONE, 'max': t.neg(t.INF)}[kind]
      return Arr((n,) + x.shape[1:], x.dtype, lambda idx: t.reduce_(kind, d, lambda i: t.ite(t.eq(ids.fn((i,)), idx[0]), t.b2n(x.fn((i,) + idx[1:])), neutral)))
    return f

  def bincount(x, weights=None, minlength=0, length=None):
    x = arr(x)
    if length is None or x.ndim != 1:
      raise Gap('bincount')
    wt = Arr(x.shape, 'int32', lambda idx: t.ONE) if weights is None else arr(weights)
    return segment('sum')(wt, A.elementwise(lambda v: t.maxv(t.ZERO, v), x), length)

  def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = arr(y)
    if x is not None and arr(x).ndim != 1:
      raise Gap('trapezoid')
    k = A.norm_axis(axis, y.ndim)
    n = A.dv(y.shape[k])
    h = (lambda i: tol(dx)) if x is None else (lambda i: t.sub(arr(x).fn((t.add(i, t.ONE),)), arr(x).fn((i,))))
    at = lambda idx, i: y.fn(idx[:k] + (i,) + idx[k:])
    return Arr(y.shape[:k] + y.shape[k + 1:], 'float32', lambda idx: t.reduce_('sum', t.sub(n, t.ONE), lambda i: t.div(t.mul(h(i), t.add(at(idx, i), at(idx, t.add(i, t.ONE)))), t.const(2))))

  def vdot(a, b):
    return A.einsum('i,i->', A.reshape(arr(a), [-1]), A.reshape(arr(b), [-1]))

  def promote_types(a, b):
    x, y = [Arr((), L.need_dtype(z).name, lambda idx: t.ZERO) for z in (a, b)]
    return DType(A.promote(x, y)[0])

  def nonzero(a, size=None, fill_value=None):
    if size is None:
      return L._nonzero(a)
    m = arr(a)
    if m.dtype != 'bool':
      m = ew(t.ne, 'bool')(m, 0)
    if m.ndim == 0:
      raise Gap('nonzero of a scalar')
    fv = t.ZERO if fill_value is None else tol(fill_value)
    n = A.mask_size(m)
    at = lambda i: m.fn(A.mask_cell(m, i))
    cnt = t.reduce_('sum', n, lambda i: t.b2n(at(i)))
    return tuple(Arr((A.norm_dim(size),), 'int32', lambda i, ax=ax: t.ite(t.lt(i[0], cnt), A.mask_cell(m, A.nth_true(n, at, i[0]))[ax], fv)) for ax in range(m.ndim))

  def where(*args, **kw):
    if len(args) == 1 and kw.get('x') is None:
      return nonzero(args[0], kw.get('size'), kw.get('fill_value'))
    if len(args) == 1:
      args = (args[0], kw['x'], kw['y'])
    return L._where(*args)

  np = {
      'array_split': array_split, 'hsplit': lambda ary, n: L._split(ary, n, 0 if arr(ary).ndim == 1 else 1), 'vsplit': lambda ary, n: L._split(ary, n, 0), 'dsplit': lambda ary, n: L._split(ary, n, 2),
      'compress': compress, 'vectorize': vectorize, 'piecewise': piecewise, 'bincount': bincount, 'trapezoid': trapezoid, 'vdot': vdot, 'real': lambda x: arr(x), 'conj': lambda x: arr(x), 'conjugate': lambda x: arr(x),
      'promote_types': promote_types, 'nonzero': nonzero, 'flatnonzero': lambda a, size=None, fill_value=None: nonzero(A.reshape(arr(a), [-1]), size, fill_value)[0],
      'argwhere': lambda a, size=None, fill_value=None: L._stack(list(nonzero(a, size, fill_value)), -1), 'where': where, 'iscomplexobj': lambda x: False, 'isrealobj': lambda x: True,
      'array_equiv': lambda a1, a2: L._all(A.elementwise(t.eq, arr(a1), arr(a2), dtype='bool')),
      'average': average, 'var': var, 'std': std, 'ptp': ptp, 'median': order_stat('median'), 'nanmedian': order_stat('median'),
      'quantile': quantile(1), 'percentile': quantile(100), 'trace': trace, 'diagonal': diagonal, 'cumprod': cumprod,
      'nanmean': L._mean, 'nanargmin': NP['argmin'], 'nanargmax': NP['argmax'], 'nanstd': std, 'nanvar': var,
      'round': rnd, 'around': rnd, 'fmod': fmod, 'fix': NP['trunc'], 'copysign': copysign, 'positive': lambda x: arr(x),
      'signbit': ew(lambda v: t.lt(v, t.ZERO), 'bool'), 'deg2rad': NP['radians'], 'rad2deg': NP['degrees'],
      'isposinf': ew(lambda v: t.eq(v, t.INF), 'bool'), 'isneginf': ew(lambda v: t.eq(v, t.neg(t.INF)), 'bool'),
      'log1p': ew(lambda v: log(t.add(t.ONE, v)), fl=True), 'expm1': ew(lambda v: t.sub(exp(v), t.ONE), fl=True), 'log2': opq('log2'), 'log10': opq('log10'),
      'exp2': opq('exp2'), 'cbrt': opq('cbrt'), 'sinh': opq('sinh'), 'cosh': opq('cosh'), 'arcsinh': opq('asinh'), 'arccosh': opq('acosh'), 'arctanh': opq('atanh'),
      'asin': NP['arcsin'], 'acos': NP['arccos'], 'atan': NP['arctan'], 'atan2': NP['arctan2'], 'pow': NP['power'],
      'logaddexp': ew(lambda a, b: log(t.add(exp(a), exp(b))), fl=True), 'sinc': opq('sinc'),
      'isclose': isclose, 'allclose': lambda a, b, rtol=1e-05, atol=1e-08, equal_nan=False: L._all(isclose(a, b, rtol, atol)),
      'nan_to_num': nan_to_num, 'left_shift': shift(ast.LShift()), 'right_shift': shift(ast.RShift()), 'bitwise_left_shift': shift(ast.LShift()), 'bitwise_right_shift': shift(ast.RShift()),
      'bitwise_xor': shift(ast.BitXor()), 'bitwise_invert': NP['invert'], 'divmod': divmod_, 'modf': modf, 'polyval': polyval, 'interp': interp,
      'searchsorted': searchsorted, 'digitize': digitize, 'isin': isin, 'gradient': gradient, 'diff': diff, 'ediff1d': lambda ary: L._diff(A.reshape(arr(ary), [-1])),
      'atleast_2d': atleast(2), 'atleast_3d': atleast(3), 'column_stack': column_stack, 'dstack': dstack, 'block': block, 'rot90': rot90,
      'unstack': unstack, 'ix_': ix_, 'indices': indices, 'tril_indices': tri_idx(True), 'triu_indices': tri_idx(False), 'diag_indices': diag_indices,
      'fill_diagonal': fill_diagonal, 'delete': delete, 'insert': insert, 'roll': roll, 'choose': choose, 'vecdot': vecdot, 'tensordot': tensordot,
      'matvec': matvec, 'vecmat': lambda v, m: A.einsum('...i,...ij->...j', arr(v), arr(m)) if arr(m).ndim > 2 or arr(v).ndim > 1 else A.matmul(arr(v), arr(m)),
      'permute_dims': lambda a, axes: A.transpose(arr(a), axes), 'matrix_transpose': lambda x: A.swapaxes(arr(x), -1, -2), 'rollaxis': None,
      'linalg.norm': norm, 'linalg.vector_norm': vector_norm, 'linalg.det': det, 'sort': sort, 'apply_along_axis': apply_along_axis,
      'linalg.cross': NP['cross'], 'linalg.vecdot': vecdot, 'linalg.matmul': NP['matmul'], 'linalg.outer': NP['outer'], 'linalg.trace': lambda x, offset=0: trace(x, offset, -2, -1),
      'linalg.diagonal': lambda x, offset=0: diagonal(x, offset, -2, -1), 'linalg.matrix_transpose': lambda x: A.swapaxes(arr(x), -1, -2),
  }
  np = {k: v for k, v in np.items() if v is not None}

  # ------------------------------------------------------------ jax.lax
  def dus(operand, update, start_indices):
    a, u = arr(operand), arr(update)
    if u.ndim != a.ndim:
      raise ShapeErr('dynamic_update_slice rank mismatch')
    starts = [arr(s) for s in it().iterate(start_indices)]
    st = [A.clamp_start(s.fn(()), d, n) for s, d, n in zip(starts, a.shape, u.shape)]

    def fn(idx):
      c, src = t.TRUE, []
      for i, s, d, n in zip(idx, st, a.shape, u.shape):
        if not A.same_dim(d, n):
          c = t.band(c, t.band(t.le(s, i), t.lt(i, t.add(s, A.dv(n)))) if n != 1 else t.eq(i, s))
        src.append(t.sub(i, s) if n != 1 else t.ZERO)
      return a.fn(idx) if c is t.FALSE else t.ite(c, u.fn(tuple(src)), a.fn(idx))
    return Arr(a.shape, a.dtype, fn)

  def iota(dtype, size):
    return L._arange(dims(A.norm_dim(size)), dtype=dtype)

  def biota(dtype, shape, dimension):
    return Arr(shp(shape), L.need_dtype(dtype).name, lambda idx: idx[dimension])

  def reducer(op):
    h = {'max': NP['max'], 'min': L._min, 'sum': NP['sum'], 'prod': NP['prod'], 'and': L._all, 'or': NP['any']}[op]
    return lambda operand, axes: h(operand, list(it().iterate(axes)))

  def opname(f):
    p = getattr(f, 'path', '').split('.')[-1]
    return {'add': 'sum', 'mul': 'prod', 'multiply': 'prod', 'max': 'max', 'maximum': 'max', 'min': 'min', 'minimum': 'min',
            'bitwise_and': 'and', 'logical_and': 'and', 'bitwise_or': 'or', 'logical_or': 'or'}.get(p)

  def reduce(operands, init_values, computation, dimensions):
    x, i = arr(operands), arr(init_values)
    ds = [A.norm_axis(k, x.ndim) for k in it().iterate(dimensions)]
    n = opname(computation)
    if n is not None and (x.dtype == 'bool' or n not in ('and', 'or')):
      r = reducer(n)(x, ds)
      return it().call(computation, [r, A.broadcast_to(i, r.shape)], {})
    if len(ds) != 1 or not isinstance(x.shape[ds[0]], int) or x.shape[ds[0]] > 16:
      raise Gap('reduce with a user function')
    acc = None
    for p in unstack(x, ds[0]):
      acc = it().call(computation, [A.broadcast_to(i, p.shape) if acc is None else acc, p], {})
    return acc

  def select_n(which, *cases):
    which = arr(which)
    cs = [arr(c) for c in cases]
    if which.dtype == 'bool':
      if len(cs) == 1:
        return cs[0]
      return L._where(which, cs[1], cs[0])
    return choose(which, cs)

  def slice_(operand, start_indices, limit_indices, strides=None):
    x = arr(operand)
    s, e = list(it().iterate(start_indices)), list(it().iterate(limit_indices))
    st = list(it().iterate(strides)) if strides is not None else [None] * x.ndim
    return A.getitem(x, tuple(slice(a, b, None if c == 1 else c) for a, b, c in zip(s, e, st)))

  def by_rank(key, others, axis):
    k = A.norm_axis(axis, key.ndim)
    return [Arr(o.shape, o.dtype, lambda idx, o=o: o.fn(idx[:k] + (L.rank_v(key, idx, k, idx[k]),) + idx[k + 1:])) for o in others]

  def lsort(operand, dimension=-1, is_stable=True, num_keys=1):
    if isinstance(operand, (tuple, list)):
      xs = [arr(x) for x in operand]
      if num_keys != 1:
        raise Gap('sort by several keys')
      return tuple(by_rank(xs[0], xs, dimension))
    return L._sort(operand, dimension)

  def sort_key_val(keys, values, dimension=-1, is_stable=True):
    return tuple(by_rank(arr(keys), [arr(keys), arr(values)], dimension))

  def rev(operand, dimensions):
    return L._flip(operand, list(it().iterate(dimensions)))

  def dot_general(lhs, rhs, dimension_numbers):
    (ca, cb), (ba, bb) = [[list(it().iterate(z)) for z in it().iterate(p)] for p in it().iterate(dimension_numbers)]
    return contract(arr(lhs), arr(rhs), ca, cb, ba, bb)

  def ldot(a, b):
    return L._dot(a, b)

  def assoc(fn, elems, reverse=False, axis=0):
    leaves = [x for x in L.tree_leaves(elems)]
    if not leaves or not all(isinstance(x, Arr) for x in leaves):
      raise Gap('associative_scan')
    k = A.norm_axis(axis, leaves[0].ndim)
    if len(leaves) == 1 and isinstance(elems, Arr):
      nm = {'sum': cumsum, 'prod': cumprod, 'max': cummax, 'min': cummin}.get(opname(fn))
      if nm is not None:
        return nm(elems, k, reverse=reverse)
    n = leaves[0].shape[k]
    if not isinstance(n, int) or n > 16:
      raise Gap('associative_scan along a symbolic axis')
    cut = lambda j: L.tree_map(lambda x: A.getitem(x, (slice(None),) * k + (slice(j, j + 1),)), elems)
    acc, accs = None, []
    for j in (reversed(range(n)) if reverse else range(n)):
      v = cut(j)
      acc = v if acc is None else it().call(fn, [acc, v], {})
      accs.append(acc)
    if reverse:
      accs.reverse()
    return L.tree_map(lambda *xs: A.concatenate([arr(x) for x in xs], k), *accs)

  def lpad(operand, padding_value, padding_config):
    cfg = [list(it().iterate(p)) for p in it().iterate(padding_config)]
    if any(c[2] != 0 for c in cfg):
      raise Gap('interior padding')
    return L._pad(operand, [(c[0], c[1]) for c in cfg], 'constant', padding_value)

  def collapse(operand, start_dimension, stop_dimension=None):
    x = arr(operand)
    e = x.ndim if stop_dimension is None else stop_dimension
    s = start_dimension
    e = e + x.ndim if e < 0 else e
    n = t.ONE
    for d in x.shape[s:e]:
      n = t.mul(n, A.dv(d))
    return A.reshape(x, [dims(d) for d in x.shape[:s]] + [dims(A.norm_dim(n))] + [dims(d) for d in x.shape[e:]])

  def lbroadcast(operand, sizes):
    x = arr(operand)
    return A.broadcast_to(x, shp(sizes) + x.shape)

  def strict(h):
    """lax binary operators take equal shapes (or a scalar) and equal types."""
    def f(x, y):
      a, b = arr(x), arr(y)
      if a.ndim and b.ndim and (a.ndim != b.ndim or not all(A.same_dim(p, q) for p, q in zip(a.shape, b.shape))):
        raise ShapeErr(f'lax operator on shapes {a.shape} and {b.shape}')
      if A.canon(a.dtype) != A.canon(b.dtype) and not a.weak and not b.weak:
        it().throw('TypeError', f'lax operator on types {a.dtype} and {b.dtype}')
      return h(x, y)
    return f

  def ldiv(x, y):
    a, b = arr(x), arr(y)
    if 'int' in a.dtype and 'int' in b.dtype:
      return ew(lambda p, q: t.trunc(t.div(p, q)))(a, b)
    return NP['divide'](a, b)

  def softmax(x, axis=-1):
    x = arr(x)
    e = ew(exp, fl=True)(x)
    return A.elementwise(t.div, e, A.reduce_axes(e, 'sum', axis, True))

  def lse(a, axis=None, b=None, keepdims=False):
    if b is not None:
      raise Gap('logsumexp b')
    return A.elementwise(log, A.reduce_axes(ew(exp, fl=True)(a), 'sum', axis, keepdims))

  sig = ew(lambda v: t.inverse(t.add(t.ONE, exp(t.neg(v)))), fl=True)

  def tree_transpose(outer_treedef, inner_treedef, pytree_to_transpose):
    raise Gap('tree_transpose')

  lax = {
      'integer_pow': ew(t.power), 'pow': ew(t.power), 'broadcast': lbroadcast, 'collapse': collapse, 'cummax': lambda operand, axis=0, reverse=False: cummax(operand, axis, reverse=reverse),
      'cummin': lambda operand, axis=0, reverse=False: cummin(operand, axis, reverse=reverse), 'cumsum': lambda operand, axis=0, reverse=False: cumsum(operand, axis, reverse=reverse),
      'cumprod': lambda operand, axis=0, reverse=False: cumprod(operand, axis, reverse=reverse), 'dynamic_update_slice': dus, 'iota': iota, 'broadcasted_iota': biota,
      'reduce_max': reducer('max'), 'reduce_min': reducer('min'), 'reduce_sum': reducer('sum'), 'reduce_prod': reducer('prod'), 'reduce_and': reducer('and'), 'reduce_or': reducer('or'),
      'reduce': reduce, 'select_n': select_n, 'slice': slice_, 'sort': lsort, 'sort_key_val': sort_key_val, 'rev': rev, 'dot': ldot, 'dot_general': dot_general,
      'batch_matmul': lambda lhs, rhs: A.matmul(arr(lhs), arr(rhs)), 'associative_scan': assoc, 'squeeze': lambda array, dimensions: A.squeeze(arr(array), tuple(it().iterate(dimensions))),
      'reshape': lambda operand, new_sizes, dimensions=None: A.reshape(arr(operand), shp(new_sizes)), 'transpose': lambda operand, permutation: A.transpose(arr(operand), list(it().iterate(permutation))),
      'add': strict(NP['add']), 'sub': strict(NP['subtract']), 'mul': strict(NP['multiply']), 'div': strict(ldiv), 'rem': strict(fmod),
      'neg': NP['negative'], 'abs': NP['abs'], 'exp': NP['exp'], 'log': NP['log'], 'log1p': np['log1p'], 'expm1': np['expm1'],
      'lt': strict(NP['less']), 'le': strict(NP['less_equal']), 'gt': strict(NP['greater']), 'ge': strict(NP['greater_equal']), 'eq': strict(NP['equal']), 'ne': strict(NP['not_equal']),
      'is_finite': NP['isfinite'], 'sin': NP['sin'], 'cos': NP['cos'], 'tan': NP['tan'], 'tanh': NP['tanh'], 'atan2': strict(NP['arctan2']), 'atan': NP['arctan'], 'acos': NP['arccos'], 'asin': NP['arcsin'],
      'sqrt': NP['sqrt'], 'square': NP['square'], 'cbrt': np['cbrt'], 'reciprocal': NP['reciprocal'], 'bitwise_and': NP['bitwise_and'], 'bitwise_or': NP['bitwise_or'], 'bitwise_xor': np['bitwise_xor'], 'bitwise_not': NP['bitwise_not'],
      'shift_left': shift(ast.LShift()), 'shift_right_arithmetic': shift(ast.RShift()), 'floor': NP['floor'], 'ceil': NP['ceil'], 'sign': NP['sign'], 'logistic': sig,
      'argmax': lambda operand, axis, index_dtype=None: A.arg_reduce(arr(operand), 'argmax', axis), 'argmin': lambda operand, axis, index_dtype=None: A.arg_reduce(arr(operand), 'argmin', axis),
      'pad': lpad, 'full': lambda shape, fill_value, dtype=None: L._full(shape, fill_value, dtype), 'optimization_barrier': lambda operand: operand,
      'with_sharding_constraint': lambda x, shardings=None: x,
  }

  def lround(x, rounding_method=None):
    # lax.round rounds halfway cases away from zero unless told otherwise
    if rounding_method is not None:
      if getattr(rounding_method, 'path', str(rounding_method)).endswith('TO_NEAREST_EVEN'):
        return ew(t.rint, fl=True)(x)
      if not getattr(rounding_method, 'path', '').endswith('AWAY_FROM_ZERO'):
        raise Gap('rounding method')
    half = t.const(0.5)
    return ew(lambda v: t.ite(t.lt(v, t.ZERO), t.neg(t.floor(t.add(t.neg(v), half))), t.floor(t.add(v, half))), fl=True)(x)
  lax['round'] = lround

  full = {'jax.lax.' + k: v for k, v in lax.items()}
  full.update({
      'jax.nn.sigmoid': sig, 'jax.nn.softmax': softmax, 'jax.nn.softplus': ew(lambda v: log(t.add(t.ONE, exp(v))), fl=True), 'jax.nn.logsumexp': lse,
      'jax.scipy.special.logsumexp': lse, 'jax.nn.silu': ew(lambda v: t.div(v, t.add(t.ONE, exp(t.neg(v)))), fl=True),
      'jax.ops.segment_sum': segment('sum'), 'jax.ops.segment_prod': segment('prod'), 'jax.ops.segment_max': segment('max'),
      'jax.nn.relu6': lambda x: L._clip(x, 0, 6), 'jax.nn.hard_tanh': lambda x: L._clip(x, -1, 1), 'jax.nn.log_sigmoid': ew(lambda v: t.neg(log(t.add(t.ONE, exp(t.neg(v))))), fl=True),
  })
  # methods of universal functions
  red_of = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'logical_and': 'all', 'logical_or': 'any'}
  acc_of = {'add': cumsum, 'multiply': cumprod, 'maximum': cummax, 'minimum': cummin}
  for n, r in red_of.items():
    for pre in ('jax.numpy.', 'numpy.'):
      def ureduce(array, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=None, r=r):
        if out is not None or initial is not None or dtype is not None:
          raise Gap('reduce options')
        return NP[r](array, axis, keepdims=keepdims, **({} if where is None else {'where': where}))
      full[pre + n + '.reduce'] = ureduce
  for n, f in acc_of.items():
    for pre in ('jax.numpy.', 'numpy.'):
      full[pre + n + '.accumulate'] = lambda array, axis=0, dtype=None, out=None, f=f: f(arr(array), A.norm_axis(axis, arr(array).ndim))
  for n in ('add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum', 'logical_and', 'logical_or', 'equal', 'less', 'greater', 'less_equal', 'greater_equal', 'arctan2', 'power'):
    for pre in ('jax.numpy.', 'numpy.'):
      def outer(x, y, n=n):
        x, y = arr(x), arr(y)
        x2 = A.reshape(x, list(x.shape) + [1] * y.ndim) if y.ndim else x
        return (NP.get(n) or np[n])(x2, y)
      full[pre + n + '.outer'] = outer
  return np, full
