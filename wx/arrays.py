"""Arrays of the value graph: a shape plus a map from index nodes to a node."""
import itertools
from fractions import Fraction
from . import terms as t
from .terms import V


class ShapeErr(Exception):
  """The program would raise on these shapes."""


class Gap(Exception):
  """A construct the analyser does not model (analysis error, not a verdict)."""


STATIC_HOOK = lambda x, what: None   # set by the interpreter: x is needed while tracing


def norm_dim(d):
  if isinstance(d, bool):
    return int(d)
  if isinstance(d, int):
    return d
  if isinstance(d, Fraction):
    return int(d)
  if isinstance(d, Sym):
    d = d.v
  if isinstance(d, Arr) and d.shape == ():
    STATIC_HOOK(d, 'array size taken from a traced value')
    d = d.fn(())
  if isinstance(d, V):
    c = t.const_val(d)
    if c is not None and not isinstance(c, bool) and c.denominator == 1:
      return int(c)
    return d
  raise Gap(f'dimension {d!r}')


def dv(d):
  return t.lift(d) if not isinstance(d, V) else d


def same_dim(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a == b
  return dv(a) is dv(b)


DT_ORDER = {'bool': 0, 'uint8': 1, 'int8': 2, 'int16': 2, 'uint32': 3, 'int32': 4, 'int64': 5, 'float16': 6, 'bfloat16': 6, 'float32': 7, 'float64': 8, 'complex64': 9, 'object': 10, 'str': 10}


class DType:
  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, DType) and o.name == self.name

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return f'dtype({self.name})'


class Sym:
  """A static (host-level) scalar that is not a known constant."""
  __slots__ = ('v', 'kind')

  def __init__(self, v, kind='int'):
    self.v, self.kind = v, kind

  def __repr__(self):
    return f'Sym({self.v!r})'


def sym(v, kind='int'):
  """Wrap as host scalar; collapse constants."""
  c = t.const_val(v)
  if c is not None:
    if isinstance(c, bool):
      return c
    if kind == 'int' and c.denominator == 1:
      return int(c)
    if kind == 'float':
      return float(c)
    if c.denominator == 1:
      return int(c)
    return float(c)
  return Sym(v, 'bool' if v._bool else kind)


class Arr:
  __slots__ = ('shape', 'dtype', '_fn', 'memo', 'origin', 'weak', 'frozen', 'tag', 'host', 'concrete')

  def __init__(self, shape, dtype, fn, origin=None, weak=False):
    self.shape = tuple(norm_dim(d) for d in shape)
    self.dtype = dtype
    self._fn = fn
    self.memo = {}
    self.origin = origin
    self.weak = weak
    self.frozen = False
    self.tag = None
    self.host = False
    self.concrete = False   # built outside the traced program

  def fn(self, idx):
    idx = tuple(t.lift(i) for i in idx)
    if len(idx) != len(self.shape):
      raise Gap(f'rank mismatch {len(idx)} vs {self.shape}')
    # an axis of size 1 has the single index 0
    idx = tuple(t.ZERO if d == 1 else i for i, d in zip(idx, self.shape))
    k = tuple(i.id for i in idx)
    r = self.memo.get(k)
    if r is None:
      r = self._fn(idx)
      if not isinstance(r, V):
        r = t.lift(r)
      if self.dtype == 'bool' and not r._bool:
        r = t.as_bool(r)
      elif self.dtype != 'bool' and r._bool:
        r = t.b2n(r)
      self.memo[k] = r
    return r

  def at(self, *idx):
    return self.fn(idx)

  @property
  def ndim(self):
    return len(self.shape)

  def __repr__(self):
    return f'Arr{self.shape}:{self.dtype}'


def is_scalar(x):
  return isinstance(x, (bool, int, float, Sym, Fraction))


def scalar_kind(x):
  if isinstance(x, bool):
    return 'bool'
  if isinstance(x, int):
    return 'int'
  if isinstance(x, float):
    return 'float'
  return x.kind


def asarr(x, dtype=None):
  if isinstance(x, Arr):
    return x
  if isinstance(x, (bool, int, float, Fraction)):
    k = {'bool': 'bool', 'int': 'int32', 'float': 'float32'}.get(scalar_kind(x) if not isinstance(x, Fraction) else 'float')
    v = t.const(x)
    return Arr((), k, lambda idx: v, weak=True)
  if isinstance(x, Sym):
    k = {'bool': 'bool', 'int': 'int32', 'float': 'float32'}[x.kind]
    return Arr((), k, lambda idx: x.v, weak=True)
  if isinstance(x, V):
    return Arr((), 'bool' if x._bool else 'float32', lambda idx: x, weak=True)
  if isinstance(x, (list, tuple)):
    els = [asarr(e) for e in x]
    if not els:
      return Arr((0,), 'float32', lambda idx: t.ZERO)
    return stack(els, 0)
  raise Gap(f'cannot convert {type(x).__name__} {x!r:.80} to an array')


def canon(dt):
  return {'int64': 'int32', 'float64': 'float32', 'uint64': 'uint32'}.get(dt, dt)


def promote(*arrs):
  best, weakbest = None, None
  for a in arrs:
    d = canon(a.dtype)
    if a.weak:
      if weakbest is None or DT_ORDER[d] > DT_ORDER[weakbest]:
        weakbest = d
    elif best is None or DT_ORDER[d] > DT_ORDER[best]:
      best = d
  if best is None:
    return weakbest, True
  if weakbest is None:
    return best, False
  kb = 0 if best == 'bool' else (1 if 'int' in best else 2)
  kw = 0 if weakbest == 'bool' else (1 if 'int' in weakbest else 2)
  return (weakbest, False) if kw > kb else (best, False)


def bshape(*shapes):
  n = max(len(s) for s in shapes)
  out = []
  for k in range(n):
    cur = 1
    for s in shapes:
      j = k - (n - len(s))
      if j < 0:
        continue
      d = s[j]
      if isinstance(d, int) and d == 1:
        continue
      if isinstance(cur, int) and cur == 1:
        cur = d
      elif not same_dim(cur, d):
        raise ShapeErr(f'incompatible shapes for broadcasting: {shapes}')
    out.append(cur)
  return tuple(out)


def bidx(shape, idx):
  """Index into an array of `shape` broadcast to rank len(idx)."""
  off = len(idx) - len(shape)
  return tuple(t.ZERO if (isinstance(d, int) and d == 1) else i for d, i in zip(shape, idx[off:]))


def broadcast_to(a, shape):
  a = asarr(a)
  shape = tuple(norm_dim(d) for d in shape)
  bs = bshape(a.shape, shape)
  if len(bs) != len(shape) or not all(same_dim(x, y) for x, y in zip(bs, shape)):
    raise ShapeErr(f'cannot broadcast {a.shape} to {shape}')
  return Arr(shape, a.dtype, lambda idx: a.fn(bidx(a.shape, idx)), weak=a.weak)


def elementwise(f, *xs, dtype=None, out=None):
  arrs = [asarr(x) for x in xs]
  shape = bshape(*[a.shape for a in arrs])
  if dtype is None:
    dtype, weak = promote(*arrs)
  else:
    weak = False
  return Arr(shape, dtype, lambda idx: f(*[a.fn(bidx(a.shape, idx)) for a in arrs]), weak=weak)


def norm_axis(ax, n):
  if isinstance(ax, Sym) or isinstance(ax, V):
    raise Gap('symbolic axis')
  ax = int(ax)
  if ax < -n or ax >= n:
    raise ShapeErr(f'axis {ax} out of bounds for rank {n}')
  return ax % n


def stack(xs, axis=0):
  xs = [asarr(x) for x in xs]
  n = xs[0].ndim
  for x in xs[1:]:
    if x.ndim != n or not all(same_dim(a, b) for a, b in zip(x.shape, xs[0].shape)):
      raise ShapeErr(f'stack of different shapes {[x.shape for x in xs]}')
  ax = norm_axis(axis, n + 1)
  shape = xs[0].shape[:ax] + (len(xs),) + xs[0].shape[ax:]
  dt, weak = promote(*xs)

  def fn(idx):
    k = idx[ax]
    rest = idx[:ax] + idx[ax + 1:]
    return select_list(k, [lambda x=x: cast_v(x.fn(rest), x.dtype, dt) for x in xs])
  return Arr(shape, dt, fn, weak=weak)


def select_list(k, thunks):
  c = t.const_val(k)
  if c is not None:
    return thunks[int(c)]()
  r = thunks[-1]()
  for j in range(len(thunks) - 2, -1, -1):
    r = t.ite(t.eq(k, t.const(j)), thunks[j](), r)
  return r


def cast_v(v, src, dst):
  """Value of an element when an array of dtype src is cast to dst."""
  if src == dst:
    return v
  if dst == 'bool':
    return t.as_bool(v)
  if src == 'bool':
    return t.b2n(v)
  if 'int' in dst and 'float' in src:
    return t.trunc(v)
  return v


def concatenate(xs, axis=0):
  xs = [asarr(x) for x in xs]
  ax = norm_axis(axis, xs[0].ndim)
  for x in xs[1:]:
    if x.ndim != xs[0].ndim or not all(same_dim(a, b) for i, (a, b) in enumerate(zip(x.shape, xs[0].shape)) if i != ax):
      raise ShapeErr(f'concatenate of incompatible shapes {[x.shape for x in xs]} axis {ax}')
  tot = t.ZERO
  offs = []
  for x in xs:
    offs.append(tot)
    tot = t.add(tot, dv(x.shape[ax]))
  dt, weak = promote(*xs)
  shape = xs[0].shape[:ax] + (norm_dim(tot),) + xs[0].shape[ax + 1:]

  def fn(idx):
    k = idx[ax]
    r = None
    for x, o in reversed(list(zip(xs, offs))):
      if isinstance(x.shape[ax], int) and x.shape[ax] == 0:
        continue
      j = t.sub(k, o)
      if r is None:
        v = lambda j=j, x=x: cast_v(x.fn(idx[:ax] + (j,) + idx[ax + 1:]), x.dtype, dt)
        r = v
      else:
        prev = r
        end = t.add(o, dv(x.shape[ax]))
        c = t.lt(k, end)
        if c is t.TRUE:
          r = lambda j=j, x=x: cast_v(x.fn(idx[:ax] + (j,) + idx[ax + 1:]), x.dtype, dt)
        elif c is t.FALSE:
          r = prev
        else:
          r = (lambda j=j, x=x, c=c, prev=prev:
               t.ite(c, cast_v(x.fn(idx[:ax] + (j,) + idx[ax + 1:]), x.dtype, dt), prev()))
    return r() if r is not None else t.ZERO
  return Arr(shape, dt, fn, weak=weak)


def expand_dims(a, axis):
  a = asarr(a)
  axes = [axis] if not isinstance(axis, (list, tuple)) else list(axis)
  n = a.ndim + len(axes)
  axes = sorted(norm_axis(x, n) for x in axes)
  if len(set(axes)) != len(axes):
    raise ShapeErr('repeated axis in expand_dims')
  shape, it = [], iter(a.shape)
  for k in range(n):
    shape.append(1 if k in axes else next(it))
  return Arr(shape, a.dtype, lambda idx: a.fn(tuple(i for k, i in enumerate(idx) if k not in axes)), weak=a.weak)


def squeeze(a, axis=None):
  a = asarr(a)
  if axis is None:
    axes = [k for k, d in enumerate(a.shape) if d == 1]
  else:
    axes = [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (list, tuple)) else [axis])]
  for x in axes:
    if a.shape[x] != 1:
      raise ShapeErr(f'cannot squeeze axis {x} of shape {a.shape}')
  shape = [d for k, d in enumerate(a.shape) if k not in axes]

  def fn(idx):
    it = iter(idx)
    return a.fn(tuple(t.ZERO if k in axes else next(it) for k in range(a.ndim)))
  return Arr(shape, a.dtype, fn, weak=a.weak)


def transpose(a, perm=None):
  a = asarr(a)
  perm = list(reversed(range(a.ndim))) if perm is None else [norm_axis(p, a.ndim) for p in perm]
  inv = [perm.index(k) for k in range(a.ndim)]
  return Arr([a.shape[p] for p in perm], a.dtype, lambda idx: a.fn(tuple(idx[inv[k]] for k in range(a.ndim))), weak=a.weak)


def swapaxes(a, i, j):
  a = asarr(a)
  i, j = norm_axis(i, a.ndim), norm_axis(j, a.ndim)
  p = list(range(a.ndim))
  p[i], p[j] = p[j], p[i]
  return transpose(a, p)


def moveaxis(a, s, d):
  a = asarr(a)
  ss = [norm_axis(x, a.ndim) for x in (s if isinstance(s, (list, tuple)) else [s])]
  dd = [norm_axis(x, a.ndim) for x in (d if isinstance(d, (list, tuple)) else [d])]
  order = [k for k in range(a.ndim) if k not in ss]
  for x, y in sorted(zip(dd, ss)):
    order.insert(x, y)
  return transpose(a, order)


def size_of(a):
  r = t.ONE
  for d in a.shape:
    r = t.mul(r, dv(d))
  return r


def reshape(a, shape):
  a = asarr(a)
  shape = [norm_dim(d) for d in shape]
  if any(isinstance(d, int) and d == -1 for d in shape):
    k = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
    if len(k) > 1:
      raise ShapeErr('two -1 in reshape')
    known = t.ONE
    for i, d in enumerate(shape):
      if i != k[0]:
        known = t.mul(known, dv(d))
    shape[k[0]] = norm_dim(t.div(size_of(a), known))
  tot = t.ONE
  for d in shape:
    tot = t.mul(tot, dv(d))
  if tot is not size_of(a):
    raise ShapeErr(f'cannot reshape {a.shape} into {shape}')
  # match groups of dims with equal products
  groups = []
  i = j = 0
  src, dst = list(a.shape), list(shape)
  while i < len(src) or j < len(dst):
    gi, gj = [], []
    pi, pj = t.ONE, t.ONE
    if i < len(src):
      gi.append(i); pi = t.mul(pi, dv(src[i])); i += 1
    if j < len(dst):
      gj.append(j); pj = t.mul(pj, dv(dst[j])); j += 1
    while pi is not pj:
      ci, cj = t.const_val(pi), t.const_val(pj)
      grow_i = None
      if ci is not None and cj is not None:
        grow_i = ci < cj
      elif _divides(pj, pi):
        grow_i = False
      elif _divides(pi, pj):
        grow_i = True
      else:
        grow_i = j >= len(dst)
      if grow_i and i < len(src):
        gi.append(i); pi = t.mul(pi, dv(src[i])); i += 1
      elif j < len(dst):
        gj.append(j); pj = t.mul(pj, dv(dst[j])); j += 1
      elif i < len(src):
        gi.append(i); pi = t.mul(pi, dv(src[i])); i += 1
      else:
        raise Gap(f'reshape {a.shape} -> {shape}')
    groups.append((gi, gj))
  def fn(idx):
    out = [t.ZERO] * a.ndim
    for gi, gj in groups:
      gi2 = [k for k in gi if src[k] != 1]
      gj2 = [k for k in gj if dst[k] != 1]
      if not gi2:
        continue
      if len(gi2) == 1 and len(gj2) == 1:
        out[gi2[0]] = idx[gj2[0]]
        continue
      flat = t.ZERO
      for k in gj2:
        flat = t.add(t.mul(flat, dv(dst[k])), idx[k])
      for pos, k in enumerate(reversed(gi2)):
        if pos == len(gi2) - 1:
          out[k] = flat
        else:
          out[k] = t.modv(flat, dv(src[k]))
          flat = t.floordiv(flat, dv(src[k]))
    return a.fn(tuple(out))
  return Arr(shape, a.dtype, fn, weak=a.weak)


def _divides(p, q):
  """q divides p as monomials (p = q * something)."""
  if p.kind != 'n' or q.kind != 'n' or len(p.p.terms) != 1 or len(q.p.terms) != 1:
    return False
  return t._mono_div(p.p.terms[0][0], q.p.terms[0][0]) is not None


def reduce_axes(a, op, axis=None, keepdims=False, where=None, dtype=None, initial=None):
  a = asarr(a)
  if where is not None:
    w = asarr(where)
    neutral = {'any': t.FALSE, 'sum': t.ZERO, 'prod': t.ONE, 'max': t.neg(t.INF)}[op]
    if op == 'max' and initial is not None:
      neutral = asarr(initial).fn(())
    shape = bshape(a.shape, w.shape)
    a0 = a
    a = Arr(shape, a0.dtype, lambda idx: t.ite(w.fn(bidx(w.shape, idx)), a0.fn(bidx(a0.shape, idx)), neutral))
  if axis is None:
    axes = list(range(a.ndim))
  else:
    axes = [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (list, tuple)) else [axis])]
  keep = [k for k in range(a.ndim) if k not in axes]
  shape = [a.shape[k] for k in range(a.ndim) if k in keep or keepdims]
  shape = [(1 if (k in axes) else a.shape[k]) for k in range(a.ndim) if k in keep or keepdims]
  if dtype is None:
    if op == 'any':
      dtype = 'bool'
    elif op in ('sum', 'prod') and a.dtype == 'bool':
      dtype = 'int32'
    else:
      dtype = a.dtype

  def fn(idx):
    if keepdims:
      base = [t.ZERO if k in axes else idx[k] for k in range(a.ndim)]
    else:
      it = iter(idx)
      base = [None if k in axes else next(it) for k in range(a.ndim)]

    def rec(j, base):
      if j == len(axes):
        return a.fn(tuple(base))
      k = axes[j]

      def body(i):
        b2 = list(base)
        b2[k] = i
        return rec(j + 1, b2)
      return t.reduce_(op, dv(a.shape[k]), body)
    return rec(0, base)
  return Arr(shape, dtype, fn)


def arg_reduce(a, op, axis=None, keepdims=False):
  a = asarr(a)
  if axis is None:
    a = reshape(a, [-1])
    axis = 0
  k = norm_axis(axis, a.ndim)
  shape = a.shape[:k] + ((1,) if keepdims else ()) + a.shape[k + 1:]
  n = a.shape[k]

  def fn(idx):
    rest = idx[:k] + idx[(k + 1 if keepdims else k):]
    if isinstance(n, int) and n <= 4:
      best, bi = None, None
      for j in range(n):
        v = t.b2n(a.fn(rest[:k] + (t.const(j),) + rest[k:]))
        if best is None:
          best, bi = v, t.const(0)
        else:
          c = t.lt(best, v) if op == 'argmax' else t.lt(v, best)
          best, bi = t.ite(c, v, best), t.ite(c, t.const(j), bi)
      return bi
    return t.red_fn(op, dv(n), lambda i: a.fn(rest[:k] + (i,) + rest[k:]))
  return Arr(shape, 'int32', fn)


def gather(a, axis, index_fn, out_dim):
  """a taken along axis at index_fn(idx)."""
  return Arr(a.shape[:axis] + (out_dim,) + a.shape[axis + 1:], a.dtype,
             lambda idx: a.fn(idx[:axis] + (index_fn(idx),) + idx[axis + 1:]))


def clamp_start(start, n, size):
  """Start index of a dynamic slice: clamped when it is a literal, assumed to
  be in range otherwise."""
  if isinstance(n, int) and isinstance(size, int) and n == size:
    return t.ZERO
  if same_dim(n, size):
    return t.ZERO
  c = t.const_val(start)
  if c is not None and isinstance(n, int) and isinstance(size, int):
    return t.const(max(0, min(n - size, int(c) + n if c < 0 else int(c))))
  return start


def dynamic_slice_in_dim(a, start, size, axis=0):
  a = asarr(a)
  ax = norm_axis(axis, a.ndim)
  s = asarr(start)
  if s.shape != ():
    raise ShapeErr(f'dynamic_slice start index must be scalar, got {s.shape}')
  size = norm_dim(size)
  st = clamp_start(s.fn(()), a.shape[ax], size)
  return Arr(a.shape[:ax] + (size,) + a.shape[ax + 1:], a.dtype,
             lambda idx: a.fn(idx[:ax] + (t.add(st, idx[ax]),) + idx[ax + 1:]))


def dynamic_update_slice_in_dim(a, upd, start, axis):
  a, upd = asarr(a), asarr(upd)
  ax = norm_axis(axis, a.ndim)
  if upd.ndim != a.ndim:
    raise ShapeErr('dynamic_update_slice rank mismatch')
  if DT_ORDER[canon(upd.dtype)] != DT_ORDER[canon(a.dtype)] and not upd.weak:
    if canon(upd.dtype) != canon(a.dtype):
      raise ShapeErr(f'dynamic_update_slice dtype mismatch {a.dtype} {upd.dtype}')
  part = [k for k in range(a.ndim) if k != ax and not same_dim(a.shape[k], upd.shape[k])]
  for k in part:
    if isinstance(upd.shape[k], int) and isinstance(a.shape[k], int) and upd.shape[k] > a.shape[k]:
      raise ShapeErr(f'dynamic_update_slice update larger than operand: {a.shape} {upd.shape}')
    if upd.shape[k] != 1 and not isinstance(upd.shape[k], int):
      raise Gap(f'partial update on axis {k}: {a.shape} {upd.shape}')
  s = asarr(start)
  if s.shape != ():
    raise ShapeErr('dynamic_update_slice start must be scalar')
  n = upd.shape[ax]
  st = clamp_start(s.fn(()), a.shape[ax], n)

  def fn(idx):
    i = idx[ax]
    rel = t.sub(i, st)
    c = t.band(t.le(st, i), t.lt(i, t.add(st, dv(n)))) if n != 1 else t.eq(i, st)
    for k in part:
      c = t.band(c, t.lt(idx[k], dv(upd.shape[k])))
    return t.ite(c, upd.fn(idx[:ax] + (rel,) + idx[ax + 1:]), a.fn(idx)) if c is not t.FALSE else a.fn(idx)
  return Arr(a.shape, a.dtype, fn)


def take_along_axis(a, idxs, axis):
  a, ix = asarr(a), asarr(idxs)
  if axis is None:
    a, axis = reshape(a, [-1]), 0
  ax = norm_axis(axis, a.ndim)
  if ix.ndim != a.ndim:
    raise ShapeErr('take_along_axis rank mismatch')
  shape = []
  for k in range(a.ndim):
    if k == ax:
      shape.append(ix.shape[k])
    else:
      shape.append(bshape((a.shape[k],), (ix.shape[k],))[0])

  def fn(idx):
    j = ix.fn(bidx(ix.shape, idx))
    b = list(bidx(a.shape, idx))
    b[ax] = j
    return a.fn(tuple(b))
  return Arr(shape, a.dtype, fn)


def getitem(a, key, gapinfo=''):
  a = asarr(a)
  items = list(key) if isinstance(key, tuple) else [key]
  out = []
  for it in items:
    if isinstance(it, (list,)):
      it = asarr(it)
    out.append(it)
  items = out
  nconsumed = sum(1 for it in items if it is not None and it is not Ellipsis and not (isinstance(it, Arr) and it.dtype == 'bool'))
  nconsumed += sum(it.ndim for it in items if isinstance(it, Arr) and it.dtype == 'bool')
  if nconsumed > a.ndim:
    raise ShapeErr(f'too many indices for shape {a.shape}')
  if not any(it is Ellipsis for it in items):
    items.append(Ellipsis)
  full = []
  for it in items:
    if it is Ellipsis:
      full += [slice(None)] * (a.ndim - nconsumed)
    else:
      full.append(it)
  if any(isinstance(it, Arr) and it.dtype == 'bool' and it.ndim > 0 for it in full):
    return masked_getitem(a, full)
  oob = 'raise' if a.host else 'clamp'
  # plan per source axis
  adv = [it for it in full if isinstance(it, Arr) and it.ndim > 0]
  advshape = bshape(*[x.shape for x in adv]) if adv else ()
  shape = []
  plan = []        # for each source axis: function of out idx
  newpos = []
  ax = 0
  advpos = None
  sep = False
  last_adv = None
  for it in full:
    if it is None:
      newpos.append(len(shape))
      shape.append(1)
      continue
    n = a.shape[ax]
    if isinstance(it, slice):
      st, ln, step = norm_slice(it, n)
      p = len(shape)
      shape.append(ln)
      plan.append(('s', p, st, step))
    elif isinstance(it, Arr) and it.ndim > 0:
      if advpos is None:
        advpos = len(shape)
        shape += [('adv', k) for k in range(len(advshape))]
      elif last_adv is not None and last_adv != ax - 1:
        sep = True
      last_adv = ax
      plan.append(('a', it, n))
    else:
      if isinstance(it, Arr) and it.shape == () and not it.host:
        plan.append(('x', it, n))
      else:
        plan.append(('i', norm_index(it, n, oob)))
      if advpos is not None or adv:
        # an integer mixed with arrays is itself advanced
        if last_adv is not None and last_adv != ax - 1:
          sep = True
        if adv:
          last_adv = ax
    ax += 1
  if adv and sep:
    # advanced axes move to the front
    others = [s for s in shape if not (isinstance(s, tuple) and s and s[0] == 'adv')]
    # remap positions
    mp, q = {}, len(advshape)
    for p, s in enumerate(shape):
      if isinstance(s, tuple) and s[0] == 'adv':
        mp[p] = s[1]
      else:
        mp[p] = q
        q += 1
    plan = [(pl[0], mp[pl[1]]) + pl[2:] if pl[0] == 's' else pl for pl in plan]
    shape = list(advshape) + others
    advpos = 0
  else:
    shape = [advshape[s[1]] if isinstance(s, tuple) and s and s[0] == 'adv' else s for s in shape]

  def fn(idx):
    src = []
    for pl in plan:
      if pl[0] == 's':
        i = idx[pl[1]]
        if pl[3] == 1:
          src.append(t.add(pl[2], i))
        else:
          src.append(t.add(pl[2], t.mul(t.const(pl[3]), i)))
      elif pl[0] == 'i':
        src.append(pl[1])
      elif pl[0] == 'x':
        src.append(norm_index(pl[1], pl[2], oob))
      else:
        ai = idx[advpos:advpos + len(advshape)]
        j = pl[1].fn(bidx(pl[1].shape, ai))
        src.append(norm_index_v(j, pl[2], oob))
    return a.fn(tuple(src))
  return Arr(shape, a.dtype, fn, weak=False)


def mask_cell(m, flat):
  """The mask entry at a flat position."""
  idx = []
  for d in reversed(m.shape[1:]):
    idx.append(t.modv(flat, dv(d)))
    flat = t.floordiv(flat, dv(d))
  return (flat,) + tuple(reversed(idx))


def mask_size(m):
  n = dv(m.shape[0])
  for d in m.shape[1:]:
    n = t.mul(n, dv(d))
  return n


def masked_getitem(a, full):
  """a[mask] with one boolean mask: order-preserving filter."""
  masks = [it for it in full if isinstance(it, Arr) and it.dtype == 'bool' and it.ndim]
  if len(masks) != 1 or any(isinstance(it, Arr) and it.ndim and it is not masks[0] for it in full):
    raise Gap('boolean mask indexing')
  m = masks[0]
  STATIC_HOOK(m, 'array filtered by a traced mask (data-dependent shape)')
  pos = full.index(m)
  k = m.ndim
  if any(it is None or not isinstance(it, slice) for it in full[:pos]):
    raise Gap('boolean mask after an integer or new axis')
  rest = full[:pos] + [slice(None)] * k + full[pos + 1:]
  if not all(isinstance(it, slice) and it == slice(None) for it in rest):
    a = getitem(a, tuple(rest))
  for d, e in zip(m.shape, a.shape[pos:pos + k]):
    if not same_dim(d, e):
      raise ShapeErr(f'boolean mask of size {d} over an axis of size {e}')
  n = mask_size(m)
  cell = lambda i: m.fn(mask_cell(m, i))
  cnt = t.reduce_('sum', n, lambda i: t.b2n(cell(i)))
  def fn(idx):
    j = nth_true(n, cell, idx[pos])
    return a.fn(idx[:pos] + mask_cell(m, j) + idx[pos + 1:])
  return Arr(a.shape[:pos] + (norm_dim(cnt),) + a.shape[pos + k:], a.dtype, fn)


def nth_true(n, cell, k):
  """Position of the k-th true entry; the inverse of rank_true."""
  at = t._single_atom(k)
  if at is not None and at.kind == 'red' and at.args[0] == 'rank_true':
    j = t.red_fn('nth_true', n, cell, extra=(t.ZERO,))
    b = t._single_atom(j)
    if b is not None and b.kind == 'red' and b.args[1] is at.args[1] and t.red_fn('rank_true', n, cell, extra=(at.args[4],)) is k:
      return at.args[4]
  if k is t.ZERO:
    return t.red_fn('argmax', n, lambda i: t.b2n(cell(i)))
  return t.red_fn('nth_true', n, cell, extra=(k,))


def rank_true(m, idx):
  """Number of true entries before idx (meaningful where m is true)."""
  flat = t.ZERO
  for d, i in zip(m.shape, idx):
    flat = t.add(t.mul(flat, dv(d)), i)
  return t.red_fn('rank_true', mask_size(m), lambda i: m.fn(mask_cell(m, i)), extra=(flat,))


def norm_index_v(v, n, oob='raise'):
  """Position of a literal or computed index.  An index out of range by its
  literal value raises (host arrays), reads the nearest entry ('clamp', device
  arrays) or is kept as a position that does not exist ('keep', updates)."""
  c = t.const_val(v)
  if c is not None:
    if isinstance(n, int) and not -n <= c < n and oob != 'keep':
      if oob == 'raise':
        raise ShapeErr(f'index {c} out of range for axis of size {n}')
      return t.ZERO if c < 0 else t.const(n - 1)
    if c < 0:
      return t.add(dv(n), v)
    return v
  # symbolic static negative offsets like -k
  return v


def norm_index(it, n, oob='raise'):
  if isinstance(it, bool):
    raise Gap('boolean scalar index')
  if isinstance(it, int):
    return norm_index_v(t.const(it), n, oob)
  if isinstance(it, Sym):
    return norm_index_v(it.v, n, oob)
  if isinstance(it, Arr) and it.shape == ():
    return norm_index_v(t.b2n(it.fn(())), n, oob)
  if isinstance(it, V):
    return norm_index_v(it, n, oob)
  if hasattr(it, 'as_int'):
    return t.const(it.as_int())
  raise Gap(f'index {it!r}')


def _bound(x, n, default):
  if x is None:
    return default
  if isinstance(x, int):
    if isinstance(n, int):
      return t.const(max(0, min(n, x if x >= 0 else n + x)))
    return t.add(dv(n), t.const(x)) if x < 0 else t.const(x)
  if isinstance(x, Sym):
    v = x.v
  elif isinstance(x, Arr) and x.shape == ():
    STATIC_HOOK(x, 'slice bound taken from a traced value')
    v = x.fn(())
  else:
    raise Gap(f'slice bound {x!r}')
  # -k for positive symbolic k counts from the end
  if v.kind == 'n' and v.p.terms and all(c < 0 for m, c in v.p.terms) and t._upper(v.p) is not None and t._upper(v.p) < 0:
    return t.add(dv(n), v)
  return v


def norm_slice(s, n):
  step = 1 if s.step is None else s.step
  if not isinstance(step, int):
    raise Gap('symbolic slice step')
  if step == 1:
    st = _bound(s.start, n, t.ZERO)
    en = _bound(s.stop, n, dv(n))
    ln = t.sub(en, st)
    c = t.const_val(ln)
    if c is not None and c < 0:
      ln = t.ZERO
    return st, norm_dim(ln), 1
  if step == -1 and s.start is None and s.stop is None:
    return t.sub(dv(n), t.ONE), n, -1
  if step > 1:
    st = _bound(s.start, n, t.ZERO)
    en = _bound(s.stop, n, dv(n))
    ln = t.sub(en, st)
    c = t.const_val(ln)
    if c is not None:
      return st, int(-((-c) // step)), step
    return st, norm_dim(t.floordiv(t.add(ln, t.const(step - 1)), t.const(step))), step
  if step < 0 and isinstance(n, int):
    r = range(*slice(s.start, s.stop, step).indices(n))
    return t.const(r.start), len(r), step
  raise Gap('slice with step')


def at_update(a, key, val, mode='set'):
  """Functional a.at[key].set/add/multiply(val) for basic, integer and mask keys."""
  a = asarr(a)
  val = asarr(val)
  comb = {'set': lambda old, new: new, 'add': t.add, 'multiply': t.mul, 'min': t.minv, 'max': t.maxv,
          'divide': t.div, 'power': t.power}[mode]
  items = list(key) if isinstance(key, tuple) else [key]
  items = [asarr(i) if isinstance(i, list) else i for i in items]
  used = 0
  for it in items:
    if it is Ellipsis or it is None:
      continue
    used += it.ndim if isinstance(it, Arr) and it.dtype == 'bool' else 1
  if not any(it is Ellipsis for it in items):
    items.append(Ellipsis)
  full = []
  for it in items:
    if it is Ellipsis:
      full += [slice(None)] * (a.ndim - used)
    elif it is None:
      raise Gap('newaxis in indexed update')
    else:
      full.append(it)
  # boolean mask covering leading axes
  conds = []   # functions idx -> (cond, out-index list)
  ax = 0
  plan = []
  for it in full:
    if isinstance(it, Arr) and it.dtype == 'bool':
      plan.append(('m', ax, it))
      ax += it.ndim
    elif isinstance(it, slice):
      st, ln, step = norm_slice(it, a.shape[ax])
      if step != 1:
        raise Gap('strided indexed update')
      plan.append(('s', ax, st, ln))
      ax += 1
    elif isinstance(it, Arr) and it.ndim > 0:
      plan.append(('g', ax, it))
      ax += 1
    else:
      plan.append(('i', ax, norm_index(it, a.shape[ax], 'keep')))
      ax += 1
  masked = any(p[0] == 'm' for p in plan)
  if masked and val.ndim > 0 and not (len(plan) == 1 or val.ndim == 0):
    pass
  gath = [p for p in plan if p[0] == 'g']
  dtc = a.dtype

  def fn(idx):
    c = t.TRUE
    vi = []
    for p in plan:
      if p[0] == 'm':
        m = p[2]
        c = t.band(c, m.fn(idx[p[1]:p[1] + m.ndim]))
        if val.ndim > 0:
          vi.append(rank_true(m, idx[p[1]:p[1] + m.ndim]))
      elif p[0] == 's':
        i, st, ln = idx[p[1]], p[2], p[3]
        whole = same_dim(ln, a.shape[p[1]]) and st is t.ZERO
        if not whole:
          if isinstance(ln, int) and ln == 1:
            c = t.band(c, t.eq(i, st))
          else:
            c = t.band(c, t.band(t.le(st, i), t.lt(i, t.add(st, dv(ln)))))
        vi.append(t.sub(i, st))
      elif p[0] == 'i':
        c = t.band(c, t.eq(idx[p[1]], p[2]))
      else:
        raise Gap('indexed update with index array')
    if c is t.FALSE:
      return a.fn(idx)
    off = len(vi) - val.ndim
    if off < 0:
      if any(d != 1 for d in val.shape[:-off]):
        raise ShapeErr('indexed update shape mismatch')
      vidx = [t.ZERO] * (-off) + vi
    else:
      vidx = vi[off:]
    vidx = tuple(t.ZERO if d == 1 else i for d, i in zip(val.shape, vidx))
    new = cast_v(val.fn(vidx), val.dtype, dtc)
    old = a.fn(idx)
    return t.ite(c, comb(old, new), old)

  if gath:
    if masked:
      raise Gap('indexed update with a mask and index arrays')
    advshape = bshape(*[p[2].shape for p in gath])
    advs = [p[1] for p in plan if p[0] in 'gi']
    front = advs != list(range(advs[0], advs[0] + len(advs)))
    nval = len(advshape) + len([p for p in plan if p[0] == 's'])
    if val.ndim > nval and any(d != 1 for d in val.shape[:val.ndim - nval]):
      raise ShapeErr('indexed update shape mismatch')

  def at_k(idx, ks):
    """Condition under which the update at index-array position ks writes idx,
    and the value written."""
    c, vi, placed = t.TRUE, list(ks) if front else [], front
    for p in plan:
      if p[0] == 's':
        i, st, ln = idx[p[1]], p[2], p[3]
        if not (same_dim(ln, a.shape[p[1]]) and st is t.ZERO):
          c = t.band(c, t.band(t.le(st, i), t.lt(i, t.add(st, dv(ln)))))
        vi.append(t.sub(i, st))
        continue
      if not placed:
        vi += list(ks)
        placed = True
      pos = p[2] if p[0] == 'i' else norm_index_v(t.b2n(p[2].fn(bidx(p[2].shape, ks))), a.shape[p[1]], 'keep')
      c = t.band(c, t.eq(idx[p[1]], pos))
    vi = [t.ZERO] * max(0, val.ndim - len(vi)) + vi
    vidx = tuple(t.ZERO if d == 1 else i for d, i in zip(val.shape, vi[len(vi) - val.ndim:])) if val.ndim else ()
    return c, vidx

  def fn_g(idx):
    # scatter with index arrays: the last matching position wins / sums
    r = a.fn(idx)
    for g in gath:
      # an index array that counts up names the only position that can match
      if len(advshape) == 1 and g[2].ndim == 1 and same_dim(g[2].shape[0], advshape[0]):
        with t.scoped_var(dv(advshape[0]), 'k') as var:
          ident = t.b2n(g[2].fn((var,))) is var
        if ident:
          k = idx[g[1]]
          inside = t.TRUE if same_dim(advshape[0], a.shape[g[1]]) else t.lt(k, dv(advshape[0]))
          if inside is t.FALSE:
            return r
          c, vidx = at_k(idx, (k,))
          c = t.band(c, inside)
          return r if c is t.FALSE else t.ite(c, comb(r, cast_v(val.fn(vidx), val.dtype, dtc)), r)
    if not all(isinstance(d, int) for d in advshape):
      raise Gap('scatter with symbolic index array')
    for ks in itertools.product(*[range(d) for d in advshape]):
      c, vidx = at_k(idx, tuple(t.const(k) for k in ks))
      if c is not t.FALSE:
        r = t.ite(c, comb(r, cast_v(val.fn(vidx), val.dtype, dtc)), r)
    return r
  return Arr(a.shape, a.dtype, fn_g if gath else fn)


def matmul(a, b):
  a, b = asarr(a), asarr(b)
  if a.ndim == 0 or b.ndim == 0:
    raise ShapeErr('matmul of scalar')
  a1, b1 = a.ndim == 1, b.ndim == 1
  if a1:
    a = expand_dims(a, 0)
  if b1:
    b = expand_dims(b, 1)
  if not same_dim(a.shape[-1], b.shape[-2]):
    raise ShapeErr(f'matmul shapes {a.shape} {b.shape}')
  batch = bshape(a.shape[:-2], b.shape[:-2])
  n = a.shape[-1]
  dt, _ = promote(a, b)

  def fn(idx):
    bi, i, j = idx[:-2], idx[-2], idx[-1]
    return t.reduce_('sum', dv(n), lambda k: t.mul(
        a.fn(bidx(a.shape[:-2], bi) + (i, k)), b.fn(bidx(b.shape[:-2], bi) + (k, j))))
  r = Arr(batch + (a.shape[-2], b.shape[-1]), dt, fn)
  if a1:
    r = squeeze(r, -2)
  if b1:
    r = squeeze(r, -1)
  return r


def einsum(spec, *ops):
  ops = [asarr(o) for o in ops]
  spec = spec.replace(' ', '')
  if '->' in spec:
    lhs, rhs = spec.split('->')
  else:
    lhs = spec
    rhs = None
  ins = lhs.split(',')
  if len(ins) != len(ops):
    raise ShapeErr('einsum operand count')
  nell = 0
  labels = []
  for s, o in zip(ins, ops):
    if '...' in s:
      k = o.ndim - (len(s) - 3)
      nell = max(nell, k)
      pre, post = s.split('...')
      labels.append(list(pre) + [f'E{nell - 0}-{k - j}' for j in range(k)] + list(post))
      labels[-1] = list(pre) + [('E', k - j) for j in range(k)] + list(post)
    else:
      labels.append(list(s))
    if len(labels[-1]) != o.ndim:
      raise ShapeErr('einsum rank')
  ell = [('E', nell - j) for j in range(nell)]
  if rhs is None:
    from collections import Counter
    cnt = Counter(l for ls in labels for l in ls if not isinstance(l, tuple))
    out = ell + sorted(l for l, c in cnt.items() if c == 1)
  elif '...' in rhs:
    pre, post = rhs.split('...')
    out = list(pre) + ell + list(post)
  else:
    out = list(rhs)
  sizes = {}
  for ls, o in zip(labels, ops):
    for l, d in zip(ls, o.shape):
      if l in sizes:
        if isinstance(sizes[l], int) and sizes[l] == 1:
          sizes[l] = d
        elif not (isinstance(d, int) and d == 1) and not same_dim(d, sizes[l]):
          raise ShapeErr('einsum size mismatch')
      else:
        sizes[l] = d
  summed = [l for l in sizes if l not in out]
  dt, _ = promote(*ops)

  def fn(idx):
    env = dict(zip(out, idx))

    def rec(j):
      if j == len(summed):
        r = t.ONE
        for ls, o in zip(labels, ops):
          r = t.mul(r, o.fn(tuple(t.ZERO if d == 1 else env[l] for l, d in zip(ls, o.shape))))
        return r

      def body(i):
        env[summed[j]] = i
        return rec(j + 1)
      return t.reduce_('sum', dv(sizes[summed[j]]), body)
    return rec(0)
  return Arr([sizes[l] for l in out], dt, fn)
