"""The dataset record format, written down from its public definition, and the
model of the few tensor operations parsing uses."""
from .common import *
from wx import lib

TF = 'tensorflow.'
STEPS = {'past': 10, 'current': 1, 'future': 80}
STATE_F = {'bbox_yaw': 'f', 'height': 'f', 'length': 'f', 'timestamp_micros': 'i', 'valid': 'i', 'vel_yaw': 'f', 'speed': 'f',
           'velocity_x': 'f', 'velocity_y': 'f', 'width': 'f', 'x': 'f', 'y': 'f', 'z': 'f'}
LIGHT_F = {'state': 'i', 'valid': 'i', 'id': 'i', 'x': 'f', 'y': 'f', 'z': 'f'}
OBJ_F = {'id': 'f', 'type': 'f', 'is_sdc': 'i', 'tracks_to_predict': 'i', 'objects_of_interest': 'i'}
DTY = {'f': 'float32', 'i': 'int64'}
# state field of a trajectory -> recorded feature
TRAJ_SRC = {'x': 'x', 'y': 'y', 'z': 'z', 'vel_x': 'velocity_x', 'vel_y': 'velocity_y', 'yaw': 'bbox_yaw', 'valid': 'valid',
            'timestamp_micros': 'timestamp_micros', 'length': 'length', 'width': 'width', 'height': 'height'}
LIGHT_SRC = {'x': 'x', 'y': 'y', 'z': 'z', 'state': 'state', 'lane_ids': 'id', 'valid': 'valid'}


def table(n, rg, tl, paths=None):
  """key -> (shape, kind) of every recorded feature."""
  d = {}
  for f, k, w in (('dir', 'f', 3), ('id', 'i', 1), ('type', 'i', 1), ('valid', 'i', 1), ('xyz', 'f', 3)):
    d['roadgraph_samples/' + f] = ((rg, w), k)
  for f, k in OBJ_F.items():
    d['state/' + f] = ((n,), k)
  for tm, s in STEPS.items():
    for f, k in STATE_F.items():
      d[f'state/{tm}/{f}'] = ((n, s), k)
    for f, k in LIGHT_F.items():
      d[f'traffic_light_state/{tm}/{f}'] = ((s, tl), k)
    d[f'traffic_light_state/{tm}/timestamp_micros'] = ((s,), 'i')
  if paths is not None:
    p, q = paths
    d['path_samples/xyz'] = ((p, q, 3), 'f')
    d['path_samples/valid'] = ((p, q), 'i')
    d['path_samples/id'] = ((p, q), 'i')
    d['path_samples/arc_length'] = ((p, q), 'f')
    d['path_samples/on_route'] = ((p, 1), 'i')
  return d


def flag3(name, shape, dtype='int64'):
  """Recorded marker: 1 (set), 0 (unset) or -1 (no such object)."""
  a, z = cell(name + ':set', shape, 'bool'), cell(name + ':none', shape, 'bool')
  return Arr(tuple(shape), dtype, lambda i: t.ite(a.fn(i), t.ONE, t.ite(z.fn(i), t.const(-1), t.ZERO)))


def flag2(name, shape, dtype='int64'):
  a = cell(name + ':set', shape, 'bool')
  return Arr(tuple(shape), dtype, lambda i: t.ite(a.fn(i), t.ONE, t.ZERO))


THREE = ('tracks_to_predict', 'is_sdc', 'objects_of_interest')


def recorded(key, shape, kind):
  """A free input for a recorded feature."""
  last = key.split('/')[-1]
  if last in THREE or (last == 'valid' and not key.startswith(('road', 'path'))):
    return flag3('rec ' + key, shape)
  if last in ('valid', 'on_route'):
    return flag2('rec ' + key, shape)
  return cell('rec ' + key, shape, DTY[kind])


def is_set(a):
  return lambda *i: t.eq(a.fn(i), t.ONE)


def tf_model(w, log=None):
  """Array semantics of the tensor operations used while parsing."""
  h = w.it.ext_hooks
  np_ = lib.NP

  def host(r):
    r.host = False
    return r

  def concat(values=None, axis=0, name=None):
    return A.concatenate([asarr(x) for x in w.it.iterate(values)], axis)

  def parse(serialized, features=None, example_names=None, name=None):
    out = {}
    for k, f in features.items():
      sh = tuple(A.norm_dim(x) for x in w.it.iterate(w.it.getattr(f, 'shape')))
      dt = lib.need_dtype(w.it.getattr(f, 'dtype')).name
      a = recorded(k, sh, 'f' if 'float' in dt else 'i')
      out[k] = Arr(sh, dt, a.fn)
    if log is not None:
      log.append((serialized, features))
    return out
  h[TF + 'concat'] = concat
  h[TF + 'stack'] = lambda values, axis=0, name=None: A.stack([asarr(x) for x in w.it.iterate(values)], axis)
  for n in ('ones', 'zeros', 'fill', 'ones_like', 'zeros_like'):
    base = {'fill': 'full'}.get(n, n)
    h[TF + n] = lambda x, *a, base=base, dtype=None, name=None, **k: np_[base](x, *a, **(dict(dtype=dtype) if dtype is not None else {}))
  h[TF + 'cast'] = lambda x, dtype, name=None: lib.cast(asarr(x), lib.need_dtype(dtype).name)
  h[TF + 'convert_to_tensor'] = lambda x, dtype=None, dtype_hint=None, name=None: x
  h[TF + 'identity'] = lambda x, name=None: x
  h[TF + 'reshape'] = lambda x, shape, name=None: A.reshape(asarr(x), list(w.it.iterate(shape)))
  h[TF + 'io.parse_example'] = parse
  h[TF + 'io.parse_single_example'] = parse
  one = {'abs': 'abs', 'sign': 'sign', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round', 'sqrt': 'sqrt', 'square': 'square', 'exp': 'exp', 'log': 'log',
         'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'tanh': 'tanh', 'negative': 'negative',
         'logical_not': 'logical_not', 'is_nan': 'isnan', 'is_finite': 'isfinite', 'is_inf': 'isinf', 'reciprocal': 'reciprocal'}
  two = {'add': 'add', 'subtract': 'subtract', 'multiply': 'multiply', 'divide': 'divide', 'truediv': 'divide', 'floordiv': 'floor_divide', 'floormod': 'mod', 'mod': 'mod',
         'minimum': 'minimum', 'maximum': 'maximum', 'equal': 'equal', 'not_equal': 'not_equal', 'less': 'less', 'less_equal': 'less_equal', 'greater': 'greater',
         'greater_equal': 'greater_equal', 'logical_and': 'logical_and', 'logical_or': 'logical_or', 'logical_xor': 'logical_xor', 'atan2': 'arctan2', 'pow': 'power'}
  red = {'reduce_sum': 'sum', 'reduce_max': 'max', 'reduce_min': 'min', 'reduce_mean': 'mean', 'reduce_any': 'any', 'reduce_all': 'all', 'reduce_prod': 'prod'}
  for pre in (TF, TF + 'math.'):
    for n, b in one.items():
      h[pre + n] = lambda x, name=None, b=b: np_[b](asarr(x))
    for n, b in two.items():
      h[pre + n] = lambda x, y, name=None, b=b: np_[b](x, y)
    for n, b in red.items():
      h[pre + n] = lambda input_tensor, axis=None, keepdims=False, name=None, b=b: np_[b](asarr(input_tensor), axis, keepdims=keepdims)
    for n in ('argmax', 'argmin'):
      h[pre + n] = lambda input, axis=None, output_type=None, name=None, n=n: A.arg_reduce(asarr(input), n, 0 if axis is None else axis)
    h[pre + 'cumsum'] = lambda x, axis=0, exclusive=False, reverse=False, name=None: np_['cumsum'](asarr(x), axis) if not (exclusive or reverse) else w.it.gap('tf.cumsum options')
  def where(condition, x=None, y=None, name=None):
    if x is None:
      w.it.gap('tf.where without values')
    return np_['where'](condition, x, y)
  h[TF + 'where'] = where
  h[TF + 'constant'] = lambda value, dtype=None, shape=None, name=None: np_['asarray'](value, **(dict(dtype=dtype) if dtype is not None else {}))
  h[TF + 'clip_by_value'] = lambda t_, lo, hi, name=None: np_['minimum'](np_['maximum'](asarr(t_), lo), hi)
  h[TF + 'expand_dims'] = lambda input, axis, name=None: np_['expand_dims'](asarr(input), axis)
  h[TF + 'squeeze'] = lambda input, axis=None, name=None: A.squeeze(asarr(input), axis if not isinstance(axis, list) else tuple(axis))
  h[TF + 'transpose'] = lambda a, perm=None, conjugate=False, name=None: A.transpose(asarr(a), list(w.it.iterate(perm)) if perm is not None else None)
  h[TF + 'tile'] = lambda input, multiples, name=None: np_['tile'](asarr(input), multiples)
  h[TF + 'repeat'] = lambda input, repeats, axis=None, name=None: np_['repeat'](asarr(input), repeats, axis)
  h[TF + 'broadcast_to'] = lambda input, shape, name=None: np_['broadcast_to'](asarr(input), shape)
  h[TF + 'reverse'] = lambda tensor, axis, name=None: np_['flip'](asarr(tensor), tuple(w.it.iterate(axis)))
  h[TF + 'range'] = lambda *a, dtype=None, name=None: np_['arange'](*a, **(dict(dtype=dtype) if dtype is not None else {}))
  h[TF + 'roll'] = lambda input, shift, axis, name=None: np_['roll'](asarr(input), shift, axis)
  h[TF + 'norm'] = lambda tensor, ord='euclidean', axis=None, keepdims=None, name=None: \
      w.it.call(w.it.getattr(w.it.getattr(w.it.import_('jax.numpy'), 'linalg'), 'norm'), [tensor], dict(axis=axis, keepdims=bool(keepdims))) if ord == 'euclidean' else w.it.gap('tf.norm ord')

  def split(value, num_or_size_splits, axis=0, num=None, name=None):
    a, k = asarr(value), num_or_size_splits
    if isinstance(k, (list, tuple)):
      ends, acc = [], 0
      for j in k[:-1]:
        acc += j
        ends.append(acc)
      k = ends
    return np_['split'](a, k, axis)

  def unstack(value, num=None, axis=0, name=None):
    a = asarr(value)
    n = a.shape[axis]
    if not isinstance(n, int):
      w.it.gap('tf.unstack of unknown length')
    return [np_['take'](a, j, axis) for j in range(n)]

  def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
    if batch_dims:
      w.it.gap('tf.gather batch_dims')
    return np_['take'](asarr(params), indices, 0 if axis is None else axis)

  def tfslice(input_, begin, size, name=None):
    a, ix = asarr(input_), []
    for b, z in zip(w.it.iterate(begin), w.it.iterate(size)):
      ix.append(slice(b, None if z == -1 else b + z))
    return A.getitem(a, tuple(ix))
  h[TF + 'split'], h[TF + 'unstack'], h[TF + 'gather'], h[TF + 'slice'] = split, unstack, gather, tfslice
  h[TF + 'shape'] = lambda input, out_type=None, name=None: w.it.getattr(asarr(input), 'shape')
  h[TF + 'rank'] = lambda input, name=None: asarr(input).ndim


def wrapped(x):
  return t.sub(t.modv(t.add(x, t.PI), t.mul(t.const(2), t.PI)), t.PI)


def joined(parts, j):
  """Element j of past, current and future written one after another."""
  return t.ite(t.lt(j, t.const(10)), parts['past'](j), t.ite(t.eq(j, t.const(10)), parts['current'](t.ZERO), parts['future'](t.sub(j, t.const(11)))))


def mean_valid(x, ok, i):
  """Mean over the valid frames of the row of i, -1 without any."""
  n = x.shape[-1]
  row = i[:-1]
  k = t.reduce_('sum', A.dv(n), lambda j: t.ite(ok(*row, j), t.ONE, t.ZERO))
  s = t.reduce_('sum', A.dv(n), lambda j: t.ite(ok(*row, j), x.fn(row + (j,)), t.ZERO))
  return t.ite(t.eq(k, t.ZERO), t.const(-1), t.div(s, k))


def dims_same(a, b):
  return len(a) == len(b) and all(A.same_dim(A.norm_dim(x), A.norm_dim(y)) for x, y in zip(a, b))
