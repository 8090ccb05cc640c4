"""Adapts library calls, written with the libraries' own parameter names and
positions, to the engine's handlers."""
import inspect
import json
import os

from .arrays import Gap, Arr

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sigs.json'), encoding='utf-8') as _f:
  REAL = json.load(_f)

# Parameters that do not change the value computed.
HARMLESS = {
    'precision', 'device', 'out_sharding', 'indices_are_sorted', 'unique_indices', 'axis_name', 'order', 'copy', 'name', 'unroll',
    'static_argnums', 'static_argnames', 'donate_argnums', 'donate_argnames', 'inline', 'kind', 'stable', 'backend', 'devices', 'sharding',
    'exception_type', 'custom_message', 'custom_message_format_kwargs', 'include_exception', 'allow_negative_indices', 'memo', '_nil',
    'preferred_element_type', 'promote_integers', 'casting', 'subok', 'axis_size', 'spmd_axis_name', 'optimize', 'is_leaf', 'policy',
    'prevent_cse', 'concrete', 'keep_unused', 'abstracted_axes', 'compiler_options', 'in_shardings', 'out_shardings', 'total_repeat_length', 'batch_size',
    'assigned', 'updated', 'mode', 'dims',
}
_info = {}


def info(path, h):
  key = (path, id(h))
  if key not in _info:
    real = REAL.get(path)
    try:
      sig = inspect.signature(h)
    except (TypeError, ValueError):
      sig = None
    if real is None or sig is None:
      _info[key] = None
    else:
      ps = list(sig.parameters.values())
      pos = [p.name for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
      varpos = any(p.kind == p.VAR_POSITIONAL for p in ps)
      varkw = next((p.name for p in ps if p.kind == p.VAR_KEYWORD), None)
      names = {p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
      _info[key] = (real, pos, varpos, varkw, names)
  return _info[key]


def call(path, h, args, kwargs):
  inf = info(path, h)
  if inf is None:
    return h(*args, **kwargs)
  real, pos, varpos, varkw, names = inf
  rpos = [n for n, k in real if k in 'op']
  rall = [n for n, k in real if k in 'opk']
  rvar = any(k == '*' for _, k in real)
  rvarkw = any(k == '**' for _, k in real)
  if varpos and not pos:
    # Generic handler: contiguous keywords become positional.
    args = list(args)
    kw = dict(kwargs)
    for n in rpos[len(args):]:
      if n in kw:
        args.append(kw.pop(n))
      else:
        break
    return h(*args, **kw)
  out, kw = [], {}
  bound = {}
  if rvar:
    nfix = len([1 for n, k in real if k in 'op'])
    nf = 0
    for n, k in real:
      if k == '*':
        break
      nf += 1
    out = list(args)
    bound = dict(kwargs)
    for n in list(bound):
      if n in rpos[:nf]:
        i = rpos.index(n)
        if i == len(out):
          out.append(bound.pop(n))
  else:
    if len(args) > len(rpos):
      raise Gap(f'{path}: too many positional arguments')
    for n, v in zip(rpos, args):
      bound[n] = v
    for n, v in kwargs.items():
      bound[n] = v
    # Positional part: handler slot i takes the real parameter at position i when
    # the names agree or the handler has its own name for it.
    for i, hn in enumerate(pos):
      if i < len(rpos) and rpos[i] in bound and (hn == rpos[i] or (hn not in rall and rpos[i] not in names)):
        if len(out) == i:
          out.append(bound.pop(rpos[i]))
        else:
          kw[hn] = bound.pop(rpos[i])
    if varpos and len(out) == len(pos):
      for n in rpos[len(pos):]:
        if n in bound and n not in names:
          out.append(bound.pop(n))
        else:
          break
  dtype = None
  for n, v in bound.items():
    if n in names:
      kw[n] = v
    elif varkw is not None and varkw != '_':
      kw[n] = v
    elif n not in rall and not rvarkw and path.split('.')[0] in ('jax', 'numpy'):
      raise Gap(f'{path}: unknown parameter {n}')
    elif n == 'order' and path.split('.')[-1] in ('reshape', 'ravel', 'flatten') and v not in (None, 'C'):
      raise Gap(f'{path}: order {v}')
    elif n in HARMLESS or v is None or v is False:
      pass
    elif n == 'dtype':
      dtype = v
    elif varkw == '_':
      raise Gap(f'{path}: option {n} is not modelled')
    else:
      raise Gap(f'{path}: option {n} is not modelled')
  r = h(*out, **kw)
  if dtype is not None:
    from . import lib
    if isinstance(r, Arr):
      r = lib.cast(r, lib.need_dtype(dtype).name)
  return r
