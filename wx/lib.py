"""Models of the library functions the repository uses (jax, numpy, chex, ...).

Each model maps arrays of the value graph to arrays of the value graph, or, for
structural functions (vmap, tree_map, scan), compiles the callee once.
"""
import ast
import itertools
import math
import sys

from . import bindcall
from . import terms as t
from . import arrays as A
from .arrays import Arr, Sym, Gap, ShapeErr, DType, sym, asarr
from .interp import *  # noqa

IT = None

TRANSPARENT_DECORATORS = {
    'jax.jit', 'jax.named_scope', 'jax.named_call', 'jax.checkpoint', 'jax.remat', 'abc.abstractmethod', 'abc.abstractproperty',
    'typing.override', 'typing_extensions.override', 'functools.lru_cache', 'functools.cache', 'functools.wraps',
    'typing.final', 'typing.runtime_checkable', 'typing.no_type_check', 'enum.unique', 'contextlib.contextmanager', 'jax.profiler.annotate_function',
    'immutabledict.immutabledict', 'typing.overload', 'functools.total_ordering'}
GENERIC_EXT = {'jax.Array', 'numpy.ndarray', 'dict', 'list', 'tuple', 'type', 'set', 'frozenset', 'immutabledict.immutabledict', 'numpy.typing.NDArray'}


class IterVal:
  def __init__(self, items):
    self.items = list(items)
    self.pos = 0


class AtProxy:
  def __init__(self, arr):
    self.arr = arr


class AtRef:
  def __init__(self, arr, key):
    self.arr, self.key = arr, key


class SuperVal:
  def __init__(self, cls, slf):
    self.cls, self.slf = cls, slf

  def getattr(self, it, name):
    cls = self.slf.cls if isinstance(self.slf, Obj) else self.slf
    mro = cls.mro()
    k = mro.index(self.cls)
    for c in mro[k + 1:]:
      if isinstance(c, Cls) and name in c.ns:
        m = c.ns[name]
        if isinstance(m, Prop):
          return it.call(Bound(m.fget, self.slf), [], {})
        if isinstance(m, CMeth):
          return Bound(m.f, cls)
        if isinstance(m, SMeth):
          return m.f
        return Bound(m, self.slf) if isinstance(m, (Func, Native)) else m
    if name in ('__init__', '__init_subclass__', '__post_init__'):
      def init(*a, **k):
        if isinstance(self.slf, Obj) and any(isinstance(c, Exc) for c in mro):
          self.slf.fields['args'] = tuple(a)
        return None
      return Native('super().__init__', init)
    for c in mro[k + 1:]:
      if isinstance(c, Ext) and c.path not in ('abc.ABC', 'object'):
        return Opq(name, parent=Opq('super:' + c.path, [self.slf]))
    it.throw('AttributeError', name)


DTYPES = {'float32', 'float64', 'float16', 'bfloat16', 'int32', 'int64', 'int16', 'int8', 'uint8', 'uint32', 'uint64', 'uint16',
          'bool_', 'complex64', 'double', 'single', 'longlong', 'intp', 'str_', 'object_'}


def as_dtype(d):
  if isinstance(d, DType):
    return d
  if d is None:
    return None
  if isinstance(d, str):
    return DType({'bool_': 'bool', 'float': 'float32', 'int': 'int32', 'f4': 'float32', 'i4': 'int32'}.get(d, d))
  if isinstance(d, Native) and d.name in ('float', 'int', 'bool'):
    return DType({'float': 'float32', 'int': 'int32', 'bool': 'bool'}[d.name])
  if isinstance(d, Ext):
    n = d.path.split('.')[-1]
    if n in DTYPES:
      return DType({'bool_': 'bool', 'double': 'float64', 'single': 'float32'}.get(n, n))
  return None


def need_dtype(d):
  r = as_dtype(d)
  if r is None:
    raise Gap(f'dtype {d!r}')
  return r


# ---------------------------------------------------------------- builtins
def _len(x):
  if isinstance(x, Phi):
    return IT.phi_map(x, _len)
  if isinstance(x, Arr):
    if not x.shape:
      IT.throw('TypeError', 'len of 0-d array')
    d = x.shape[0]
    return d if isinstance(d, int) else Sym(d)
  if isinstance(x, Obj):
    m, _ = x.cls.lookup('__len__')
    if m is not None:
      return IT.call(Bound(m, x), [], {})
    if x.cls.is_dc() == 'chex':
      return len(x.cls.all_fields())
    IT.throw('TypeError', f'object of type {x.cls.name} has no len()')
  if isinstance(x, Cls) and x.is_enum:
    return len(x.members)
  if isinstance(x, Opq):
    return Sym(t.atom_v(t.mk_atom('in', ('len:' + repr(x),), 'n', True)))
  if isinstance(x, IterVal):
    IT.throw('TypeError', 'generator has no len()')
  if x is None or isinstance(x, (int, float, Sym)):
    IT.throw('TypeError', f'object has no len(): {x!r}')
  return len(x)


def static(x, what):
  """x is needed as a host value while tracing."""
  if isinstance(x, Arr):
    if not x.host and not x.concrete:
      IT.host_reads.append((IT.site(), what))
  elif isinstance(x, (list, tuple)):
    for y in x:
      static(y, what)
  elif isinstance(x, IterVal):
    static(x.items, what)
  elif isinstance(x, Phi):
    static(x.a, what)
    static(x.b, what)


class SymRange:
  def __init__(self, lo, n):
    self.lo, self.n = lo, n

  def __repr__(self):
    return f'range({self.n})'


def _range(*a):
  a = [x.value if isinstance(x, EnumM) else x for x in a]
  static(a, 'range() of a traced value')
  a = [const_of(x) if isinstance(x, Arr) else x for x in a]
  a = [sym(x.fn((t.ZERO,) * x.ndim)) if isinstance(x, Arr) and not x.shape else x for x in a]
  if all(isinstance(x, int) for x in a):
    return range(*a)
  if any(isinstance(x, Sym) for x in a):
    if len(a) == 1:
      return SymRange(0, a[0])
    if len(a) == 2:
      return SymRange(a[0], sym(t.sub(t.lift(a[1]), t.lift(a[0]))))
  IT.throw('TypeError', f'range{tuple(a)!r}')


def const_of(x):
  """Python value of a constant 0-d array, or the array itself."""
  if isinstance(x, Arr) and all(d == 1 for d in x.shape):
    c = t.const_val(x.fn((t.ZERO,) * x.ndim))
    if c is not None:
      if isinstance(c, bool):
        return c
      if x.dtype == 'bool':
        return bool(c)
      return int(c) if c.denominator == 1 and 'int' in x.dtype else float(c)
  return x


def _zip(*xs, strict=False):
  ls = [IT.iterate(x) for x in xs]
  if strict and len(set(map(len, ls))) > 1:
    IT.throw('ValueError', 'zip() arguments have different lengths')
  return IterVal([tuple(r) for r in zip(*ls)])


def _enumerate(x, start=0):
  if IT.each is not None and isinstance(x, Arr) and x.shape and not isinstance(x.shape[0], int):
    i = IT.each_index(x.shape[0])
    return IterVal([(sym(t.add(t.lift(start), i.v)), A.getitem(x, i))])
  return IterVal([(k + start, v) for k, v in enumerate(IT.iterate(x))])


def isinst(x, ty):
  if isinstance(x, Phi):
    return IT.phi_map(x, lambda v: isinst(v, ty))
  if isinstance(ty, (tuple, list)):
    return any(isinst(x, y) for y in ty)
  if isinstance(ty, Cls):
    if isinstance(x, Obj):
      return ty in x.cls.mro()
    if isinstance(x, EnumM):
      return ty in x.cls.mro()
    return False
  if isinstance(ty, Exc):
    return IT.exc_isinstance(x, ty) if isinstance(x, (Exc, Obj)) else False
  if isinstance(ty, Native):
    m = {'int': (int,), 'float': (float,), 'bool': (bool,), 'str': (str,), 'tuple': (tuple,), 'list': (list,),
         'dict': (dict,), 'set': (set,), 'frozenset': (frozenset,), 'bytes': (bytes,), 'slice': (slice,), 'range': (range,), 'object': (object,)}.get(ty.name)
    if m:
      if isinstance(x, Sym):
        return {'int': x.kind == 'int', 'float': x.kind == 'float', 'bool': x.kind == 'bool', 'object': True}.get(ty.name, False)
      if ty.name == 'int' and isinstance(x, EnumM):
        return getattr(x.cls, 'int_enum', False)
      return isinstance(x, m)
    if ty.name == 'type':
      return isinstance(x, (Cls, Native, Exc))
  if isinstance(ty, Ext):
    p = ty.path
    if p in ('jax.Array', 'jax.numpy.ndarray', 'chex.Array', 'jax.core.Tracer'):
      return isinstance(x, Arr) and not x.host
    if p in ('numpy.ndarray',):
      return isinstance(x, Arr) and x.host
    if p in ('collections.abc.Callable', 'typing.Callable'):
      return isinstance(x, (Func, Native, Bound, Partial, Cls))
    if p in ('collections.abc.Sequence', 'typing.Sequence'):
      return isinstance(x, (list, tuple, str))
    if p in ('collections.abc.Mapping', 'typing.Mapping'):
      return isinstance(x, dict)
    if p in ('collections.abc.Iterable', 'typing.Iterable'):
      return isinstance(x, (list, tuple, str, dict, set, IterVal, Arr))
    if p in ('numbers.Number', 'numbers.Real', 'numbers.Integral'):
      return isinstance(x, (int, float, Sym))
    if p in ('types.NoneType',):
      return x is None
    if p == 'typing.Union':
      raise Gap('isinstance with union')
    if isinstance(x, Obj):
      return any(c == ty for c in x.cls.mro())
    if isinstance(x, Opq):
      return x.call and (x.path == p)
    return False
  if isinstance(ty, DType):
    return False
  if ty is None:
    return x is None
  raise Gap(f'isinstance {ty!r}')


def _getattr(o, n, *d):
  return IT.getattr(o, n, *d)


def _hasattr(o, n):
  if isinstance(o, Phi):
    return IT.phi_map(o, lambda v: _hasattr(v, n))
  s = object()
  try:
    r = IT.getattr(o, n, s)
  except PyRaise:
    return False
  return r is not s


def _to_host(kind):
  def f(x=0, *a):
    if isinstance(x, Phi):
      return IT.phi_map(x, f)
    if isinstance(x, Arr):
      if not x.host and not x.concrete:
        IT.traced_branches.append((IT.site(), f'{kind}() of a traced array value'))
      c = const_of(x)
      if c is not x:
        return {'int': int, 'float': float, 'bool': bool}[kind](c)
      v = x.fn((t.ZERO,) * x.ndim)
      return sym(t.as_bool(v) if kind == 'bool' else (t.trunc(v) if kind == 'int' and 'float' in x.dtype else t.b2n(v)), kind)
    if isinstance(x, Sym):
      if kind == 'int' and x.kind == 'float':
        return sym(t.trunc(x.v), 'int')
      return sym(t.as_bool(x.v) if kind == 'bool' else t.b2n(x.v), kind)
    if isinstance(x, EnumM):
      x = x.value
    if isinstance(x, Opq):
      if kind == 'bool':
        return sym(IT.truth(x), 'bool')
      return Opq(kind, [x], call=True)
    if kind == 'bool':
      return IT.truth(x) if isinstance(IT.truth(x), bool) else sym(IT.truth(x), 'bool')
    try:
      return {'int': int, 'float': float}[kind](x, *a)
    except (TypeError, ValueError) as e:
      IT.throw(type(e).__name__, str(e))
  return f


def _minmax(which):
  def f(*a, key=None, default=MISSING):
    xs = IT.iterate(a[0]) if len(a) == 1 else list(a)
    if not xs:
      if default is not MISSING:
        return default
      IT.throw('ValueError', f'{which}() of empty sequence')
    if key is not None:
      ks = [IT.call(key, [x], {}) for x in xs]
      if all(isinstance(k, (int, float, str)) for k in ks):
        j = min(range(len(xs)), key=lambda i: ks[i]) if which == 'min' else max(range(len(xs)), key=lambda i: ks[i])
        return xs[j]
      raise Gap('min/max with symbolic key')
    if all(isinstance(x, (int, float, str)) and not isinstance(x, EnumM) for x in xs):
      return min(xs) if which == 'min' else max(xs)
    acc = xs[0]
    for x in xs[1:]:
      if isinstance(x, Arr) or isinstance(acc, Arr):
        IT.truth(IT.compare1('<', x, acc))
        acc = A.elementwise(t.minv if which == 'min' else t.maxv, asarr(acc), asarr(x))
      else:
        k = 'float' if 'float' in (A.scalar_kind(x), A.scalar_kind(acc)) else 'int'
        acc = sym((t.minv if which == 'min' else t.maxv)(t.lift(acc), t.lift(x)), k)
    return acc
  return f


def _sum(x, start=0):
  import ast
  acc = start
  for v in IT.iterate(x):
    acc = IT.binop(ast.Add(), acc, v)
  return acc


def _anyall(which):
  def f(x):
    acc = t.FALSE if which == 'any' else t.TRUE
    for v in IT.iterate(x):
      c = IT.truth(v)
      if which == 'any':
        if c is True:
          return True
        acc = t.bor(acc, t.lift(c))
      else:
        if c is False:
          return False
        acc = t.band(acc, t.lift(c))
    return sym(acc, 'bool')
  return f


def _sorted(x, key=None, reverse=False):
  xs = list(IT.iterate(x))
  ks = [IT.call(key, [v], {}) if key is not None else v for v in xs]
  static(ks, 'Python sort of traced values')
  if not all(isinstance(k, (int, float, str, tuple)) for k in ks):
    raise Gap('sorted of symbolic values')
  order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=reverse)
  return [xs[i] for i in order]


def _map(f, *xs):
  ls = [IT.iterate(x) for x in xs]
  return IterVal([IT.call(f, list(r), {}) for r in zip(*ls)])


def _filter(f, xs):
  out = []
  for x in IT.iterate(xs):
    c = IT.truth(IT.call(f, [x], {}) if f is not None else x)
    if c is True:
      out.append(x)
    elif c is not False:
      raise Gap('filter is not static')
  return IterVal(out)


def _type(x, *a):
  if isinstance(x, Obj):
    return x.cls
  if isinstance(x, EnumM):
    return x.cls
  if isinstance(x, Arr):
    return Ext('jax.Array')
  return BUILTINS.get(type(x).__name__, Ext('type:' + type(x).__name__))


def _dict(*a, **k):
  d = {}
  if a:
    x = a[0]
    if isinstance(x, dict):
      d.update(x)
    elif isinstance(x, Obj):
      d.update({n: x.fields[n] for n, _ in x.cls.all_fields()})
    else:
      for kv in IT.iterate(x):
        kk, vv = IT.iterate(kv)
        d[kk] = vv
  d.update(k)
  return IT.fresh(d)


def _str(x=''):
  if isinstance(x, Arr) and not x.host:
    return f'<{x!r}>'
  if isinstance(x, (Exc,)):
    return ' '.join(map(str, x.args))
  return str(x) if isinstance(x, (str, int, float, bool, type(None), tuple, list, dict)) else f'<{x!r}>'


def _print(*a, **k):
  return None


def _abs(x):
  if isinstance(x, (int, float)):
    return abs(x)
  if isinstance(x, Sym):
    return sym(t.absv(x.v), x.kind)
  return A.elementwise(t.absv, x)


def _round(x, n=0):
  if isinstance(x, (int, float)) and isinstance(n, int):
    return round(x, n) if n else round(x)
  raise Gap('round')


def _next(it, *d):
  if isinstance(it, IterVal):
    if it.pos < len(it.items):
      it.pos += 1
      return it.items[it.pos - 1]
    if d:
      return d[0]
    IT.throw('StopIteration')
  if isinstance(it, Opq):
    return Opq('next', [it], call=True)
  if isinstance(it, Obj):
    m, _ = it.cls.lookup('__next__')
    return IT.call(Bound(m, it), [], {})
  raise Gap('next()')


def _setattr(o, n, v):
  IT.setattr(o, n, v)


def _issub(a, b):
  bs = b if isinstance(b, tuple) else (b,)
  return any(isinstance(a, Cls) and x in a.mro() for x in bs)


BUILTINS = {
    'len': _len, 'range': _range, 'zip': _zip, 'enumerate': _enumerate, 'isinstance': isinst, 'issubclass': _issub,
    'getattr': _getattr, 'hasattr': _hasattr, 'setattr': _setattr, 'int': _to_host('int'), 'float': _to_host('float'), 'bool': _to_host('bool'),
    'min': _minmax('min'), 'max': _minmax('max'), 'sum': _sum, 'any': _anyall('any'), 'all': _anyall('all'),
    'sorted': _sorted, 'map': _map, 'filter': _filter, 'dict': _dict, 'str': _str, 'print': _print, 'abs': _abs,
    'list': lambda x=(): IT.fresh(list(IT.iterate(x))), 'tuple': lambda x=(): tuple(IT.iterate(x)),
    'set': lambda x=(): IT.fresh(set(IT.iterate(x))), 'frozenset': lambda x=(): frozenset(IT.iterate(x)),
    'reversed': lambda x: IterVal(list(reversed(IT.iterate(x)))), 'round': _round, 'next': _next,
    'iter': lambda x: IterVal(IT.iterate(x)), 'callable': lambda x: isinstance(x, (Func, Native, Bound, Partial, Cls)),
    'id': lambda x: id(x), 'repr': lambda x: f'{x!r}', 'slice': lambda *a: slice(*a), 'hash': lambda x: (static(x, 'hash of a traced value'), 0)[1], 'type': _type,
    'bytes': lambda *a: b'', 'vars': lambda x: dict(x.fields), 'divmod': lambda a, b: divmod(a, b), 'pow': lambda a, b: a ** b,
    'ord': ord, 'chr': chr, 'format': lambda x, s='': format(x, s) if isinstance(x, (int, float, str)) else f'{x!r}',
    'object': lambda: Opq('object', call=True), 'open': lambda *a, **k: Opq('open', a, k, call=True),
}
BUILTINS = {k: Native(k, v) for k, v in BUILTINS.items()}
BUILTINS['super'] = Ext('super')
BUILTINS['property'] = Ext('property')
BUILTINS['staticmethod'] = Ext('staticmethod')
BUILTINS['classmethod'] = Ext('classmethod')
BUILTINS['object'] = Ext('object')
BUILTINS['NotImplemented'] = Opq('NotImplemented')
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['__file__'] = '<file>'


# ---------------------------------------------------------------- trees
def is_node(x):
  """Registered pytree node?"""
  if isinstance(x, Obj):
    return x.cls.is_dc() == 'chex'
  return isinstance(x, (list, tuple, dict)) or x is None


def children(x):
  if isinstance(x, Obj):
    return [(n, x.fields[n]) for n, _ in x.cls.all_fields()]
  if isinstance(x, dict):
    return [(k, x[k]) for k in sorted(x, key=lambda z: (str(type(z)), z))]
  if isinstance(x, (list, tuple)):
    return list(enumerate(x))
  return []


def rebuild_tree(x, vals):
  if isinstance(x, Obj):
    o = Obj(x.cls, dict(vals))
    return o
  if isinstance(x, dict):
    d = dict(vals)
    return {k: d[k] for k in x}
  if isinstance(x, list):
    return [v for _, v in vals]
  if isinstance(x, tuple):
    return tuple(v for _, v in vals)
  return None


def tree_map(f, tree, *rest, is_leaf=None):
  if is_leaf is not None and (is_leaf(tree) if is_leaf is _dm_leaf else IT.truth(IT.call(is_leaf, [tree], {}))) is True or not is_node(tree):
    if isinstance(tree, Phi):
      return IT.phi_map(tree, lambda x: tree_map(f, x, *rest, is_leaf=is_leaf))
    return f(tree, *rest)
  if tree is None:
    if any(r is not None for r in rest):
      IT.throw('ValueError', 'tree structures differ: None vs value')
    return None
  out = []
  for k, v in children(tree):
    sub = []
    for r in rest:
      if isinstance(tree, Obj):
        if not (isinstance(r, Obj) and r.cls is tree.cls):
          IT.throw('ValueError', f'tree structures differ: {tree!r} vs {r!r}')
        sub.append(r.fields[k])
      elif isinstance(tree, dict):
        if not isinstance(r, dict) or set(r) != set(tree):
          IT.throw('ValueError', 'tree structures differ (dict keys)')
        sub.append(r[k])
      else:
        if type(r) is not type(tree) or len(r) != len(tree):
          IT.throw('ValueError', 'tree structures differ (sequence)')
        sub.append(r[k])
    out.append((k, tree_map(f, v, *sub, is_leaf=is_leaf)))
  return rebuild_tree(tree, out)


def tree_leaves(x, is_leaf=None):
  out = []
  tree_map(lambda v: out.append(v), x, is_leaf=is_leaf)
  return out


def _tree_map(f, tree, *rest, is_leaf=None):
  return tree_map(lambda *xs: IT.call(f, list(xs), {}), tree, *rest, is_leaf=is_leaf)


def _dm_leaf(x):
  return not isinstance(x, (dict, list, tuple))


def _dm_map(f, *trees, check_types=True):
  if not trees:
    IT.throw('ValueError', 'Must provide at least one structure')
  return tree_map(lambda *xs: IT.call(f, list(xs), {}), trees[0], *trees[1:], is_leaf=_dm_leaf)


def _tree_flatten(tree, is_leaf=None):
  lv = tree_leaves(tree, is_leaf)
  return lv, TreeDef(tree)


class TreeDef:
  def __init__(self, tree):
    self.tree = tree

  def same(self, other):
    return isinstance(other, TreeDef) and same_structure(self.tree, other.tree)


def same_structure(a, b):
  if isinstance(a, Phi) or isinstance(b, Phi):
    raise Gap('structure of alternatives')
  if not is_node(a) or not is_node(b):
    return not is_node(a) and not is_node(b)
  if type(a) is not type(b) or isinstance(a, Obj) and a.cls is not b.cls:
    return False
  x, y = children(a), children(b)
  return [k for k, _ in x] == [k for k, _ in y] and all(same_structure(p, q) for (_, p), (_, q) in zip(x, y))


def _tree_unflatten(td, leaves):
  it = iter(IT.iterate(leaves))
  return tree_map(lambda v: next(it), td.tree)


def _tree_reduce(f, tree, *init):
  lv = tree_leaves(tree)
  acc = init[0] if init else lv.pop(0)
  for v in lv:
    acc = IT.call(f, [acc, v], {})
  return acc


# ---------------------------------------------------------------- transforms
def is_arrlike(x):
  return isinstance(x, (Arr, Sym, int, float, bool))


def _vmap(f, in_axes=0, out_axes=0, axis_name=None, axis_size=None, spmd_axis_name=None, **_):
  def wrapped(*args, **kwargs):
    axes = in_axes
    if not isinstance(axes, (tuple, list)):
      axes = [axes] * len(args)
    if len(axes) != len(args):
      IT.throw('ValueError', 'vmap in_axes does not match arguments')
    n = [None]
    hint = []

    def probe(ax, x):
      if ax is None:
        return
      if isinstance(ax, (list, tuple)) and isinstance(x, (list, tuple)):
        for p, q in zip(ax, x):
          probe(p, q)
        return
      if isinstance(ax, dict) and isinstance(x, dict):
        for k in x:
          probe(ax[k], x[k])
        return
      if isinstance(ax, Obj) and isinstance(x, Obj):
        for k in x.fields:
          probe(ax.fields.get(k), x.fields[k])
        return
      for leaf in tree_leaves(x):
        if isinstance(leaf, Arr):
          if leaf.ndim == 0:
            IT.throw('ValueError', 'vmap was requested to map an argument of rank 0')
          d = leaf.shape[A.norm_axis(ax, leaf.ndim)]
          if n[0] is None or n[0] == 1 and False:
            n[0] = d
          elif not A.same_dim(n[0], d):
            IT.throw('ValueError', f'vmap got inconsistent sizes {n[0]} {d}')
        elif is_arrlike(leaf):
          IT.throw('ValueError', 'vmap was requested to map an argument of rank 0 (a host scalar)')
        else:
          raise Gap(f'vmap over {leaf!r}')
    for ax, x in zip(axes, args):
      probe(ax, x)
    for x in kwargs.values():
      probe(0, x)
    if n[0] is None:
      if axis_size is None:
        IT.throw('ValueError', 'vmap must have at least one mapped argument')
      n[0] = A.norm_dim(axis_size)
    def run(var):
      va = t.ATOMS[var.p.terms[0][0][0][0]]

      def slc(ax, x):
        if ax is None:
          return x
        if isinstance(ax, (list, tuple)) and isinstance(x, (list, tuple)):
          return type(x)(slc(p, q) for p, q in zip(ax, x))
        if isinstance(ax, dict) and isinstance(x, dict):
          return {k: slc(ax[k], x[k]) for k in x}
        if isinstance(ax, Obj) and isinstance(x, Obj):
          return Obj(x.cls, {k: slc(ax.fields.get(k), x.fields[k]) for k in x.fields})

        def one(a):
          k = A.norm_axis(ax, a.ndim)
          ix = t.ZERO if a.shape[k] == 1 else var
          r = Arr(a.shape[:k] + a.shape[k + 1:], a.dtype, lambda idx: a.fn(idx[:k] + (ix,) + idx[k:]))
          r.frozen, r.tag = a.frozen, a.tag
          return r
        return tree_map(one, x)
      a2 = [slc(ax, x) for ax, x in zip(axes, args)]
      k2 = {k: slc(0, x) for k, x in kwargs.items()}
      out = IT.call(f, a2, k2)
      return out, va
    with t.scoped_var(A.dv(n[0]), 'm') as var:
      out, va = run(var)

    def back(oax, y):
      if oax is None:
        return y
      if isinstance(oax, (list, tuple)) and isinstance(y, (list, tuple)):
        return type(y)(back(p, q) for p, q in zip(oax, y))
      if isinstance(oax, dict) and isinstance(y, dict):
        return {k: back(oax[k], y[k]) for k in y}

      def one(a):
        a = asarr(a)
        k = oax % (a.ndim + 1)

        def fn(idx):
          i = idx[k]
          rest = idx[:k] + idx[k + 1:]
          m = {va: i}
          if any(va in r.fv for r in rest):
            tmp = t.fresh_var(A.dv(n[0]), 'c')
            rest = tuple(t.subst(r, {va: tmp}) for r in rest)
            m[t.ATOMS[tmp.p.terms[0][0][0][0]]] = var
          return t.subst(a.fn(rest), m)
        if any(isinstance(d, t.V) and va in d.fv for d in a.shape):
          raise Gap('vmapped result has data dependent shape')
        return Arr(a.shape[:k] + (n[0],) + a.shape[k:], a.dtype, fn)
      return tree_map(one, y)
    return back(out_axes, out)
  return Native('vmapped', wrapped)


class ScanRec:
  pass


def _sym_like(x, name, extra=()):
  """Havocked copy of a tree: every array becomes fresh input cells."""
  cnt = [0]

  def go(v, path):
    if is_node(v) and v is not None:
      return rebuild_tree(v, [(k, go(c, f'{path}.{k}')) for k, c in children(v)])
    if v is None:
      return None
    if isinstance(v, Phi):
      raise Gap('loop carry of unknown structure')
    if is_arrlike(v):
      a = asarr(v)
      s = 'b' if a.dtype == 'bool' else 'n'
      isint = 'int' in a.dtype
      return Arr(a.shape, a.dtype, lambda idx: t.inp(path, *(tuple(extra) + idx), sort=s, isint=isint))
    return v
  return go(x, name)


def _scan(f, init, xs=None, length=None, reverse=False, unroll=1, **_):
  if isinstance(init, Phi):
    raise Gap('scan carry')
  n = None if length is None else A.norm_dim(length)
  for lf in tree_leaves(xs):
    lf = asarr(lf)
    if not lf.ndim:
      IT.throw('ValueError', 'scan over a 0-d array')
    if n is None:
      n = lf.shape[0]
    elif not A.same_dim(n, lf.shape[0]):
      IT.throw('ValueError', 'scan got inconsistent lengths')
  if n is None:
    IT.throw('ValueError', 'scan needs a length')
  if isinstance(n, int) and n <= getattr(IT, 'unroll', 0):
    c, ys = init, [None] * n
    for j in (reversed(range(n)) if reverse else range(n)):
      out = IT.call(f, [c, tree_map(lambda a, j=j: A.getitem(asarr(a), j), xs)], {})
      if not (isinstance(out, (tuple, list)) and len(out) == 2):
        IT.throw('TypeError', 'scan body must return a pair')
      c, ys[j] = out
    if n:
      return (c, tree_map(lambda *a: A.stack([asarr(x) for x in a], 0), ys[0], *ys[1:]))
  rec = ScanRec()
  k = len(IT.scans)
  rec.name = f'scan{k}'
  rec.length = n
  rec.init = init
  rec.site = IT.site()
  var = t.fresh_var(A.dv(n), 's')
  rec.var = var
  va = t.ATOMS[var.p.terms[0][0][0][0]]
  rec.reverse = reverse
  IT.scans.append(rec)
  rec.carry = _sym_like(init, rec.name + '.carry', (var,))
  pos = t.sub(t.sub(A.dv(n), t.ONE), var) if reverse else var
  rec.x = tree_map(lambda a: Arr(asarr(a).shape[1:], asarr(a).dtype, lambda idx, a=asarr(a): a.fn((pos,) + idx)), xs)
  r0 = len(IT.rng_uses)
  out = IT.call(f, [rec.carry, rec.x], {})
  if not (isinstance(out, (tuple, list)) and len(out) == 2):
    IT.throw('TypeError', 'scan body must return a pair')
  rec.carry_out, rec.y = out
  rec.rng_in = (r0, len(IT.rng_uses))
  # structure of the carry must be preserved
  try:
    def chk(a, b):
      a, b = asarr(a), asarr(b)
      if a.ndim != b.ndim or not all(A.same_dim(p, q) for p, q in zip(a.shape, b.shape)):
        IT.throw('TypeError', f'scan carry shape changes: {a.shape} -> {b.shape}')
      return 0
    tree_map(lambda a, b: chk(a, b) if is_arrlike(a) and is_arrlike(b) else 0, rec.carry, rec.carry_out)
  except ShapeErr:
    pass

  def stacked(a):
    a = asarr(a)
    def fn(idx):
      i = t.sub(t.sub(A.dv(n), t.ONE), idx[0]) if reverse else idx[0]
      return t.subst(a.fn(idx[1:]), {va: i})
    return Arr((n,) + a.shape, a.dtype, fn)
  ys = tree_map(stacked, rec.y)
  final = _sym_like(rec.carry_out, rec.name + '.carry', (A.dv(n),))
  rec.final, rec.ys = final, ys
  return (final, ys)


def _fori(lo, hi, body, init, **_):
  lo, hi = const_of(lo), const_of(hi)
  if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
    v = init
    for i in range(lo, hi):
      v = IT.call(body, [asarr(i), v], {})
    return v
  raise Gap('fori_loop with symbolic bounds')


def _while(cond, body, init):
  v = init
  for _ in range(64):
    c = IT.truth(IT.call(cond, [v], {}))
    if c is False:
      return v
    if c is not True:
      raise Gap('while_loop with unknown condition')
    v = IT.call(body, [v], {})
  raise Gap('while_loop')


def _cond(pred, tf, ff, *ops, operand=MISSING, **kw):
  if operand is not MISSING:
    ops = (operand,)
  c = asarr(pred).fn(())
  c = t.as_bool(c)
  if c is t.TRUE:
    return IT.call(tf, list(ops), {})
  if c is t.FALSE:
    return IT.call(ff, list(ops), {})
  pc = IT.pc
  try:
    IT.pc = t.band(pc, c)
    a = IT.call(tf, list(ops), {})
    IT.pc = t.band(pc, t.bnot(c))
    b = IT.call(ff, list(ops), {})
  finally:
    IT.pc = pc
  return tree_map(lambda x, y: IT.merge(c, asarr(x), asarr(y)), a, b)


def _switch(i, branches, *ops):
  v = asarr(i).fn(())
  outs = [IT.call(b, list(ops), {}) for b in IT.iterate(branches)]
  acc = outs[-1]
  for j in range(len(outs) - 2, -1, -1):
    acc = tree_map(lambda x, y: IT.merge(t.le(v, t.const(j)), asarr(x), asarr(y)), outs[j], acc)
  return acc


# ---------------------------------------------------------------- numpy models
def arr(x):
  if isinstance(x, Phi):
    raise Gap(f'array of joined values {x!r:.100}')
  if isinstance(x, EnumM):
    x = x.value
  if isinstance(x, (list, tuple)):
    x = [y.value if isinstance(y, EnumM) else y for y in x]
  if isinstance(x, IterVal):
    x = x.items
  if isinstance(x, range):
    x = list(x)
  if isinstance(x, SymRange):
    return _arange(x.lo, sym(t.add(t.lift(x.lo), t.lift(x.n))))
  if isinstance(x, Opq):
    return opq_arr(x)
  if x is None or isinstance(x, (str, dict)):
    IT.throw('TypeError', f'cannot interpret {x!r} as array')
  return asarr(x)


def opq_arr(x):
  raise Gap(f'array of opaque value {x!r:.100}')


def ew(f, dtype=None, fl=False):
  def g(*xs, **kw):
    if 'where' in kw:
      raise Gap('where= keyword')
    xs = [arr(x) for x in xs]
    dt = dtype
    if fl:
      d, _ = A.promote(*xs)
      dt = d if 'float' in d else 'float32'
    r = A.elementwise(f, *xs, dtype=dt)
    if kw.get('dtype') is not None:
      r = cast(r, need_dtype(kw['dtype']).name)
    r.host = all(x.host or x.weak for x in xs) and any(x.host for x in xs)
    return r
  return g


def cast(a, dt):
  a = arr(a)
  dt = A.canon(dt)
  r = Arr(a.shape, dt, lambda idx: A.cast_v(a.fn(idx), a.dtype, dt))
  r.host = a.host
  r.origin = a.origin
  return r


def cast_call(it, f, args, kwargs):
  return cast(arr(args[0]), f.name)


def _array(x, dtype=None, copy=None, **_):
  a = arr(x)
  r = Arr(a.shape, a.dtype, a.fn)
  r.weak = a.weak if dtype is None and not isinstance(x, (list, tuple)) else False
  if dtype is not None:
    r = cast(r, need_dtype(dtype).name)
  return r


def _nparray(x, dtype=None, **k):
  static(x, 'conversion of a traced array to a host array')
  r = _array(x, dtype)
  r.host = True
  return r


def shp(s):
  if isinstance(s, Arr):
    static(s, 'shape taken from a traced value')
    if s.ndim == 0:
      return (A.norm_dim(s),)
    return tuple(A.norm_dim(s.fn((t.const(k),))) for k in range(s.shape[0]))
  if isinstance(s, (int, Sym)):
    return (A.norm_dim(s),)
  return tuple(A.norm_dim(const_of(d)) for d in IT.iterate(s))


def _full(shape, v, dtype=None, **_):
  a = arr(v)
  dt = need_dtype(dtype).name if dtype is not None else a.dtype
  s = shp(shape)
  b = A.broadcast_to(a, s)
  r = Arr(s, dt, lambda idx: A.cast_v(b.fn(idx), a.dtype, dt))
  if isinstance(v, (int, float, bool)):
    pass
  return r


def _filled(c):
  return lambda shape, dtype=None, **_: _full(shape, c, dtype if dtype is not None else DType('float32'))


def _like(c):
  def f(x, dtype=None, shape=None, **_):
    x = arr(x)
    return _full([d if isinstance(d, int) else Sym(d) for d in x.shape] if shape is None else shape, c, dtype if dtype is not None else DType(x.dtype))
  return f


def _full_like(x, v, dtype=None, shape=None, **_):
  x = arr(x)
  return _full([d if isinstance(d, int) else Sym(d) for d in x.shape] if shape is None else shape, v, dtype if dtype is not None else DType(x.dtype))


def _arange(*a, dtype=None, **k):
  if k:
    a = [k.get('start', 0), k.get('stop', a[0] if a else None), k.get('step', 1)]
  static(a, 'arange bound taken from a traced value')
  a = [const_of(x) for x in a]
  a = [x.value if isinstance(x, EnumM) else x for x in a]
  lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
  L, H, S = t.b2n(arr(lo).fn(())), t.b2n(arr(hi).fn(())), t.b2n(arr(st).fn(()))
  span = t.sub(H, L)
  if S is t.ONE:
    n = span
    c = t.const_val(n)
    if c is not None and c.denominator != 1:
      n = t.const(math.ceil(c))
  else:
    q = t.div(span, S)
    c = t.const_val(q)
    n = t.const(math.ceil(c)) if c is not None else q
  d = A.promote(*[arr(x) for x in (lo, hi, st)])[0]
  if dtype is not None:
    d = need_dtype(dtype).name
  return Arr((A.norm_dim(n),), d, lambda idx: t.add(L, t.mul(S, idx[0])))


def _linspace(a, b, num=50, endpoint=True, dtype=None, axis=0, **_):
  a, b = arr(a), arr(b)
  n = A.norm_dim(num)
  den = t.sub(A.dv(n), t.ONE) if endpoint else A.dv(n)
  step = t.div(t.sub(b.fn(()), a.fn(())), den) if a.ndim == 0 and b.ndim == 0 else None
  if step is None:
    raise Gap('linspace of arrays')
  r = Arr((n,), 'float32', lambda idx: t.add(a.fn(()), t.mul(step, idx[0])))
  return cast(r, need_dtype(dtype).name) if dtype is not None else r


def _nonzero(x, **k):
  m = arr(x)
  if k.get('size') is not None or not m.ndim:
    raise Gap('positions of true entries')
  static(x, 'positions of true entries of a traced value (data-dependent shape)')
  if m.dtype != 'bool':
    m = ew(t.ne, 'bool')(m, 0)
  n = A.mask_size(m)
  at = lambda i: m.fn(A.mask_cell(m, i))
  cnt = A.norm_dim(t.reduce_('sum', n, lambda i: t.b2n(at(i))))
  out = []
  for ax in range(m.ndim):
    r = Arr((cnt,), 'int32', lambda i, ax=ax: A.mask_cell(m, A.nth_true(n, at, i[0]))[ax])
    r.host = m.host
    out.append(r)
  return tuple(out)


def _flatnonzero(x, **k):
  return _nonzero(A.reshape(arr(x), [-1]), **k)[0]


def _where(c, *xy, **kw):
  if len(xy) != 2:
    return _nonzero(c, **kw)
  x, y = arr(xy[0]), arr(xy[1])
  c = arr(c)
  dt, w = A.promote(x, y)
  shape = A.bshape(c.shape, x.shape, y.shape)
  r = Arr(shape, dt, lambda idx: t.ite(t.as_bool(c.fn(A.bidx(c.shape, idx))),
                                       A.cast_v(x.fn(A.bidx(x.shape, idx)), x.dtype, dt),
                                       A.cast_v(y.fn(A.bidx(y.shape, idx)), y.dtype, dt)), weak=w)
  return r


def _select(conds, choices, default=0):
  acc = arr(default)
  for c, x in reversed(list(zip(IT.iterate(conds), IT.iterate(choices)))):
    acc = _where(c, x, acc)
  return acc


def red(op, post=None, pre=None, dtype=None):
  def f(x, axis=None, dtype_=None, keepdims=False, where=None, initial=None, out=None, **kw):
    x = arr(x)
    if isinstance(axis, Arr):
      axis = [int(const_of(A.getitem(axis, k))) for k in range(axis.shape[0])] if axis.ndim else int(const_of(axis))
    if pre is not None:
      x = pre(x)
      if where is not None and pre is not None and op == 'any':
        pass
    if op == 'max' and x.dtype == 'bool':
      r = A.reduce_axes(x, 'any', axis, keepdims, where)
    elif op == 'max' and initial is not None and where is None:
      r = A.reduce_axes(x, op, axis, keepdims)
      i = arr(initial) if pre is None else A.elementwise(t.neg, arr(initial))
      r = A.elementwise(t.maxv, r, i)
    else:
      if initial is not None and pre is not None:
        initial = A.elementwise(t.neg, arr(initial))
      r = A.reduce_axes(x, op, axis, keepdims, where, initial=initial)
    r = post(r) if post is not None else r
    d = kw.get('dtype')
    if d is not None:
      r = cast(r, need_dtype(d).name)
    r.host = x.host
    return r
  return f


def _neg(a):
  if a.dtype == 'bool':
    return A.elementwise(t.bnot, a, dtype='bool')
  return A.elementwise(t.neg, a)


def _not(a):
  return A.elementwise(t.bnot, a, dtype='bool')


def _min(x, axis=None, keepdims=False, where=None, initial=None, **kw):
  x = arr(x)
  if x.dtype == 'bool':
    return red('any', post=_not, pre=_not)(x, axis, None, keepdims, where)
  return red('max', post=_neg, pre=_neg)(x, axis, None, keepdims, where, initial)


def _all(x, axis=None, keepdims=False, where=None, **kw):
  x = arr(x)
  y = _not(x)
  if where is not None:
    y = A.elementwise(t.band, y, arr(where), dtype='bool')
  return _not(A.reduce_axes(y, 'any', axis, keepdims))


def _mean(x, axis=None, keepdims=False, where=None, **kw):
  x = arr(x)
  s = A.reduce_axes(x, 'sum', axis, keepdims, where, dtype='float32')
  if where is None:
    one = Arr(x.shape, 'float32', lambda idx: t.ONE)
  else:
    one = A.elementwise(t.b2n, A.broadcast_to(arr(where), x.shape), dtype='float32')
  return A.elementwise(t.div, s, A.reduce_axes(one, 'sum', axis, keepdims))


def _clip(x, a_min=None, a_max=None, min=None, max=None, **_):
  lo = a_min if a_min is not None else min
  hi = a_max if a_max is not None else max
  r = arr(x)
  w = r
  if lo is not None:
    r = A.elementwise(t.maxv, r, arr(lo))
  if hi is not None:
    r = A.elementwise(t.minv, r, arr(hi))
  return r


def _norm(x, ord=None, axis=None, keepdims=False, **_):
  x = arr(x)
  if ord not in (None, 2):
    if ord == 1:
      return A.reduce_axes(A.elementwise(t.absv, x), 'sum', axis, keepdims)
    raise Gap('norm order')
  s = A.reduce_axes(A.elementwise(lambda v: t.mul(v, v), x, dtype='float32'), 'sum', axis, keepdims)
  return A.elementwise(t.sqrt, s)


def _cumsum(x, axis=None, dtype=None, **_):
  x = arr(x)
  if axis is None:
    x = A.reshape(x, [-1])
    axis = 0
  k = A.norm_axis(axis, x.ndim)
  n = x.shape[k]

  def fn(idx):
    j = idx[k]
    if isinstance(n, int) and n <= 16:
      accs = []
      acc = t.ZERO
      for m in range(n):
        acc = t.add(acc, x.fn(idx[:k] + (t.const(m),) + idx[k + 1:]))
        accs.append(acc)
      return A.select_list(j, [lambda a=a: a for a in accs])
    return t.red_fn('cumsum', A.dv(n), lambda i: x.fn(idx[:k] + (i,) + idx[k + 1:]), extra=(j,))
  return Arr(x.shape, x.dtype if x.dtype != 'bool' else 'int32', fn)


def _concat(xs, axis=0, **_):
  xs = [arr(x) for x in IT.iterate(xs)]
  if axis is None:
    xs = [A.reshape(x, [-1]) for x in xs]
    axis = 0
  return A.concatenate(xs, axis)


def _stack(xs, axis=0, **_):
  return A.stack([arr(x) for x in IT.iterate(xs)], axis)


def _vstack(xs, **_):
  return A.concatenate([x if x.ndim > 1 else A.expand_dims(x, 0) for x in map(arr, IT.iterate(xs))], 0)


def _hstack(xs, **_):
  xs = [arr(x) for x in IT.iterate(xs)]
  return A.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def _split(x, n, axis=0, **_):
  x = arr(x)
  k = A.norm_axis(axis, x.ndim)
  d = x.shape[k]
  out = []
  if isinstance(n, Arr) and n.ndim:
    n = [A.getitem(n, i) for i in range(n.shape[0])]
  if isinstance(n, (list, tuple)):
    static(n, 'split positions taken from a traced value')
    cuts = [t.ZERO] + [t.b2n(arr(c).fn(())) for c in n] + [A.dv(d)]
    for a, b in zip(cuts[:-1], cuts[1:]):
      out.append(Arr(x.shape[:k] + (A.norm_dim(t.sub(b, a)),) + x.shape[k + 1:], x.dtype,
                     lambda idx, a=a: x.fn(idx[:k] + (t.add(a, idx[k]),) + idx[k + 1:])))
    return out
  static(n, 'number of parts taken from a traced value')
  n = const_of(n)
  if not isinstance(n, int):
    raise Gap('split into symbolic number of parts')
  if isinstance(d, int) and d % n:
    IT.throw('ValueError', 'array split does not result in an equal division')
  w = t.div(A.dv(d), t.const(n))
  for j in range(n):
    out.append(Arr(x.shape[:k] + (A.norm_dim(w),) + x.shape[k + 1:], x.dtype,
                   lambda idx, j=j: x.fn(idx[:k] + (t.add(t.mul(t.const(j), w), idx[k]),) + idx[k + 1:])))
  return out


def _repeat(x, repeats, axis=None, total_repeat_length=None, **_):
  x = arr(x)
  if axis is None:
    x = A.reshape(x, [-1])
    axis = 0
  k = A.norm_axis(axis, x.ndim)
  r = arr(repeats)
  if total_repeat_length is None:
    static(repeats, 'repeat count taken from a traced value')
  if r.ndim:
    raise Gap('repeat with an array of counts')
  rv = r.fn(())
  n = A.norm_dim(t.mul(A.dv(x.shape[k]), rv))
  if x.shape[k] == 1:
    return Arr(x.shape[:k] + (n,) + x.shape[k + 1:], x.dtype, lambda idx: x.fn(idx[:k] + (t.ZERO,) + idx[k + 1:]))
  return Arr(x.shape[:k] + (n,) + x.shape[k + 1:], x.dtype,
             lambda idx: x.fn(idx[:k] + (t.floordiv(idx[k], rv),) + idx[k + 1:]))


def _tile(x, reps, **_):
  x = arr(x)
  reps = [A.norm_dim(r) for r in (IT.iterate(reps) if isinstance(reps, (list, tuple)) else [reps])]
  if isinstance(reps[0], Arr):
    raise Gap('tile')
  if len(reps) < x.ndim:
    reps = [1] * (x.ndim - len(reps)) + reps
  while x.ndim < len(reps):
    x = A.expand_dims(x, 0)
  shape = [A.norm_dim(t.mul(A.dv(d), A.dv(r))) for d, r in zip(x.shape, reps)]

  def fn(idx):
    out = []
    for i, d, r in zip(idx, x.shape, reps):
      if d == 1:
        out.append(t.ZERO)
      elif r == 1:
        out.append(i)
      else:
        out.append(t.modv(i, A.dv(d)))
    return x.fn(tuple(out))
  return Arr(shape, x.dtype, fn)


def _eye(n, m=None, k=0, dtype=None, **_):
  n = A.norm_dim(n)
  m = n if m is None else A.norm_dim(m)
  dt = need_dtype(dtype).name if dtype is not None else 'float32'
  kk = t.lift(k)
  return Arr((n, m), dt, lambda idx: t.ite(t.eq(t.sub(idx[1], idx[0]), kk), t.ONE, t.ZERO))


def _tri(n, m=None, k=0, dtype=None, **_):
  n = A.norm_dim(n)
  m = n if m is None else A.norm_dim(m)
  dt = need_dtype(dtype).name if dtype is not None else 'float32'
  one, zero = (t.TRUE, t.FALSE) if dt == 'bool' else (t.ONE, t.ZERO)
  return Arr((n, m), dt, lambda idx: t.ite(t.le(t.sub(idx[1], idx[0]), t.lift(k)), one, zero))


def _part(x, keep):
  x = arr(x)
  zero = t.FALSE if x.dtype == 'bool' else t.ZERO
  return Arr(x.shape, x.dtype, lambda idx: t.ite(keep(t.sub(idx[-1], idx[-2])), x.fn(idx), zero))


def _tril(x, k=0, **_):
  return _part(x, lambda d: t.le(d, t.lift(k)))


def _triu(x, k=0, **_):
  return _part(x, lambda d: t.ge(d, t.lift(k)))


def _diag(x, k=0, **_):
  x = arr(x)
  if x.ndim == 1 and k == 0:
    return Arr((x.shape[0], x.shape[0]), x.dtype, lambda idx: t.ite(t.eq(idx[0], idx[1]), x.fn((idx[0],)), t.FALSE if x.dtype == 'bool' else t.ZERO))
  if x.ndim == 2 and k == 0:
    return Arr((x.shape[0],), x.dtype, lambda idx: x.fn((idx[0], idx[0])))
  raise Gap('diag')


def _cross(a, b, **_):
  a, b = arr(a), arr(b)
  if a.shape[-1] == 2 and b.shape[-1] == 2:
    sh = A.bshape(a.shape[:-1], b.shape[:-1])
    g = lambda x, idx, k: x.fn(A.bidx(x.shape[:-1], idx) + (t.const(k),))
    return Arr(sh, A.promote(a, b)[0], lambda idx: t.sub(t.mul(g(a, idx, 0), g(b, idx, 1)), t.mul(g(a, idx, 1), g(b, idx, 0))))
  if a.shape[-1] == 3 and b.shape[-1] == 3:
    sh = A.bshape(a.shape, b.shape)
    g = lambda x, idx, k: x.fn(A.bidx(x.shape[:-1], idx[:-1]) + (t.const(k),))
    def fn(idx):
      def comp(i):
        j, k = (i + 1) % 3, (i + 2) % 3
        return t.sub(t.mul(g(a, idx, j), g(b, idx, k)), t.mul(g(a, idx, k), g(b, idx, j)))
      return A.select_list(idx[-1], [lambda i=i: comp(i) for i in range(3)])
    return Arr(sh, A.promote(a, b)[0], fn)
  raise Gap('cross')


def _inner(a, b, **_):
  a, b = arr(a), arr(b)
  if a.ndim == 1 and b.ndim == 1:
    return A.einsum('i,i->', a, b)
  if a.ndim == 0 or b.ndim == 0:
    return A.elementwise(t.mul, a, b)
  n = a.shape[-1]
  ra, rb = a.ndim - 1, b.ndim - 1
  return Arr(a.shape[:-1] + b.shape[:-1], A.promote(a, b)[0],
             lambda idx: t.reduce_('sum', A.dv(n), lambda k: t.mul(a.fn(idx[:ra] + (k,)), b.fn(idx[ra:] + (k,)))))


def _dot(a, b, **_):
  a, b = arr(a), arr(b)
  if a.ndim == 0 or b.ndim == 0:
    return A.elementwise(t.mul, a, b)
  if b.ndim <= 2 :
    return A.matmul(a, b)
  raise Gap('dot')


def _linv(m, **_):
  m = arr(m)
  n = m.shape[-1]
  if n not in (2, 3):
    raise Gap('matrix inverse')

  def fn(idx):
    b, i, j = idx[:-2], idx[-2], idx[-1]
    g = lambda r, c: m.fn(b + (t.const(r), t.const(c)))
    if n == 2:
      det = t.sub(t.mul(g(0, 0), g(1, 1)), t.mul(g(0, 1), g(1, 0)))
      cof = [[g(1, 1), t.neg(g(0, 1))], [t.neg(g(1, 0)), g(0, 0)]]
    else:
      def minor(r, c):
        rr = [x for x in range(3) if x != r]
        cc = [x for x in range(3) if x != c]
        v = t.sub(t.mul(g(rr[0], cc[0]), g(rr[1], cc[1])), t.mul(g(rr[0], cc[1]), g(rr[1], cc[0])))
        return v if (r + c) % 2 == 0 else t.neg(v)
      det = t.ZERO
      for c in range(3):
        det = t.add(det, t.mul(g(0, c), minor(0, c)))
      cof = [[minor(c, r) for c in range(3)] for r in range(3)]
    return A.select_list(i, [lambda r=r: A.select_list(j, [lambda c=c: t.div(cof[r][c], det) for c in range(n)]) for r in range(n)])
  return Arr(m.shape, 'float32', fn)


def _pad(x, pw, mode='constant', constant_values=0, **_):
  x = arr(x)
  if isinstance(pw, Arr):
    pw = [[const_of(A.getitem(A.getitem(pw, i), j)) for j in range(2)] for i in range(pw.shape[0])]
  if isinstance(pw, int):
    pw = [(pw, pw)] * x.ndim
  pw = [tuple(IT.iterate(p)) if not isinstance(p, int) else (p, p) for p in IT.iterate(pw)]
  if len(pw) == 1:
    pw = pw * x.ndim
  if mode != 'constant' and mode != 'edge':
    raise Gap('pad mode')
  cv = arr(constant_values).fn(())
  shape = [A.norm_dim(t.add(A.dv(d), t.add(t.lift(a), t.lift(b)))) for d, (a, b) in zip(x.shape, pw)]

  def fn(idx):
    c = t.TRUE
    src = []
    for i, d, (a, b) in zip(idx, x.shape, pw):
      la = t.lift(a)
      if not (isinstance(a, int) and a == 0):
        c = t.band(c, t.le(la, i))
      if not (isinstance(b, int) and b == 0):
        c = t.band(c, t.lt(i, t.add(la, A.dv(d))))
      src.append(t.sub(i, la))
    if mode == 'edge':
      src = [t.maxv(t.ZERO, t.minv(s, t.sub(A.dv(d), t.ONE))) for s, d in zip(src, x.shape)]
      return x.fn(tuple(src))
    if c is t.FALSE:
      return cv
    return t.ite(c, x.fn(tuple(src)), cv)
  return Arr(shape, x.dtype, fn)


def _take(x, ix, axis=None, **_):
  x, ix = arr(x), arr(ix)
  if axis is None:
    x, axis = A.reshape(x, [-1]), 0
  k = A.norm_axis(axis, x.ndim)
  n = ix.ndim
  return Arr(x.shape[:k] + ix.shape + x.shape[k + 1:], x.dtype,
             lambda idx: x.fn(idx[:k] + (A.norm_index_v(ix.fn(idx[k:k + n]), x.shape[k]),) + idx[k + n:]))


def rank_v(x, idx, axis, j):
  """Index of the j-th smallest element along an axis."""
  k = axis
  return t.red_fn('rank', A.dv(x.shape[k]), lambda i: x.fn(idx[:k] + (i,) + idx[k + 1:]), extra=(j,))


def _argsort(x, axis=-1, **kw):
  x = arr(x)
  k = A.norm_axis(axis, x.ndim)
  if kw.get('descending'):
    x = _neg(x)
  return Arr(x.shape, 'int32', lambda idx: rank_v(x, idx, k, idx[k]))


def _sort(x, axis=-1, **kw):
  x = arr(x)
  k = A.norm_axis(axis, x.ndim)
  return Arr(x.shape, x.dtype, lambda idx: x.fn(idx[:k] + (rank_v(x, idx, k, idx[k]),) + idx[k + 1:]))


def _topk(x, k, **_):
  x = arr(x)
  ax = x.ndim - 1
  k = A.norm_dim(k)
  y = _neg(x)
  c = t.lt(A.dv(x.shape[ax]), A.dv(k))
  if c is t.TRUE:
    IT.throw('ValueError', 'top_k: k larger than the axis')
  ix = Arr(x.shape[:-1] + (k,), 'int32', lambda idx: rank_v(y, idx, ax, idx[ax]))
  return (A.take_along_axis(x, ix, -1), ix)


def _aeq(a, b, **_):
  a, b = arr(a), arr(b)
  if a.ndim != b.ndim or not all(A.same_dim(p, q) for p, q in zip(a.shape, b.shape)):
    return asarr(False)
  r = _all(A.elementwise(t.eq, a, b, dtype='bool'))
  r.tag = ('array_equal', a, b)
  return r


def _isfinite(x):
  x = arr(x)

  def f(v):
    def leaf(l):
      if l.kind == 'n':
        s = t._inf_sign(l.p)
        if s is not None:
          return t.FALSE
        c = t.const_val(l)
        if c is not None:
          return t.TRUE
        fin = [t.finite_max(t.ATOMS[a]) for m, c in l.p.terms for a, e in m]
        if fin and all(z is not None for z in fin):
          return t.conj(*fin)
        return t.atom_v(t.mk_atom('fn', ('isfinite', l), 'b'))
      return t.TRUE
    return t.lift_apply(leaf, [v], 'isfinite')
  return A.elementwise(f, x, dtype='bool')


def _unravel(ix, shape, **_):
  ix = arr(ix)
  s = shp(shape)
  out = []
  for k in range(len(s)):
    div = t.ONE
    for d in s[k + 1:]:
      div = t.mul(div, A.dv(d))
    def f(v, k=k, div=div):
      lit, dims = t.const_val(v), [t.const_val(A.dv(d)) for d in s]
      if lit is not None and all(d is not None for d in dims):   # out of range: the first or last entry
        total = 1
        for d in dims:
          total *= d
        if not -total <= lit < total:
          return t.lift(dims[k] - 1 if lit > 0 else 0)
        lit %= total
        for d in dims[k + 1:]:
          lit //= d
        return t.lift(int(lit % dims[k]))
      q = t.floordiv(v, div)
      return q if k == 0 else t.modv(q, A.dv(s[k]))
    out.append(A.elementwise(f, ix))
  return tuple(out)


def _ravelmi(multi, dims, mode='raise', **_):
  ms = [arr(m) for m in IT.iterate(multi)]
  s = shp(dims)
  acc = None
  for m, d in zip(ms, s):
    if mode == 'clip':
      m = A.elementwise(lambda v, d=d: t.maxv(t.ZERO, t.minv(v, t.sub(A.dv(d), t.ONE))), m)
    acc = m if acc is None else A.elementwise(lambda a, b, d=d: t.add(t.mul(a, A.dv(d)), b), acc, m)
  return acc


def _bid(x, shape, bdims):
  x = arr(x)
  shape = shp(shape)
  bd = [const_of(b) for b in IT.iterate(bdims)]
  for j, b in enumerate(bd):
    if x.shape[j] != 1 and not A.same_dim(x.shape[j], shape[b]):
      raise ShapeErr('broadcast_in_dim')
  return Arr(shape, x.dtype, lambda idx: x.fn(tuple(t.ZERO if x.shape[j] == 1 else idx[b] for j, b in enumerate(bd))))


def _meshgrid(*xs, indexing='xy', **_):
  xs = [arr(x) for x in xs]
  if indexing == 'xy' and len(xs) >= 2:
    shape = [xs[1].shape[0], xs[0].shape[0]] + [x.shape[0] for x in xs[2:]]
    pos = [1, 0] + list(range(2, len(xs)))
  else:
    shape = [x.shape[0] for x in xs]
    pos = list(range(len(xs)))
  return [Arr(shape, x.dtype, lambda idx, x=x, p=p: x.fn((idx[p],))) for x, p in zip(xs, pos)]


def _dslice(a, starts, sizes, **_):
  a = arr(a)
  for k, (s, z) in enumerate(zip(IT.iterate(starts), IT.iterate(sizes))):
    a = A.dynamic_slice_in_dim(a, s, z, k)
  return a


def _dindex(a, i, axis=0, keepdims=True):
  r = A.dynamic_slice_in_dim(arr(a), i, 1, axis)
  return r if IT.truth(keepdims) is True else A.squeeze(r, A.norm_axis(axis, r.ndim))


def _slice_in_dim(a, s, e, stride=1, axis=0):
  a = arr(a)
  k = A.norm_axis(axis, a.ndim)
  return A.getitem(a, tuple([slice(None)] * k + [slice(s, e, None if stride == 1 else stride)]))


def _diff(x, n=1, axis=-1, **_):
  x = arr(x)
  k = A.norm_axis(axis, x.ndim)
  for _i in range(n):
    y = x
    x = Arr(y.shape[:k] + (A.norm_dim(t.sub(A.dv(y.shape[k]), t.ONE)),) + y.shape[k + 1:], y.dtype,
            lambda idx, y=y: t.sub(y.fn(idx[:k] + (t.add(idx[k], t.ONE),) + idx[k + 1:]), y.fn(idx)))
  return x


def _roll(x, s, axis=None):
  x = arr(x)
  if axis is None:
    raise Gap('roll')
  k = A.norm_axis(axis, x.ndim)
  sv = arr(s).fn(())
  return Arr(x.shape, x.dtype, lambda idx: x.fn(idx[:k] + (t.modv(t.sub(idx[k], sv), A.dv(x.shape[k])),) + idx[k + 1:]))


def _flip(x, axis=None):
  x = arr(x)
  axes = range(x.ndim) if axis is None else [A.norm_axis(a, x.ndim) for a in (axis if isinstance(axis, (list, tuple)) else [axis])]
  return Arr(x.shape, x.dtype, lambda idx: x.fn(tuple(t.sub(t.sub(A.dv(x.shape[k]), t.ONE), i) if k in axes else i for k, i in enumerate(idx))))


def _shape(x):
  x = arr(x)
  return tuple(d if isinstance(d, int) else Sym(d) for d in x.shape)


def _isnan(x):
  return A.elementwise(lambda v: t.lift_apply(lambda l: t.FALSE if t.const_val(l) is not None else t.atom_v(t.mk_atom('fn', ('isnan', l), 'b')), [t.b2n(v)]), arr(x), dtype='bool')


def _result_type(*a):
  return DType(A.promote(*[arr(x) for x in a])[0])


def _expand(x, axis):
  if isinstance(axis, Arr):
    axis = [int(const_of(A.getitem(axis, k))) for k in range(axis.shape[0])] if axis.ndim else int(const_of(axis))
  return A.expand_dims(arr(x), axis)


def _lstsqless(name):
  return lambda *xs, **k: ew(lambda *vs: t.fn(name, *vs), fl=True)(*xs)


def _hypot(x, y):
  return ew(lambda a, b: t.sqrt(t.add(t.mul(a, a), t.mul(b, b))), fl=True)(x, y)


def _count_nonzero(x, axis=None, **k):
  return A.reduce_axes(A.elementwise(lambda v: t.b2n(t.as_bool(v)), arr(x), dtype='int32'), 'sum', axis, k.get('keepdims', False))


def _interp(x, xp, fp, **k):
  raise Gap('interp')


def _dyn(name):
  def f(x, *a, size=None, **k):
    if size is None:
      static(x, f'{name} of a traced value (data-dependent shape)')
    raise Gap(f'no model for {name}')
  return f


def row_major(order):
  if order not in ('C', None, 'A', 'K'):
    raise Gap(f'memory order {order}')


def _unique(x, **k):
  static(x, 'unique of a traced value (data-dependent shape)')
  if IT.each is not None and isinstance(x, Arr) and not k and 'int' in x.dtype:
    # the distinct values, each one standing at its own position
    n = t.inp('unique', t.const(len(IT.each)), isint=True)
    r = Arr((n,), x.dtype, lambda i: i[0])
    r.host = True
    return r
  return Opq('numpy.unique', [x], k, call=True)


NP = {
    'sin': ew(t.sin, fl=True), 'cos': ew(t.cos, fl=True), 'tan': ew(t.tan, fl=True), 'sqrt': ew(t.sqrt, fl=True),
    'abs': ew(t.absv), 'absolute': ew(t.absv), 'fabs': ew(t.absv), 'sign': ew(t.signv), 'square': ew(lambda x: t.mul(x, x)),
    'negative': ew(t.neg), 'add': ew(t.add), 'subtract': ew(t.sub), 'multiply': ew(t.mul), 'divide': ew(t.div, fl=True),
    'true_divide': ew(t.div, fl=True), 'floor_divide': ew(t.floordiv), 'mod': ew(t.modv), 'remainder': ew(t.modv), 'power': ew(t.power),
    'float_power': ew(t.power, fl=True), 'reciprocal': ew(t.inverse, fl=True),
    'arctan2': ew(t.atan2, fl=True), 'arctan': _lstsqless('atan'), 'arccos': _lstsqless('acos'), 'arcsin': _lstsqless('asin'),
    'exp': _lstsqless('exp'), 'log': _lstsqless('log'), 'tanh': _lstsqless('tanh'), 'hypot': _hypot,
    'degrees': ew(lambda x: t.div(t.mul(x, t.const(180)), t.PI), fl=True), 'radians': ew(lambda x: t.div(t.mul(x, t.PI), t.const(180)), fl=True),
    'floor': ew(t.floor, fl=True), 'ceil': ew(lambda x: t.neg(t.floor(t.neg(x))), fl=True), 'rint': ew(t.rint, fl=True), 'round': lambda x, decimals=0, **k: ew(t.rint, fl=True)(x),
    'trunc': ew(t.trunc, fl=True),
    'maximum': ew(t.maxv), 'minimum': ew(t.minv), 'fmax': ew(t.maxv), 'fmin': ew(t.minv), 'clip': _clip,
    'logical_and': ew(t.band, 'bool'), 'logical_or': ew(t.bor, 'bool'), 'logical_not': ew(t.bnot, 'bool'), 'logical_xor': ew(t.bxor, 'bool'),
    'equal': ew(t.eq, 'bool'), 'not_equal': ew(t.ne, 'bool'), 'less': ew(t.lt, 'bool'), 'less_equal': ew(t.le, 'bool'),
    'greater': ew(t.gt, 'bool'), 'greater_equal': ew(t.ge, 'bool'), 'isclose': lambda a, b, **k: ew(lambda x, y: t.fn('isclose', x, y, sort='b'), 'bool')(a, b),
    'isfinite': _isfinite, 'isnan': _isnan, 'isinf': lambda x: _not(_isfinite(x)),
    'nan_to_num': lambda x, **k: ew(lambda v: t.fn('nan_to_num', v))(x),
    'where': _where, 'select': _select, 'any': red('any', pre=None), 'all': _all, 'sum': red('sum'), 'prod': red('prod'),
    'max': red('max'), 'amax': red('max'), 'min': _min, 'amin': _min, 'mean': _mean, 'average': _mean, 'nanmin': _min, 'nanmax': red('max'), 'nansum': red('sum'),
    'argmin': lambda x, axis=None, keepdims=False, **k: A.arg_reduce(arr(x), 'argmin', axis, keepdims),
    'argmax': lambda x, axis=None, keepdims=False, **k: A.arg_reduce(arr(x), 'argmax', axis, keepdims),
    'cumsum': _cumsum, 'concatenate': _concat, 'concat': _concat, 'stack': _stack, 'vstack': _vstack, 'hstack': _hstack, 'append': lambda a, b, axis=None: _concat([a, b], axis),
    'split': _split, 'array_split': _split, 'repeat': _repeat, 'tile': _tile, 'eye': _eye, 'tri': _tri, 'tril': _tril, 'triu': _triu, 'identity': _eye, 'diag': _diag,
    'diagonal': lambda x, *a, **k: _diag(x), 'cross': _cross, 'inner': _inner, 'dot': _dot, 'vdot': _inner, 'matmul': lambda a, b, **k: A.matmul(arr(a), arr(b)),
    'einsum': lambda s, *o, **k: A.einsum(s, *[arr(x) for x in o]), 'outer': lambda a, b: A.einsum('i,j->ij', A.reshape(arr(a), [-1]), A.reshape(arr(b), [-1])),
    'linalg.norm': _norm, 'linalg.inv': _linv, 'pad': _pad, 'take': _take, 'take_along_axis': lambda a, i, axis=-1, **k: A.take_along_axis(arr(a), arr(i), axis),
    'argsort': _argsort, 'sort': _sort, 'array_equal': _aeq, 'allclose': lambda a, b, **k: _all(ew(lambda x, y: t.fn('isclose', x, y, sort='b'), 'bool')(a, b)),
    'unravel_index': _unravel, 'ravel_multi_index': _ravelmi, 'meshgrid': _meshgrid,
    'expand_dims': _expand, 'squeeze': lambda x, axis=None: A.squeeze(arr(x), axis), 'reshape': lambda x, shape=None, order='C', newshape=None: row_major(order) or A.reshape(arr(x), shp(shape if newshape is None else newshape)),
    'ravel': lambda x, order='C': row_major(order) or A.reshape(arr(x), [-1]), 'transpose': lambda x, axes=None: A.transpose(arr(x), axes), 'swapaxes': lambda x, i, j, **k: A.swapaxes(arr(x), k.get('axis1', i), k.get('axis2', j)),
    'moveaxis': lambda x, s, d: A.moveaxis(arr(x), s, d), 'broadcast_to': lambda x, s, **k: A.broadcast_to(arr(x), shp(s)),
    'broadcast_shapes': lambda *s: tuple(d if isinstance(d, int) else Sym(d) for d in A.bshape(*[shp(x) for x in s])),
    'broadcast_arrays': lambda *xs: [A.broadcast_to(arr(x), A.bshape(*[arr(y).shape for y in xs])) for x in xs],
    'zeros': _filled(0), 'ones': _filled(1), 'empty': _filled(0), 'full': _full, 'zeros_like': _like(0), 'ones_like': _like(1), 'empty_like': _like(0), 'full_like': _full_like,
    'arange': _arange, 'linspace': _linspace, 'array': _array, 'asarray': _array, 'copy': lambda x, **k: _array(x), 'atleast_1d': lambda x: arr(x) if arr(x).ndim else A.expand_dims(arr(x), 0),
    'ndim': lambda x: arr(x).ndim, 'shape': _shape, 'size': lambda x, axis=None: sym(A.size_of(arr(x))) if axis is None else _shape(x)[axis],
    'diff': _diff, 'roll': _roll, 'flip': _flip, 'result_type': _result_type, 'issubdtype': lambda d, k: _issubdtype(d, k), 'count_nonzero': _count_nonzero,
    'dtype': lambda d: need_dtype(d), 'astype': lambda x, d, **k: cast(x, need_dtype(d).name), 'iterable': lambda x: True, 'isscalar': lambda x: A.is_scalar(x),
    'unique': _unique, 'nonzero': _nonzero, 'flatnonzero': _flatnonzero, 'argwhere': lambda x, **k: _stack(list(_nonzero(x, **k)), axis=-1), 'compress': _dyn('compress'), 'extract': _dyn('extract'), 'trim_zeros': _dyn('trim_zeros'), 'union1d': _dyn('union1d'), 'intersect1d': _dyn('intersect1d'), 'setdiff1d': _dyn('setdiff1d'),
    'invert': lambda x: IT.unop(ast.Invert(), arr(x)), 'bitwise_not': lambda x: IT.unop(ast.Invert(), arr(x)),
    'bitwise_and': lambda a, b: IT.binop(ast.BitAnd(), arr(a), arr(b)), 'bitwise_or': lambda a, b: IT.binop(ast.BitOr(), arr(a), arr(b)),
    'searchsorted': None, 'fliplr': lambda x: _flip(x, 1), 'flipud': lambda x: _flip(x, 0),
    'heaviside': lambda x, h: ew(lambda v, w: t.ite(t.lt(v, t.ZERO), t.ZERO, t.ite(t.eq(v, t.ZERO), w, t.ONE)), fl=True)(x, h),
    'float32': lambda x=0.0: cast(x, 'float32'), 'int32': lambda x=0: cast(x, 'int32'), 'bool_': lambda x=False: cast(x, 'bool'),
    'fromiter': lambda x, dtype=None, count=-1: _array(IT.iterate(x), dtype), 'frombuffer': lambda *a, **k: Opq('numpy.frombuffer', a, k, call=True),
    'save': None, 'testing': None,
}
NP = {k: v for k, v in NP.items() if v is not None}
NPCONST = {'pi': lambda: Sym(t.PI, 'float'), 'inf': lambda: Sym(t.INF, 'float'), 'nan': lambda: Sym(t.const(float('nan')), 'float'), 'newaxis': lambda: None, 'e': lambda: math.e}


def _issubdtype(d, k):
  n = need_dtype(d).name
  kn = k.path.split('.')[-1] if isinstance(k, Ext) else getattr(as_dtype(k), 'name', '')
  if kn in ('floating', 'inexact'):
    return 'float' in n
  if kn in ('integer', 'signedinteger'):
    return 'int' in n
  if kn == 'number':
    return n != 'bool'
  return n == kn


# ---------------------------------------------------------------- random
def key_id(k):
  k = arr(k)
  if k.ndim > 1:
    raise Gap('batched key')
  return k.fn((t.ZERO,) * k.ndim)


def use_key(k, what):
  kid = key_id(k)
  IT.rng_uses.append((kid, what, IT.site(), IT.pc))
  return kid


def mk_key(name, *args):
  return Arr((2,), 'uint32', lambda idx: t.fn(name, *args, idx[0], isint=True))


def _rsplit(k, num=2, **_):
  kid = use_key(k, 'split')
  n = shp(num)
  if len(n) != 1:
    raise Gap('split shape')
  return Arr((n[0], 2), 'uint32', lambda idx: t.fn('rsplit', kid, A.dv(n[0]), idx[0], idx[1], isint=True))


def _rfold(k, d):
  kid = key_id(k)
  IT.rng_uses.append((t.fn('fold', kid, t.b2n(arr(d).fn(()))), 'fold_in', IT.site(), IT.pc))
  dv = t.b2n(arr(d).fn(()))
  return Arr((2,), 'uint32', lambda idx: t.fn('rfold', kid, dv, idx[0], isint=True))


def _rdraw(name):
  def f(k, *a, **kw):
    kid = use_key(k, name)
    shape = kw.get('shape', None)
    if shape is None:
      cand = [x for x in a if isinstance(x, (tuple, list))]
      shape = cand[0] if cand else ()
    ex = [t.b2n(arr(v).fn(())) for v in list(a) + [kw[n] for n in sorted(kw) if n not in ('shape', 'dtype')] if A.is_scalar(v) or isinstance(v, Arr) and not v.ndim]
    dt = 'int32' if name in ('randint', 'categorical', 'permutation', 'choice') else 'bool' if name == 'bernoulli' else 'float32'
    return Arr(shp(shape), dt, lambda idx: t.fn('rand:' + name, kid, *idx, *ex, sort='b' if dt == 'bool' else 'n'))
  return f


def _prngkey(seed=0, **_):
  s = t.b2n(arr(seed).fn(()))
  c = t.const_val(s)
  IT.rng_new.append((IT.site(), s))
  return mk_key('prngkey', s)


# ---------------------------------------------------------------- chex
def _chex_fail(msg):
  IT.throw('AssertionError', msg)


def _shapes_of(xs):
  out = []
  for x in IT.iterate(xs):
    if isinstance(x, (Obj, Arr)):
      s = IT.getattr(x, 'shape')
      out.append(tuple(A.norm_dim(d) for d in s))
    elif A.is_scalar(x):
      out.append(())
    else:
      raise Gap(f'shape of {x!r}')
  return out


def _same_shape(a, b):
  return len(a) == len(b) and all(A.same_dim(x, y) for x, y in zip(a, b))


def _assert_equal_shape(xs, dims=None, **_):
  ss = _shapes_of(xs)
  IT.assert_log.append(('equal_shape', list(IT.iterate(xs)), IT.site()))
  for s in ss[1:]:
    if not _same_shape(s, ss[0]):
      _chex_fail(f'equal_shape {ss}')


def _assert_prefix(xs, n, **_):
  ss = _shapes_of(xs)
  IT.assert_log.append(('equal_shape_prefix', list(IT.iterate(xs)), IT.site()))
  n = const_of(n)
  for s in ss:
    if len(s) < n or not _same_shape(s[:n], ss[0][:n]):
      _chex_fail(f'equal_shape_prefix {ss} {n}')


def _assert_type(xs, tys, **_):
  single = not isinstance(xs, (list, tuple))
  if single:
    xs = [xs]
  if not isinstance(tys, (list, tuple)):
    tys = [tys] * len(xs)
  if len(tys) != len(xs):
    _chex_fail('assert_type lengths differ')
  IT.assert_log.append(('type', list(xs), IT.site(), [as_dtype(y) for y in tys]))
  for x, y in zip(xs, tys):
    if isinstance(x, Arr):
      d = as_dtype(y)
      kind = y.name if isinstance(y, Native) else {'floating': 'float', 'integer': 'int'}.get(getattr(y, 'path', '').split('.')[-1])
      if kind:
        ok = {'float': 'float' in x.dtype, 'int': 'int' in x.dtype, 'bool': x.dtype == 'bool'}[kind]
      else:
        ok = d is not None and A.canon(d.name) == A.canon(x.dtype)
      if not ok:
        _chex_fail(f'type {x.dtype} is not {y}')


def _assert_equal(a, b, **_):
  c = IT.truth(IT.compare1('==', a, b))
  if c is False:
    _chex_fail(f'assert_equal {a!r} {b!r}')


def _assert_shape(xs, shape, **_):
  single = not isinstance(xs, (list, tuple))
  if single:
    xs = [xs]
    shape = [shape]
  elif shape and not isinstance(shape[0], (list, tuple, type(None))) or not shape:
    shape = [shape] * len(xs)
  for x, s in zip(xs, shape):
    xsn = tuple(A.norm_dim(d) for d in IT.getattr(x, 'shape'))
    s = list(IT.iterate(s))
    if any(z is Ellipsis for z in s):
      k = s.index(Ellipsis)
      pre, post = s[:k], s[k + 1:]
      parts = list(zip(pre, xsn[:len(pre)])) + list(zip(post, xsn[len(xsn) - len(post):]))
      ok = len(xsn) >= len(pre) + len(post)
    else:
      parts = list(zip(s, xsn))
      ok = len(s) == len(xsn)
    for want, have in parts:
      if want is None:
        continue
      if isinstance(want, (set, frozenset)):
        continue
      ok = ok and A.same_dim(A.norm_dim(want), have)
    IT.assert_log.append(('shape', [x], IT.site()))
    if not ok:
      _chex_fail(f'assert_shape {xsn} {s}')


def _assert_rank(xs, r, **_):
  single = not isinstance(xs, (list, tuple))
  for x in ([xs] if single else xs):
    n = len(IT.getattr(x, 'shape'))
    rr = r if isinstance(r, (set, frozenset, list, tuple)) else [r]
    if n not in [const_of(z) for z in rr]:
      _chex_fail(f'assert_rank {n} {r}')


def _assert_scalar(x, *a, **k):
  return None


# ---------------------------------------------------------------- misc externals
def _partial(f, *a, **k):
  return Partial(f, a, k)


def _wraps(f):
  return Native('wraps', lambda g: g)


def _dc_replace(o, **kw):
  names = [n for n, _ in o.cls.all_fields()]
  for k in kw:
    if k not in names:
      IT.throw('TypeError', f'{o.cls.name}.replace() got an unexpected field {k}')
  d = {n: kw.get(n, o.fields[n]) for n in names}
  new = Obj(o.cls, d)
  pi, _ = o.cls.lookup('__post_init__')
  if pi is not None:
    IT.call(Bound(pi, new), [], {})
  return new


def _dc_fields(o):
  c = o.cls if isinstance(o, Obj) else o
  out = []
  for n, _ in c.all_fields():
    f = Opq('field')
    f.attrs['name'] = n
    out.append(f)
  return tuple(out)


def _reduce(f, xs, *init):
  xs = list(IT.iterate(xs))
  acc = init[0] if init else xs.pop(0)
  for x in xs:
    acc = IT.call(f, [acc, x], {})
  return acc


def _jit(f=None, **k):
  if f is None:
    return Native('jit', lambda g: g)
  return f


def _mathfn(name):
  def f(*a):
    if all(isinstance(x, (int, float)) for x in a):
      return getattr(math, name)(*a)
    x = [y.v if isinstance(y, Sym) else t.lift(y) if not isinstance(y, Arr) else IT.lib.host_scalar(y) for y in a]
    m = {'sin': t.sin, 'cos': t.cos, 'tan': t.tan, 'sqrt': t.sqrt, 'floor': t.floor, 'atan2': t.atan2, 'fabs': t.absv}
    if name in m:
      return sym(m[name](*x), 'int' if name == 'floor' else 'float')
    if name == 'ceil':
      return sym(t.neg(t.floor(t.neg(x[0]))), 'int')
    return sym(t.fn('math.' + name, *x), 'float')
  return f


def host_scalar(a):
  if not a.host and not a.concrete:
    IT.traced_branches.append((IT.site(), 'host math on a traced value'))
  return t.b2n(a.fn((t.ZERO,) * a.ndim))


TABLE = {}


def build_table():
  T = TABLE
  from . import more
  extra_np, extra = more.build(sys.modules[__name__])
  NP.update(extra_np)
  for k, f in NP.items():
    T['jax.numpy.' + k] = f
    T['numpy.' + k] = f
  for k in ('array', 'asarray', 'zeros', 'ones', 'full', 'arange', 'linspace', 'zeros_like', 'ones_like', 'empty', 'eye', 'copy', 'full_like', 'fromiter'):
    f = NP[k]
    if k in ('array', 'asarray', 'copy'):
      T['numpy.' + k] = _nparray
    else:
      def g(*a, f=f, **kw):
        r = f(*a, **kw)
        r.host = True
        return r
      T['numpy.' + k] = g
  def _npview(x, dtype=None, **k):
    r = _nparray(x, dtype, **k)
    if isinstance(x, Arr) and r is not x:
      if x.host and (dtype is None or r.dtype == x.dtype):
        return x                    # no copy of an array that is a host array already
      if not x.host and not x.concrete and r.dtype == x.dtype:
        r.tag = 'view'              # a read-only view of a device array
    return r
  T['numpy.asarray'] = _npview
  T.update({
      'jax.vmap': _vmap, 'jax.pmap': _vmap, 'jax.jit': _jit, 'jax.checkpoint': _jit, 'jax.remat': _jit,
      'jax.named_scope': lambda *a, **k: Opq('jax.named_scope', a, k, call=True),
      'jax.lax.scan': _scan, 'jax.lax.fori_loop': _fori, 'jax.lax.while_loop': _while, 'jax.lax.cond': _cond, 'jax.lax.switch': _switch,
      'jax.lax.map': lambda f, xs, **k: _vmap(f).fn(xs),
      'jax.lax.select': lambda c, a, b: _where(c, a, b), 'jax.lax.stop_gradient': lambda x: x,
      'jax.lax.dynamic_slice_in_dim': lambda x, s, n, axis=0: A.dynamic_slice_in_dim(arr(x), arr(s), n, axis),
      'jax.lax.dynamic_index_in_dim': _dindex, 'jax.lax.dynamic_slice': _dslice, 'jax.lax.slice_in_dim': _slice_in_dim, 'jax.lax.index_in_dim': _dindex,
      'jax.lax.dynamic_update_slice_in_dim': lambda x, u, s, axis: A.dynamic_update_slice_in_dim(arr(x), arr(u), arr(s), axis),
      'jax.lax.dynamic_update_index_in_dim': lambda x, u, s, axis: A.dynamic_update_slice_in_dim(arr(x), _upd_rank(arr(x), arr(u), axis), arr(s), axis),
      'jax.lax.top_k': _topk, 'jax.lax.broadcast_in_dim': _bid, 'jax.lax.expand_dims': _expand,
      'jax.lax.clamp': lambda lo, x, hi: _clip(x, lo, hi), 'jax.lax.concatenate': lambda xs, d: _concat(xs, d),
      'jax.lax.full_like': lambda x, v, **k: _full_like(x, v, **k), 'jax.lax.convert_element_type': lambda x, d: cast(x, need_dtype(d).name),
      'jax.lax.max': NP['maximum'], 'jax.lax.min': NP['minimum'], 'jax.lax.rsqrt': ew(lambda x: t.inverse(t.sqrt(x)), fl=True),
      'jax.nn.one_hot': lambda x, n, **k: _onehot(x, n, **k), 'jax.nn.relu': lambda x: NP['maximum'](x, 0),
      'tree.map_structure': _dm_map, 'tree.flatten': lambda x: tree_leaves(x, _dm_leaf),
      'jax.tree_util.tree_map': _tree_map, 'jax.tree.map': _tree_map, 'jax.tree_map': _tree_map,
      'jax.tree_util.tree_leaves': tree_leaves, 'jax.tree.leaves': tree_leaves, 'jax.tree_util.tree_flatten': _tree_flatten, 'jax.tree.flatten': _tree_flatten,
      'jax.tree_util.tree_unflatten': _tree_unflatten, 'jax.tree.unflatten': _tree_unflatten, 'jax.tree_util.tree_structure': lambda x: TreeDef(x), 'jax.tree.structure': lambda x: TreeDef(x),
      'jax.tree_util.tree_all': lambda x: _anyall('all')(tree_leaves(x)) if not any(isinstance(z, Arr) for z in tree_leaves(x)) else _tree_all(x), 'jax.tree.all': lambda x: _tree_all(x),
      'jax.tree_util.tree_reduce': _tree_reduce, 'jax.tree.reduce': _tree_reduce, 'jax.tree_util.Partial': _partial,
      'jax.tree_util.register_pytree_node': lambda *a, **k: None, 'jax.tree_util.register_pytree_node_class': lambda c: c,
      'jax.tree_util.register_dataclass': lambda c, *a, **k: c,
      'jax.random.split': _rsplit, 'jax.random.fold_in': _rfold, 'jax.random.PRNGKey': _prngkey, 'jax.random.key': _prngkey,
      'jax.device_get': lambda x: _device_get(x), 'jax.device_put': lambda x, *a, **k: x, 'jax.block_until_ready': lambda x: x,
      'jax.local_device_count': lambda *a: Sym(t.dim('local_device_count')), 'jax.device_count': lambda *a: Sym(t.dim('device_count')),
      'jax.process_index': lambda *a: Sym(t.inp('process_index', isint=True)), 'jax.process_count': lambda *a: Sym(t.dim('process_count')),
      'jax.eval_shape': lambda f, *a, **k: IT.call(f, list(a), k), 'jax.ShapeDtypeStruct': lambda shape, dtype, **k: _full(shape, 0, dtype),
      'chex.assert_equal_shape': _assert_equal_shape, 'chex.assert_equal_shape_prefix': _assert_prefix, 'chex.assert_type': _assert_type,
      'chex.assert_equal': _assert_equal, 'chex.assert_shape': _assert_shape, 'chex.assert_rank': _assert_rank,
      'chex.assert_scalar_non_negative': _assert_scalar, 'chex.assert_scalar_positive': _assert_scalar, 'chex.assert_scalar': _assert_scalar,
      'chex.assert_trees_all_equal_shapes': _assert_scalar, 'chex.assert_axis_dimension': _assert_scalar, 'chex.assert_is_broadcastable': _assert_scalar,
      'chex.assert_tree_shape_prefix': _assert_scalar, 'chex.assert_scalar_in': _assert_scalar, 'chex.assert_equal_rank': _assert_scalar,
      'chex.assert_equal_size': _assert_scalar, 'chex.assert_trees_all_equal_structs': _assert_scalar, 'chex.assert_tree_no_nones': _assert_scalar,
      'functools.partial': _partial, 'functools.wraps': _wraps, 'functools.reduce': _reduce, 'functools.lru_cache': lambda *a, **k: (a[0] if a and isinstance(a[0], (Func,)) else Native('lru', lambda f: f)),
      'dataclasses.replace': lambda o, **k: _dc_replace(o, **k), 'dataclasses.fields': _dc_fields, 'dataclasses.asdict': lambda o: {n: o.fields[n] for n, _ in o.cls.all_fields()},
      'dataclasses.is_dataclass': lambda o: isinstance(o, Obj) and bool(o.cls.is_dc()),
      'itertools.product': lambda *xs, repeat=1: IterVal(list(itertools.product(*[IT.iterate(x) for x in xs], repeat=repeat))),
      'itertools.chain': lambda *xs: IterVal([y for x in xs for y in IT.iterate(x)]), 'itertools.chain.from_iterable': lambda xs: IterVal([y for x in IT.iterate(xs) for y in IT.iterate(x)]),
      'itertools.zip_longest': lambda *xs, fillvalue=None: IterVal(list(itertools.zip_longest(*[IT.iterate(x) for x in xs], fillvalue=fillvalue))),
      'itertools.accumulate': None, 'itertools.islice': lambda x, *a: IterVal(list(itertools.islice(IT.iterate(x), *a))),
      'itertools.starmap': lambda f, xs: IterVal([IT.call(f, list(IT.iterate(x)), {}) for x in IT.iterate(xs)]),
      'copy.copy': lambda x: _copy(x), 'copy.deepcopy': lambda x: _deepcopy(x),
      'operator.add': lambda a, b: IT.binop(ast.Add(), a, b), 'operator.mul': lambda a, b: IT.binop(ast.Mult(), a, b),
      'operator.and_': lambda a, b: IT.binop(ast.BitAnd(), a, b), 'operator.or_': lambda a, b: IT.binop(ast.BitOr(), a, b),
      'operator.getitem': lambda a, b: IT.getitem(a, b), 'operator.attrgetter': lambda *n: Native('attrgetter', lambda o: IT.getattr(o, n[0]) if len(n) == 1 else tuple(IT.getattr(o, z) for z in n)),
      'operator.itemgetter': lambda *n: Native('itemgetter', lambda o: IT.getitem(o, n[0]) if len(n) == 1 else tuple(IT.getitem(o, z) for z in n)),
      'math.log': _mathfn('log'), 'math.log10': _mathfn('log10'), 'math.sqrt': _mathfn('sqrt'), 'math.sin': _mathfn('sin'), 'math.cos': _mathfn('cos'),
      'math.ceil': _mathfn('ceil'), 'math.floor': _mathfn('floor'), 'math.atan2': _mathfn('atan2'), 'math.exp': _mathfn('exp'), 'math.tan': _mathfn('tan'), 'math.fabs': _mathfn('fabs'),
      'math.prod': lambda x, start=1: _prod(x, start), 'math.isclose': lambda a, b, **k: Opq('isclose', [a, b], call=True), 'math.hypot': _mathfn('hypot'), 'math.radians': _mathfn('radians'),
      'collections.OrderedDict': _dict, 'collections.defaultdict': lambda f=None, *a: DefaultDict(f), 'immutabledict.immutabledict': _dict, 'types.MappingProxyType': lambda d: d,
      'collections.namedtuple': None, 'warnings.warn': lambda *a, **k: None, 'logging.info': lambda *a, **k: None, 'logging.warning': lambda *a, **k: None, 'absl.logging.info': lambda *a, **k: None, 'absl.logging.warning': lambda *a, **k: None,
      'typing.cast': lambda ty, x: x, 'typing.TypeVar': lambda *a, **k: Ext('typing.TypeVar'), 'typing.NamedTuple': None, 'typing.NewType': lambda n, ty: Native('newtype', lambda x: x),
      'contextlib.nullcontext': lambda *a: None,
      'dm_env.specs.BoundedArray': BoundedArray,
      'dm_env.restart': lambda observation: TimeStep('FIRST', None, None, observation),
      'dm_env.transition': lambda reward, observation, discount=1.0: TimeStep('MID', reward, discount, observation),
      'dm_env.termination': lambda reward, observation: TimeStep('LAST', reward, 0.0, observation),
      'dm_env.truncation': lambda reward, observation, discount=1.0: TimeStep('LAST', reward, discount, observation),
      'dm_env.TimeStep': lambda step_type, reward, discount, observation: TimeStep(step_type.path.split('.')[-1] if isinstance(step_type, Ext) else step_type, reward, discount, observation),
  })
  for n in ('uniform', 'normal', 'randint', 'bernoulli', 'categorical', 'choice', 'permutation', 'gumbel', 'truncated_normal', 'exponential', 'bits'):
    T['jax.random.' + n] = _rdraw(n)
  for k, f in extra.items():
    T.setdefault(k, f)
  for k in [k for k, v in T.items() if v is None]:
    del T[k]


class DefaultDict(dict):
  def __init__(self, f):
    super().__init__()
    self.default_factory = f


def _prod(x, start=1):
  acc = start
  for v in IT.iterate(x):
    acc = IT.binop(ast.Mult(), acc, v)
  return acc


def TimeStep(st, r, d, o):
  return Opq('dm_env.TimeStep', (), {'step_type': st, 'reward': r, 'discount': d, 'observation': o}, call=True)


def BoundedArray(shape, dtype, minimum, maximum, name=None):
  shape = tuple(IT.iterate(shape))
  dt = need_dtype(dtype)
  bounds = []
  for b in (minimum, maximum):
    a = cast(_nparray(b), dt.name)
    try:
      if len(a.shape) > len(shape):
        raise ShapeErr('too many dimensions')
      A.broadcast_to(a, shape)
    except ShapeErr as e:
      IT.throw('ValueError', f'bound of shape {a.shape} for a specification of shape {shape}')
    bounds.append(a)
  return Opq('dm_env.specs.BoundedArray', (), {'shape': shape, 'dtype': dt, 'minimum': bounds[0], 'maximum': bounds[1], 'name': name}, call=True)


def _device_get(x):
  def f(a):
    if isinstance(a, Arr):
      if not a.host and not a.concrete:
        IT.host_reads.append((IT.site(), 'device_get of an array'))
      r = Arr(a.shape, a.dtype, a.fn)
      r.host = True
      return r
    return a
  return tree_map(f, x)


def _upd_rank(x, u, axis):
  return u if u.ndim == x.ndim else A.expand_dims(u, A.norm_axis(axis, x.ndim))


def _onehot(x, n, dtype=None, axis=-1, **_):
  x = arr(x)
  n = A.norm_dim(n)
  dt = need_dtype(dtype).name if dtype is not None else 'float32'
  if axis != -1:
    raise Gap('one_hot axis')
  return Arr(x.shape + (n,), dt, lambda idx: t.ite(t.eq(x.fn(idx[:-1]), idx[-1]), t.ONE, t.ZERO))


def _tree_all(x):
  acc = t.TRUE
  for lf in tree_leaves(x):
    if isinstance(lf, Arr):
      v = t.as_bool(lf.fn((t.ZERO,) * lf.ndim))
    else:
      v = t.lift(IT.truth(lf))
    acc = t.band(acc, v)
  r = sym(acc, 'bool')
  if isinstance(r, Sym):
    IT.host_eq.append((IT.site(), r))
  return r


def _copy(x):
  if isinstance(x, Obj):
    return Obj(x.cls, dict(x.fields))
  if isinstance(x, (list, dict, set)):
    return IT.fresh(type(x)(x))
  return x


def _deepcopy(x):
  if isinstance(x, Obj):
    return Obj(x.cls, {k: _deepcopy(v) for k, v in x.fields.items()})
  if isinstance(x, list):
    return IT.fresh([_deepcopy(v) for v in x])
  if isinstance(x, dict):
    return IT.fresh({k: _deepcopy(v) for k, v in x.items()})
  if isinstance(x, tuple):
    return tuple(_deepcopy(v) for v in x)
  if isinstance(x, Arr):
    r = Arr(x.shape, x.dtype, x.fn, weak=x.weak)
    r.host = x.host
    return r
  return x


ALIASES = {'jax.numpy': 'jax.numpy', 'jnp': 'jax.numpy', 'onp': 'numpy'}


def ext_attr(it, o, name):
  p = o.path + '.' + name
  if o.path in ('numpy', 'jax.numpy'):
    if name in NPCONST:
      return NPCONST[name]()
    if name in DTYPES:
      return DType({'bool_': 'bool', 'double': 'float64', 'single': 'float32'}.get(name, name))
    if name == 'bool':
      return DType('bool')
    if name == 'float_':
      return DType('float32')
  if o.path in ('tensorflow', 'tf'):
    p = 'tensorflow.' + name
  if o.path == 'math' and name in ('pi', 'inf', 'e', 'nan'):
    return {'pi': Sym(t.PI, 'float'), 'inf': Sym(t.INF, 'float'), 'e': math.e, 'nan': Sym(t.const(float('nan')), 'float')}[name]
  if o.path == 'sys' and name == 'maxsize':
    return 2**63 - 1
  if name == '__name__':
    return o.path.split('.')[-1]
  return Ext(p)


OPAQUE_PREFIX = ('tensorflow', 'matplotlib', 'dm_env', 'PIL', 'enum', 'os', 'sys', 'dataclasses', 'chex', 'absl', 'mediapy', 'tqdm', 'io', 'json',
                 'immutabledict', 'typing', 'abc', 'collections', 'random', 'time', 'datetime', 'pathlib', 'functools', 'contextlib', 're', 'flax', 'generic', 'object')


MUTATORS = {'numpy.' + n for n in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis')} | {'numpy.random.shuffle', 'random.shuffle'}
IMPURE = ('time.', 'random.', 'numpy.random.', 'os.', 'uuid.', 'secrets.', 'datetime.', 'tensorflow.random.', 'jax.experimental.io_callback',
          'jax.pure_callback', 'jax.experimental.host_callback', 'jax.debug.callback', 'open', 'input', 'io.', 'shutil.', 'subprocess.', 'socket.', 'sys.std')
PURE = ('os.path.', 'datetime.timedelta')


NP_STATIC = {'numpy.' + n for n in ('shape', 'ndim', 'size', 'result_type', 'promote_types', 'issubdtype', 'dtype', 'iinfo', 'finfo', 'zeros_like', 'ones_like', 'full_like', 'empty_like', 'array', 'asarray', 'copy')}


FACTORY = ('from_tensor_slices', 'from_tensors', 'from_generator', 'list_files', 'range', 'zip', 'load', 'choose_from_datasets', 'sample_from_datasets', 'random', 'counter')


def ext_call(it, f, args, kwargs):
  p = f.path
  it.ext_seen[p] = it.ext_seen.get(p, 0) + 1
  h = it.ext_hooks.get(p) or TABLE.get(p)
  if p in MUTATORS and args:
    it.note_write(args[0], p)
  if h is None and p.startswith(IMPURE) and not p.startswith(PURE):
    it.effects.append((it.site(), f'depends on external state: {p}'))
  if h is not None and p.startswith('numpy.') and p not in NP_STATIC:
    static(args, f'{p} of a traced value')
    r = bindcall.call(p, h, args, kwargs)
    if isinstance(r, Arr) and not any(r is x for x in args):
      r.host = True
    return r
  if h is not None:
    return bindcall.call(p, h, args, kwargs)
  if p in TRANSPARENT_DECORATORS:
    if len(args) == 1 and not kwargs and isinstance(args[0], (Func, Cls, SMeth, CMeth, Prop)):
      return args[0]
    return Opq(p, args, kwargs, call=True)
  if args and isinstance(args[0], Opq) and p.startswith(('tensorflow.data.Dataset.', 'tensorflow.data.TFRecordDataset.')) and p.rsplit('.', 1)[1] not in FACTORY:
    return it.call(it.getattr(args[0], p.rsplit('.', 1)[1]), args[1:], kwargs)
  if p.split('.')[0] in OPAQUE_PREFIX:
    o = Opq(p, args, kwargs, call=True)
    it.opq_calls.append((it.pc, o, it.site()))
    return o
  it.gap(f'no model for {p}')


# ---------------------------------------------------------------- attributes
def obj_attr(it, o, name):
  if o.cls.is_dc():
    if name == 'replace' and o.cls.is_dc() == 'chex':
      return Native('replace', lambda **k: _dc_replace(o, **k))
    if o.cls.is_dc() == 'chex':
      if name == 'items':
        return Native('items', lambda: IterVal([(n, o.fields[n]) for n, _ in o.cls.all_fields()]))
      if name == 'keys':
        return Native('keys', lambda: IterVal([n for n, _ in o.cls.all_fields()]))
      if name == 'values':
        return Native('values', lambda: IterVal([o.fields[n] for n, _ in o.cls.all_fields()]))
      if name == 'get':
        return Native('get', lambda k, d=None: o.fields.get(k, d))
      if name == 'to_tuple':
        return Native('to_tuple', lambda: tuple(o.fields[n] for n, _ in o.cls.all_fields()))
  return None


def _flat_shape(args):
  if len(args) == 1 and isinstance(args[0], (tuple, list)):
    return shp(args[0])
  return shp(list(args))


def value_attr(it, o, name):
  if isinstance(o, (str,)):
    m = getattr(o, name, None)
    if m is None:
      return MISSING

    def f(*a, **k):
      if name == 'join':
        a = (['' if not isinstance(x, str) else x for x in it.iterate(a[0])],)
      if name == 'format':
        return o
      a = tuple(x if isinstance(x, (str, int, tuple, list, dict, type(None))) else f'{x!r}' for x in a)
      return m(*a, **k)
    return Native('str.' + name, f)
  if isinstance(o, Arr):
    return arr_attr(it, o, name)
  if isinstance(o, Sym):
    if name in ('dtype',):
      return DType({'int': 'int32', 'float': 'float32', 'bool': 'bool'}[o.kind])
    return MISSING
  if isinstance(o, dict):
    return dict_attr(it, o, name)
  if isinstance(o, list):
    return list_attr(it, o, name)
  if isinstance(o, tuple):
    if name == 'index':
      return Native('index', lambda x: o.index(x))
    if name == 'count':
      return Native('count', lambda x: o.count(x))
    return MISSING
  if isinstance(o, (set, frozenset)):
    m = getattr(o, name, None)
    if m is None:
      return MISSING

    def g(*a):
      if name in ('add', 'update', 'discard', 'remove', 'pop', 'clear'):
        it.note_write(o, name)
        it.check_container(o)
      return m(*[set(it.iterate(x)) if name not in ('add', 'discard', 'remove') else x for x in a])
    return Native('set.' + name, g)
  if isinstance(o, AtRef):
    if name in ('set', 'add', 'multiply', 'mul', 'min', 'max', 'divide', 'power'):
      def upd(v, **k):
        key = o.key
        if isinstance(k.get('mode'), str) and k['mode'] not in ('drop', 'fill', 'promise_in_bounds'):
          raise Gap('indexed update mode')
        r = A.at_update(o.arr, key, arr(v), {'mul': 'multiply'}.get(name, name))
        return r
      return Native('at.' + name, upd)
    if name == 'get':
      def get(**k):
        if k.get('fill_value') is not None or isinstance(k.get('mode'), str) and k['mode'] not in ('clip', 'promise_in_bounds'):
          raise Gap('indexed read mode')
        return A.getitem(o.arr, o.key)
      return Native('at.get', get)
    if name == 'apply':
      return Native('at.apply', lambda f, **k: A.at_update(o.arr, o.key, arr(it.call(f, [A.getitem(o.arr, o.key)], {})), 'set'))
    return MISSING
  if isinstance(o, DType):
    if name == 'name':
      return o.name
    if name == 'type':
      return o
    if name == 'kind':
      return 'b' if o.name == 'bool' else 'f' if 'float' in o.name else 'i'
    return MISSING
  if isinstance(o, Opq):
    if name in o.attrs:
      return o.attrs[name]
    if o.call and name in o.kwargs:
      return o.kwargs[name]
    sig = SIGS.get(o.path)
    if o.call and sig and name in sig:
      k = sig.index(name)
      if k < len(o.args):
        return o.args[k]
      return None
    if o.path == 'dm_env.TimeStep' and name in ('first', 'mid', 'last'):
      return Native(name, lambda: o.kwargs['step_type'] == name.upper())
    return Opq(name, parent=o)
  if isinstance(o, (Native, Partial)):
    if name == '__name__':
      return o.name if isinstance(o, Native) else 'partial'
    if isinstance(o, Native) and o.name == 'dict' and name == 'fromkeys':
      return Native('fromkeys', lambda ks, v=None: it.fresh({k: v for k in it.iterate(ks)}))
    if isinstance(o, Partial):
      return {'func': o.func, 'args': tuple(o.args), 'keywords': dict(o.kwargs)}.get(name, MISSING)
    return MISSING
  if isinstance(o, (int, float)):
    if name in ('shape', 'ndim', 'dtype', 'astype'):
      return MISSING
    if name in ('real',):
      return o
    if name == 'is_integer':
      return Native('is_integer', lambda: float(o).is_integer())
    if name == 'bit_length':
      return Native('bit_length', lambda: o.bit_length())
    return MISSING
  if isinstance(o, slice):
    return getattr(o, name, MISSING)
  return MISSING


SIGS = {'tensorflow.io.FixedLenFeature': ('shape', 'dtype', 'default_value'),
        'dm_env.specs.BoundedArray': ('shape', 'dtype', 'minimum', 'maximum', 'name'),
        'dm_env.specs.Array': ('shape', 'dtype', 'name'),
        'dm_env.specs.DiscreteArray': ('num_values', 'dtype', 'name')}


def arr_attr(it, a, name):
  if name == 'shape':
    return tuple(d if isinstance(d, int) else Sym(d) for d in a.shape)
  if name == 'ndim':
    return a.ndim
  if name == 'dtype':
    return DType(a.dtype)
  if name == 'size':
    return sym(A.size_of(a))
  if name in ('T', 'mT'):
    return A.transpose(a) if name == 'T' else A.swapaxes(a, -1, -2)
  if name == 'at':
    return AtProxy(a)
  if name == 'real':
    return a
  if name in ('conj', 'conjugate'):
    return Native(name, lambda: a)
  if name == 'astype':
    return Native('astype', lambda d, **k: cast(a, need_dtype(d).name))
  if name == 'reshape':
    return Native('reshape', lambda *s, order='C', **k: row_major(order) or A.reshape(a, _flat_shape(s if s else [k['shape']])))
  if name in ('flatten', 'ravel'):
    return Native(name, lambda order='C', **k: row_major(order) or A.reshape(a, [-1]))
  if name == 'squeeze':
    return Native('squeeze', lambda axis=None: A.squeeze(a, axis))
  if name == 'transpose':
    return Native('transpose', lambda *p: A.transpose(a, None if not p or p[0] is None else (p[0] if isinstance(p[0], (list, tuple)) else p)))
  if name == 'swapaxes':
    return Native('swapaxes', lambda i, j: A.swapaxes(a, i, j))
  if name == 'copy':
    return Native('copy', lambda: _nparray(a) if a.host else _array(a))
  if name == 'block_until_ready':
    return Native(name, lambda: a)
  if name in ('any', 'all', 'sum', 'max', 'min', 'mean', 'prod', 'argmin', 'argmax', 'cumsum', 'clip', 'repeat', 'take', 'dot', 'argsort', 'round', 'diagonal',
              'std', 'var', 'ptp', 'nonzero', 'searchsorted', 'trace', 'cumprod', 'choose', 'compress') or name == 'sort' and not a.host:
    f = NP[name]

    def g(*x, **k):
      r = bindcall.call('jax.numpy.' + name, f, (a,) + x, k)
      if isinstance(r, Arr):
        r.host = a.host
      return r
    return Native('arr.' + name, g)
  if name in ('fill', 'sort', 'put', 'itemset', 'resize', 'partition', 'setflags') and a.host:
    it.note_write(a, name)
  if name in ('item', 'tolist', '__array__', 'numpy', 'tobytes'):
    def h(*x):
      if not a.host and not a.concrete:
        it.traced_branches.append((it.site(), f'.{name}() of a traced array'))
      c = const_of(a)
      if c is not a:
        return c
      if a.ndim == 0:
        return sym(a.fn(()), 'bool' if a.dtype == 'bool' else 'int' if 'int' in a.dtype else 'float')
      if name == 'tolist' and isinstance(a.shape[0], int):
        return [arr_attr(it, A.getitem(a, k), 'tolist').fn() for k in range(a.shape[0])]
      return a
    return Native(name, h)
  return MISSING


def dict_attr(it, d, name):
  if name == 'items':
    return Native('items', lambda: IterVal(list(d.items())))
  if name == 'keys':
    return Native('keys', lambda: IterVal(list(d.keys())))
  if name == 'values':
    return Native('values', lambda: IterVal(list(d.values())))
  if name == 'get':
    def get(k, df=None):
      v = k.v if isinstance(k, Sym) else k.fn(()) if isinstance(k, Arr) and k.host and not k.shape and not k.concrete else None
      if v is not None and d and all(isinstance(x, int) for x in d) and len(d) <= 64:
        return it.pick(d, v, df)
      return d.get(it.hkey(k), df)
    return Native('get', get)
  if name == 'copy':
    return Native('copy', lambda: it.fresh(dict(d)))
  if name == 'pop':
    def pop(k, *df):
      it.note_write(d, f'pop {k!r}')
      it.check_container(d)
      if k not in d and not df:
        it.throw('KeyError', k)
      return d.pop(k, *df)
    return Native('pop', pop)
  if name == 'update':
    def upd(*a, **k):
      it.note_write(d, 'update')
      it.check_container(d)
      d.update(_dict(*a, **k))
    return Native('update', upd)
  if name == 'setdefault':
    def sd(k, v=None):
      if k not in d:
        it.note_write(d, f'setdefault {k!r}')
        it.check_container(d)
      return d.setdefault(k, v)
    return Native('setdefault', sd)
  if name == 'clear':
    def cl():
      it.note_write(d, 'clear')
      d.clear()
    return Native('clear', cl)
  return MISSING


def list_attr(it, l, name):
  if name in ('append', 'extend', 'insert', 'pop', 'reverse', 'sort', 'remove', 'clear'):
    def f(*a, **k):
      it.note_write(l, name)
      it.check_container(l)
      if name == 'extend':
        return l.extend(it.iterate(a[0]))
      if name == 'sort':
        l[:] = _sorted(l, **k)
        return None
      return getattr(l, name)(*a)
    return Native('list.' + name, f)
  if name == 'index':
    return Native('index', lambda x: l.index(x))
  if name == 'count':
    return Native('count', lambda x: l.count(x))
  if name == 'copy':
    return Native('copy', lambda: it.fresh(list(l)))
  return MISSING


def construct_special(it, cls, args, kwargs):
  for c in cls.mro():
    if isinstance(c, Ext) and c.path in ('typing.NamedTuple',):
      o = Obj(cls)
      names = [n for n, _ in cls.own_anns]
      vals = dict(zip(names, args))
      vals.update(kwargs)
      for n, d in cls.own_anns:
        if n not in vals and d is not MISSING:
          vals[n] = d
      o.fields = {n: vals[n] for n in names}
      return o
  return None


def install(it):
  global IT
  IT = it
  A.STATIC_HOOK = static
  it.ext_hooks = {}
  it.rng_new = []
  it.host_eq = []
  if not TABLE:
    build_table()
