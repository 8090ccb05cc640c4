"""Symbolic inputs of the documented shapes, and the obligation recorder."""
import json
import os
import time

from . import terms as t
from . import arrays as A
from . import interp as I
from .arrays import Arr, Sym, asarr, Gap, ShapeErr
from .interp import Obj, Native, Phi, PyRaise, Interp

REPO = os.environ.get('WX_REPO', '/repo')


class Missing(Exception):
  """An anchor of a property (module, class, function, field) is not there."""


UNDECIDED = (Gap, Missing, t.TermError, RecursionError)


def cell(name, shape, dtype='float32'):
  """An input array: every element is its own input cell."""
  sort = 'b' if dtype == 'bool' else 'n'
  isint = 'int' in dtype
  r = Arr(shape, dtype, lambda idx: t.inp(name, *idx, sort=sort, isint=isint))
  r.tag = name
  return r


N, T, R, P, L = t.dim('N'), t.dim('T'), t.dim('R'), t.dim('P'), t.dim('L')
PATHS, PPTS = t.dim('P'), t.dim('Q')
B = t.dim('B')
B2 = t.dim('C')

DT = {
    'ids': 'int32', 'object_types': 'int32', 'is_sdc': 'bool', 'is_modeled': 'bool', 'is_valid': 'bool',
    'objects_of_interest': 'bool', 'is_controlled': 'bool', 'valid': 'bool', 'timestamp_micros': 'int32',
    'types': 'int32', 'state': 'int32', 'lane_ids': 'int32', 'on_route': 'bool',
}
TRAJ = ['x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid', 'timestamp_micros', 'length', 'width', 'height']
META = ['ids', 'object_types', 'is_sdc', 'is_modeled', 'is_valid', 'objects_of_interest', 'is_controlled']
LIGHT = ['x', 'y', 'z', 'state', 'lane_ids', 'valid']
ROAD = ['x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids', 'valid']
PATH = ['x', 'y', 'z', 'ids', 'valid', 'arc_length', 'on_route']
UPD = ['x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid']


# Entry point of the program analysed last: locates violations without a
# more specific construct.
LAST = ['']


def _location(it, f):
  while isinstance(f, (I.Bound, I.SMeth, I.CMeth, I.Partial)):
    f = f.func if isinstance(f, (I.Bound, I.Partial)) else f.f
  if not isinstance(f, (I.Func, I.Cls)) or f.mod is None or f.node is None:
    return None
  path = os.path.relpath(f.mod.path, it.root)
  return None if path.startswith('..') else f'{path}:{f.node.lineno} ({f.name})'


class World:
  """A fresh compilation of the tree, with constructors for symbolic inputs."""

  def __init__(self, root=None):
    self.it = Interp(root or REPO)

  # -- program access
  def get(self, dotted):
    try:
      r = self.it.get(dotted)
    except (KeyError, AttributeError, PyRaise) as e:
      raise Missing(f'{dotted}: {e}')
    if r is None:
      raise Missing(dotted)
    return r

  def ref(self, dotted, *args, **kw):
    """Compile a reference formula of /verif/refs on the given inputs."""
    return self.it.call(self.it.get('refs.' + dotted), list(args), kw)

  def call(self, f, *args, **kw):
    if isinstance(f, str):
      f = self.get(f)
    return self._call(f, args, kw)

  def _call(self, f, args, kw):
    at = _location(self.it, f)
    if at is not None:
      LAST[0] = at
    return self.it.call(f, list(args), kw)

  def m(self, obj, name, *args, **kw):
    return self._call(self.it.getattr(obj, name), args, kw)

  def attr(self, obj, name):
    return self.it.getattr(obj, name)

  def new(self, cls, *args, **kw):
    if isinstance(cls, str):
      cls = self.get(cls)
    return self._call(cls, args, kw)

  def rec(self, cls, name, shape, fields, **over):
    """Symbolic instance of a data container; every listed field is a cell array."""
    if isinstance(cls, str):
      cls = self.get(cls)
    declared = [n for n, _ in cls.all_fields()]
    vals = {}
    for f in declared:
      if f in over:
        vals[f] = over[f]
      elif f in fields:
        vals[f] = cell(f'{name}.{f}', shape, DT.get(f, 'float32'))
    for f in fields:
      if f not in declared:
        raise Missing(f'field {f} of {cls.name}')
    return self.it.construct(cls, [], vals)

  def traj(self, name='sim', b=(), n=N, T_=T, **over):
    return self.rec('waymax.datatypes.object_state.Trajectory', name, tuple(b) + (n, T_), TRAJ, **over)

  def meta(self, name='meta', b=(), n=N, **over):
    return self.rec('waymax.datatypes.object_state.ObjectMetadata', name, tuple(b) + (n,), META, **over)

  def lights(self, name='tl', b=(), l=L, T_=T, **over):
    return self.rec('waymax.datatypes.traffic_lights.TrafficLights', name, tuple(b) + (l, T_), LIGHT, **over)

  def road(self, name='road', b=(), r=R, **over):
    return self.rec('waymax.datatypes.roadgraph.RoadgraphPoints', name, tuple(b) + (r,), ROAD, **over)

  def paths(self, name='paths', b=(), p=PATHS, q=PPTS, **over):
    pc = self.get('waymax.datatypes.route.Paths')
    if 'on_route' not in over:
      over['on_route'] = cell(f'{name}.on_route', tuple(b) + (p, 1), 'bool')
    return self.rec(pc, name, tuple(b) + (p, q), PATH, **over)

  def state(self, b=(), n=N, T_=T, paths=True, road=True, batched_time=False, timestep=None, **over):
    cls = self.get('waymax.datatypes.simulator_state.SimulatorState')
    ts = timestep if timestep is not None else cell('t', tuple(b) if batched_time else (), 'int32')
    vals = dict(
        sim_trajectory=self.traj('sim', b, n, T_), log_trajectory=self.traj('log', b, n, T_),
        log_traffic_light=self.lights('tl', b, L, T_), object_metadata=self.meta('meta', b, n),
        timestep=ts, sdc_paths=self.paths('paths', b) if paths else None,
        roadgraph_points=self.road('road', b) if road else None)
    vals.update(over)
    for f in vals:
      if f not in [x for x, _ in cls.all_fields()]:
        raise Missing(f'SimulatorState.{f}')
    return self.it.construct(cls, [], vals)

  def action(self, d, b=(), n=N, name='act'):
    cls = self.get('waymax.datatypes.action.Action')
    dt = 'float32'
    return self.it.construct(cls, [], dict(data=cell(f'{name}.data', tuple(b) + (n, d) if n is not None else tuple(b) + (d,), dt),
                                           valid=cell(f'{name}.valid', tuple(b) + (n, 1) if n is not None else tuple(b) + (1,), 'bool')))

  def update(self, b=(), n=N, name='upd'):
    return self.rec('waymax.datatypes.action.TrajectoryUpdate', name, tuple(b) + (n, 1), UPD)

  def config(self, cls='EnvironmentConfig', **kw):
    return self.new(f'waymax.config.{cls}', **kw)

  def enum(self, dotted, member):
    c = self.get(dotted)
    if member not in c.members:
      raise Missing(f'{dotted}.{member}')
    return c.members[member]


_ix = {}


def ixs(shape):
  """Arbitrary indices into an array: one variable per axis position and size."""
  out = []
  for k, d in enumerate(shape):
    if isinstance(d, int) and d == 1:
      out.append(t.ZERO)
      continue
    key = (k, A.dv(d).id)
    if key not in _ix:
      _ix[key] = t.fresh_var(A.dv(d))
    out.append(_ix[key])
  return tuple(out)


class Checker:
  """Records obligations and violations of one property."""

  def __init__(self, pid, tier='quick'):
    self.pid, self.tier = pid, tier
    self.obl = []          # (id, ok)
    self.viol = []         # dict(rule, where, what, detail)
    self.notes = []
    self.functions = {}
    self.counts = {}
    self.t0 = time.time()
    self.worlds = []
    self.assumptions = []
    self.gaps = []
    self.min_obl = 1

  # -- worlds
  def world(self):
    w = World()
    self.worlds.append(w)
    return w

  def count(self, k, n=1):
    self.counts[k] = self.counts.get(k, 0) + n

  # -- recording
  def ok(self, rule, what):
    self.obl.append((f'{rule}: {what}', True))

  def bad(self, rule, what, where='', detail=''):
    self.obl.append((f'{rule}: {what}', False))
    self.viol.append(dict(rule=rule, what=what, where=where or LAST[0], detail=str(detail)[:4000]))

  def check(self, cond, rule, what, where='', detail=''):
    if cond:
      self.ok(rule, what)
    else:
      self.bad(rule, what, where, detail)
    return bool(cond)

  def gap(self, rule, what, e):
    """An obligation the analysis could not decide: reported, never a violation."""
    self.gaps.append((f'{rule}: {what}', f'{type(e).__name__}: {e.args[0] if e.args else ""}'))

  def node(self, rule, what, got, want, where='', facts=()):
    """got and want are nodes: must be congruent."""
    try:
      got, want = t.lift(got), t.lift(want)
      w = t.differ(got, want, facts)
    except UNDECIDED as e:
      self.gap(rule, what, e)
      return False
    if w is None:
      self.ok(rule, what)
      return True
    self.bad(rule, what, where, 'differs: ' + t.show_witness(w))
    return False

  def arr(self, rule, what, got, want, shape=None, dtype=None, facts=None, where=''):
    """got: Arr from the program; want: Arr or function of index nodes."""
    try:
      return self._arr(rule, what, got, want, shape, dtype, facts, where)
    except UNDECIDED as e:
      self.gap(rule, what, e)
      return False

  def _arr(self, rule, what, got, want, shape, dtype, facts, where):
    if isinstance(got, Phi):
      raise Gap(f'{what}: value of unknown structure {got!r}')
    if got is None or isinstance(got, (str, dict, Obj)):
      self.bad(rule, what, where, f'expected an array, got {got!r}')
      return False
    got = asarr(got)
    where = where or got.origin or ''
    if isinstance(want, Arr):
      shape = want.shape if shape is None else shape
      wf = lambda *i: want.fn(A.bidx(want.shape, i))
    else:
      wf = want
    if shape is not None:
      if len(shape) != len(got.shape) or not all(A.same_dim(a, b) for a, b in zip(shape, got.shape)):
        self.bad(rule, what, where, f'shape {got.shape} instead of {tuple(shape)}')
        return False
    if dtype is not None and got.dtype != dtype:
      self.bad(rule, what + ' (element type)', where, f'element type {got.dtype} instead of {dtype}')
      return False
    idx = ixs(got.shape)
    fc = facts(*idx) if callable(facts) else (facts or ())
    g = got.fn(idx)
    w = t.lift(wf(*idx))
    if got.dtype == 'bool' and not w._bool:
      w = t.as_bool(w)
    d = t.differ(g, w, fc)
    if d is None:
      self.ok(rule, what)
      return True
    self.bad(rule, what, where, 'differs: ' + t.show_witness(d))
    return False

  def tree_same(self, rule, what, got, want, skip=(), where=''):
    """Two containers have the same fields with congruent arrays."""
    if want is None or got is None:
      return self.check(want is None and got is None, rule, what, where, f'{got!r} instead of {want!r}')
    if isinstance(want, Obj):
      if not isinstance(got, Obj) or got.cls is not want.cls:
        return self.check(False, rule, what, where, f'{got!r} instead of {want!r}')
      r = True
      for f, v in want.fields.items():
        if f in skip:
          continue
        r &= self.tree_same(rule, f'{what}.{f}', got.fields.get(f), v, (), where)
      return r
    if isinstance(want, (list, tuple)):
      if not isinstance(got, (list, tuple)) or len(got) != len(want):
        return self.check(False, rule, what, where, f'{got!r} instead of {want!r}')
      r = True
      for k, (g, v) in enumerate(zip(got, want)):
        r &= self.tree_same(rule, f'{what}[{k}]', g, v)
      return r
    if isinstance(want, dict):
      if not isinstance(got, dict) or list(got) != list(want):
        return self.check(False, rule, what, where, f'{got!r} instead of {want!r}')
      r = True
      for k in want:
        r &= self.tree_same(rule, f'{what}[{k!r}]', got[k], want[k])
      return r
    return self.arr(rule, what, got, asarr(want), where=where)

  def raises(self, w, rule, what, f, names=None, where=''):
    """The call must raise (on every path)."""
    n0 = len(w.it.raises)
    try:
      f()
    except (PyRaise, ShapeErr) as e:
      nm = exc_name(e)
      if names and nm not in names:
        self.bad(rule, what, getattr(e, 'site', None) or where, f'raises {nm} instead of {" or ".join(names)}')
        return False
      self.ok(rule, what)
      return True
    except UNDECIDED as e:
      self.gap(rule, what, e)
      return False
    self.bad(rule, what, where, 'accepted without an error')
    return False

  def run(self, w, rule, what, f, where=''):
    """Run a compilation that must not raise; returns (ok, value)."""
    n0 = len(w.it.raises)
    try:
      v = f()
    except PyRaise as e:
      self.bad(rule, what, e.site or where, f'raises {e.exc!r}')
      return False, None
    except ShapeErr as e:
      self.bad(rule, what, (e.args[1] if len(e.args) > 1 else where), f'shape error: {e.args[0]}')
      return False, None
    except Exception as e:  # pylint: disable=broad-except
      if os.environ.get('WX_TRACE'):
        import traceback
        traceback.print_exc()
      self.gap(rule, what, e)
      return False, None
    new = w.it.raises[n0:]
    if new:
      pc, exc, site = new[0]
      self.bad(rule, what, site or where, f'may raise {exc!r} when {t.show(pc)[:300]}')
      return False, v
    return True, v

  # -- dependence
  def reads(self, v):
    return t.cells(t.lift(v))


def exc_name(e):
  if isinstance(e, ShapeErr):
    return 'ValueError'
  x = e.exc
  if isinstance(x, I.Exc):
    return x.name
  if isinstance(x, Obj):
    return x.cls.name
  return str(x)


def field(o, name):
  if not isinstance(o, Obj):
    raise Gap(f'field {name} of {o!r}')
  if name not in o.fields:
    raise Missing(f'{o.cls.name}.{name}')
  return o.fields[name]
