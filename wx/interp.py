"""Program resolution and compilation of repo code into the value graph.

Works on the syntax trees of /repo only.  Host-level values that are constants
are folded; conditions that are not known are joined with gates (both arms are
compiled, then merged); nothing of the target program is imported or run.
"""
import ast
import builtins
import os

from . import terms as t
from . import arrays as A
from .arrays import Arr, Sym, Gap, ShapeErr, DType, sym, asarr


# Reference formulas of the specifications, compiled like the program's own code.
REFS = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class PyRaise(Exception):
  """The program raises here."""

  def __init__(self, exc, site=None):
    self.exc = exc
    self.site = site
    super().__init__(f'{exc!r}')


class Mod:
  def __init__(self, name, path, tree):
    self.name, self.path, self.tree = name, path, tree
    self.ns = {}
    self.loading = False
    self.loaded = False

  def __repr__(self):
    return f'<module {self.name}>'


class Ext:
  """A reference into a third-party or standard library."""
  __slots__ = ('path',)

  def __init__(self, path):
    self.path = path

  def __repr__(self):
    return f'<ext {self.path}>'

  def __eq__(self, o):
    return isinstance(o, Ext) and o.path == self.path

  def __hash__(self):
    return hash(self.path)


class Func:
  def __init__(self, node, mod, closure, defaults, kwdefaults, name, owner=None):
    self.node, self.mod, self.closure = node, mod, closure
    self.defaults, self.kwdefaults = defaults, kwdefaults
    self.name, self.owner = name, owner
    self.attrs = {}

  @property
  def qual(self):
    o = self.owner.name + '.' if self.owner is not None else ''
    return f'{self.mod.name}.{o}{self.name}'

  def __repr__(self):
    return f'<func {self.qual}>'


class Prop:
  def __init__(self, fget, fset=None):
    self.fget, self.fset = fget, fset


class SMeth:
  def __init__(self, f): self.f = f


class CMeth:
  def __init__(self, f): self.f = f


class Bound:
  def __init__(self, func, self_):
    self.func, self.self_ = func, self_

  def __repr__(self):
    return f'<bound {self.func!r}>'


class Native:
  """A callable implemented by the analyser (stub or library model)."""

  def __init__(self, name, fn, raw=False):
    self.name, self.fn, self.raw = name, fn, raw

  def __repr__(self):
    return f'<native {self.name}>'


class Partial:
  def __init__(self, func, args, kwargs):
    self.func, self.args, self.kwargs = func, args, kwargs


class Cls:
  def __init__(self, name, mod, bases, ns, node):
    self.name, self.mod, self.bases, self.ns, self.node = name, mod, bases, ns, node
    self.dc = None          # 'chex' / 'dataclasses' / None
    self.dcopts = {}
    self.fields = []        # own (name, default or MISSING)
    self.is_enum = False
    self.members = {}
    self._mro = None

  def mro(self):
    if self._mro is None:
      seqs = [list(b.mro()) if isinstance(b, Cls) else [b] for b in self.bases] + [list(self.bases)]
      out = [self]
      seqs = [s for s in seqs if s]
      while seqs:
        for s in seqs:
          c = s[0]
          if not any(c in x[1:] for x in seqs):
            break
        else:
          raise Gap(f'mro of {self.name}')
        out.append(c)
        seqs = [[x for x in s if x is not c and x != c] for s in seqs]
        seqs = [s for s in seqs if s]
      self._mro = out
    return self._mro

  def lookup(self, name):
    for c in self.mro():
      if isinstance(c, Cls) and name in c.ns:
        return c.ns[name], c
    return None, None

  def all_fields(self):
    out, seen = [], {}
    for c in reversed(self.mro()):
      if isinstance(c, Cls) and c.dc:
        for n, d in c.fields:
          if n in seen:
            out[seen[n]] = (n, d)
          else:
            seen[n] = len(out)
            out.append((n, d))
    return out

  def is_dc(self):
    for c in self.mro():
      if isinstance(c, Cls) and c.dc:
        return c.dc
    return None

  @property
  def qual(self):
    return f'{self.mod.name}.{self.name}'

  def __repr__(self):
    return f'<class {self.qual}>'


class Obj:
  _n = 0

  def __init__(self, cls, fields=None):
    self.cls = cls
    self.fields = fields if fields is not None else {}
    self.frozen = False
    self.tag = None
    Obj._n += 1
    self.oid = Obj._n

  def __repr__(self):
    return f'<{self.cls.name} obj>'


class EnumM:
  def __init__(self, cls, name, value):
    self.cls, self.name, self.value = cls, name, value

  def as_int(self):
    return self.value

  def __repr__(self):
    return f'{self.cls.name}.{self.name}'


class Opq:
  """Result of an un-modelled library call: an uninterpreted record."""

  def __init__(self, path, args=(), kwargs=None, parent=None, call=False):
    self.path, self.args, self.kwargs, self.parent, self.call = path, tuple(args), kwargs or {}, parent, call
    self.attrs = {}

  def chain(self):
    out, x = [], self
    while x is not None:
      out.append(x)
      x = x.parent
    return list(reversed(out))

  def __repr__(self):
    a = ', '.join([repr(x)[:60] for x in self.args] + [f'{k}={v!r:.60}' for k, v in self.kwargs.items()])
    base = f'{self.parent!r}.{self.path}' if self.parent is not None else self.path
    return f'{base}({a})' if self.call else base


class Phi:
  """Join of two structurally different host values."""

  def __init__(self, c, a, b):
    self.c, self.a, self.b = c, a, b

  def __repr__(self):
    return f'Phi({self.c}, {self.a!r}, {self.b!r})'


class Exc:
  """Exception class or instance (builtin)."""

  def __init__(self, name, args=(), inst=False):
    self.name, self.args, self.inst = name, args, inst

  def __repr__(self):
    return self.name + (repr(self.args) if self.inst else '')


MISSING = object()
UNDEF = object()

EXC_BASES = {
    'BaseException': None, 'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'AttributeError': 'Exception',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'AssertionError': 'Exception',
    'StopIteration': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'ImportError': 'Exception', 'OSError': 'Exception', 'FileNotFoundError': 'OSError', 'NameError': 'Exception',
    'UserWarning': 'Exception', 'Warning': 'Exception', 'DeprecationWarning': 'Warning', 'OverflowError': 'ArithmeticError',
    'ModuleNotFoundError': 'ImportError', 'UnicodeDecodeError': 'ValueError', 'RecursionError': 'RuntimeError'}


class Frame:
  def __init__(self, fn, parent_vars, mod):
    self.fn = fn
    self.vars = {}
    self.closure = parent_vars
    self.mod = mod
    self.live = t.TRUE
    self.rets = []
    self.pc0 = t.TRUE
    self.loops = []      # per active loop: dict(brk=V, cont=V)
    self.line = 0
    self.globals_ = set()
    self.nonlocals = set()
    self.yields = None
    self.done = False
    self.is_class = False


class Closure:
  """Chain of enclosing function variable maps."""

  def __init__(self, frame, parent):
    self.frame, self.parent = frame, parent

  def find(self, name):
    c = self
    while c is not None:
      if name in c.frame.vars and not c.frame.is_class:
        return c.frame
      c = c.parent
    return None


_parse_cache = {}


def parse_file(path):
  if path not in _parse_cache:
    with open(path, encoding='utf-8') as f:
      _parse_cache[path] = ast.parse(f.read(), path)
  return _parse_cache[path]


class Interp:
  def __init__(self, root='/repo', pkg='waymax'):
    self.root, self.pkg = root, pkg
    self.mods = {}
    self.stack = []
    self.pc = t.TRUE
    self.effects = []       # (site, description) writes to caller-visible state
    self.traced_branches = []
    self.raises = []        # (pc, exc, site)
    self.rng_uses = []
    self.scans = []
    self.calls_seen = {}    # qual -> count
    self.ext_seen = {}
    self.assert_log = []
    self.depth = 0
    self.arm_new = []
    self.opq_calls = []
    self.each = None        # representative positions of loops over symbolic axes
    self.frozen_ids = {}
    self.created = {}
    self.overrides = {}     # qual -> Native replacement
    self.warnings = []
    self.host_reads = []
    from . import lib
    self.lib = lib
    lib.install(self)

  # ------------------------------------------------------------ utilities
  def site(self):
    if not self.stack:
      return '?'
    f = self.stack[-1]
    path = os.path.relpath(f.mod.path, self.root) if f.mod else '?'
    name = f.fn.qual.split('.', 1)[-1] if f.fn else '<module>'
    return f'{path}:{f.line} ({name})'

  def gap(self, msg):
    raise Gap(f'{self.site()}: {msg}')

  def throw(self, name, *args):
    raise PyRaise(Exc(name, args, True), self.site())

  # ------------------------------------------------------------ modules
  def module(self, name):
    m = self.mods.get(name)
    if m is None and '.' in name:
      if self.module(name.rsplit('.', 1)[0]) is None:
        return None
      m = self.mods.get(name)
    if m is None:
      root = REFS if name.split('.')[0] == 'refs' else self.root
      p = os.path.join(root, *name.split('.'))
      if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
        path = os.path.join(p, '__init__.py')
      elif os.path.exists(p + '.py'):
        path = p + '.py'
      else:
        return None
      m = Mod(name, path, parse_file(path))
      m.is_pkg = path.endswith('__init__.py')
      self.mods[name] = m
    if not m.loaded and not m.loading:
      m.loading = True
      f = Frame(None, None, m)
      f.vars = m.ns
      m.ns['__name__'] = name
      saved, self.pc = self.pc, t.TRUE
      self.stack.append(f)
      try:
        self.block(m.tree.body, f)
      finally:
        self.stack.pop()
        self.pc = saved
      m.loaded = True
      m.loading = False
      for v in list(m.ns.values()):   # import-time arrays are concrete while tracing
        for x in v.ns.values() if isinstance(v, Cls) else (v,):
          for y in x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else (x,):
            if isinstance(y, Arr):
              y.concrete = True
    return m

  def import_(self, name):
    if name == self.pkg or name.startswith(self.pkg + '.'):
      m = self.module(name)
      if m is None:
        self.throw('ImportError', name)
      # bind submodule in parents
      parts = name.split('.')
      for k in range(1, len(parts)):
        par = self.module('.'.join(parts[:k]))
        if par is not None:
          par.ns.setdefault(parts[k], self.mods.get('.'.join(parts[:k + 1])))
      return m
    return Ext(name)

  def get(self, dotted):
    """Resolve a dotted repo path to a value."""
    parts = dotted.split('.')
    for k in range(len(parts), 0, -1):
      m = self.module('.'.join(parts[:k]))
      if m is not None:
        v = m
        for p in parts[k:]:
          v = self.getattr(v, p)
        return v
    raise Gap(f'anchor {dotted} not found')

  # ------------------------------------------------------------ statements
  def set_live(self, fr, live):
    fr.live = live
    self.pc = t.band(fr.pc0, live)

  def block(self, stmts, fr):
    for s in stmts:
      if fr.live is t.FALSE:
        return
      self.stmt(s, fr)

  def stmt(self, s, fr):
    fr.line = s.lineno
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      self.gap(f'statement {type(s).__name__}')
    m(s, fr)

  def s_Expr(self, s, fr):
    if isinstance(s.value, ast.Constant):
      return
    if isinstance(s.value, ast.Yield):
      v = self.ev(s.value.value, fr) if s.value.value else None
      fr.yields.append((self.pc, v))
      return
    if isinstance(s.value, ast.YieldFrom):
      v = self.ev(s.value.value, fr)
      for x in self.iterate(v):
        fr.yields.append((self.pc, x))
      return
    self.ev(s.value, fr)

  def s_Pass(self, s, fr):
    pass

  def s_Import(self, s, fr):
    for a in s.names:
      m = self.import_(a.name)
      if a.asname:
        self.bind(a.asname, m, fr)
      else:
        top = a.name.split('.')[0]
        self.bind(top, self.import_(top), fr)

  def s_ImportFrom(self, s, fr):
    if s.module == '__future__':
      return
    if s.level:
      base = fr.mod.name.split('.')
      if not fr.mod.is_pkg:
        base = base[:-1]
      base = base[:len(base) - (s.level - 1)]
      name = '.'.join(base + ([s.module] if s.module else []))
    else:
      name = s.module
    m = self.import_(name)
    for a in s.names:
      if isinstance(m, Ext):
        v = Ext(m.path + '.' + a.name)
      elif a.name in m.ns:
        v = m.ns[a.name]
      else:
        v = self.module(name + '.' + a.name)
        if v is None:
          if m.loading and a.name not in m.ns:
            self.gap(f'circular import of {name}.{a.name}')
          self.throw('ImportError', f'{name}.{a.name}')
      self.bind(a.asname or a.name, v, fr)

  def s_FunctionDef(self, s, fr):
    f = self.make_func(s, fr, s.name)
    for d in reversed(s.decorator_list):
      f = self.decorate(self.ev(d, fr), f)
    self.bind(s.name, f, fr)

  def s_AsyncFunctionDef(self, s, fr):
    self.gap('async function')

  def make_func(self, node, fr, name):
    a = node.args
    defaults = [self.ev(d, fr) for d in a.defaults]
    kwd = {k.arg: (self.ev(d, fr) if d is not None else MISSING) for k, d in zip(a.kwonlyargs, a.kw_defaults)}
    closure = Closure(fr, fr.closure) if fr.fn is not None else None
    f = Func(node, fr.mod, closure, defaults, kwd, name)
    return f

  def decorate(self, d, f):
    if isinstance(d, Ext):
      p = d.path
      if p in ('property', 'functools.cached_property', 'abc.abstractproperty'):
        return Prop(f)
      if p == 'staticmethod':
        return SMeth(f)
      if p == 'classmethod':
        return CMeth(f)
      if p in self.lib.TRANSPARENT_DECORATORS:
        if p.startswith('abc.'):
          if isinstance(f, Func):
            f.attrs['abstract'] = True
        return f
    if isinstance(d, Native) and getattr(d, 'name', '') == 'prop_setter':
      return d.fn(f)
    if isinstance(d, Opq) and d.path in self.lib.TRANSPARENT_DECORATORS:
      return f
    return self.call(d, [f], {})

  def s_ClassDef(self, s, fr):
    bases = [self.ev(b, fr) for b in s.bases]
    bases = [b if not isinstance(b, Opq) else Ext('generic') for b in bases]
    cf = Frame(fr.fn, Closure(fr, fr.closure) if fr.fn is not None else None, fr.mod)
    cf.pc0 = self.pc
    # class bodies see module globals / enclosing function
    cf.is_class = True
    cf.line = s.lineno
    cls = Cls(s.name, fr.mod, bases, cf.vars, s)
    self.stack.append(cf)
    anns = []
    try:
      for st in s.body:
        cf.line = st.lineno
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
          ann = ast.unparse(st.annotation)
          if 'ClassVar' not in ann:
            anns.append((st.target.id, MISSING if st.value is None else None, st))
          if st.value is not None:
            cf.vars[st.target.id] = self.ev(st.value, cf)
        else:
          self.stmt(st, cf)
    finally:
      self.stack.pop()
    for v in list(cf.vars.values()):
      for g in ([v] if isinstance(v, Func) else [v.fget, v.fset] if isinstance(v, Prop) else [v.f] if isinstance(v, (SMeth, CMeth)) else []):
        if isinstance(g, Func) and g.owner is None and g.name != '<lambda>':
          g.owner = cls
    cls.own_anns = [(n, (MISSING if d is MISSING else cf.vars.get(n))) for n, d, _ in anns]
    cls.ann_src = {n: ast.unparse(st.annotation) for n, _, st in anns}
    enumbase = any((isinstance(b, Ext) and b.path in ('enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag', 'enum.StrEnum')) or (isinstance(b, Cls) and b.is_enum) for b in bases)
    if enumbase:
      cls.is_enum = True
      cls.int_enum = any((isinstance(b, Ext) and b.path.startswith('enum.Int')) or (isinstance(b, Cls) and getattr(b, 'int_enum', False)) for b in bases)
      auto = 0
      for n, v in list(cf.vars.items()):
        if n.startswith('_') or isinstance(v, (Func, Prop, SMeth, CMeth)):
          continue
        if isinstance(v, Opq) and v.path == 'enum.auto':
          v = auto + 1
        if isinstance(v, int):
          auto = v
        em = EnumM(cls, n, v)
        cls.members[n] = em
        cf.vars[n] = em
    out = cls
    for d in reversed(s.decorator_list):
      dv = self.ev(d, fr)
      out = self.class_decorate(dv, out)
    self.bind(s.name, out, fr)

  def class_decorate(self, d, cls):
    path = d.path if isinstance(d, (Ext, Opq)) else None
    if path in ('chex.dataclass', 'dataclasses.dataclass', 'flax.struct.dataclass', 'jax_dataclasses.pytree_dataclass'):
      cls.dc = {'chex.dataclass': 'chex', 'dataclasses.dataclass': 'dataclasses'}.get(path, 'chex')
      cls.dcopts = dict(d.kwargs) if isinstance(d, Opq) else {}
      cls.fields = [(n, v) for n, v in cls.own_anns]
      return cls
    if path in self.lib.TRANSPARENT_DECORATORS or (path or '').startswith('typing.'):
      return cls
    return self.call(d, [cls], {})

  def s_Return(self, s, fr):
    v = self.ev(s.value, fr) if s.value is not None else None
    fr.rets.append((fr.live, v))
    self.set_live(fr, t.FALSE)

  def s_Assign(self, s, fr):
    v = self.ev(s.value, fr)
    for tg in s.targets:
      self.assign(tg, v, fr)

  def s_AnnAssign(self, s, fr):
    if s.value is not None:
      self.assign(s.target, self.ev(s.value, fr), fr)

  def s_AugAssign(self, s, fr):
    tg = s.target
    if isinstance(tg, ast.Name):
      old = self.lookup(tg.id, fr)
      new = self.binop(s.op, old, self.ev(s.value, fr), inplace=True)
      if new is not old:
        self.assign(tg, new, fr)
    elif isinstance(tg, ast.Attribute):
      o = self.ev(tg.value, fr)
      old = self.getattr(o, tg.attr)
      new = self.binop(s.op, old, self.ev(s.value, fr), inplace=True)
      self.setattr(o, tg.attr, new)
    elif isinstance(tg, ast.Subscript):
      o = self.ev(tg.value, fr)
      k = self.ev_index(tg.slice, fr)
      if isinstance(o, Arr) and any(isinstance(x, Arr) and x.dtype == 'bool' and x.ndim for x in (k if isinstance(k, tuple) else (k,))):
        v = self.ev(s.value, fr)
        if A.asarr(v).shape == ():
          # masked entries are updated where they stand
          hit = A.at_update(Arr(o.shape, 'bool', lambda i: t.FALSE), k, True)
          was = Arr(o.shape, o.dtype, o._fn)
          new = A.elementwise(lambda c, a, b: t.ite(c, a, b), hit, self.binop(s.op, was, v), was, dtype=o.dtype)
          self.setitem(o, Ellipsis, new)
          return
        old = self.getitem(o, k)
        self.setitem(o, k, self.binop(s.op, old, v, inplace=True))
        return
      old = self.getitem(o, k)
      new = self.binop(s.op, old, self.ev(s.value, fr), inplace=True)
      self.setitem(o, k, new)
    else:
      self.gap('augmented assignment')

  def s_Delete(self, s, fr):
    for tg in s.targets:
      if isinstance(tg, ast.Name):
        fr.vars.pop(tg.id, None)
      elif isinstance(tg, ast.Subscript):
        o = self.ev(tg.value, fr)
        k = self.ev_index(tg.slice, fr)
        if isinstance(o, dict):
          self.note_write(o, f'del item {k!r}')
          if k not in o:
            self.throw('KeyError', k)
          del o[k]
        else:
          self.gap('del')
      else:
        self.gap('del')

  def s_Global(self, s, fr):
    fr.globals_ |= set(s.names)

  def s_Nonlocal(self, s, fr):
    fr.nonlocals |= set(s.names)

  def s_Assert(self, s, fr):
    c = self.truth(self.ev(s.test, fr), host_ok=True)
    if c is False:
      raise PyRaise(Exc('AssertionError', (), True), self.site())
    if c is not True:
      self.raises.append((t.band(self.pc, t.bnot(c)), Exc('AssertionError', (), True), self.site()))
      self.set_live(fr, t.band(fr.live, c))

  def s_Raise(self, s, fr):
    if s.exc is None:
      cur = getattr(fr, 'cur_exc', None)
      raise PyRaise(cur or Exc('RuntimeError', (), True), self.site())
    e = self.ev(s.exc, fr)
    if isinstance(e, Exc) and not e.inst:
      e = Exc(e.name, (), True)
    if isinstance(e, Cls):
      e = self.call(e, [], {})
    raise PyRaise(e, self.site())

  def s_If(self, s, fr):
    c = self.truth(self.ev(s.test, fr))
    if c is True:
      return self.block(s.body, fr)
    if c is False:
      return self.block(s.orelse, fr)
    self.branch(c, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr), fr)

  def branch(self, c, then, other, fr):
    """Compile both arms and join variables with gates on c."""
    base_live = fr.live
    snap = dict(fr.vars)
    self.set_live(fr, t.band(base_live, c))
    dead_a = self.arm(then, fr)
    va, la = fr.vars, fr.live
    va = dict(va)
    fr.vars.clear(); fr.vars.update(snap)
    self.set_live(fr, t.band(base_live, t.bnot(c)))
    dead_b = self.arm(other, fr)
    vb, lb = dict(fr.vars), fr.live
    if la is t.FALSE and lb is t.FALSE:
      fr.vars.clear(); fr.vars.update(va)
    elif la is t.FALSE:
      fr.vars.clear(); fr.vars.update(vb)
    elif lb is t.FALSE:
      fr.vars.clear(); fr.vars.update(va)
    else:
      fr.vars.clear()
      for k in list(va) + [k for k in vb if k not in va]:
        x, y = va.get(k, UNDEF), vb.get(k, UNDEF)
        if x is UNDEF:
          fr.vars[k] = y
        elif y is UNDEF:
          fr.vars[k] = x
        else:
          fr.vars[k] = self.merge(c, x, y)
    self.set_live(fr, t.bor(la, lb))

  def arm(self, th, fr):
    self.arm_new.append([])
    try:
      th()
      return False
    except PyRaise as e:
      self.raises.append((self.pc, e.exc, e.site))
      self.set_live(fr, t.FALSE)
      return True
    except ShapeErr as e:
      self.raises.append((self.pc, Exc('ValueError', e.args[:1], True), self.site()))
      self.set_live(fr, t.FALSE)
      return True
    finally:
      new = self.arm_new.pop()
      if self.arm_new:
        self.arm_new[-1] += new

  def s_For(self, s, fr):
    it = self.ev(s.iter, fr)
    self.loop(list(self.iterate(it)), s, fr)

  def loop(self, items, s, fr):
    lp = {'brk': t.FALSE, 'cont': t.FALSE}
    fr.loops.append(lp)
    entry = fr.live
    for x in items:
      if fr.live is t.FALSE:
        break
      self.assign(s.target, x, fr)
      self.block(s.body, fr)
      if lp['cont'] is not t.FALSE:
        self.set_live(fr, t.bor(fr.live, lp['cont']))
        lp['cont'] = t.FALSE
    if fr.live is not t.FALSE and s.orelse:
      self.block(s.orelse, fr)
    fr.loops.pop()
    if lp['brk'] is not t.FALSE:
      self.set_live(fr, t.bor(fr.live, lp['brk']))

  def s_Break(self, s, fr):
    lp = fr.loops[-1]
    lp['brk'] = t.bor(lp['brk'], fr.live)
    self.set_live(fr, t.FALSE)

  def s_Continue(self, s, fr):
    lp = fr.loops[-1]
    lp['cont'] = t.bor(lp['cont'], fr.live)
    self.set_live(fr, t.FALSE)

  def s_While(self, s, fr):
    lp = {'brk': t.FALSE, 'cont': t.FALSE}
    fr.loops.append(lp)
    n = 0
    while fr.live is not t.FALSE:
      c = self.truth(self.ev(s.test, fr))
      if c is False:
        break
      if c is not True:
        self.gap('while loop with unknown condition')
      self.block(s.body, fr)
      if lp['cont'] is not t.FALSE:
        self.set_live(fr, t.bor(fr.live, lp['cont']))
        lp['cont'] = t.FALSE
      n += 1
      if n > 2000:
        self.gap('while loop does not fold')
    fr.loops.pop()
    if lp['brk'] is not t.FALSE:
      self.set_live(fr, t.bor(fr.live, lp['brk']))

  def s_With(self, s, fr):
    for it in s.items:
      v = self.ev(it.context_expr, fr)
      if isinstance(v, Obj):
        e = self.getattr(v, '__enter__', None)
        v = self.call(e, [], {}) if e is not None else v
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, fr)
    self.block(s.body, fr)

  def s_Try(self, s, fr):
    try:
      n0 = len(self.raises)
      self.block(s.body, fr)
      # conditional raises inside the body that a handler would catch
      for pc, exc, site in self.raises[n0:]:
        if any(self.matches(h, exc, fr) for h in s.handlers):
          self.gap('conditional raise inside try')
      if fr.live is not t.FALSE:
        self.block(s.orelse, fr)
    except PyRaise as e:
      for h in s.handlers:
        if self.matches(h, e.exc, fr):
          if h.name:
            fr.vars[h.name] = e.exc
          old = getattr(fr, 'cur_exc', None)
          fr.cur_exc = e.exc
          self.block(h.body, fr)
          fr.cur_exc = old
          break
      else:
        self.block(s.finalbody, fr)
        raise
    except ShapeErr as e:
      for h in s.handlers:
        if self.matches(h, Exc('ValueError', (), True), fr) or self.matches(h, Exc('TypeError', (), True), fr):
          self.block(h.body, fr)
          break
      else:
        raise
    self.block(s.finalbody, fr)

  def matches(self, h, exc, fr):
    if h.type is None:
      return True
    ty = self.ev(h.type, fr)
    tys = ty if isinstance(ty, tuple) else (ty,)
    return any(self.exc_isinstance(exc, x) for x in tys)

  def exc_isinstance(self, exc, ty):
    if isinstance(ty, Exc):
      if isinstance(exc, Exc):
        n = exc.name
      else:
        n = None
        for c in exc.cls.mro():
          if isinstance(c, Exc):
            n = c.name
            break
      while n is not None:
        if n == ty.name:
          return True
        n = EXC_BASES.get(n)
      return False
    if isinstance(ty, Cls):
      return isinstance(exc, Obj) and ty in exc.cls.mro()
    return False

  def s_Match(self, s, fr):
    subj = self.ev(s.subject, fr)

    def rest(k):
      if k >= len(s.cases):
        return
      cs = s.cases[k]
      c = self.match_pat(cs.pattern, subj, fr)
      if cs.guard is not None and c is not False:
        g = self.truth(self.ev(cs.guard, fr))
        c = g if c is True else self.and_(c, g)
      if c is True:
        self.block(cs.body, fr)
      elif c is False:
        rest(k + 1)
      else:
        self.branch(c, lambda: self.block(cs.body, fr), lambda: rest(k + 1), fr)
    rest(0)

  def and_(self, a, b):
    if a is True:
      return b
    if b is True:
      return a
    if a is False or b is False:
      return False
    return t.band(a, b)

  def match_pat(self, p, v, fr):
    if isinstance(p, ast.MatchValue):
      return self.truth(self.compare1('==', v, self.ev(p.value, fr)))
    if isinstance(p, ast.MatchSingleton):
      return v is p.value
    if isinstance(p, ast.MatchAs):
      if p.pattern is not None:
        c = self.match_pat(p.pattern, v, fr)
      else:
        c = True
      if p.name:
        fr.vars[p.name] = v
      return c
    if isinstance(p, ast.MatchOr):
      r = False
      for q in p.patterns:
        c = self.match_pat(q, v, fr)
        if c is True:
          return True
        if c is not False:
          r = c if r is False else t.bor(r, c)
      return r
    self.gap('match pattern')

  # ------------------------------------------------------------ binding
  def bind(self, name, v, fr):
    if name in fr.globals_:
      self.effects.append((self.site(), f'assignment to global {name}'))
      fr.mod.ns[name] = v
      return
    if name in fr.nonlocals:
      f2 = fr.closure.find(name)
      if f2.done:
        self.effects.append((self.site(), f'assignment to {name}, kept between calls of the enclosing function'))
      f2.vars[name] = self.guard(v, f2.vars.get(name, UNDEF))
      return
    if any(lp['brk'] is not t.FALSE or lp['cont'] is not t.FALSE for lp in fr.loops) and name in fr.vars:
      v = self.merge(fr.live, v, fr.vars[name])
    fr.vars[name] = v

  def guard(self, new, old):
    """Value after a write under the current path condition."""
    if self.pc is t.TRUE or old is UNDEF or old is new:
      return new
    return self.merge(self.pc, new, old)

  def assign(self, tg, v, fr):
    if isinstance(tg, ast.Name):
      self.bind(tg.id, v, fr)
    elif isinstance(tg, (ast.Tuple, ast.List)):
      star = [k for k, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
      items = list(self.iterate(v))
      if star:
        k = star[0]
        n = len(tg.elts)
        for e, x in zip(tg.elts[:k], items[:k]):
          self.assign(e, x, fr)
        tail = n - k - 1
        self.assign(tg.elts[k].value, list(items[k:len(items) - tail]), fr)
        for e, x in zip(tg.elts[k + 1:], items[len(items) - tail:]):
          self.assign(e, x, fr)
        return
      if len(items) != len(tg.elts):
        self.throw('ValueError', f'unpack {len(items)} into {len(tg.elts)}')
      for e, x in zip(tg.elts, items):
        self.assign(e, x, fr)
    elif isinstance(tg, ast.Attribute):
      self.setattr(self.ev(tg.value, fr), tg.attr, v)
    elif isinstance(tg, ast.Subscript):
      self.setitem(self.ev(tg.value, fr), self.ev_index(tg.slice, fr), v)
    else:
      self.gap('assignment target')

  def note_write(self, o, what):
    if isinstance(o, Obj):
      if o.frozen:
        self.effects.append((self.site(), f'writes {what} of argument {o.tag or o.cls.name}'))
    elif isinstance(o, Arr):
      if o.frozen:
        self.effects.append((self.site(), f'writes {what} of argument array {o.tag or ""}'))
    elif isinstance(o, (dict, list, set, Func)):
      if id(o) in self.frozen_ids:
        self.effects.append((self.site(), f'writes {what} of {self.frozen_ids[id(o)][1]}'))
    elif isinstance(o, (Mod, Cls)):
      self.effects.append((self.site(), f'writes {what} of {o!r}'))

  def freeze(self, v, tag):
    """Mark caller-visible state; later writes are recorded as effects."""
    if isinstance(v, Obj):
      if v.frozen:
        return v
      v.frozen, v.tag = True, tag
      for k, x in v.fields.items():
        self.freeze(x, f'{tag}.{k}')
    elif isinstance(v, Arr):
      v.frozen, v.tag = True, tag
    elif isinstance(v, (list, tuple)):
      if isinstance(v, list):
        self.frozen_ids[id(v)] = (v, tag)
      for k, x in enumerate(v):
        self.freeze(x, f'{tag}[{k}]')
    elif isinstance(v, dict):
      if id(v) in self.frozen_ids:
        return v
      self.frozen_ids[id(v)] = (v, tag)
      for k, x in v.items():
        self.freeze(x, f'{tag}[{k!r}]')
    elif isinstance(v, set):
      self.frozen_ids[id(v)] = (v, tag)
    elif isinstance(v, Func):
      if id(v) not in self.frozen_ids:
        self.frozen_ids[id(v)] = (v, tag)
        for d in list(v.defaults) + list(v.kwdefaults.values()):
          self.freeze(d, f'default argument of {v.qual}')
        c = v.closure
        while c is not None:
          for n, x in list(c.frame.vars.items()):
            self.freeze(x, f'{n}, captured by {v.qual}')
          c = c.parent
    elif isinstance(v, Bound):
      self.freeze(v.func, tag)
      self.freeze(v.self_, tag)
    elif isinstance(v, Partial):
      for x in list(v.args) + list(v.kwargs.values()) + [v.func]:
        self.freeze(x, tag)
    return v

  def freeze_globals(self):
    """Module and class level state of every loaded module is caller-visible."""
    for m in list(self.mods.values()):
      for n, v in list(m.ns.items()):
        if isinstance(v, Cls):
          if v.mod is m:
            for k, x in list(v.ns.items()):
              self.freeze(x, f'class attribute {v.name}.{k}')
        elif not isinstance(v, Mod):
          self.freeze(v, f'module variable {n}')

  def setattr(self, o, name, v):
    if isinstance(o, Obj):
      m, owner = o.cls.lookup(name)
      if isinstance(m, Prop):
        if m.fset is None:
          self.throw('AttributeError', name)
        return self.call(Bound(m.fset, o), [v], {})
      dc = o.cls.is_dc()
      if dc and not o.__dict__.get('_init', False):
        frozen = None
        for c in o.cls.mro():
          if isinstance(c, Cls) and c.dc:
            frozen = c.dcopts.get('frozen')
            break
        if frozen is True:
          self.throw('AttributeError', f'frozen {name}')
      self.note_write(o, f'attribute {name}')
      o.fields[name] = self.guard(v, o.fields.get(name, UNDEF))
    elif isinstance(o, Func):
      self.note_write(o, f'attribute {name}')
      o.attrs[name] = v
    elif isinstance(o, Cls):
      self.note_write(o, name)
      o.ns[name] = v
    elif isinstance(o, Mod):
      self.note_write(o, name)
      o.ns[name] = v
    elif isinstance(o, Opq):
      o.attrs[name] = v
    else:
      self.gap(f'setattr on {type(o).__name__}')

  def setitem(self, o, k, v):
    self.note_write(o, f'item {k!r:.40}')
    if isinstance(o, dict):
      k = self.hkey(k)
      if k not in o:
        self.check_container(o)
      o[k] = self.guard(v, o.get(k, UNDEF))
    elif isinstance(o, list):
      if not isinstance(k, int):
        self.gap('list index')
      if not -len(o) <= k < len(o):
        self.throw('IndexError')
      o[k] = self.guard(v, o[k])
    elif isinstance(o, Arr):
      if o.host is False and o.tag != 'np':
        # jax arrays are immutable
        if not o.host:
          self.throw('TypeError', 'jax arrays are immutable')
      if o.tag == 'view':
        self.throw('ValueError', 'assignment destination is read-only')
      old = Arr(o.shape, o.dtype, o._fn)
      new = A.at_update(old, k, v)
      if self.pc is not t.TRUE:
        new = A.elementwise(lambda c, a, b: t.ite(c, a, b), Arr((), 'bool', lambda i, pc=self.pc: pc), new, old, dtype=o.dtype)
      o._fn = new.fn
      o.memo = {}
    elif isinstance(o, Opq):
      o.attrs[('item', repr(k))] = v
    elif isinstance(o, Obj):
      m, _ = o.cls.lookup('__setitem__')
      if m is None:
        self.gap(f'setitem on {o!r}')
      self.call(Bound(m, o), [k, v], {})
    else:
      self.gap(f'setitem on {type(o).__name__}')

  def pick(self, o, v, default):
    """Entry of an integer-keyed dict under a key only known as a term."""
    keys = sorted(o)
    hit = t.FALSE
    for j in keys:
      hit = t.bor(hit, t.eq(v, t.const(j)))
    at = t._single_atom(v)
    top = t.IN_BOUND.get(at.args[0]) if at is not None and at.kind == 'in' else None
    top = t.const_val(top) if top is not None else None
    if top is not None and all(j in o for j in range(int(top))):
      hit = t.TRUE
    if default is PyRaise:
      if t.differ(hit, t.TRUE, ()) is not None:
        self.raises.append((t.band(self.pc, t.bnot(hit)), Exc('KeyError', (), True), self.site()))
      acc = o[keys[-1]]
      keys.pop()
    else:
      acc = default
    for j in reversed(keys):
      acc = self.merge(t.eq(v, t.const(j)), o[j], acc)
    return acc

  def hkey(self, k):
    if isinstance(k, Arr):
      self.throw('TypeError', 'unhashable array')
    return k

  # ------------------------------------------------------------ merging
  def merge(self, c, a, b):
    """Value of (a if c else b)."""
    if c is t.TRUE:
      return a
    if c is t.FALSE:
      return b
    if a is b:
      return a
    num = (bool, int, float, Sym)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, EnumM):
      if not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) is type(b) and a == b:
        return a
      ka, kb = A.scalar_kind(a), A.scalar_kind(b)
      k = ka if ka == kb else 'float' if 'float' in (ka, kb) else 'int'
      return sym(t.ite(c, t.lift(a), t.lift(b)), k)
    if isinstance(a, Arr) and isinstance(b, (Arr,) + num) or isinstance(b, Arr) and isinstance(a, num):
      x, y = asarr(a), asarr(b)
      if len(x.shape) == len(y.shape) and all(A.same_dim(p, q) for p, q in zip(x.shape, y.shape)):
        dt, w = A.promote(x, y)
        if x.dtype == y.dtype:
          dt = x.dtype
        r = Arr(x.shape, dt, lambda i: t.ite(c, A.cast_v(x.fn(i), x.dtype, dt), A.cast_v(y.fn(i), y.dtype, dt)), weak=w)
        r.origin = x.origin
        r.host = x.host
        return r
      return Phi(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
      return tuple(self.merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
      return [self.merge(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
      return {k: self.merge(c, a[k], b[k]) for k in a}
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and set(a.fields) == set(b.fields) and a.cls.is_dc():
      return Obj(a.cls, {k: self.merge(c, a.fields[k], b.fields[k]) for k in a.fields})
    try:
      if type(a) is type(b) and isinstance(a, (str, bytes, type(None))) and a == b:
        return a
    except Exception:
      pass
    if isinstance(a, (Ext, EnumM, DType)) and type(a) is type(b) and (a is b or a == b):
      return a
    if isinstance(a, Bound) and isinstance(b, Bound) and a.self_ is b.self_ and a.func is b.func:
      return a
    return Phi(c, a, b)

  def phi_map(self, v, f):
    """Apply f under the arms of a Phi and re-join."""
    if isinstance(v, Phi):
      pc = self.pc
      try:
        self.pc = t.band(pc, v.c)
        try:
          a = self.phi_map(v.a, f)
        except PyRaise as e:
          self.raises.append((self.pc, e.exc, e.site)); a = UNDEF
        self.pc = t.band(pc, t.bnot(v.c))
        try:
          b = self.phi_map(v.b, f)
        except PyRaise as e:
          self.raises.append((self.pc, e.exc, e.site)); b = UNDEF
      finally:
        self.pc = pc
      if a is UNDEF and b is UNDEF:
        self.throw('TypeError', 'both arms raise')
      if a is UNDEF:
        return b
      if b is UNDEF:
        return a
      return self.merge(v.c, a, b)
    return f(v)

  # ------------------------------------------------------------ truth
  def truth(self, v, host_ok=False):
    """True/False or a boolean node."""
    if isinstance(v, (Sym,)):
      r = t.as_bool(v.v)
      return True if r is t.TRUE else False if r is t.FALSE else r
    if isinstance(v, Arr):
      n = t.const_val(A.size_of(v))
      if n != 1:
        if n is None:
          self.gap('truth value of an array of unknown size')
        self.throw('ValueError', 'truth value of an array is ambiguous')
      x = v.fn((t.ZERO,) * v.ndim)
      r = t.as_bool(x)
      if not v.host and not v.concrete:
        self.traced_branches.append((self.site(), 'Python branch on a traced array value'))
      if r in (t.TRUE, t.FALSE):
        return r is t.TRUE
      return r
    if isinstance(v, (Obj,)):
      m, _ = v.cls.lookup('__bool__')
      if m is not None:
        return self.truth(self.call(Bound(m, v), [], {}))
      m, _ = v.cls.lookup('__len__')
      if m is not None:
        return self.truth(self.call(Bound(m, v), [], {}))
      return True
    if isinstance(v, Phi):
      a, b = self.truth(v.a), self.truth(v.b)
      r = t.ite(v.c, t.lift(a), t.lift(b))
      return True if r is t.TRUE else False if r is t.FALSE else r
    if isinstance(v, EnumM):
      return bool(v.value) if getattr(v.cls, 'int_enum', False) else True
    if isinstance(v, Opq):
      return t.atom_v(t.mk_atom('in', ('truth:' + repr(v),), 'b'))
    if isinstance(v, (Func, Native, Cls, Ext, Bound, Partial, DType, Exc, Mod)):
      return True
    if isinstance(v, self.lib.IterVal):
      return True
    return bool(v)

  # ------------------------------------------------------------ iteration
  def iterate(self, v):
    if isinstance(v, (list, tuple, str, range, set, frozenset)):
      return list(v)
    if isinstance(v, dict):
      return list(v.keys())
    if isinstance(v, self.lib.IterVal):
      return list(v.items)
    if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()), zip, enumerate, map, filter, reversed)):
      return list(v)
    if isinstance(v, Cls) and v.is_enum:
      return list(v.members.values())
    if isinstance(v, Arr):
      if not v.shape:
        self.throw('TypeError', 'iteration over a 0-d array')
      n = v.shape[0]
      if not isinstance(n, int):
        return [self.getitem(v, self.each_index(n))]
      return [self.getitem(v, k) for k in range(n)]
    if isinstance(v, Obj):
      m, _ = v.cls.lookup('__iter__')
      if m is not None:
        return self.iterate(self.call(Bound(m, v), [], {}))
      if v.cls.is_dc() == 'chex':
        return [n for n, _ in v.cls.all_fields()]
    if isinstance(v, self.lib.SymRange):
      i = self.each_index(A.norm_dim(v.n.v))
      return [sym(t.add(t.lift(v.lo), i.v))]
    if isinstance(v, Opq):
      if 'iter' in v.attrs:
        return v.attrs['iter']
      return [Opq('iter_element', parent=v)]
    if isinstance(v, Sym) or isinstance(v, (int, float)) or v is None:
      self.throw('TypeError', f'not iterable: {v!r}')
    self.gap(f'iteration over {type(v).__name__} {v!r:.60}')

  def each_index(self, n):
    """One representative position of an axis, where the reader asked for it."""
    if self.each is None:
      self.gap('iteration over an axis of symbolic size')
    k = t.lift(A.dv(n)).id
    if k not in self.each:
      self.each[k] = sym(t.fresh_var(A.dv(n), 'each'))
    return self.each[k]

  # ------------------------------------------------------------ expressions
  def ev(self, e, fr):
    if e is None:
      return None
    ln = getattr(e, 'lineno', None)
    if ln:
      fr.line = ln
    m = self._evt.get(type(e))
    if m is None:
      m = getattr(self, 'e_' + type(e).__name__, None)
      if m is None:
        self.gap(f'expression {type(e).__name__}')
      m = type(self).__dict__.get('e_' + type(e).__name__)
      self._evt[type(e)] = m
    try:
      v = m(self, e, fr)
    except ShapeErr as ex:
      if len(ex.args) < 2:
        ex.args = ex.args + (self.site(),)
      raise
    except Gap as ex:
      if len(ex.args) < 2:
        ex.args = (f'{ex.args[0]} [at {self.site()}]', True)
      raise
    except t.TermError as ex:
      if len(ex.args) < 2:
        ex.args = (f'{ex.args[0] if ex.args else ""} [at {self.site()}]', True)
      raise
    if isinstance(v, Arr) and v.origin is None:
      v.origin = self.site()
    return v

  _evt = {}

  def e_Constant(self, e, fr):
    return e.value

  def e_Name(self, e, fr):
    return self.lookup(e.id, fr)

  def lookup(self, name, fr):
    if name in fr.globals_:
      if name in fr.mod.ns:
        return fr.mod.ns[name]
    elif name in fr.vars:
      v = fr.vars[name]
      if v is UNDEF:
        self.throw('NameError', name)
      return v
    if fr.closure is not None:
      f2 = fr.closure.find(name)
      if f2 is not None:
        return f2.vars[name]
    if name in fr.mod.ns:
      return fr.mod.ns[name]
    if name in self.lib.BUILTINS:
      return self.lib.BUILTINS[name]
    if name in EXC_BASES:
      return Exc(name)
    # submodule loaded but not yet bound
    self.throw('NameError', name)

  def e_Tuple(self, e, fr):
    return tuple(self.ev_list(e.elts, fr))

  def e_List(self, e, fr):
    return self.fresh(self.ev_list(e.elts, fr))

  def e_Set(self, e, fr):
    return set(self.ev_list(e.elts, fr))

  def ev_list(self, elts, fr):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred):
        out += self.iterate(self.ev(x.value, fr))
      else:
        out.append(self.ev(x, fr))
    return out

  def e_Dict(self, e, fr):
    d = {}
    for k, v in zip(e.keys, e.values):
      if k is None:
        m = self.ev(v, fr)
        if isinstance(m, Obj):
          m = {n: m.fields[n] for n, _ in m.cls.all_fields()}
        if not isinstance(m, dict):
          self.gap('dict unpack')
        d.update(m)
      else:
        d[self.hkey(self.ev(k, fr))] = self.ev(v, fr)
    return self.fresh(d)

  def e_JoinedStr(self, e, fr):
    out = []
    for v in e.values:
      if isinstance(v, ast.Constant):
        out.append(v.value)
      else:
        x = self.ev(v.value, fr)
        if isinstance(x, (str, int, float, bool, type(None))):
          spec = ''
          if v.format_spec is not None:
            spec = self.e_JoinedStr(v.format_spec, fr)
          try:
            out.append(format(x if v.conversion != 114 else repr(x), spec))
          except Exception:
            out.append(str(x))
        else:
          if v.format_spec is not None:
            self.lib.static(x, 'number formatting of a traced value')
          out.append(f'<{x!r}>')
    return ''.join(out)

  def e_FormattedValue(self, e, fr):
    return str(self.ev(e.value, fr))

  def e_Lambda(self, e, fr):
    return self.make_func(e, fr, '<lambda>')

  def e_IfExp(self, e, fr):
    c = self.truth(self.ev(e.test, fr))
    if c is True:
      return self.ev(e.body, fr)
    if c is False:
      return self.ev(e.orelse, fr)
    pc = self.pc
    vals = []
    for cond, x in ((c, e.body), (t.bnot(c), e.orelse)):
      self.pc = t.band(pc, cond)
      try:
        vals.append(self.ev(x, fr))
      except PyRaise as ex:
        self.raises.append((self.pc, ex.exc, ex.site))
        vals.append(UNDEF)
      finally:
        self.pc = pc
    if vals[0] is UNDEF and vals[1] is UNDEF:
      self.throw('RuntimeError')
    if vals[0] is UNDEF:
      return vals[1]
    if vals[1] is UNDEF:
      return vals[0]
    return self.merge(c, *vals)

  def e_BoolOp(self, e, fr):
    is_and = isinstance(e.op, ast.And)
    acc = self.ev(e.values[0], fr)
    for nxt in e.values[1:]:
      c = self.truth(acc)
      if c is True:
        if is_and:
          acc = self.ev(nxt, fr)
          continue
        return acc
      if c is False:
        if is_and:
          return acc
        acc = self.ev(nxt, fr)
        continue
      pc = self.pc
      self.pc = t.band(pc, c if is_and else t.bnot(c))
      try:
        v = self.ev(nxt, fr)
      finally:
        self.pc = pc
      if is_and:
        acc = self.merge(c, v, acc)
      else:
        acc = self.merge(c, acc, v)
    return acc

  def e_UnaryOp(self, e, fr):
    v = self.ev(e.operand, fr)
    return self.unop(e.op, v)

  def unop(self, op, v):
    if isinstance(v, Phi):
      return self.phi_map(v, lambda x: self.unop(op, x))
    if isinstance(op, ast.Not):
      c = self.truth(v)
      if c is True or c is False:
        return not c
      return sym(t.bnot(c), 'bool')
    if isinstance(v, EnumM):
      v = v.value
    if isinstance(op, ast.USub):
      if isinstance(v, (int, float)):
        return -v
      if isinstance(v, Sym):
        return sym(t.neg(v.v), v.kind)
      if isinstance(v, Arr):
        return A.elementwise(t.neg, v)
    if isinstance(op, ast.UAdd):
      return v
    if isinstance(op, ast.Invert):
      if isinstance(v, bool):
        return ~v
      if isinstance(v, int):
        return ~v
      if isinstance(v, Sym):
        return sym(t.bnot(v.v), 'bool')
      if isinstance(v, Arr):
        if v.dtype == 'bool':
          return A.elementwise(t.bnot, v, dtype='bool')
        return A.elementwise(lambda x: t.sub(t.const(-1), x), v)
    if isinstance(v, Opq):
      return Opq('unop:' + type(op).__name__, [v], call=True)
    if isinstance(v, Obj):
      nm = {ast.USub: '__neg__', ast.Invert: '__invert__'}.get(type(op))
      m, _ = v.cls.lookup(nm)
      if m is not None:
        return self.call(Bound(m, v), [], {})
    self.gap(f'unary {type(op).__name__} on {type(v).__name__}')

  def e_BinOp(self, e, fr):
    return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

  DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
            ast.Mod: 'mod', ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or',
            ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}

  def binop(self, op, a, b, inplace=False):
    if isinstance(a, Phi):
      return self.phi_map(a, lambda x: self.binop(op, x, b))
    if isinstance(b, Phi):
      return self.phi_map(b, lambda x: self.binop(op, a, x))
    if isinstance(a, EnumM) and getattr(a.cls, 'int_enum', False):
      a = a.value
    if isinstance(b, EnumM) and getattr(b.cls, 'int_enum', False):
      b = b.value
    T = type(op)
    if isinstance(a, Obj) or isinstance(b, Obj):
      n = self.DUNDER[T]
      if isinstance(a, Obj):
        m, _ = a.cls.lookup(f'__{n}__')
        if m is not None:
          return self.call(Bound(m, a), [b], {})
      if isinstance(b, Obj):
        m, _ = b.cls.lookup(f'__r{n}__')
        if m is not None:
          return self.call(Bound(m, b), [a], {})
      self.throw('TypeError', f'unsupported operand for {n}')
    if isinstance(a, Opq) or isinstance(b, Opq):
      return Opq('op:' + self.DUNDER[T], [a, b], call=True)
    host = (str, tuple, list, dict, set, frozenset, bytes)
    if isinstance(a, host) or isinstance(b, host):
      if isinstance(a, Arr) or isinstance(b, Arr) or isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, (tuple, list)) and T is ast.Mult and isinstance(b, (Arr, Sym)):
          if isinstance(b, Sym):
            self.gap('sequence repeated a symbolic number of times')
        if isinstance(a, str):
          import re
          if T is ast.Mod and re.search(r'%[-+ 0-9.]*[dfgeixX]', a):
            self.lib.static(b, 'number formatting of a traced value')
          return a + '%' if T is ast.Mod else self.gap('string op')
        if T is ast.Add and isinstance(a, (list, tuple)) and isinstance(b, Arr) or isinstance(b, (list, tuple)) and isinstance(a, Arr):
          pass
      else:
        if T is ast.Mod and isinstance(a, str):
          try:
            return a % b
          except Exception:
            return a + repr(b)
        if inplace and T is ast.Add and isinstance(a, list):
          self.note_write(a, 'extension')
          self.check_container(a)
          a.extend(self.iterate(b))
          return a
        if inplace and T is ast.BitOr and isinstance(a, (dict, set)):
          self.note_write(a, 'update')
          self.check_container(a)
          a.update(b)
          return a
        try:
          return self._pyop(T, a, b)
        except TypeError as ex:
          self.throw('TypeError', str(ex))
    if isinstance(a, DType) or isinstance(b, DType):
      if T is ast.BitOr:
        return Ext('typing.Union')
    if isinstance(a, (Cls, Ext)) or isinstance(b, (Cls, Ext)) or a is None or b is None:
      if T is ast.BitOr:
        return Ext('typing.Union')
      self.throw('TypeError', f'unsupported operands {a!r} {b!r}')
    pn = (bool, int, float)
    if isinstance(a, pn) and isinstance(b, pn):
      try:
        return self._pyop(T, a, b)
      except ZeroDivisionError:
        self.throw('ZeroDivisionError')
    if isinstance(a, pn + (Sym,)) and isinstance(b, pn + (Sym,)):
      ka, kb = A.scalar_kind(a), A.scalar_kind(b)
      k = 'float' if 'float' in (ka, kb) or T is ast.Div else 'int'
      if T in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if ka == 'bool' and kb == 'bool':
          return sym(self.opfn(T)(t.lift(a), t.lift(b)), 'bool')
        return sym(self.bits(T, t.lift(a), t.lift(b)), 'int')
      return sym(self.opfn(T)(t.lift(a), t.lift(b)), k)
    if isinstance(a, pn + (Sym, Arr)) and isinstance(b, pn + (Sym, Arr)) or isinstance(a, Arr) or isinstance(b, Arr):
      x, y = asarr(a), asarr(b)
      if T is ast.MatMult:
        return A.matmul(x, y)
      if inplace and isinstance(a, Arr) and a.host:
        r = A.elementwise(self.opfn(T), x, y)
        self.note_write(a, 'elements')
        old = Arr(a.shape, a.dtype, a._fn)
        r = A.elementwise(self.opfn(T), old, y)
        pc = self.pc
        a._fn = (lambda idx: t.ite(pc, r.fn(idx), old.fn(idx)))
        a.memo = {}
        return a
      if T in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if x.dtype == 'bool' and y.dtype == 'bool':
          return A.elementwise(self.opfn(T), x, y, dtype='bool')
        return A.elementwise(lambda p, q: self.bits(T, p, q), x, y)
      dt = None
      if T is ast.Div:
        d, w = A.promote(x, y)
        dt = 'float32' if 'int' in d or d == 'bool' else d
      elif x.dtype == 'bool' and y.dtype == 'bool':
        if T is ast.Add:
          return A.elementwise(t.bor, x, y, dtype='bool')
        if T is ast.Mult:
          return A.elementwise(t.band, x, y, dtype='bool')
      r = A.elementwise(self.opfn(T), x, y, dtype=dt)
      r.weak = x.weak and y.weak
      r.host = isinstance(a, Arr) and a.host and (not isinstance(b, Arr) or b.host) or isinstance(b, Arr) and b.host and not isinstance(a, Arr)
      return r
    self.gap(f'binary {T.__name__} on {type(a).__name__}, {type(b).__name__}')

  def bits(self, T, p, q):
    p, q = t.b2n(p), t.b2n(q)
    if T is ast.BitAnd:
      for v, m in ((p, q), (q, p)):
        c = t.const_val(m)
        if c is not None and c >= 0 and c.denominator == 1 and (int(c) + 1) & int(c) == 0:
          return t.modv(v, t.const(int(c) + 1))
    return t.fn('bit' + T.__name__, p, q, isint=True)

  def opfn(self, T):
    if T in (ast.LShift, ast.RShift):
      def shift(a, k):
        c = t.const_val(k)
        if c is None or c < 0:
          self.gap('shift by a computed amount')
        p = t.const(2 ** int(c))
        return t.mul(t.b2n(a), p) if T is ast.LShift else t.floordiv(t.b2n(a), p)
      return shift
    return {ast.Add: t.add, ast.Sub: t.sub, ast.Mult: t.mul, ast.Div: t.div, ast.FloorDiv: t.floordiv,
            ast.Mod: t.modv, ast.Pow: t.power, ast.BitAnd: t.band, ast.BitOr: t.bor, ast.BitXor: t.bxor}[T]

  def _pyop(self, T, a, b):
    import operator as o
    return {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
            ast.Mod: o.mod, ast.Pow: o.pow, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.BitXor: o.xor,
            ast.LShift: o.lshift, ast.RShift: o.rshift}[T](a, b)

  CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
         ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

  def e_Compare(self, e, fr):
    left = self.ev(e.left, fr)
    acc = None
    for op, r in zip(e.ops, e.comparators):
      right = self.ev(r, fr)
      c = self.compare1(self.CMP[type(op)], left, right)
      if acc is None:
        acc = c
      else:
        ta = self.truth(acc)
        if ta is True:
          acc = c
        elif ta is False:
          return False
        else:
          tc = self.truth(c)
          acc = sym(t.band(ta, t.lift(tc)), 'bool')
      left = right
    return acc

  def compare1(self, op, a, b):
    if isinstance(a, Phi):
      return self.phi_map(a, lambda x: self.compare1(op, x, b))
    if isinstance(b, Phi):
      return self.phi_map(b, lambda x: self.compare1(op, a, x))
    if op == 'is' or op == 'is not':
      if isinstance(a, (Ext, DType)) or isinstance(b, (Ext, DType)):
        r = a == b if type(a) is type(b) else False
      elif isinstance(a, Exc) and isinstance(b, Exc):
        r = a.name == b.name
      else:
        r = a is b
      return r if op == 'is' else not r
    if op in ('in', 'not in'):
      r = self.contains(b, a)
      if op == 'in':
        return r
      return (not r) if isinstance(r, bool) else sym(t.bnot(r.v), 'bool') if isinstance(r, Sym) else A.elementwise(t.bnot, r, dtype='bool')
    if isinstance(a, EnumM) and isinstance(b, EnumM):
      if op == '==':
        return a is b or (a.cls is b.cls and a.value == b.value)
      if op == '!=':
        return not (a is b or (a.cls is b.cls and a.value == b.value))
    if isinstance(a, EnumM):
      if getattr(a.cls, 'int_enum', False):
        a = a.value
      else:
        return op == '!='
    if isinstance(b, EnumM):
      if getattr(b.cls, 'int_enum', False):
        b = b.value
      else:
        return op == '!='
    if op in ('==', '!=') and hasattr(a, 'same') and type(a).__name__ == 'TreeDef':
      return a.same(b) == (op == '==')
    num = (bool, int, float, Sym)
    if isinstance(a, num) and isinstance(b, num):
      if not isinstance(a, Sym) and not isinstance(b, Sym):
        import operator as o
        return {'==': o.eq, '!=': o.ne, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}[op](a, b)
      return sym(self.cmpfn(op)(t.lift(a), t.lift(b)), 'bool')
    if isinstance(a, Arr) or isinstance(b, Arr):
      if isinstance(a, (str, type(None), Obj)) or isinstance(b, (str, type(None), Obj)):
        q, o = (a, b) if isinstance(a, Arr) else (b, a)
        if op not in ('==', '!=') and o is None:
          self.throw('TypeError', f"'{op}' not supported between array and NoneType")
        if q.host and q.ndim and o is None:
          r = Arr(q.shape, 'bool', lambda i: t.lift(op == '!='))
          r.host = True
          return r
        return op == '!='
      r = A.elementwise(self.cmpfn(op), asarr(a), asarr(b), dtype='bool')
      r.host = (not isinstance(a, Arr) or a.host) and (not isinstance(b, Arr) or b.host)
      return r
    if isinstance(a, Opq) or isinstance(b, Opq):
      if a is b and op == '==':
        return True
      return Opq('cmp:' + op, [a, b], call=True)
    if isinstance(a, DType) or isinstance(b, DType):
      a2, b2 = self.lib.as_dtype(a), self.lib.as_dtype(b)
      r = a2 is not None and b2 is not None and a2 == b2
      return r if op == '==' else not r
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
      if type(a) is not type(b):
        return op == '!='
      if op in ('==', '!='):
        if len(a) != len(b):
          return op == '!='
        acc = t.TRUE
        for x, y in zip(a, b):
          c = self.truth(self.compare1('==', x, y))
          acc = t.band(acc, t.lift(c))
        if op == '!=':
          acc = t.bnot(acc)
        return sym(acc, 'bool')
      if all(isinstance(x, (int, str, float)) for x in list(a) + list(b)):
        import operator as o
        return {'<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}[op](a, b)
    if isinstance(a, Obj) and op in ('==', '!='):
      m, _ = a.cls.lookup('__eq__')
      if m is not None:
        r = self.call(Bound(m, a), [b], {})
        return r if op == '==' else self.unop(ast.Not(), r)
      if a.cls.is_dc() and isinstance(b, Obj) and b.cls is a.cls:
        acc = t.TRUE
        for n, _ in a.cls.all_fields():
          acc = t.band(acc, t.lift(self.truth(self.compare1('==', a.fields[n], b.fields[n]))))
        if op == '!=':
          acc = t.bnot(acc)
        return sym(acc, 'bool')
      return (a is b) if op == '==' else (a is not b)
    if op in ('==', '!='):
      try:
        r = a == b
      except Exception:
        r = a is b
      if not isinstance(r, bool):
        self.gap('comparison')
      return r if op == '==' else not r
    if isinstance(a, (str, set, frozenset, bytes)) and isinstance(b, (str, set, frozenset, bytes)):
      import operator as o
      return {'<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}[op](a, b)
    if a is None or b is None:
      self.throw('TypeError', f'comparison with None')
    self.gap(f'comparison {op} of {type(a).__name__} and {type(b).__name__}')

  def contains(self, c, x):
    if isinstance(c, str) and isinstance(x, str):
      return x in c
    if isinstance(c, dict):
      if isinstance(x, (Arr,)):
        self.throw('TypeError', 'unhashable')
      return x in c
    if isinstance(c, Obj):
      m, _ = c.cls.lookup('__contains__')
      if m is not None:
        return self.call(Bound(m, c), [x], {})
      if c.cls.is_dc():
        return x in c.fields
    if isinstance(c, Opq):
      return Opq('contains', [c, x], call=True)
    if isinstance(c, Arr):
      r = A.reduce_axes(A.elementwise(t.eq, c, asarr(x), dtype='bool'), 'any')
      return r
    items = self.iterate(c)
    acc = t.FALSE
    for y in items:
      if y is x:
        return True
      r = self.truth(self.compare1('==', x, y))
      if r is True:
        return True
      acc = t.bor(acc, t.lift(r))
    return sym(acc, 'bool')

  def cmpfn(self, op):
    return {'==': t.eq, '!=': t.ne, '<': t.lt, '<=': t.le, '>': t.gt, '>=': t.ge}[op]

  def e_NamedExpr(self, e, fr):
    v = self.ev(e.value, fr)
    self.assign(e.target, v, fr)
    return v

  def e_Starred(self, e, fr):
    self.gap('starred')

  def comp(self, e, fr, emit):
    f2 = Frame(fr.fn, Closure(fr, fr.closure), fr.mod)
    f2.pc0 = self.pc
    f2.line = fr.line

    def rec(k):
      if k == len(e.generators):
        emit(f2)
        return
      g = e.generators[k]
      for x in self.iterate(self.ev(g.iter, f2 if k else fr)):
        self.assign(g.target, x, f2)
        ok = True
        for c in g.ifs:
          r = self.truth(self.ev(c, f2))
          if r is False:
            ok = False
            break
          if r is not True:
            self.gap('comprehension filter is not static')
        if ok:
          rec(k + 1)
    self.stack.append(f2)
    try:
      rec(0)
    finally:
      self.stack.pop()

  def e_ListComp(self, e, fr):
    out = []
    self.comp(e, fr, lambda f: out.append(self.ev(e.elt, f)))
    return self.fresh(out)

  def e_SetComp(self, e, fr):
    return set(self.e_ListComp(e, fr))

  def e_GeneratorExp(self, e, fr):
    return self.lib.IterVal(self.e_ListComp(e, fr))

  def e_DictComp(self, e, fr):
    out = {}

    def emit(f):
      k = self.ev(e.key, f)
      out[k] = self.ev(e.value, f)
    self.comp(e, fr, emit)
    return self.fresh(out)

  def e_Slice(self, e, fr):
    return slice(self.ev(e.lower, fr), self.ev(e.upper, fr), self.ev(e.step, fr))

  def ev_index(self, e, fr):
    if isinstance(e, ast.Tuple):
      return tuple(self.ev_list(e.elts, fr))
    return self.ev(e, fr)

  def e_Subscript(self, e, fr):
    o = self.ev(e.value, fr)
    if isinstance(o, Ext) and (o.path.startswith('typing') or o.path.startswith('collections.abc') or o.path in self.lib.GENERIC_EXT):
      try:
        self.ev_index(e.slice, fr)
      except (PyRaise, Gap):
        pass
      return o
    if isinstance(o, (DType, Cls, Native, Exc)) and not (isinstance(o, Cls) and o.is_enum):
      try:
        self.ev_index(e.slice, fr)
      except (PyRaise, Gap):
        pass
      return o
    k = self.ev_index(e.slice, fr)
    return self.getitem(o, k)

  def getitem(self, o, k):
    if isinstance(o, Phi):
      return self.phi_map(o, lambda x: self.getitem(x, k))
    if isinstance(k, Phi):
      return self.phi_map(k, lambda x: self.getitem(o, x))
    if isinstance(o, Arr):
      if isinstance(k, tuple):
        k = tuple(x.value if isinstance(x, EnumM) else x for x in k)
      elif isinstance(k, EnumM):
        k = k.value
      r = A.getitem(o, k)
      r.host = o.host
      return r
    if isinstance(o, dict):
      if isinstance(k, (Arr, Sym)):
        if isinstance(k, Arr) and not k.host and not k.concrete:
          self.traced_branches.append((self.site(), 'Python container indexed by a traced value'))
        v = k.v if isinstance(k, Sym) else k.fn(()) if not k.shape else None
        if v is None or not o or not all(isinstance(x, int) for x in o) or len(o) > 64:
          self.gap('dict indexed by an unknown value')
        return self.pick(o, v, PyRaise)
      if k not in o:
        dd = getattr(o, 'default_factory', None)
        if dd is not None:
          o[k] = self.call(dd, [], {})
          return o[k]
        self.throw('KeyError', k)
      return o[k]
    if isinstance(o, (list, tuple, str, range)):
      if isinstance(k, slice):
        if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
          return o[k]
        self.gap('sequence slice with symbolic bound')
      if isinstance(k, EnumM):
        k = k.value
      if isinstance(k, bool) or isinstance(k, int):
        if not -len(o) <= k < len(o):
          self.throw('IndexError', k)
        return o[k]
      if isinstance(k, Arr):
        if not k.host and not k.concrete:
          self.traced_branches.append((self.site(), 'Python container indexed by a traced value'))
        v = k.fn((t.ZERO,) * k.ndim)
        c = t.const_val(v)
        if c is not None:
          return o[int(c)]
        self.gap('sequence indexed by unknown value')
      if isinstance(k, Sym):
        acc = o[-1]
        for j in range(len(o) - 2, -1, -1):
          acc = self.merge(t.eq(k.v, t.const(j)), o[j], acc)
        return acc
      self.throw('TypeError', f'index {k!r}')
    if isinstance(o, Obj):
      m, _ = o.cls.lookup('__getitem__')
      if m is not None:
        return self.call(Bound(m, o), [k], {})
      if o.cls.is_dc() == 'chex':
        if k not in o.fields:
          self.throw('KeyError', k)
        return o.fields[k]
    if isinstance(o, Cls) and o.is_enum:
      if k not in o.members:
        self.throw('KeyError', k)
      return o.members[k]
    if isinstance(o, Opq):
      key = ('item', repr(k))
      if key in o.attrs:
        return o.attrs[key]
      return Opq('getitem', [k], parent=o, call=True)
    if isinstance(o, self.lib.AtProxy):
      return self.lib.AtRef(o.arr, k)
    if isinstance(o, Ext):
      return Opq(o.path + '[]', [k], call=True)
    if isinstance(o, Sym) or o is None or isinstance(o, (int, float)):
      self.throw('TypeError', f'not subscriptable: {o!r}')
    self.gap(f'subscript of {type(o).__name__}')

  def e_Attribute(self, e, fr):
    o = self.ev(e.value, fr)
    return self.getattr(o, e.attr)

  def getattr(self, o, name, default=MISSING):
    if isinstance(o, Phi):
      return self.phi_map(o, lambda x: self.getattr(x, name, default))
    if isinstance(o, Obj):
      m, owner = o.cls.lookup(name)
      if isinstance(m, Prop):
        return self.call(Bound(m.fget, o), [], {})
      if name in o.fields:
        return o.fields[name]
      if m is not None or owner is not None:
        if isinstance(m, Func) or isinstance(m, Native) and not m.raw:
          return Bound(m, o)
        if isinstance(m, CMeth):
          return Bound(m.f, o.cls)
        if isinstance(m, SMeth):
          return m.f
        return m
      if name == '__class__':
        return o.cls
      if name == '__dict__':
        return o.fields
      r = self.lib.obj_attr(self, o, name)
      if r is not None:
        return r
      g, _ = o.cls.lookup('__getattr__')
      if g is not None:
        return self.call(Bound(g, o), [name], {})
      if any(isinstance(c, (Ext, Exc)) and not (isinstance(c, Ext) and c.path in ('abc.ABC', 'generic', 'typing.Protocol', 'typing.Generic', 'object')) for c in o.cls.mro()):
        ext = [c for c in o.cls.mro() if isinstance(c, Ext)]
        if ext and name.startswith('__') is False:
          return Opq(name, parent=Opq('super:' + ext[0].path, [o]))
      if default is not MISSING:
        return default
      self.throw('AttributeError', f'{o.cls.name}.{name}')
    if isinstance(o, Mod):
      if name in o.ns:
        return o.ns[name]
      m = self.module(o.name + '.' + name) if o.is_pkg else None
      if m is not None:
        return m
      if default is not MISSING:
        return default
      self.throw('AttributeError', f'module {o.name} has no attribute {name}')
    if isinstance(o, Cls):
      if o.is_enum and name in o.members:
        return o.members[name]
      m, owner = o.lookup(name)
      if owner is not None:
        if isinstance(m, CMeth):
          return Bound(m.f, o)
        if isinstance(m, SMeth):
          return m.f
        return m
      if name == '__name__' or name == '__qualname__':
        return o.name
      if name == '__members__':
        return dict(o.members)
      if name == '__init__':
        return Native('__init__', lambda *a, **k: None)
      if name == '__doc__':
        return ''
      if name == '__annotations__':
        return dict(o.ann_src)
      if name == '__dataclass_fields__':
        return {n: Opq('field', [n]) for n, _ in o.all_fields()}
      if name == '__module__':
        return o.mod.name
      if default is not MISSING:
        return default
      self.throw('AttributeError', f'{o.name}.{name}')
    if isinstance(o, Ext):
      return self.lib.ext_attr(self, o, name)
    if isinstance(o, EnumM):
      if name == 'value':
        return o.value
      if name == 'name':
        return o.name
      m, _ = o.cls.lookup(name)
      if isinstance(m, Prop):
        return self.call(Bound(m.fget, o), [], {})
      if isinstance(m, Func):
        return Bound(m, o)
      if default is not MISSING:
        return default
      self.throw('AttributeError', name)
    if isinstance(o, Func):
      if name in o.attrs:
        return o.attrs[name]
      if name in ('__name__',):
        return o.name
      if name == '__qualname__':
        return o.qual
      if name == '__doc__':
        return ''
      if name == '__wrapped__':
        return o
    if isinstance(o, Bound):
      if name == '__self__':
        return o.self_
      if name == '__func__':
        return o.func
      if name == '__name__' and isinstance(o.func, Func):
        return o.func.name
    if isinstance(o, Prop):
      if name == 'setter':
        return Native('prop_setter', lambda f: Prop(o.fget, f))
    if isinstance(o, self.lib.SuperVal):
      return o.getattr(self, name)
    if isinstance(o, Exc) and name == 'args':
      return o.args
    r = self.lib.value_attr(self, o, name)
    if r is not MISSING:
      return r
    if default is not MISSING:
      return default
    if isinstance(o, (type(None), int, float, str, Sym, list, tuple, dict)):
      self.throw('AttributeError', f'{type(o).__name__} has no attribute {name}')
    self.gap(f'attribute {name} of {type(o).__name__} {o!r:.60}')

  # ------------------------------------------------------------ calls
  def e_Call(self, e, fr):
    f = self.ev(e.func, fr)
    if isinstance(f, Ext) and f.path == 'super':
      return self.make_super(e, fr)
    args, kwargs = [], {}
    for a in e.args:
      if isinstance(a, ast.Starred):
        args += self.iterate(self.ev(a.value, fr))
      else:
        args.append(self.ev(a, fr))
    for k in e.keywords:
      if k.arg is None:
        m = self.ev(k.value, fr)
        if isinstance(m, Obj):
          m = {n: m.fields[n] for n, _ in m.cls.all_fields()}
        if not isinstance(m, dict):
          self.gap('** of non-dict')
        kwargs.update(m)
      else:
        kwargs[k.arg] = self.ev(k.value, fr)
    fr.line = e.lineno
    return self.call(f, args, kwargs)

  def make_super(self, e, fr):
    if e.args:
      cls, slf = [self.ev(a, fr) for a in e.args]
    else:
      f = fr
      while f is not None and (f.fn is None or f.fn.owner is None):
        f = f.closure.frame if f.closure else None
      fn = fr.fn
      fr2 = fr
      # comprehension frames share fn; find frame holding the first argument
      name = fn.node.args.args[0].arg if fn.node.args.args else None
      slf = self.lookup(name, fr)
      cls = fn.owner
    return self.lib.SuperVal(cls, slf)

  def call(self, f, args, kwargs):
    if isinstance(f, Phi):
      return self.phi_map(f, lambda x: self.call(x, args, kwargs))
    if isinstance(f, Func):
      return self.call_func(f, args, kwargs)
    if isinstance(f, Bound):
      return self.call(f.func, [f.self_] + list(args), kwargs)
    if isinstance(f, Native):
      return f.fn(*args, **kwargs)
    if isinstance(f, Partial):
      kw = dict(f.kwargs)
      kw.update(kwargs)
      return self.call(f.func, list(f.args) + list(args), kw)
    if isinstance(f, Cls):
      return self.construct(f, args, kwargs)
    if isinstance(f, Ext):
      return self.lib.ext_call(self, f, args, kwargs)
    if isinstance(f, Exc):
      return Exc(f.name, tuple(args), True)
    if isinstance(f, Opq):
      if f.path in self.lib.TRANSPARENT_DECORATORS and len(args) == 1 and f.call:
        return args[0]
      r = Opq(f.path, args, kwargs, f.parent, True)
      self.opq_calls.append((self.pc, r, self.site()))
      return r
    if isinstance(f, DType):
      return self.lib.cast_call(self, f, args, kwargs)
    if isinstance(f, Obj):
      m, _ = f.cls.lookup('__call__')
      if m is not None:
        return self.call(Bound(m, f), args, kwargs)
    if isinstance(f, SMeth):
      return self.call(f.f, args, kwargs)
    if isinstance(f, CMeth):
      return self.call(f.f, args, kwargs)
    if f is None or isinstance(f, (int, float, str, Sym, Arr, list, dict, tuple)):
      self.throw('TypeError', f'{type(f).__name__} object is not callable')
    self.gap(f'call of {type(f).__name__} {f!r:.80}')

  def bind_args(self, f, args, kwargs):
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    out = {}
    args = list(args)
    if len(args) > len(pos):
      if a.vararg is None:
        self.throw('TypeError', f'{f.qual}() takes {len(pos)} positional arguments but {len(args)} were given')
      out[a.vararg.arg] = tuple(args[len(pos):])
      args = args[:len(pos)]
    elif a.vararg is not None:
      out[a.vararg.arg] = ()
    for n, v in zip(pos, args):
      out[n] = v
    kwrest = {}
    names = set(p.arg for p in a.args) | set(p.arg for p in a.kwonlyargs)
    for k, v in kwargs.items():
      if k in names:
        if k in out:
          self.throw('TypeError', f'{f.qual}() got multiple values for argument {k}')
        out[k] = v
      elif a.kwarg is not None:
        kwrest[k] = v
      else:
        self.throw('TypeError', f'{f.qual}() got an unexpected keyword argument {k}')
    if a.kwarg is not None:
      out[a.kwarg.arg] = kwrest
    nd = len(f.defaults)
    for n, d in zip(pos[len(pos) - nd:], f.defaults):
      out.setdefault(n, d)
    for n, d in f.kwdefaults.items():
      if n not in out:
        if d is MISSING:
          self.throw('TypeError', f'{f.qual}() missing keyword argument {n}')
        out[n] = d
    for n in pos:
      if n not in out:
        self.throw('TypeError', f'{f.qual}() missing argument {n}')
    return out

  def call_func(self, f, args, kwargs):
    ov = self.overrides.get(f.qual)
    if ov is not None:
      return ov.fn(*args, **kwargs)
    self.calls_seen[f.qual] = self.calls_seen.get(f.qual, 0) + 1
    fr = Frame(f, f.closure, f.mod)
    fr.vars = self.bind_args(f, args, kwargs)
    fr.pc0 = self.pc
    fr.line = f.node.lineno
    if self.depth > 120:
      self.gap(f'call depth exceeded in {f.qual}')
    self.depth += 1
    self.stack.append(fr)
    saved = self.pc
    try:
      if isinstance(f.node, ast.Lambda):
        return self.ev(f.node.body, fr)
      if f.__dict__.get('isgen') is None:
        f.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own_nodes(f.node))
      if f.isgen:
        fr.yields = []
      self.block(f.node.body, fr)
      if f.isgen:
        return self.lib.IterVal([v for _, v in fr.yields])
      if not fr.rets:
        if fr.live is t.FALSE:
          # every path raised under conditions
          self.throw('RuntimeError', f'{f.qual} always raises')
        return None
      rets = list(fr.rets)
      if fr.live is not t.FALSE:
        rets.append((fr.live, None))
      acc = rets[-1][1]
      for c, v in reversed(rets[:-1]):
        acc = self.merge(c, v, acc)
      return acc
    finally:
      fr.done = True
      self.stack.pop()
      self.depth -= 1
      self.pc = saved

  def own_nodes(self, fn):
    st = list(fn.body)
    while st:
      n = st.pop()
      yield n
      for c in ast.iter_child_nodes(n):
        if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
          st.append(c)

  def construct(self, cls, args, kwargs):
    if cls.is_enum:
      for m in cls.members.values():
        if args and (m is args[0] or m.value == args[0]):
          return m
      self.throw('ValueError', f'{args!r} is not a valid {cls.name}')
    r = self.lib.construct_special(self, cls, args, kwargs)
    if r is not None:
      return r
    ab = [n for n in self.abstracts(cls)]
    if ab:
      self.throw('TypeError', f"Can't instantiate abstract class {cls.name} with abstract methods {ab}")
    o = Obj(cls)
    init, owner = cls.lookup('__init__')
    if init is not None:
      o._init = True
      self.call(Bound(init, o), args, kwargs)
      o._init = False
      return o
    if cls.is_dc():
      fs = cls.all_fields()
      names = [n for n, _ in fs]
      if args and cls.is_dc() == 'chex':
        self.throw('ValueError', 'chex dataclass takes keyword arguments only')
      if len(args) > len(names):
        self.throw('TypeError', 'too many arguments')
      vals = dict(zip(names, args))
      for k, v in kwargs.items():
        if k not in names:
          self.throw('TypeError', f'{cls.name}.__init__() got an unexpected keyword argument {k}')
        vals[k] = v
      for n, d in fs:
        if n not in vals:
          if d is MISSING:
            self.throw('TypeError', f'{cls.name} missing argument {n}')
          if isinstance(d, Opq) and d.path == 'dataclasses.field':
            if 'default_factory' in d.kwargs:
              vals[n] = self.call(d.kwargs['default_factory'], [], {})
            elif 'default' in d.kwargs:
              vals[n] = d.kwargs['default']
            else:
              self.throw('TypeError', f'{cls.name} missing argument {n}')
          else:
            vals[n] = d
      o.fields = {n: vals[n] for n in names}
      pi, _ = cls.lookup('__post_init__')
      if pi is not None:
        o._init = False
        self.call(Bound(pi, o), [], {})
      return o
    exb = [c for c in cls.mro() if isinstance(c, Exc)]
    if exb:
      o.fields['args'] = tuple(args)
      return o
    if args or kwargs:
      if not any(isinstance(c, Ext) and c.path not in ('abc.ABC', 'generic', 'object') for c in cls.mro()):
        self.throw('TypeError', f'{cls.name}() takes no arguments')
    return o

  def abstracts(self, cls):
    seen = {}
    for c in reversed(cls.mro()):
      if isinstance(c, Cls):
        for n, v in c.ns.items():
          g = v.fget if isinstance(v, Prop) else v.f if isinstance(v, (SMeth, CMeth)) else v
          seen[n] = isinstance(g, Func) and bool(g.attrs.get('abstract'))
    return [n for n, a in seen.items() if a]

  def check_container(self, c):
    if self.arm_new and not any(x is c for x in self.arm_new[-1]):
      self.gap('container mutated under an unknown condition')

  def fresh(self, c):
    if self.arm_new:
      self.arm_new[-1].append(c)
    return c
