"""Hash-consed scalar nodes of the value graph.

A value (class V) is a decision diagram over boolean atoms whose leaves are
either booleans or polynomials (rational coefficients) over numeric atoms.
For a fixed atom order the representation is canonical, so congruence of
gates, masks and ring arithmetic is node identity.
"""
from fractions import Fraction
import itertools
import sys
import time

sys.setrecursionlimit(20000)


import math as _math


class TermError(Exception):
  pass


_atom_tab = {}
_poly_tab = {}
_v_tab = {}
EMPTY = frozenset()


class Atom:
  __slots__ = ('kind', 'args', 'id', 'sort', 'isint', 'depth', 'fv', 'leafs')

  def __repr__(self):
    return show_atom(self)


class Poly:
  """Sum of coef * product(atom**exp); terms: tuple of (mono, coef)."""
  __slots__ = ('terms', 'id', 'isint', 'depth', 'fv')


class V:
  """Decision-diagram node. kind: 'n' numeric leaf, 'b' boolean leaf, 'd'."""
  __slots__ = ('kind', 'p', 'atom', 'hi', 'lo', 'id', 'depth', 'fv', '_bool')

  # arithmetic sugar used by specifications
  def __add__(self, o): return add(self, lift(o))
  def __radd__(self, o): return add(lift(o), self)
  def __sub__(self, o): return sub(self, lift(o))
  def __rsub__(self, o): return sub(lift(o), self)
  def __mul__(self, o): return mul(self, lift(o))
  def __rmul__(self, o): return mul(lift(o), self)
  def __truediv__(self, o): return div(self, lift(o))
  def __rtruediv__(self, o): return div(lift(o), self)
  def __neg__(self): return neg(self)
  def __pow__(self, n): return power(self, lift(n))
  def __and__(self, o): return band(self, lift(o))
  def __rand__(self, o): return band(lift(o), self)
  def __or__(self, o): return bor(self, lift(o))
  def __ror__(self, o): return bor(lift(o), self)
  def __xor__(self, o): return bxor(self, lift(o))
  def __invert__(self): return bnot(self)
  def __lt__(self, o): return lt(self, lift(o))
  def __le__(self, o): return le(self, lift(o))
  def __gt__(self, o): return lt(lift(o), self)
  def __ge__(self, o): return le(lift(o), self)
  def __repr__(self): return show(self)
  def __bool__(self):
    raise TermError('boolean use of a graph node')


# ---------------------------------------------------------------- atoms
ATOMS = []     # by id


def _atom_by_id(i):
  return ATOMS[i]


def _key(a):
  if isinstance(a, V):
    return ('V', a.id)
  if isinstance(a, Atom):
    return ('A', a.id)
  if isinstance(a, tuple):
    return ('T',) + tuple(_key(x) for x in a)
  return (type(a).__name__, a)


def mk_atom(kind, args, sort='n', isint=False, bound=None):
  key = (kind, tuple(_key(a) for a in args), sort, isint)
  at = _atom_tab.get(key)
  if at is None:
    at = Atom()
    at.kind, at.args, at.sort, at.isint = kind, args, sort, isint
    at.id = len(_atom_tab)
    d, fv = 0, EMPTY
    for a in _flat(args):
      if isinstance(a, V):
        d = max(d, a.depth)
        fv = fv | a.fv
      elif isinstance(a, Atom):
        fv = fv | a.fv
    if kind in ('var', 'bv'):
      fv = fv | {at}
    if kind == 'red':
      d = args[2]
      fv = frozenset(x for x in fv if not (x.kind == 'bv' and x.args[0] == d))
    at.depth, at.fv = d, fv
    _atom_tab[key] = at
    ATOMS.append(at)
  return at


def _flat(args):
  for a in args:
    if isinstance(a, tuple):
      yield from _flat(a)
    else:
      yield a


# ---------------------------------------------------------------- polys
def mk_poly(d):
  """d: dict mono -> Fraction."""
  items = tuple(sorted([mc for mc in d.items() if mc[1]]))
  p = _poly_tab.get(items)
  if p is None:
    p = Poly()
    p.terms = items
    p.id = len(_poly_tab)
    isint, depth, fv = True, 0, EMPTY
    seen = set()
    for m, c in items:
      if isint and c.denominator != 1:
        isint = False
      seen.update(m)
    for aid, e in seen:
      at = ATOMS[aid]
      if e < 0 or not at.isint:
        isint = False
      if at.depth > depth:
        depth = at.depth
      if not at.fv <= fv:
        fv = fv | at.fv
    p.isint, p.depth, p.fv = isint, depth, fv
    _poly_tab[items] = p
  return p


def _leaf(p):
  key = ('n', p.id)
  v = _v_tab.get(key)
  if v is None:
    v = V()
    v.kind, v.p, v.atom, v.hi, v.lo = 'n', p, None, None, None
    v.id = len(_v_tab)
    v.depth, v.fv, v._bool = p.depth, p.fv, False
    _v_tab[key] = v
  return v


def _bleaf(b):
  key = ('b', b)
  v = _v_tab.get(key)
  if v is None:
    v = V()
    v.kind, v.p, v.atom, v.hi, v.lo = 'b', b, None, None, None
    v.id = len(_v_tab)
    v.depth, v.fv, v._bool = 0, EMPTY, True
    _v_tab[key] = v
  return v


TRUE = _bleaf(True)
FALSE = _bleaf(False)


def _node(atom, hi, lo):
  if hi is lo:
    return hi
  if atom.kind == 'red' and atom.args[0] == 'any' and lo is ZERO and _is_last_of(hi, atom):
    return hi       # the last marked position is already 0 without a mark
  key = ('d', atom.id, hi.id, lo.id)
  v = _v_tab.get(key)
  if v is None:
    v = V()
    v.kind, v.p, v.atom, v.hi, v.lo = 'd', None, atom, hi, lo
    v.id = len(_v_tab)
    v.depth = max(atom.depth, hi.depth, lo.depth)
    v.fv = atom.fv | hi.fv | lo.fv
    v._bool = hi._bool and lo._bool
    _v_tab[key] = v
  return v


def _is_last_of(v, some):
  """Whether v is the last position marked by the condition `some` quantifies."""
  if v.kind != 'n' or len(v.p.terms) != 1:
    return False
  mono, c = v.p.terms[0]
  at = ATOMS[mono[0][0]] if c == 1 and len(mono) == 1 and mono[0][1] == 1 else None
  if at is None or at.kind != 'red' or at.args[0] != 'argmax' or len(at.args) != 4 or at.args[1:3] != some.args[1:3]:
    return False
  pos = atom_v(mk_atom('bv', (at.args[2], at.args[1]), 'n', True))
  return all(l is pos or l is ZERO for l in leaves(at.args[3])) and lift_apply(
      lambda l: TRUE if l is pos else FALSE, [at.args[3]]) is some.args[3]


def const(c):
  if isinstance(c, bool):
    return TRUE if c else FALSE
  if isinstance(c, int):
    c = Fraction(c)
  elif isinstance(c, float):
    if c != c:
      return atom_v(mk_atom('nan', ()))
    if c in (float('inf'), float('-inf')):
      v = INF
      return v if c > 0 else neg(v)
    e = Fraction(repr(c))
    # undo the rounding of folded host arithmetic: 0.010000000000000002 -> 1/100
    q = e.limit_denominator(10 ** 7)
    c = q if q and abs(q - e) <= abs(e) * Fraction(1, 10 ** 14) else e
  return _leaf(mk_poly({(): c} if c else {}))


def lift(x):
  if isinstance(x, V):
    return x
  if hasattr(x, 'v') and isinstance(x.v, V):
    return x.v
  return const(x)


def atom_v(at):
  if at.sort == 'b':
    return _node(at, TRUE, FALSE)
  return _leaf(mk_poly({((at.id, 1),): Fraction(1)}))


INF = atom_v(mk_atom('inf', ()))
PI = atom_v(mk_atom('pi', ()))
_PI_ATOM = next(a for a in _atom_tab.values() if a.kind == 'pi')
_INF_ATOM = next(a for a in _atom_tab.values() if a.kind == 'inf')
ZERO = const(0)
ONE = const(1)

_fresh = [0]


def fresh_var(size=None, hint='i'):
  """A fresh integer index variable ranging over [0, size)."""
  _fresh[0] += 1
  args = (f'{hint}{_fresh[0]}',) + ((lift(size),) if size is not None else ())
  return atom_v(mk_atom('var', args, 'n', True))


_scopes = {}


class scoped_var:
  """An index variable that lives for one nested evaluation; the same name is
  reused by later evaluations at the same nesting level."""

  def __init__(self, size, hint):
    self.key = (hint, lift(size).id)
    self.size, self.hint = lift(size), hint

  def __enter__(self):
    k = _scopes.get(self.key, 0)
    _scopes[self.key] = k + 1
    return atom_v(mk_atom('var', (f'{self.hint}#{k}', self.size), 'n', True))

  def __exit__(self, *a):
    _scopes[self.key] -= 1


def dim(name, lo=1):
  return atom_v(mk_atom('dim', (name, lo), 'n', True))


def inp(name, *idx, sort='n', isint=False):
  """An input cell: name[idx...]."""
  return lift_apply(lambda *ix: atom_v(mk_atom('in', (name,) + ix, sort, isint)),
                    [lift(i) for i in idx])


def is_bool(v):
  return v._bool


def is_const(v):
  return v.kind == 'b' or (v.kind == 'n' and (not v.p.terms or (len(v.p.terms) == 1 and v.p.terms[0][0] == ())))


def const_val(v):
  """Python value of a constant node or None."""
  if v.kind == 'b':
    return v.p
  if v.kind == 'n':
    if not v.p.terms:
      return Fraction(0)
    if len(v.p.terms) == 1 and v.p.terms[0][0] == ():
      return v.p.terms[0][1]
  return None


# ---------------------------------------------------------------- diagrams
_ite_memo = {}


def _top(*vs):
  t = None
  for v in vs:
    if v.kind == 'd' and (t is None or v.atom.id < t.id):
      t = v.atom
  return t


def _cof(v, at, pol):
  if v.kind == 'd' and v.atom is at:
    return v.hi if pol else v.lo
  return v


def ite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a is b:
    return a
  if c.kind == 'n':
    c = ne(c, ZERO)
    return ite(c, a, b)
  if a._bool and not b._bool:
    a = b2n(a)
  if b._bool and not a._bool:
    b = b2n(b)
  key = (c.id, a.id, b.id)
  r = _ite_memo.get(key)
  if r is None:
    t = _top(c, a, b)
    r = _node(t, ite(_cof(c, t, 1), _cof(a, t, 1), _cof(b, t, 1)),
              ite(_cof(c, t, 0), _cof(a, t, 0), _cof(b, t, 0)))
    _ite_memo[key] = r
  return r


_ap_memo = {}


def lift_apply(f, args, memo_key=None):
  """Applies leaf function f under the gates of args (gates are distributed)."""
  args = [lift(a) for a in args]
  if all(a.kind != 'd' for a in args):
    return f(*args)
  if memo_key is None:
    memo = {}
  else:
    memo = _ap_memo.get(memo_key)
    if memo is None:
      memo = _ap_memo[memo_key] = {}
  if len(args) == 1:
    return _lift1(f, args[0], memo)
  return _lift(f, args, memo)


def _lift1(f, a, memo):
  r = memo.get(a)
  if r is None:
    if a.kind != 'd':
      r = lift(f(a))
    else:
      r = ite(_node(a.atom, TRUE, FALSE), _lift1(f, a.hi, memo), _lift1(f, a.lo, memo))
    memo[a] = r
  return r


def _lift(f, args, memo):
  key = tuple(args)
  r = memo.get(key)
  if r is None:
    if all(a.kind != 'd' for a in args):
      r = lift(f(*args))
    else:
      t = _top(*args)
      r = ite(_node(t, TRUE, FALSE), _lift(f, [_cof(a, t, 1) for a in args], memo), _lift(f, [_cof(a, t, 0) for a in args], memo))
    memo[key] = r
  return r


def b2n(v):
  if not v._bool:
    return v
  return lift_apply(lambda x: const(int(x.p)) if x.kind == 'b' else x, [v], 'b2n')


def band(a, b):
  return ite(as_bool(a), as_bool(b), FALSE)


def bor(a, b):
  return ite(as_bool(a), TRUE, as_bool(b))


def bnot(a):
  return ite(as_bool(a), FALSE, TRUE)


def bxor(a, b):
  return ite(as_bool(a), bnot(b), as_bool(b))


def as_bool(v):
  if v._bool:
    return v
  return ne(v, ZERO)


def conj(*vs):
  r = TRUE
  for v in vs:
    r = band(r, lift(v))
  return r


# ---------------------------------------------------------------- arithmetic
def _p(v):
  if v.kind == 'b':
    return const(int(v.p)).p
  return v.p


def _mul_mono(m1, m2):
  d = dict(m1)
  for a, e in m2:
    d[a] = d.get(a, 0) + e
    if d[a] == 0:
      del d[a]
  return tuple(sorted(d.items()))


def _needs_expand(m):
  for aid, e in m:
    k = ATOMS[aid].kind
    if k in ('sqrt',) and (e >= 2 or e <= -2):
      return aid, e
    if k == 'cos' and e >= 2:
      return aid, e
    if k == 'inv':
      # product of inv(p) and a polynomial handled in mul
      pass
  return None


def _add_p(p, q, s=1):
  d = dict(p.terms)
  for m, c in q.terms:
    d[m] = d.get(m, 0) + s * c
  return mk_poly(d)


_mulp_memo = {}


def _expand_mono(m, c):
  """Polynomial for c*m with sqrt/cos powers rewritten."""
  ex = _needs_expand(m)
  if ex is None:
    return mk_poly({m: c})
  aid, e = ex
  at = ATOMS[aid]
  rest = tuple((a, x) for a, x in m if a != aid)
  if at.kind == 'sqrt':
    sgn = 1 if e > 0 else -1
    h, r = divmod(abs(e), 2)
    base = power(at.args[0], const(h * sgn))
    v = base
    if r:
      v = mul(v, atom_v(at) if sgn > 0 else inverse(atom_v(at)))
  else:
    h, r = divmod(e, 2)
    s2 = power(sin(at.args[0]), const(2))
    v = power(sub(ONE, s2), const(h))
    if r:
      v = mul(v, atom_v(at))
  restp = _expand_mono(rest, c)
  return mul(v, _leaf(restp)).p


def _mul_p(p, q):
  key = (p.id, q.id) if p.id <= q.id else (q.id, p.id)
  r = _mulp_memo.get(key)
  if r is not None:
    return r
  # cancel P * inv(P)
  for a, b in ((p, q), (q, p)):
    if len(b.terms) == 1:
      m, c = b.terms[0]
      for aid, e in m:
        at = ATOMS[aid]
        if at.kind == 'inv' and e >= 1 and len(a.terms) > 1:
          k = _proportional(a, at.args[0].p)
          if k is not None:
            rest = _mul_mono(m, ((aid, -1),))
            r = mk_poly({rest: c * k})
            _mulp_memo[key] = r
            return r
  acc = {}
  extra = None
  for m1, c1 in p.terms:
    for m2, c2 in q.terms:
      m = _mul_mono(m1, m2)
      c = c1 * c2
      if _needs_expand(m):
        e = _expand_mono(m, c)
        for mm, cc in e.terms:
          acc[mm] = acc.get(mm, 0) + cc
      else:
        acc[m] = acc.get(m, 0) + c
  r = mk_poly(acc)
  _mulp_memo[key] = r
  return r


def _proportional(a, b):
  """k with a == k*b, or None."""
  if len(a.terms) != len(b.terms) or not a.terms:
    return None
  k = a.terms[0][1] / b.terms[0][1]
  for (m1, c1), (m2, c2) in zip(a.terms, b.terms):
    if m1 != m2 or c1 != k * c2:
      return None
  return k


def add(a, b):
  return lift_apply(lambda x, y: _leaf(_add_p(_p(x), _p(y))), [a, b], 'add')


def sub(a, b):
  return lift_apply(lambda x, y: _leaf(_add_p(_p(x), _p(y), -1)), [a, b], 'sub')


def neg(a):
  return sub(ZERO, a)


def mul(a, b):
  return lift_apply(lambda x, y: _leaf(_mul_p(_p(x), _p(y))), [a, b], 'mul')


def inverse(v):
  def f(x):
    p = _p(x)
    if not p.terms:
      return atom_v(mk_atom('fn', ('div0',)))
    if len(p.terms) == 1:
      m, c = p.terms[0]
      if not any(ATOMS[a].kind == 'inv' for a, e in m):
        return _leaf(mk_poly({tuple((a, -e) for a, e in m): 1 / c}))
      # inv(inv(P)) -> P
      r = const(1 / c)
      for a, e in m:
        at = ATOMS[a]
        if at.kind == 'inv':
          r = mul(r, power(at.args[0], const(e)))
        else:
          r = mul(r, _leaf(mk_poly({((a, -e),): Fraction(1)})))
      return r
    c = p.terms[0][1]
    q = mk_poly({m: k / c for m, k in p.terms})
    return _leaf(mk_poly({((mk_atom('inv', (_leaf(q),)).id, 1),): 1 / c}))
  return lift_apply(f, [v], 'inverse')


def div(a, b):
  return mul(a, inverse(b))


def power(a, n):
  k = const_val(n)
  if k is not None and k.denominator == 1 and abs(k) <= 8:
    k = int(k)
    base = a if k >= 0 else inverse(a)
    r = ONE
    for _ in range(abs(k)):
      r = mul(r, base)
    return r
  if k is not None and k == Fraction(1, 2):
    return sqrt(a)
  return fn('pow', a, n)


def _sgn_norm(p):
  """(sign, poly) with positive leading coefficient."""
  if p.terms and p.terms[-1][1] < 0:
    return -1, mk_poly({m: -c for m, c in p.terms})
  return 1, p


def _split_pi(p):
  """(k, rest) with p = k*pi/2 + rest, k integer part extracted when integral."""
  m = ((_PI_ATOM.id, 1),)
  d = dict(p.terms)
  c = d.pop(m, Fraction(0))
  k = c * 2
  whole = k.numerator // k.denominator
  rem = k - whole
  if rem:
    d[m] = rem / 2
  return int(whole), mk_poly(d)


def _trig(which, x):
  def f(xv):
    k, r = _split_pi(_p(xv))
    w = which
    s = 1
    for _ in range(k % 4):
      # sin(x+pi/2)=cos x ; cos(x+pi/2)=-sin x
      if w == 'sin':
        w = 'cos'
      else:
        w = 'sin'
        s = -s
    if not r.terms:
      return const(0 if w == 'sin' else s)
    sg, r = _sgn_norm(r)
    if sg < 0 and _split_pi(r)[0] != 0:
      return mul(const(s * (sg if w == 'sin' else 1)), _trig(w, _leaf(r)))
    if w == 'sin' and sg < 0:
      s = -s
    at = mk_atom(w, (_leaf(r),))
    return mul(const(s), atom_v(at))
  return lift_apply(f, [x], which)


def sin(x):
  return _trig('sin', x)


def cos(x):
  return _trig('cos', x)


def tan(x):
  return div(sin(x), cos(x))


def sqrt(x):
  def f(v):
    p = _p(v)
    c = const_val(v)
    if c is not None and c >= 0:
      import math
      a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
      if a * a == c.numerator and b * b == c.denominator:
        return const(Fraction(a, b))
    if len(p.terms) == 1:
      m, k = p.terms[0]
      if k == 1 and all(e % 2 == 0 for _, e in m):
        r = ONE
        for a, e in m:
          r = mul(r, absv(power(atom_v(ATOMS[a]), const(e // 2))))
        return r
    return atom_v(mk_atom('sqrt', (v,)))
  return lift_apply(f, [x], 'sqrt')


_NONNEG_FN = {'exp', 'hypot'}


def fn(name, *args, sort='n', isint=False):
  """Uninterpreted function symbol, gates distributed over its arguments."""
  args = [a if isinstance(a, V) else lift(a) for a in args]
  return lift_apply(lambda *xs: atom_v(mk_atom('fn', (name,) + xs, sort, isint)), args, ('fn', name, sort, isint))


def atan2(y, x):
  return fn('atan2', y, x)


def modv(a, b):
  def f(x, y):
    cx, cy = const_val(x), const_val(y)
    if cx is not None and cy is not None and cy != 0:
      return const(cx - cy * (cx / cy).__floor__())
    px, py = _p(x), _p(y)
    nx, ny = _pi_num(px), _pi_num(py)
    if nx is not None and ny is not None and ny > 1e-9:
      k = _math.floor(nx / ny)
      if min(nx / ny - k, k + 1 - nx / ny) > 1e-9:
        return _leaf(_add_p(px, mk_poly({m: c * k for m, c in py.terms}), -1))
    # reduce integer multiples of y inside x: x = q*y + r
    r = _index_mod(px, py)
    if r is not None:
      return r[1]
    # mod(k*mod(z, y) + r, y) = mod(k*z + r, y) for whole k
    for m, c in px.terms:
      if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
        at = ATOMS[m[0][0]]
        if at.kind == 'fn' and at.args[0] == 'mod' and at.args[2] is y:
          rest = mk_poly({mm: cc for mm, cc in px.terms if mm != m})
          return modv(add(mul(const(c), at.args[1]), _leaf(rest)), y)
    # drop whole multiples of a constant*atom modulus (e.g. 2*pi)
    if len(py.terms) == 1:
      m, c = py.terms[0]
      d = dict(px.terms)
      if m in d:
        k = d[m] / c
        fl = k.numerator // k.denominator
        d[m] = d[m] - fl * c
        if len(d) == 1 and c > 0 and all(ATOMS[a].kind == 'pi' for a, _ in m):
          return _leaf(mk_poly(d))
        if fl:
          return atom_v(mk_atom('fn', ('mod', _leaf(mk_poly(d)), y), 'n', px.isint and py.isint))
    return atom_v(mk_atom('fn', ('mod', x, y), 'n', px.isint and py.isint))
  return lift_apply(f, [a, b], 'mod')


def _index_mod(px, py):
  """If px = q*py + r with 0<=r<py provably, (q, r) as nodes."""
  if not py.terms:
    return None
  yv = _leaf(py)
  if len(py.terms) == 1:
    m, c = py.terms[0]
    q, r = {}, {}
    for mm, cc in px.terms:
      quo = _mono_div(mm, m)
      if quo is not None and (cc / c).denominator == 1:
        q[quo] = q.get(quo, 0) + cc / c
      elif not mm and not m and c > 0 and cc.denominator == 1 and c.denominator == 1:
        fl = cc.numerator // c.numerator
        if fl:
          q[()] = q.get((), 0) + fl
        r[()] = cc - fl * c
      else:
        r[mm] = cc
    qp, rp = mk_poly(q), mk_poly(r)
    if not (qp.isint and rp.isint):
      return None
    rv = _leaf(rp)
    if decide_le0(_add_p(mk_poly({}), rp, -1)) is True and decide_le0(_add_p(_add_p(rp, py, -1), const(1).p)) is True:
      return _leaf(qp), rv
  return None


def _mono_div(m, d):
  md = dict(m)
  for a, e in d:
    if md.get(a, 0) < e:
      return None
    md[a] -= e
    if md[a] == 0:
      del md[a]
  return tuple(sorted(md.items()))


def floordiv(a, b):
  def f(x, y):
    cx, cy = const_val(x), const_val(y)
    if cx is not None and cy is not None and cy != 0:
      return const(Fraction((cx / cy).__floor__()))
    r = _index_mod(_p(x), _p(y))
    if r is not None:
      return r[0]
    return atom_v(mk_atom('fn', ('floordiv', x, y), 'n', True))
  return lift_apply(f, [a, b], 'floordiv')


def floor(x):
  def f(v):
    c = const_val(v)
    if c is not None:
      return const(Fraction(c.__floor__()))
    if _p(v).isint:
      return v
    return atom_v(mk_atom('fn', ('floor', v), 'n', True))
  return lift_apply(f, [x], 'floor')


def rint(x):
  def f(v):
    c = const_val(v)
    if c is not None:
      return const(Fraction(round(c)))
    if _p(v).isint:
      return v
    return atom_v(mk_atom('fn', ('rint', v), 'n', True))
  return lift_apply(f, [x], 'rint')


def trunc(x):
  """float -> int cast."""
  def f(v):
    c = const_val(v)
    if c is not None:
      return const(Fraction(c.__trunc__()))
    if v.kind == 'b':
      return const(int(v.p))
    p = _p(v)
    if p.isint and all(ATOMS[a].kind == 'fn' and ATOMS[a].args[0] in ('rint', 'floor', 'mod', 'floordiv', 'trunc')
                       or ATOMS[a].kind in ('var', 'bv', 'dim') for m, _ in p.terms for a, _e in m):
      return v
    return atom_v(mk_atom('fn', ('trunc', v), 'n', True))
  return lift_apply(f, [x], 'trunc')


# ---------------------------------------------------------------- comparisons
def _atom_lo(at):
  """Constant lower bound of an atom, or None."""
  if at.kind in ('var', 'bv'):
    return Fraction(0)
  if at.kind == 'dim':
    return Fraction(at.args[1])
  if at.kind == 'sqrt':
    return Fraction(0)
  if at.kind == 'pi':
    return Fraction(3)
  if at.kind == 'fn' and at.args[0] == 'mod' and at.isint:
    return Fraction(0)
  if at.kind == 'fn' and at.args[0] in ('argext', 'rank'):
    return Fraction(0)
  if at.kind == 'in' and at.args[0] in IN_BOUND:
    return Fraction(0)
  if at.kind == 'fn' and at.args[0] == 'nmax':
    lo = [_upper(mk_poly({m: -c for m, c in v.p.terms})) for v in at.args[1:] if v.kind == 'n']
    lo = [-u for u in lo if u is not None]
    return max(lo) if lo else None
  return None


_hi_memo = {}


def _atom_hi(at):
  """Constant upper bound of a maximum, or None."""
  if at.id in _hi_memo:
    return _hi_memo[at.id]
  r = None
  if at.kind == 'red' and at.args[0] == 'max':
    ls = [l for l in leaves(at.args[3])]
  elif at.kind == 'fn' and at.args[0] == 'nmax':
    ls = list(at.args[1:])
  else:
    ls = None
  if ls is not None and all(l.kind == 'n' for l in ls):
    us = [Fraction(-10 ** 30) if _inf_sign(l.p) == -1 else _upper(l.p) for l in ls]
    r = None if not us or None in us else max(us)
  _hi_memo[at.id] = r
  return r


IN_BOUND = {}   # input name -> size: the input is an index below it


def _upper(p):
  """Constant upper bound of polynomial p, or None."""
  acc = Fraction(0)
  work = dict(p.terms)
  # replace upper-bounded variables
  for _ in range(6):
    ch = False
    for m, c in list(work.items()):
      if c > 0:
        hit = None
        for k, (aid, ex) in enumerate(m):
          at = ATOMS[aid]
          up = at.args[1] if at.kind in ('var', 'bv') and len(at.args) > 1 else IN_BOUND.get(at.args[0]) if at.kind == 'in' else None
          if ex == 1 and up is not None and up.kind == 'n' and hit is None:
            hit = k, up
          elif _atom_lo(at) is None or _atom_lo(at) < 0:
            hit = None
            break
        if hit is not None:
          k, up = hit
          rest = m[:k] + m[k + 1:]
          del work[m]
          for mm, cc in up.p.terms:
            key = _mul_mono(mm, rest)
            work[key] = work.get(key, 0) + c * cc
          work[rest] = work.get(rest, 0) - c
          ch = True
          break
    if not ch:
      break
  for m, c in work.items():
    if c == 0:
      continue
    if m == ():
      acc += c
      continue
    if c < 0 and all(e > 0 for _, e in m):
      lo = Fraction(1)
      for a, e in m:
        l = _atom_lo(ATOMS[a])
        if e % 2 == 0 and (l is None or l < 0):
          l = Fraction(0)
          lo *= l
        elif l is None or l < 0:
          lo = None
          break
        else:
          lo *= l ** e
      if lo is None:
        return None
      acc += c * lo
      continue
    if c > 0 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'pi':
      acc += c * 4
      continue
    if c > 0 and len(m) == 1 and m[0][1] == 1:
      hi = _atom_hi(ATOMS[m[0][0]])
      if hi is not None:
        acc += c * hi
        continue
    if all(e > 0 for _, e in m):
      sg = 1 if c > 0 else -1
      for a, e in m:
        at = ATOMS[a]
        if e % 2 == 0 or ((_atom_lo(at) is not None) and _atom_lo(at) >= 0):
          continue
        hi = _atom_hi(at)
        sg = -sg if hi is not None and hi <= 0 else 0
        if not sg:
          break
      if sg < 0:
        continue
    return None
  return acc


def _pi_num(p):
  """Float value of a polynomial of constants and pi alone, or None."""
  r = 0.0
  for m, c in p.terms:
    if m == ():
      r += float(c)
    elif m == ((_PI_ATOM.id, 1),):
      r += float(c) * _math.pi
    else:
      return None
  return r


def _mod_le0(p):
  """Decides p<=0 for p = c*mod(x, y) + r with y > 0 and r built from constants and pi."""
  hit = None
  for m, c in p.terms:
    if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fn' and ATOMS[m[0][0]].args[0] == 'mod':
      if hit is not None:
        return None
      hit = m, c
  if hit is None:
    return None
  m, c = hit
  y = ATOMS[m[0][0]].args[2]
  if y.kind != 'n':
    return None
  ny = _pi_num(y.p)
  r = mk_poly({mm: cc for mm, cc in p.terms if mm != m})
  nr = _pi_num(r)
  if ny is None or nr is None or ny <= 1e-9:
    return None
  end = _add_p(r, mk_poly({mm: cc * c for mm, cc in y.p.terms}))   # open end of the range
  ne_ = _pi_num(end)
  zero = not end.terms
  if c > 0:
    if zero or ne_ < -1e-9:
      return True
    if nr > 1e-9:
      return False
  else:
    if zero or ne_ > 1e-9:
      return False
    if not r.terms or nr < -1e-9:
      return True
  return None


def _inf_sign(p):
  """Sign of p when it is c*inf + finite terms (None when not)."""
  s = None
  for m, c in p.terms:
    for a, e in m:
      if a == _INF_ATOM.id:
        if m != ((a, 1),):
          return None
        s = 1 if c > 0 else -1
  return s


def decide_le0(p):
  """True/False if p<=0 is decided for all inputs, else None."""
  s = _inf_sign(p)
  if s is not None:
    return s < 0
  if not p.terms:
    return True
  if len(p.terms) == 1 and p.terms[0][0] == ():
    return p.terms[0][1] <= 0
  up = _upper(p)
  if up is not None and up <= 0:
    return True
  low = _upper(mk_poly({m: -c for m, c in p.terms}))
  if low is not None and low < 0:
    return False
  return _mod_le0(p)


def _scale(p):
  """Divide by |leading nonconstant coefficient|."""
  lead = None
  for m, c in p.terms:
    if m != ():
      lead = c
      last = (m, c)
  k = abs(last[1])
  if k == 1:
    return p
  return mk_poly({m: c / k for m, c in p.terms})


def _lead_sign(p):
  s = 1
  for m, c in p.terms:
    if m != ():
      s = 1 if c > 0 else -1
  return s


def _iint(p):
  return p.isint


def _sum_atom_nonneg(p):
  """p == -c*S(+0) for a reduction S = sum of nonneg constants: returns atom."""
  if len(p.terms) == 1:
    m, c = p.terms[0]
    if len(m) == 1 and m[0][1] == 1:
      at = ATOMS[m[0][0]]
      if at.kind == 'red' and at.args[0] == 'sum' and _leaves_nonneg(at.args[3]):
        return at, c
  return None


def _count_side(p, strict):
  """(S, side) when p<=0 separates S=0 from S>=1 for a count S: True for S>=1."""
  k, hit = Fraction(0), None
  for m, c in p.terms:
    if m == ():
      k = c
    elif hit is None and len(m) == 1 and m[0][1] == 1:
      hit = ATOMS[m[0][0]], c
    else:
      return None
  if hit is None or k == 0:
    return None
  at, c = hit
  if at.kind != 'red' or at.args[0] != 'sum' or not _leaves_nonneg(at.args[3], True):
    return None
  b = -k / c      # c > 0: S <= b;  c < 0: S >= b
  if c > 0 and (0 < b <= 1 if strict else 0 <= b < 1):
    return at, False
  if c < 0 and (0 <= b < 1 if strict else 0 < b <= 1):
    return at, True
  return None


def _leaves_nonneg(v, whole=False):
  for l in leaves(v):
    c = const_val(l)
    if c is None:
      a = _single_atom(l)
      if a is None or a.kind != 'red' or a.args[0] != 'sum' or not _leaves_nonneg(a.args[3], whole):
        return False
    elif c < 0 or (whole and c.denominator != 1):
      return False
  return True


def _sum_positive(at):
  """Whether a sum of non-negative constants is above 0."""
  def leaf(l):
    c = const_val(l)
    return _sum_positive(_single_atom(l)) if c is None else TRUE if c > 0 else FALSE
  return reduce_body('any', at.args[1], at.args[2], lift_apply(leaf, [at.args[3]], 'gt0leaf'))


def leaves(v, _seen=None):
  if _seen is None:
    _seen = set()
  if v.id in _seen:
    return
  _seen.add(v.id)
  if v.kind == 'd':
    yield from leaves(v.hi, _seen)
    yield from leaves(v.lo, _seen)
  else:
    yield v


def finite_max(at):
  """Condition under which a masked max is finite (None: it always is)."""
  r = _finmax.get(at.id, 0)
  if r == 0:
    r = None
    if at.kind == 'red' and at.args[0] == 'max':
      def leaf(l):
        if l.kind != 'n':
          return TRUE
        if _inf_sign(l.p) is not None:
          return FALSE
        return conj(*[x for x in (finite_max(ATOMS[a]) for m, c in l.p.terms for a, e in m) if x is not None])
      body = lift_apply(leaf, [at.args[3]])
      r = None if body is TRUE else reduce_body('any', at.args[1], at.args[2], body)
    elif at.kind == 'fn' and at.args[0] == 'nmax':
      # Masked operands are finite or -inf: one finite operand is enough.
      fin = [[finite_max(ATOMS[a]) for m, c in o.p.terms for a, e in m] for o in at.args[1:]]
      if all(x is not None for f in fin for x in f):
        r = FALSE
        for f in fin:
          r = bor(r, conj(*f))
    _finmax[at.id] = r
  return r


_finmax = {}


def _inf_vs_max(p):
  """(finite condition, sign when finite, same sign when not) of s*inf + c*max + ..."""
  s = _inf_sign(p)
  if s is None:
    return None
  out = None
  for m, c in p.terms:
    for a, e in m:
      f = finite_max(ATOMS[a])
      if f is not None:
        if out is not None or e != 1 or len(m) != 1:
          return None
        out = (f, s, (-c > 0) == (s > 0))
  return out


def _cmp0(p, strict):
  """Node for p<=0 (strict: p<0)."""
  isint = p.isint
  im = _inf_vs_max(p)
  if im is not None:
    fin, s, same_sign = im
    v = TRUE if s < 0 else FALSE
    return v if same_sign else ite(fin, v, FALSE if strict else TRUE)
  if not strict:
    d = decide_le0(p)
  else:
    d = decide_le0(mk_poly({m: -c for m, c in p.terms}))
    d = None if d is None else (not d)
  if d is not None:
    return TRUE if d else FALSE
  sn = _sum_atom_nonneg(p)
  if sn is not None:
    at, c = sn
    anyv = _sum_positive(at)
    if c > 0:   # c*S <= 0 <=> none ; c*S<0 never
      return FALSE if strict else bnot(anyv)
    return anyv if strict else TRUE   # S>0 ; S>=0
  cnt = _count_side(p, strict)
  if cnt is not None:
    at, pos = cnt
    anyv = _sum_positive(at)
    return anyv if pos else bnot(anyv)
  if isint:
    if strict:
      p = _add_p(p, const(1).p)
      strict = False
    # divide by gcd of nonconstant coefficients
    from math import gcd
    g = 0
    for m, c in p.terms:
      if m != ():
        g = gcd(g, int(c))
    g = g or 1
    d = {}
    for m, c in p.terms:
      if m == ():
        d[m] = -((-c) // g)  # ceil(c/g): g*q + c <= 0 <=> q <= floor(-c/g)
        d[m] = Fraction(d[m])
      else:
        d[m] = c / g
    p = mk_poly(d)
    if decide_le0(mk_poly({m: -c for m, c in p.terms})) is True:
      return _eq0(p)
    q = _add_p(const(1).p, p, -1)
    if decide_le0(mk_poly({m: -c for m, c in q.terms})) is True:
      return bnot(_eq0(q))
    if _lead_sign(p) > 0:
      return atom_v(mk_atom('le0', (_leaf(p),), 'b'))
    # p<=0  <=>  -p>=0 <=> not(-p < 0) <=> not(-p+1 <= 0)
    q = _add_p(const(1).p, p, -1)
    return bnot(atom_v(mk_atom('le0', (_leaf(q),), 'b')))
  if not strict and decide_le0(mk_poly({m: -c for m, c in p.terms})) is True:
    return _eq0(p)
  p = _scale(p)
  if _lead_sign(p) > 0:
    return atom_v(mk_atom('lt0' if strict else 'le0', (_leaf(p),), 'b'))
  q = mk_poly({m: -c for m, c in p.terms})
  # p<=0 <=> not(q<0); p<0 <=> not(q<=0)
  return bnot(atom_v(mk_atom('le0' if strict else 'lt0', (_leaf(q),), 'b')))


def le(a, b):
  return lift_apply(lambda x, y: _cmp0(_add_p(_p(x), _p(y), -1), False), [a, b], 'le')


def lt(a, b):
  return lift_apply(lambda x, y: _cmp0(_add_p(_p(x), _p(y), -1), True), [a, b], 'lt')


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def _eq0(p):
  if not p.terms:
    return TRUE
  if len(p.terms) == 1 and p.terms[0][0] == ():
    return FALSE
  im = _inf_vs_max(p)
  if im is not None:
    return FALSE if im[2] else bnot(im[0])
  if _inf_sign(p) is not None:
    return FALSE
  if decide_le0(p) is False:
    return FALSE
  if decide_le0(mk_poly({m: -c for m, c in p.terms})) is False:
    return FALSE
  if p.isint:
    from math import gcd
    g = 0
    for m, c in p.terms:
      if m != ():
        g = gcd(g, int(c))
    c0 = dict(p.terms).get((), Fraction(0))
    if g and int(c0) % g:
      return FALSE
  sn = _sum_atom_nonneg(p)
  if sn is not None:
    return _cmp0(mk_poly({m: abs(c) for m, c in p.terms}), False)
  p = _scale(p)
  if _lead_sign(p) < 0:
    p = mk_poly({m: -c for m, c in p.terms})
  return atom_v(mk_atom('eq0', (_leaf(p),), 'b'))


def eq(a, b):
  def f(x, y):
    if x.kind == 'b' and y.kind == 'b':
      return TRUE if x is y else FALSE
    return _eq0(_add_p(_p(x), _p(y), -1))
  return lift_apply(f, [a, b], 'eq')


def ne(a, b):
  return bnot(eq(a, b))


_maxof = {}    # node id of a two-way max gate -> its operands


def _max_operands(v):
  """Leaf operands when v is a max gate or an nmax term, else None."""
  if v.id in _maxof:
    return _maxof[v.id]
  if v.kind == 'n' and len(v.p.terms) >= 1:
    hit = None
    for m, c in v.p.terms:
      if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fn' and ATOMS[m[0][0]].args[0] == 'nmax' and c == 1:
        if hit is not None:
          return None
        hit = m
    if hit is not None:
      rest = _leaf(mk_poly({m: c for m, c in v.p.terms if m != hit}))
      return [add(rest, x) for x in ATOMS[hit[0][0]].args[1:]]
  return None


def maxv(a, b):
  a, b = b2n(a), b2n(b)
  oa, ob = _max_operands(a), _max_operands(b)
  if (oa is not None or ob is not None) and const_val(a) is None and const_val(b) is None:
    if (oa is not None or a.kind == 'n') and (ob is not None or b.kind == 'n'):
      return nmax_leaves((oa or [a]) + (ob or [b]))
  return _max2(a, b)


def _tie(a, b, x, y):
  """x where a<=b else y, for x, y that agree where a==b: one literal form."""
  def f(p, q):
    d = sub(p, q)
    if _count_side(_p(d), False) is not None:
      return le(d, ZERO)
    if _count_side(_p(neg(d)), False) is None and (decide_le0(_p(d)) is not None or _lead_sign(_p(d)) > 0):
      return le(d, ZERO)
    return bnot(le(neg(d), ZERO))
  return ite(lift_apply(f, [a, b], 'tie'), x, y)


def _max2(a, b):
  r = _tie(a, b, b, a)
  if a.kind == 'n' and b.kind == 'n' and r.kind == 'd' and const_val(a) is None and const_val(b) is None:
    _maxof[r.id] = [a, b]
  return r


def minv(a, b):
  a, b = b2n(a), b2n(b)
  if const_val(a) is None and const_val(b) is None:
    na, nb = neg(a), neg(b)
    if (_max_operands(na) is not None or _max_operands(nb) is not None) or (a.kind == 'n' and b.kind == 'n'):
      return neg(maxv(na, nb))
  return _tie(b, a, b, a)


def nmax_leaves(ls):
  """Maximum of leaf nodes in a canonical form."""
  vals = {}
  k0 = None
  for l in ls:
    c = const_val(l)
    if c is not None:
      k0 = c if k0 is None or c > k0 else k0
    else:
      vals[l.id] = l
  keep = list(vals.values()) + ([const(k0)] if k0 is not None else [])
  # drop operands that never exceed another one
  out = []
  for i, x in enumerate(keep):
    dom = False
    for j, y in enumerate(keep):
      if i != j and decide_le0(_add_p(_p(x), _p(y), -1)) is True and not (
          j > i and decide_le0(_add_p(_p(y), _p(x), -1)) is True):
        dom = True
        break
    if not dom:
      out.append(x)
  if len(out) == 1:
    return out[0]
  if len(out) == 2:
    out.sort(key=lambda v: v.id)
    return _max2(out[0], out[1])
  # pull out the common summands
  common = dict(_p(out[0]).terms)
  for x in out[1:]:
    d = dict(_p(x).terms)
    common = {m: c for m, c in common.items() if d.get(m) == c}
  cv = _leaf(mk_poly(common))
  rest = sorted([sub(x, cv) for x in out], key=lambda v: v.id)
  at = mk_atom('fn', ('nmax',) + tuple(rest), 'n', all(_p(r).isint for r in rest))
  return add(cv, atom_v(at))


def nmax(*vs):
  return lift_apply(lambda *ls: nmax_leaves(ls), [b2n(v) for v in vs])


def absv(x):
  def f(v):
    c = const_val(v)
    if c is not None:
      return const(abs(c))
    p = _p(v)
    if _upper(mk_poly({m: -k for m, k in p.terms})) is not None and _upper(mk_poly({m: -k for m, k in p.terms})) <= 0:
      return v
    return maxv(v, neg(v))
  return lift_apply(f, [x], 'abs')


def signv(x):
  return ite(lt(x, ZERO), const(-1), ite(eq(x, ZERO), ZERO, ONE))


# ---------------------------------------------------------------- reductions
def reduce_(op, size, f):
  """Reduction of f(i) over i in [0,size): op in any,sum,max,prod,argmin,..."""
  size = lift(size)
  n = const_val(size)
  if n is not None and 3 <= n <= 16 and op == 'max':
    return nmax(*[f(const(k)) for k in range(int(n))])
  if n is not None and n <= 16 and op in ('any', 'sum', 'max', 'prod'):
    acc = {'any': FALSE, 'sum': ZERO, 'prod': ONE, 'max': None}[op]
    for k in range(int(n)):
      v = f(const(k))
      if op == 'any':
        acc = bor(acc, as_bool(v))
      elif op == 'sum':
        acc = add(acc, v)
      elif op == 'prod':
        acc = mul(acc, v)
      else:
        v = b2n(v)
        acc = v if acc is None else maxv(acc, v)
    if acc is None:
      raise TermError('max over empty axis')
    return acc
  with scoped_var(size, 'r') as var:
    at = next(iter(var.p.terms))[0][0][0]
    body = f(var)
    if op == 'any':
      body = as_bool(body)
    else:
      body = b2n(body)
    at = ATOMS[at]
    inner = _radix(size, at, body) if op in ('any', 'sum', 'max') else None
    if inner is None:
      return _close(op, size, at, body)
  # a flattened axis, taken apart again: i = q*inner + r
  (ms, cs), (mi, ci) = size.p.terms[0], inner.p.terms[0]
  outer = _leaf(mk_poly({_mono_div(ms, mi): cs / ci}))
  return reduce_(op, outer, lambda q: reduce_(op, inner, lambda r: subst(body, {at: add(mul(q, inner), r)})))


def _radix(size, at, body):
  """The inner extent when the body reads at//inner or at%inner of a product-sized axis."""
  if size.kind != 'n' or len(size.p.terms) != 1 or not size.p.terms[0][0]:
    return None
  ms, cs = size.p.terms[0]
  hits = {}
  for a in atoms_of(body):
    if a.kind == 'fn' and a.args[0] in ('mod', 'floordiv') and at in a.fv:
      d = a.args[2]
      if a.args[1].kind == 'n' and _single_atom(a.args[1]) is at and d.kind == 'n' and len(d.p.terms) == 1 and d is not size:
        m, c = d.p.terms[0]
        if c > 0 and (cs / c).denominator == 1 and _mono_div(ms, m) is not None:
          hits[d.id] = d
  return hits[min(hits)] if hits else None


def reduce_body(op, size, d, body):
  """Rebuild a reduction from a body over bv(d)."""
  bv = mk_atom('bv', (d, size), 'n', True)
  with scoped_var(size, 'r') as var:
    at = ATOMS[var.p.terms[0][0][0][0]]
    return _close(op, size, at, subst(body, {bv: var}))


def _close(op, size, var, body):
  if op == 'any':
    if var not in body.fv:
      return body           # axis is non-empty
    # existential with an equality pinning the variable
  elif op == 'max':
    if var not in body.fv:
      return body
    last = _max_position(size, var, body)
    if last is not None:
      return last
    # push through gates with only constant leaves: nested any
    ls = list(leaves(body))
    if body.kind == 'd' and all(const_val(l) is not None for l in ls) and len(ls) <= 6:
      ls = sorted(ls, key=const_val)
      acc = ls[0]
      for l in ls[1:]:
        c = lift_apply(lambda x, l=l: TRUE if x is l else FALSE, [body])
        acc = ite(_close('any', size, var, c), l, acc)
      return acc
  elif op == 'sum':
    if var not in body.fv:
      return mul(size, body)
    # factor gates and factors that do not depend on the variable
    if body.kind == 'n':
      acc = ZERO
      for m, c in body.p.terms:
        out, inn = [], []
        for a, e in m:
          (inn if var in ATOMS[a].fv else out).append((a, e))
        k = _leaf(mk_poly({tuple(out): c}))
        if inn:
          part = _leaf(mk_poly({tuple(inn): Fraction(1)}))
          nest = _flatten_nest('sum', size, var, part) if len(inn) == 1 else None
          acc = add(acc, mul(k, _red_atom('sum', size, var, part) if nest is None else nest))
        else:
          acc = add(acc, mul(k, size))
      return acc
  # pull out gates independent of the bound variable
  g = _indep_gate(body, var)
  if g is not None:
    hi = _close(op, size, var, cofactor(body, g, True))
    lo = _close(op, size, var, cofactor(body, g, False))
    return ite(_node(g, TRUE, FALSE), hi, lo)
  if op in ('sum', 'any') and body.kind == 'd':
    # sum over i of ite(i==e, f(i), 0) = f(e)   (e in range)
    sp = _pin(body, var, ZERO if op == 'sum' else FALSE)
    if sp is not None:
      return sp
  if op in ('max', 'any', 'sum'):
    r = _flatten_nest(op, size, var, body)
    if r is not None:
      return r
  return _red_atom(op, size, var, body)


def _single_atom(v):
  if v.kind == 'n' and len(v.p.terms) == 1:
    m, c = v.p.terms[0]
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      return ATOMS[m[0][0]]
  return None


def _merge_inner(op, body):
  """(size, var, body) with one inner reduction of the same op made explicit."""
  if op == 'any':
    cand = {}
    for a in _gate_atoms(body):
      if a.kind == 'red' and a.args[0] == 'any':
        cand[a.id] = a
    for k in sorted(cand):
      a = cand[k]
      hi, lo = cofactor(body, a, True), cofactor(body, a, False)
      if band(lo, bnot(hi)) is not FALSE:
        continue
      var = fresh_var(a.args[1], 'q')
      at = ATOMS[var.p.terms[0][0][0][0]]
      f = subst(a.args[3], {mk_atom('bv', (a.args[2], a.args[1]), 'n', True): var})
      return a.args[1], at, bor(lo, band(hi, f))
    return None
  ls = list(leaves(body))
  reds = {}
  for l in ls:
    a = _single_atom(l)
    if a is not None and a.kind == 'red' and a.args[0] == op and len(a.args) == 4:
      reds[l] = a
    elif op == 'sum' and l is not ZERO and const_val(l) != 0:
      return None
  if not reds:
    return None
  size = min((a.args[1] for a in reds.values()), key=lambda s: s.id)
  var = fresh_var(size, 'q')
  at = ATOMS[var.p.terms[0][0][0][0]]
  rep = {}
  for l, a in reds.items():
    if a.args[1] is size:
      rep[l] = subst(a.args[3], {mk_atom('bv', (a.args[2], size), 'n', True): var})
    elif op == 'sum':
      return None
  return size, at, lift_apply(lambda x: rep.get(x, x), [body])


def _gate_atoms(v):
  seen, st, out = set(), [v], []
  while st:
    x = st.pop()
    if x.kind != 'd' or x.id in seen:
      continue
    seen.add(x.id)
    out.append(x.atom)
    st += [x.hi, x.lo]
  return out


def _flatten_nest(op, size, var, body):
  """Canonical order of nested reductions of one commutative operation."""
  vs = [(size, var)]
  while len(vs) < 4:
    r = _merge_inner(op, body)
    if r is None:
      break
    vs.append(r[:2])
    body = r[2]
  if len(vs) == 1:
    return None
  best = None
  for order in itertools.permutations(vs):
    if any(x[0].id > y[0].id for x, y in zip(order, order[1:])):
      continue
    b = body
    for s, x in reversed(order):
      b = _red_atom(op, s, x, b)
    if best is None or b.id < best.id:
      best = b
  return best


def _pin(body, var, neutral):
  """Body at the only value of var where it is not neutral, if a gate fixes it."""
  seen, st, cand = set(), [body], {}
  while st:
    v = st.pop()
    if v.kind != 'd' or v.id in seen:
      continue
    seen.add(v.id)
    if v.atom.kind == 'eq0' and var in v.atom.fv:
      cand[v.atom.id] = v.atom
    st += [v.hi, v.lo]
  for k in sorted(cand):
    at = cand[k]
    sol = solve_for(at.args[0].p, var)
    if sol is not None and var not in sol.fv:
      rest = cofactor(body, at, False)
      if rest is neutral or rest is FALSE or (neutral is ZERO and const_val(rest) == 0):
        return subst(cofactor(body, at, True), {var: sol})
  return None


def _position_leaves(body, var):
  """Whether every leaf is the position itself or a constant <= 0."""
  got = False
  for l in leaves(body):
    if l.kind != 'n':
      return False
    c = const_val(l)
    if c is None and l is atom_v(var):
      got = True
    elif c is None and _inf_sign(l.p) == -1:
      pass
    elif c is None or c > 0:
      return False
  return got


def _last_position(size, var, body):
  """Largest marked position (0 when there is none), in one form."""
  b = lift_apply(lambda l: l if l is atom_v(var) else ZERO, [body])
  return _red_atom('argmax', size, var, b)


def _max_position(size, var, body):
  """Maximum over positions or constants <= 0, through the last marked one."""
  if body.kind != 'd' or not _position_leaves(body, var):
    return None
  ls = [l for l in leaves(body) if l is not atom_v(var)]
  best = max((l for l in ls if const_val(l) is not None), key=const_val, default=None)
  last = _last_position(size, var, body)
  if best is ZERO:
    return last
  mark = _close('any', size, var, lift_apply(lambda l: TRUE if l is atom_v(var) else FALSE, [body]))
  rest = lift_apply(lambda l: ls[0] if l is atom_v(var) else l, [body])
  return ite(mark, last, _close('max', size, var, rest))


def _pin_extreme(body, var, most):
  """The only value of var where a two-valued body takes its extreme."""
  if body.kind != 'd' or body.atom.kind != 'eq0' or var not in body.atom.fv:
    return None
  hi, lo = const_val(body.hi), const_val(body.lo)
  if hi is None or lo is None or hi == lo or (hi > lo) != most:
    return None
  sol = solve_for(body.atom.args[0].p, var)
  return sol if sol is not None and var not in sol.fv else None


def solve_for(p, var):
  """Value of var making p==0 if p is linear in var with coef +-1."""
  m = ((var.id, 1),)
  d = dict(p.terms)
  c = d.pop(m, None)
  if c is None or abs(c) != 1:
    return None
  for mm in d:
    if any(a == var.id for a, e in mm):
      return None
  return _leaf(mk_poly({mm: -cc / c for mm, cc in d.items()}))


def _indep_gate(body, var):
  seen, st, best = set(), [body], None
  while st:
    v = st.pop()
    if v.kind != 'd' or v.id in seen:
      continue
    seen.add(v.id)
    if var not in v.atom.fv and (best is None or v.atom.id < best.id):
      best = v.atom
    st += [v.hi, v.lo]
  return best


def cofactor(v, at, pol):
  memo = {}

  def go(x):
    if x.kind != 'd' or x.atom.id > at.id:
      return x
    r = memo.get(x.id)
    if r is None:
      if x.atom is at:
        r = x.hi if pol else x.lo
      else:
        r = _node(x.atom, go(x.hi), go(x.lo))
      memo[x.id] = r
    return r
  return go(v)


def _red_atom(op, size, var, body, extra=()):
  d = max(body.depth, size.depth) + 1
  for e in extra:
    if isinstance(e, V):
      d = max(d, e.depth + 1)
  bv = mk_atom('bv', (d, size), 'n', True)
  b2 = subst(body, {var: atom_v(bv)})
  sort = 'b' if op == 'any' else 'n'
  isint = op in ('argmin', 'argmax', 'rank', 'arganyfirst', 'nth_true', 'rank_true') or (
      op in ('sum', 'max') and all(l.kind == 'b' or (l.kind == 'n' and l.p.isint) for l in leaves(b2)))
  if op == 'argmin':
    b2 = neg(b2)
    op = 'argmax'
  at = mk_atom('red', (op, size, d, b2) + tuple(extra), sort, isint)
  return atom_v(at)


def _order_key(body):
  """Order-equivalent key: without a common root or a common positive factor."""
  body = _unroot(body)
  cs = [c for l in leaves(body) if l.kind == 'n' and l is not INF and l is not neg(INF) for _, c in l.p.terms]
  if not cs:
    return body
  import math
  g = Fraction(math.gcd(*[c.numerator for c in cs]), math.lcm(*[c.denominator for c in cs]))
  return body if g == 1 else lift_apply(lambda l: l if l.kind != 'n' or l is INF or l is neg(INF) else mul(const(1 / g), l), [body])


def _unroot(body):
  ls = list(leaves(body))
  if not any(_root(l) is not None or _root(neg(l)) is not None for l in ls if l.kind == 'n'):
    return body
  for s in (ident, neg):
    out = {}
    for l in ls:
      v = s(l)
      r = _root(v) if v.kind == 'n' else None
      c = const_val(v) if v.kind == 'n' else None
      if v is INF or v is neg(INF):
        out[l.id] = l
      elif r is not None:
        out[l.id] = s(r)
      elif c is not None and c >= 0:
        out[l.id] = s(const(c * c))
      else:
        break
    else:
      return lift_apply(lambda l: out[l.id], [body])
  return body


def ident(v):
  return v


def _root(v):
  """c^2*p when v is c*sqrt(p) with c > 0."""
  if len(v.p.terms) != 1:
    return None
  mono, c = v.p.terms[0]
  if c <= 0 or len(mono) != 1 or mono[0][1] != 1 or ATOMS[mono[0][0]].kind != 'sqrt':
    return None
  return mul(const(c * c), ATOMS[mono[0][0]].args[0])


def red_fn(op, size, f, extra=()):
  """Uninterpreted reduction (argmax, rank, cumsum, ...) with extra args."""
  size = lift(size)
  with scoped_var(size, 'r') as var:
    at = ATOMS[var.p.terms[0][0][0][0]]
    body = b2n(f(var))
    extra = [lift(e) for e in extra]
    return lift_apply(lambda *ex: _close_fn(op, size, at, body, tuple(ex)), extra) if extra else _close_fn(op, size, at, body)


def _close_fn(op, size, var, body, extra=()):
  g = _indep_gate(body, var)
  if g is not None:
    return ite(_node(g, TRUE, FALSE), _close_fn(op, size, var, cofactor(body, g, True), extra), _close_fn(op, size, var, cofactor(body, g, False), extra))
  if op == 'argmax' and body.kind == 'd' and _position_leaves(body, var):
    return _last_position(size, var, body)
  if op == 'rank' and const_val(extra[0]) == 0:
    op, extra = 'argmin', ()      # the stable order starts with the first smallest entry
  if op in ('argmax', 'argmin', 'rank'):
    body = _order_key(body)
  if op in ('argmax', 'argmin'):
    only = _pin_extreme(body, var, op == 'argmax')
    if only is not None:
      return only
  if op == 'argmax':
    last = _last_from_end(size, var, body)
    if last is not None:
      return last
  return _red_atom(op, size, var, body, extra)


def _last_from_end(size, var, body):
  """The first mark counted from the end, as the last marked position."""
  vals = {const_val(l) for l in leaves(body)} if body.kind == 'd' else ()
  if len(vals) != 2 or None in vals or size.kind != 'n' or const_val(size) is not None:
    return None
  hi = max(vals)
  mark = lift_apply(lambda l: TRUE if const_val(l) == hi else FALSE, [body])
  back = subst(mark, {var: sub(sub(size, ONE), atom_v(var))})
  ends = {a for m, _ in size.p.terms for a, _ in m}

  def counts(v):
    return any(a.kind != 'red' and ends & _ids_in(a) for a in _gates(v))
  if not counts(mark) or counts(back):
    return None
  some = _close('any', size, var, back)
  at = lift_apply(lambda l: atom_v(var) if l is TRUE else ZERO, [back])
  return ite(some, sub(sub(size, ONE), _last_position(size, var, at)), ZERO)


def _gates(v):
  out, st, seen = [], [v], set()
  while st:
    x = st.pop()
    if x.kind == 'd' and x.id not in seen:
      seen.add(x.id)
      out.append(x.atom)
      st += [x.hi, x.lo]
  return out


def _ids_in(at):
  """Ids of the atoms occurring in an atom."""
  out, st = set(), [at]
  while st:
    x = st.pop()
    if isinstance(x, Atom):
      if x.id in out:
        continue
      out.add(x.id)
      if x.kind not in ('var', 'bv'):      # these carry their range
        st += list(_flat(x.args))
    elif isinstance(x, V):
      if x.kind == 'd':
        st += [x.atom, x.hi, x.lo]
      elif x.kind == 'n':
        st += [ATOMS[a] for m, _ in x.p.terms for a, _ in m]
  return out


# ---------------------------------------------------------------- substitution
_subst_memo = {}


def subst(v, m):
  """m: Atom(var) -> V."""
  keys = frozenset(m)
  mk = tuple(sorted((k.id, n.id) for k, n in m.items()))
  ent = _subst_memo.get(mk)
  if ent is None:
    if len(_subst_memo) > 4000:
      _subst_memo.clear()
    ent = _subst_memo[mk] = ({}, {})
  memo, amemo = ent

  def sv(x):
    if not (x.fv & keys):
      return x
    r = memo.get(x.id)
    if r is not None:
      return r
    if x.kind == 'd':
      r = ite(as_bool(sa(x.atom)), sv(x.hi), sv(x.lo))
    else:
      r = ZERO
      for mono, c in x.p.terms:
        t = const(c)
        for aid, e in mono:
          at = ATOMS[aid]
          if at.fv & keys:
            b = sa(at)
            t = mul(t, power(b, const(e)))
          else:
            t = mul(t, _leaf(mk_poly({((aid, e),): Fraction(1)})))
        r = add(r, t)
    memo[x.id] = r
    return r

  def sarg(a):
    if isinstance(a, V):
      return sv(a)
    if isinstance(a, tuple):
      return tuple(sarg(z) for z in a)
    return a

  def sa(at):
    r = amemo.get(at.id)
    if r is not None:
      return r
    if at in m:
      r = m[at]
    elif not (at.fv & keys):
      r = atom_v(at)
    else:
      r = rebuild(at, [sarg(a) for a in at.args] if at.kind != 'red' else None, sv)
    amemo[at.id] = r
    return r

  return sv(v)


def rebuild(at, args, sv=None):
  k = at.kind
  if k == 'in':
    return inp(args[0], *args[1:], sort=at.sort, isint=at.isint)
  if k == 'fn':
    return FN_REBUILD.get(args[0], lambda *xs: fn(args[0], *xs, sort=at.sort, isint=at.isint))(*args[1:])
  if k == 'sin':
    return sin(args[0])
  if k == 'cos':
    return cos(args[0])
  if k == 'sqrt':
    return sqrt(args[0])
  if k == 'inv':
    return inverse(args[0])
  if k == 'le0':
    return le(args[0], ZERO)
  if k == 'lt0':
    return lt(args[0], ZERO)
  if k == 'eq0':
    return eq(args[0], ZERO)
  if k == 'red':
    op, size, d, body = at.args[:4]
    extra = tuple(sv(e) for e in at.args[4:])
    size2 = sv(size)
    bv = mk_atom('bv', (d, size), 'n', True)
    with scoped_var(size2, 'r') as var:
      va = ATOMS[var.p.terms[0][0][0][0]]
      b2 = sv(subst(body, {bv: var}))
      if extra:
        return lift_apply(lambda *ex: _red_atom2(op, size2, va, b2, ex), list(extra))
      if op in ('any', 'sum', 'max'):
        return _close(op, size2, va, b2)
      return _red_atom2(op, size2, va, b2, ())
  if k in ('var', 'bv'):
    # size depends on a substituted variable: keep identity
    return atom_v(at)
  return atom_v(at)


def _red_atom2(op, size, var, body, extra):
  return _red_atom(op, size, var, body, tuple(extra))


FN_REBUILD = {}


def _init_rebuild():
  FN_REBUILD.update({
      'mod': modv, 'floordiv': floordiv, 'floor': floor, 'rint': rint,
      'trunc': trunc, 'pow': power, 'nmax': nmax})


_init_rebuild()


# ---------------------------------------------------------------- comparison
class _Ctx:
  """Order facts collected on a gate path: interval per linear form."""

  def __init__(self):
    self.iv = {}       # form poly id -> [lo, lostrict, hi, histrict]
    self.ne = {}
    self.forms = {}
    self.eqs = []

  def copy(self):
    c = _Ctx()
    c.iv = {k: list(v) for k, v in self.iv.items()}
    c.ne = {k: set(v) for k, v in self.ne.items()}
    c.forms = dict(self.forms)
    c.eqs = list(self.eqs)
    return c

  def assume(self, at, pol):
    """Returns False if contradictory."""
    if at.kind not in ('le0', 'lt0', 'eq0'):
      return True
    v = at.args[0]
    if v.kind != 'n':
      return True
    p = v.p
    d = dict(p.terms)
    c = d.pop((), Fraction(0))
    q = mk_poly(d)
    self.forms[q.id] = q
    iv = self.iv.get(q.id)
    if iv is None:
      iv = self.iv[q.id] = [None, False, None, False]
      if len(q.terms) == 1 and q.terms[0][1] == 1 and len(q.terms[0][0]) == 1 and q.terms[0][0][0][1] == 1:
        at1 = ATOMS[q.terms[0][0][0][0]]
        if at1.kind in ('var', 'bv') and len(at1.args) > 1:
          n = const_val(at1.args[1])
          if n is not None:
            iv[0], iv[2] = Fraction(0), n - 1
    isint = q.isint
    b = -c          # q <= b etc.
    ok = True
    if at.kind == 'eq0':
      if pol:
        ok = self._lo(iv, b, False) and self._hi(iv, b, False)
      else:
        self.ne.setdefault(q.id, set()).add(b)
    elif at.kind == 'le0':
      if pol:
        ok = self._hi(iv, b, False)
      elif isint:
        ok = self._lo(iv, b + 1, False)
      else:
        ok = self._lo(iv, b, True)
    else:
      if pol:
        ok = self._hi(iv, b, True)
      else:
        ok = self._lo(iv, b, False)
    if not ok:
      return False
    # tighten disequalities at integer ends
    for _ in range(4):
      lo, ls, hi, hs = iv
      ch = False
      for n in self.ne.get(q.id, ()):
        if lo is not None and lo == n and not ls:
          if isint:
            iv[0] = lo + 1
          else:
            iv[1] = True
          ch = True
        if hi is not None and hi == n and not hs:
          if isint:
            iv[2] = hi - 1
          else:
            iv[3] = True
          ch = True
      if not self._cons(iv):
        return False
      if not ch:
        break
    return True

  def _cons(self, iv):
    lo, ls, hi, hs = iv
    if lo is not None and hi is not None:
      if lo > hi or (lo == hi and (ls or hs)):
        return False
    return True

  def _lo(self, iv, b, s):
    if iv[0] is None or b > iv[0] or (b == iv[0] and s):
      iv[0], iv[1] = b, s
    return self._cons(iv)

  def _hi(self, iv, b, s):
    if iv[2] is None or b < iv[2] or (b == iv[2] and s):
      iv[2], iv[3] = b, s
    return self._cons(iv)

  def equalities(self):
    out = []
    for k, (lo, ls, hi, hs) in self.iv.items():
      if lo is not None and lo == hi:
        out.append((self.forms[k], lo))
    return out


def _reduce_mod(p, eqs):
  """Rewrite poly p using q=v equalities on the leading atom of q."""
  for q, v in eqs:
    # choose a linear atom of q to eliminate
    for m, c in reversed(q.terms):
      if len(m) == 1 and m[0][1] == 1:
        aid = m[0][0]
        if all(aid not in [a for a, _ in mm] for mm, _ in q.terms if mm != m):
          rest = {mm: -cc / c for mm, cc in q.terms if mm != m}
          rest[()] = rest.get((), 0) + v / c
          yield ATOMS[aid], _leaf(mk_poly(rest))
          break


def _in_span(p, eqs):
  """p is a rational combination of the equalities q - v = 0 (so p = 0), or
  the equalities have no common solution."""
  rows = []
  def red(d):
    for piv, row in rows:
      c = d.get(piv)
      if c:
        for m, k in row.items():
          d[m] = d.get(m, 0) - c * k
    return {m: k for m, k in d.items() if k}
  for q, v in eqs:
    d = dict(q.terms)
    d[()] = d.get((), Fraction(0)) - v
    d = red(d)
    piv = next((m for m in d if m != ()), None)
    if piv is None:
      if d:
        return True
      continue
    k = d[piv]
    rows.append((piv, {m: c / k for m, c in d.items()}))
  return not red(dict(p.terms))


def _subst_atom(v, at, val):
  """Replace a (non-variable) atom by a value, everywhere incl. inside atoms."""
  if at.kind in ('var', 'bv'):
    return subst(v, {at: val})
  memo = {}

  def go(x):
    r = memo.get(x.id)
    if r is not None:
      return r
    if x.kind == 'd':
      a = x.atom
      r = ite(as_bool(goa(a)), go(x.hi), go(x.lo))
    elif x.kind == 'n':
      r = ZERO
      for mono, c in x.p.terms:
        t = const(c)
        for aid, e in mono:
          t = mul(t, power(goa(ATOMS[aid]), const(e)))
        r = add(r, t)
    else:
      r = x
    memo[x.id] = r
    return r

  def goa(a):
    if a is at:
      return val
    if a.kind == 'red' and len(a.args) > 4:
      new = {e.id: go(e) for e in a.args[4:] if isinstance(e, V)}
      if all(new[e.id] is e for e in a.args[4:] if isinstance(e, V)):
        return atom_v(a)
      return rebuild(a, None, lambda z: new.get(z.id, z) if isinstance(z, V) else z)
    if not any(isinstance(z, V) for z in a.args) or a.kind in ('red', 'bv', 'var'):
      return atom_v(a)
    na = [go(z) if isinstance(z, V) else z for z in a.args]
    if all(x is y for x, y in zip(na, a.args)):
      return atom_v(a)
    return rebuild(a, na)
  return go(v)


def _instance_conflict(lits):
  """Some position among the literals makes true what no position does."""
  none = [a for a, pol in lits if not pol and a.kind == 'red' and a.args[0] == 'any']
  if not none:
    return False
  at = set()
  for a, _ in lits:
    if a not in none:
      at |= {x for x in atoms_of(atom_v(a)) if x.kind == 'var' and len(x.args) > 1}
  for r in none:
    bv = mk_atom('bv', (r.args[2], r.args[1]), 'n', True)
    for v in at:
      if v.args[1] is r.args[1]:
        b = as_bool(subst(r.args[3], {bv: atom_v(v)}))
        for a, pol in lits:
          b = cofactor(b, a, pol)
        if b is TRUE:
          return True
  return False


def _linear_conflict(lits, deep=False):
  """The linear (in)equalities among the literals exclude each other: some
  non-negative combination of them reads 0 < 0, or (deep) one does for every
  operand that a maximum among them may equal."""
  rows, seen = _linear_rows(lits)
  if rows is None or len(rows) < 2:
    return False
  if _infeasible(rows):
    return True
  if not deep:
    return False
  # a value known not to be 0 that the others leave no room but 0
  nes = [at.args[0].p for at, pol in lits if at.kind == 'eq0' and not pol and at.args[0].kind == 'n']
  ms = {m for d, _, _ in rows for m in d}
  for p in nes[:12]:
    d = dict(p.terms)
    c = d.pop((), Fraction(0))
    if d and all(m in ms for m in d) and _infeasible(rows + [(d, c, True)]) and _infeasible(
        rows + [({m: -k for m, k in d.items()}, -c, True)]):
      return True
  for aid in sorted(seen)[:3]:
    ops = [v for v in ATOMS[aid].args[1:]]
    if len(ops) > 12 or not all(v.kind == 'n' for v in ops):
      continue
    mx = atom_v(ATOMS[aid]).p
    for v in ops:
      if not _infeasible(rows + _equal_rows(mx, v.p)):
        break
    else:
      return True
  return False


def _equal_rows(a, b):
  d = {m: k for m, k in _add_p(a, b, -1).terms}
  c = d.pop((), Fraction(0))
  return [(d, c, False), ({m: -k for m, k in d.items()}, -c, False)]


def _linear_rows(lits):
  rows, seen = [], set()       # (monomials, constant, strict): sum <= 0 or < 0

  def more(p):
    for m, _ in p.terms:
      for aid, _ in m:
        a = ATOMS[aid]
        if a.kind == 'fn' and a.args[0] == 'nmax' and aid not in seen:
          seen.add(aid)
          for v in a.args[1:]:
            if v.kind == 'n':
              add_row(_add_p(v.p, atom_v(a).p, -1), 1, False)

  def add_row(p, sign, strict):
    d = {m: sign * k for m, k in p.terms}
    c = d.pop((), Fraction(0))
    rows.append((d, c, strict))
    more(p)
  for at, pol in lits:
    if at.kind not in ('le0', 'lt0', 'eq0') or at.args[0].kind != 'n':
      continue
    p = at.args[0].p
    if at.kind == 'eq0':
      if pol:
        add_row(p, 1, False)
        add_row(p, -1, False)
    elif pol:
      add_row(p, 1, at.kind == 'lt0')
    else:
      add_row(p, -1, at.kind == 'le0')
    if len(rows) > 80:
      return None, seen
  return rows, seen


def _infeasible(rows):
  ms = {}
  for d, _, _ in rows:
    for m in d:
      ms.setdefault(m, len(ms))
  n, k = len(rows), len(ms)
  # Columns: one multiplier per row, the surplus s, one artificial per equation.
  tab = [[Fraction(0)] * (n + 1 + k + 2) + [Fraction(0)] for _ in range(k + 2)]
  for j, (d, c, strict) in enumerate(rows):
    for m, q in d.items():
      tab[ms[m]][j] = Fraction(q)
    tab[k][j] = Fraction(c)
    tab[k + 1][j] = Fraction(1 if strict else 0)
  tab[k][n] = Fraction(-1)
  tab[k + 1][n] = Fraction(1)
  tab[k + 1][-1] = Fraction(1)
  for r in range(k + 2):
    tab[r][n + 1 + r] = Fraction(1)
  base = [n + 1 + r for r in range(k + 2)]
  cost = [-sum(tab[r][j] for r in range(k + 2)) if j <= n else Fraction(0) for j in range(n + 1 + k + 2)] + [-Fraction(1)]
  for _ in range(400):
    j = next((j for j in range(n + 1) if cost[j] < 0), None)
    if j is None:
      return cost[-1] == 0
    best = None
    for r in range(k + 2):
      if tab[r][j] > 0:
        q = (tab[r][-1] / tab[r][j], base[r])
        if best is None or q < best[0]:
          best = (q, r)
    if best is None:
      return False
    r = best[1]
    piv = tab[r][j]
    tab[r] = [x / piv for x in tab[r]]
    for o in range(k + 2):
      if o != r and tab[o][j]:
        f = tab[o][j]
        tab[o] = [x - f * y for x, y in zip(tab[o], tab[r])]
    f = cost[j]
    cost = [x - f * y for x, y in zip(cost, tab[r])]
    base[r] = j
  return False


def _closed_subs(eqs):
  """Substitutions equivalent to the equalities, each applied to the others;
  None if they contradict."""
  def order(e):
    # whole numbers pinned to a constant first: they occur inside the others
    sym = [m for m, _ in e.p.terms if m]
    pin = len(sym) == 1 and len(sym[0]) == 1 and sym[0][0][1] == 1 and ATOMS[sym[0][0][0]].isint
    return (not pin, len(e.p.terms))
  todo = sorted((_leaf(_add_p(q, const(v).p, -1)) for q, v in eqs), key=order)
  subs = []
  for e in todo:
    for at, val in subs:
      e = _subst_atom(e, at, val)
    if e.kind != 'n':
      continue
    c = const_val(e)
    if c is not None:
      if c:
        return None
      continue
    for at, val in _reduce_mod(None, [(e.p, 0)]):
      subs = [(a, _subst_atom(v, at, val)) for a, v in subs] + [(at, val)]
  return subs


def _congruent_path(path, subs):
  """Path literals rewritten by the equalities; None if they contradict."""
  lits = {}
  for at, pol in path:
    v = as_bool(atom_v(at))
    for s, val in subs:
      v = _subst_atom(v, s, val)
    if v is TRUE or v is FALSE:
      if (v is TRUE) != pol:
        return None
    elif v.kind == 'd' and {v.hi, v.lo} == {TRUE, FALSE}:
      p = pol == (v.hi is TRUE)
      if lits.setdefault(v.atom, p) != p:
        return None
  return lits


_MAXPATHS = 200000
_MAXSEC = 60       # processor seconds per comparison; beyond it the obligation is undecided


def differ(a, b, facts=()):
  """None if a and b are congruent (modulo order facts), else a witness."""
  if a is b:
    return None
  if a._bool != b._bool:
    a, b = b2n(a), b2n(b)
  ctx = _Ctx()
  known = []
  for f in facts:
    # facts: nodes known true; literals are assumed, others gate both sides
    f = lift(f)
    for at, pol in known:
      f = cofactor(f, at, pol)
    if f.kind == 'd' and {f.hi, f.lo} == {TRUE, FALSE}:
      pol = f.hi is TRUE
      known.append((f.atom, pol))
      a, b = cofactor(a, f.atom, pol), cofactor(b, f.atom, pol)
    elif f.kind == 'd':
      z = FALSE if a._bool else ZERO
      a, b = ite(f, a, z), ite(f, b, z)
    if f.kind == 'd' and f.hi is TRUE and f.lo is FALSE:
      if not ctx.assume(f.atom, True):
        return None
    elif f.kind == 'd' and f.hi is FALSE and f.lo is TRUE:
      if not ctx.assume(f.atom, False):
        return None
  cnt = [0]
  start = time.process_time()
  end = start + (_MAXSEC if start < 400 else 2)

  def walk(x, y, path, ctx, depth):
    if x is y:
      return None
    cnt[0] += 1
    if cnt[0] > _MAXPATHS or not cnt[0] % 64 and time.process_time() > end:
      raise TermError('comparison too large')
    if path and depth == 0 and cnt[0] > 40 and (x.kind == 'd' or y.kind == 'd'):
      # equal on their own, whatever led here: settled once per pair
      k = (x.id, y.id)
      if k not in alone:
        alone[k] = None
        alone[k] = walk(x, y, [], ctx0, 0) is None
      if alone[k]:
        return None
    if cnt[0] > 300 and len(path) % 3 == 2 and _linear_conflict(known + path):
      return None
    t = _top(x, y)
    if t is None:
      # leaves differ; apply equalities
      eqs = ctx.equalities()
      if eqs and x.kind == 'n' and y.kind == 'n' and _in_span(_add_p(x.p, y.p, -1), eqs):
        return None
      if len(eqs) > 1 and _in_span(ONE.p, eqs):
        return None
      if eqs and depth < 6:
        xx, yy = x, y
        subs = _closed_subs(eqs)
        if subs is None:
          return None
        for at, val in subs:
          xx, yy = _subst_atom(xx, at, val), _subst_atom(yy, at, val)
          if xx is yy:
            return None
        lits = _congruent_path(path, subs)
        if lits is None:
          return None
        if xx is not x or yy is not y:
          for at, pol in lits.items():
            xx, yy = cofactor(xx, at, pol), cofactor(yy, at, pol)
          return walk(xx, yy, path, ctx, depth + 1)
      if _linear_conflict(known + path, True) or _instance_conflict(known + path):
        return None
      return (path, x, y)
    for pol in (True, False):
      c2 = ctx.copy()
      if not c2.assume(t, pol):
        continue
      xx, yy = _cof(x, t, pol), _cof(y, t, pol)
      if pol and t.kind == 'eq0' and xx is not yy:
        # substitute an index variable pinned by the equality
        for at, val in _reduce_mod(None, [((_form(t)), _formval(t))]):
          if at.kind in ('var', 'bv', 'in', 'fn', 'dim'):
            nx, ny = _subst_atom(xx, at, val), _subst_atom(yy, at, val)
            if nx is ny:
              xx = yy = nx
      w = walk(xx, yy, path + [(t, pol)], c2, depth)
      if w is not None:
        return w
    return None

  alone = {}
  ctx0 = ctx.copy()
  w = walk(a, b, [], ctx, 0)
  if w is None:
    return None
  b2 = _unify_reds(a, b)
  if b2 is b:
    return w
  return walk(a, b2, [], ctx, 0)


_unify_depth = [0]


def _unify_reds(a, b):
  """b with each reduction replaced by a congruent reduction of a."""
  if _unify_depth[0] > 3:
    return b
  ra, rb = _top_reds(a), _top_reds(b)
  oa, ob = [x for x in ra if x not in rb], [x for x in rb if x not in ra]
  if not oa or not ob or len(oa) * len(ob) > 150:
    return b
  _unify_depth[0] += 1
  try:
    for y in ob:
      for x in oa:
        if x.args[0] == y.args[0] and x.args[1] is y.args[1] and x.args[4:] == y.args[4:] and x.sort == y.sort and _red_same(x, y):
          b = _subst_atom(b, y, atom_v(x))
          break
  except TermError:
    pass
  finally:
    _unify_depth[0] -= 1
  return b


def _red_same(x, y):
  with scoped_var(x.args[1], 'u') as var:
    bx = subst(x.args[3], {mk_atom('bv', (x.args[2], x.args[1]), 'n', True): var})
    by = subst(y.args[3], {mk_atom('bv', (y.args[2], y.args[1]), 'n', True): var})
    return differ(bx, by) is None


def _top_reds(v):
  """Reductions in v that are not inside another reduction."""
  out, seen = {}, set()

  def gv(x):
    if x.id in seen:
      return
    seen.add(x.id)
    if x.kind == 'd':
      ga(x.atom); gv(x.hi); gv(x.lo)
    elif x.kind == 'n':
      for m, c in x.p.terms:
        for a, e in m:
          ga(ATOMS[a])

  def ga(a):
    if a.kind == 'red':
      if not any(f.kind == 'bv' for f in a.fv):
        out[a] = True
      return
    for z in _flat(a.args):
      if isinstance(z, V):
        gv(z)
  gv(v)
  return out


def _form(at):
  d = dict(at.args[0].p.terms)
  d.pop((), None)
  return mk_poly(d)


def _formval(at):
  return -dict(at.args[0].p.terms).get((), Fraction(0))


def same(a, b):
  return differ(a, b) is None


# ---------------------------------------------------------------- dependence
def cells(v, out=None, seen=None):
  """All input cells ('in' atoms) a node can read."""
  if out is None:
    out, seen = set(), set()

  def gv(x):
    if ('v', x.id) in seen:
      return
    seen.add(('v', x.id))
    if x.kind == 'd':
      ga(x.atom); gv(x.hi); gv(x.lo)
    elif x.kind == 'n':
      for m, c in x.p.terms:
        for a, e in m:
          ga(ATOMS[a])

  def ga(a):
    if ('a', a.id) in seen:
      return
    seen.add(('a', a.id))
    if a.kind == 'in':
      out.add(a)
    for z in _flat(a.args):
      if isinstance(z, V):
        gv(z)
      elif isinstance(z, Atom):
        ga(z)
  gv(v)
  return out


def atoms_of(v):
  """All atoms (recursively) in a node."""
  out, seen = set(), set()

  def gv(x):
    if x.id in seen:
      return
    seen.add(x.id)
    if x.kind == 'd':
      ga(x.atom); gv(x.hi); gv(x.lo)
    elif x.kind == 'n':
      for m, c in x.p.terms:
        for a, e in m:
          ga(ATOMS[a])

  def ga(a):
    if a in out:
      return
    out.add(a)
    for z in _flat(a.args):
      if isinstance(z, V):
        gv(z)
      elif isinstance(z, Atom):
        ga(z)
  gv(v)
  return out


# ---------------------------------------------------------------- printing
def show_atom(a, d=0):
  if d > 6:
    return '…'
  k = a.kind
  if k == 'in':
    return a.args[0] + ('[' + ','.join(show(x, d + 1) for x in a.args[1:]) + ']' if len(a.args) > 1 else '')
  if k == 'var':
    return a.args[0]
  if k == 'bv':
    return f'k{a.args[0]}'
  if k == 'dim':
    return a.args[0]
  if k in ('le0', 'lt0', 'eq0'):
    return f"({show(a.args[0], d + 1)} {dict(le0='<=', lt0='<', eq0='==')[k]} 0)"
  if k == 'fn':
    return a.args[0] + '(' + ', '.join(show(x, d + 1) if isinstance(x, V) else str(x) for x in a.args[1:]) + ')'
  if k == 'red':
    ex = ''.join('; ' + show(x, d + 1) for x in a.args[4:])
    return f'{a.args[0]}_k{a.args[2]}<{show(a.args[1], d + 1)}({show(a.args[3], d + 1)}{ex})'
  return k + ('(' + ', '.join(show(x, d + 1) for x in a.args) + ')' if a.args else '')


def show(v, d=0):
  if d > 6:
    return '…'
  if v.kind == 'b':
    return str(v.p)
  if v.kind == 'n':
    if not v.p.terms:
      return '0'
    out = []
    for m, c in v.p.terms:
      fs = [show_atom(ATOMS[a], d) + (f'^{e}' if e != 1 else '') for a, e in m]
      if not fs:
        out.append(str(c))
      elif c == 1:
        out.append('*'.join(fs))
      elif c == -1:
        out.append('-' + '*'.join(fs))
      else:
        out.append(f'{c}*' + '*'.join(fs))
      if len(out) > 12:
        out.append('…')
        break
    return ' + '.join(out)
  if v.hi is TRUE and v.lo is FALSE:
    return show_atom(v.atom, d)
  if v.hi is FALSE and v.lo is TRUE:
    return '~' + show_atom(v.atom, d)
  return f'if[{show_atom(v.atom, d)}]({show(v.hi, d + 1)} | {show(v.lo, d + 1)})'


_SHOW = 160


def show_witness(w):
  path, x, y = w
  s = ' & '.join(('' if p else 'not ') + show_atom(a)[:_SHOW] for a, p in path[:12])
  return f'got {show(x)[:400]} expected {show(y)[:400]} when [{s or "always"}]'
