"""Development aid, not a check: compares the engine's library models with the
real libraries on the expressions of expressions.txt.

  python3 tools/models/validate.py engine /tmp/out.json
  /opt/venv/bin/python tools/models/validate.py real /tmp/out.json
"""
import itertools
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
EX = [l.strip() for l in open(os.path.join(HERE, 'expressions.txt'), encoding='utf-8') if l.strip() and not l.startswith('#')]
DX = [[1.5, -2.0, 0.25, 3.0], [-0.5, 0.0, 4.0, -3.25], [2.0, 1.0, -1.0, 0.5]]
DY = [[2.0, 1.0, -0.5, 3.0], [1.5, -4.0, 0.75, 2.0], [-2.0, 3.0, 1.25, -1.0]]
DN = [[0, 1, 2, 1], [1, 0, 1, 1], [2, 2, 0, 1]]
DB = [[True, False, True, False], [False, False, True, True], [True, True, False, True]]
DV = [-1.0, 0.5, 2.0, 3.5]


def engine(out):
  root = tempfile.mkdtemp()
  shutil.copytree('/repo/waymax', root + '/waymax', ignore=shutil.ignore_patterns('__pycache__', '*_test.py'))
  with open(root + '/waymax/zz.py', 'w', encoding='utf-8') as f:
    f.write('import functools\nimport jax\nfrom jax import numpy as jnp\nfrom jax import lax\nimport numpy as np\n\n'
            + ''.join(f'def f{k}(x, y, n, b, v):\n  return {e}\n\n' for k, e in enumerate(EX)))
  os.environ['WX_REPO'] = root
  sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
  from wx import model, terms as t
  from wx.arrays import Arr, asarr, select_list
  w = model.Checker('P31').world()

  def con(v, dt, sh):
    def pick(v, idx):
      if not idx:
        return (t.TRUE if v else t.FALSE) if isinstance(v, bool) else t.lift(v)
      k = t.const_val(idx[0])
      if k is None:
        return select_list(idx[0], [lambda q=q: pick(q, idx[1:]) for q in v])
      return pick(v[max(-len(v), min(len(v) - 1, int(k)))], idx[1:])
    return Arr(sh, dt, lambda idx: pick(v, idx))

  def show(r):
    if isinstance(r, (list, tuple)):
      return ['L'] + [show(q) for q in r]
    if isinstance(r, dict):
      return ['D'] + [show(r[q]) for q in sorted(r)]
    a = asarr(r)
    vals = []
    for ix in itertools.product(*[range(d) for d in a.shape]):
      q = t.b2n(a.fn(tuple(t.const(i) for i in ix)))
      z = t.const_val(q)
      vals.append(float(z) if z is not None else t.show(q)[:80])
    return ['A', a.dtype, list(a.shape), vals]
  res = []
  for k in range(len(EX)):
    args = con(DX, 'float32', (3, 4)), con(DY, 'float32', (3, 4)), con(DN, 'int32', (3, 4)), con(DB, 'bool', (3, 4)), con(DV, 'float32', (4,))
    try:
      res.append(show(w.call(f'waymax.zz.f{k}', *args)))
    except Exception as e:   # pylint: disable=broad-except
      res.append(['F', type(e).__name__ + ' ' + str(e)[:80]])
  with open(out, 'w', encoding='utf-8') as f:
    json.dump(res, f)
  shutil.rmtree(root)


def real(out):
  import functools
  import jax
  import jax.numpy as jnp
  import numpy as np
  env = dict(functools=functools, jax=jax, jnp=jnp, np=np, lax=jax.lax, x=jnp.array(DX), y=jnp.array(DY), n=jnp.array(DN, jnp.int32), b=jnp.array(DB), v=jnp.array(DV))
  ok, opaque = 0, 0

  def cmp(r, o, e):
    nonlocal ok, opaque
    if o[0] == 'F':
      if 'Gap' not in o[1]:
        print('ENGINE RAISES', e, o[1])
      return
    if isinstance(r, dict):
      r = [r[k] for k in sorted(r)]
    if isinstance(r, (list, tuple)):
      if o[0] not in 'LD' or len(r) != len(o) - 1:
        print('STRUCTURE', e)
        return
      for a, c in zip(r, o[1:]):
        cmp(a, c, e)
      return
    a = np.asarray(r)
    if o[0] != 'A' or list(a.shape) != o[2]:
      print('SHAPE', e, a.shape, o[:3])
      return
    if hasattr(r, 'shape') and a.dtype.name != o[1]:
      print('DTYPE', e, a.dtype, o[1])
    for p, q in zip(a.ravel().tolist(), o[3]):
      if isinstance(q, str):
        opaque += 1
      elif not (abs(float(p) - q) <= 1e-4 * (1 + abs(q)) or p != p and q != q or p == q):
        print('VALUE', e, p, q)
        return
    ok += 1
  with open(out, encoding='utf-8') as f:
    res = json.load(f)
  for e, o in zip(EX, res):
    try:
      r = eval(e, env)   # pylint: disable=eval-used
    except Exception as ex:   # pylint: disable=broad-except
      if o[0] != 'F':
        print('LIBRARY RAISES', e, type(ex).__name__, str(ex)[:100])
      continue
    cmp(r, o, e)
  print('agree', ok, 'uninterpreted cells', opaque, 'expressions', len(EX))


if __name__ == '__main__':
  {'engine': engine, 'real': real}[sys.argv[1]](sys.argv[2])
