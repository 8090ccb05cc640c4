#!/usr/bin/env python3
"""Decides one property from /repo's current source: check.py --property PXX."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from wx import model  # noqa: E402
from wx import terms  # noqa: E402
from wx.arrays import Gap, ShapeErr  # noqa: E402
from wx.interp import PyRaise  # noqa: E402


def known_findings(pid):
  out = []
  p = os.path.join(HERE, 'known_findings.jsonl')
  if os.path.exists(p):
    for line in open(p, encoding='utf-8'):
      line = line.strip()
      if not line or line.startswith('fixed:') or line.startswith('#'):
        continue
      d = json.loads(line)
      if d.get('property') == pid:
        out.append(d)
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--property', required=True)
  ap.add_argument('-v', action='store_true')
  ap.add_argument('--strict', action='store_true', help='exit 2 when anything stays undecided')
  a = ap.parse_args()
  pid = a.property
  tier = os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  c = model.Checker(pid, tier)
  mod = importlib.import_module(f'specs.{pid.lower()}')
  gaps = c.gaps
  for name, part in mod.PARTS:
    try:
      part(c)
    except model.UNDECIDED as e:
      gaps.append((name, f'{type(e).__name__}: {e.args[0] if e.args else ""}'))
      if a.v:
        traceback.print_exc()
    except (PyRaise, ShapeErr) as e:
      where = getattr(e, 'site', None) or (e.args[1] if len(e.args) > 1 else '')
      what = getattr(e, 'exc', None) or e.args[0]
      c.bad('must-not-raise', f'{name}', where, f'{what!r}')
      if a.v:
        traceback.print_exc()
    except Exception as e:  # pylint: disable=broad-except
      gaps.append((name, f'internal {type(e).__name__}: {e}'))
      if a.v:
        traceback.print_exc()
  wall = time.time() - c.t0
  known = known_findings(pid)
  new, hit = [], []
  for v in c.viol:
    k = next((k for k in known if k['rule'] == v['rule'] and k['what'] == v['what']), None)
    (hit if k else new).append((v, k))
  funcs = {}
  for w in c.worlds:
    for q, n in w.it.calls_seen.items():
      if q.startswith('waymax'):
        funcs[q] = funcs.get(q, 0) + n
  mods = sorted({m for w in c.worlds for m in w.it.mods})
  ok = sum(1 for _, o in c.obl if o)
  floor = getattr(mod, 'FLOOR', 1)
  ev = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
      'coverage': {
          'explanation': (mod.__doc__ or '').strip(),
          'obligations': len(c.obl), 'discharged': ok,
          'obligation_floor': floor,
          'functions_analysed': len(funcs), 'functions': sorted(funcs),
          'modules_parsed': len(mods),
          'rules': sorted({o.split(':')[0] for o, _ in c.obl}),
          'samples': [o for o, _ in c.obl[:: max(1, len(c.obl) // 12)]][:14],
          'counts': c.counts,
          'parts': [n for n, _ in mod.PARTS],
          'unanalysed': [f'{n}: {g}' for n, g in gaps],
          'known_findings_hit': [v['what'] for v, _ in hit],
      },
      'assumptions': getattr(mod, 'ASSUME', []) + c.assumptions,
      'wall_s': round(wall, 3),
      'violations': len(new),
  }
  with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as f:
    json.dump(ev, f, indent=1)
  for v, k in hit:
    print(f"KNOWN-FINDING: property={pid} {v['rule']}: {v['what']} [{v['where']}]")
  if new:
    rp = os.path.join(HERE, 'evidence', f'{pid}.violations.json')
    with open(rp, 'w', encoding='utf-8') as f:
      json.dump([v for v, _ in new], f, indent=1)
    for v, _ in new[:20]:
      print(f"  {v['where']}: rule {v['rule']}: {v['what']}\n      {v['detail'][:700]}")
    if len(new) > 20:
      print(f'  ... {len(new) - 20} more')
    print(f'VIOLATION property={pid} replay={rp}')
    return 1
  for n, g in gaps:
    print(f'UNDECIDED property={pid} {n}: {g}'[:600])
  if len(c.obl) < floor:
    print(f'ANALYSIS-BROKEN property={pid}: {len(c.obl)} obligations decided, at least {floor} expected')
    return 2
  if gaps and a.strict:
    return 2
  print(f'property {pid}: {ok} obligations hold over {len(funcs)} functions in {wall:.1f}s')
  return 0


if __name__ == '__main__':
  sys.exit(main())
