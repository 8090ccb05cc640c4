"""Writes /verif/MANIFEST.json from properties.jsonl and the specs present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'N01': 'finiteness depends on run-time magnitudes (divisions, square roots and trigonometry of data-dependent values); no static argument over the source bounds them',
    'N02': 'closed-loop gap between moving objects over a whole history depends on run-time distances and speeds; no sound static bound is in reach',
    'N03': 'a statement about rounding of floating-point products on run-time values; the value-graph analysis works over exact arithmetic and cannot bound rounding',
    'N04': 'delivery of every scenario is decided inside tf.data at run time (files, shards, threads), outside the analysed source; the plumbing of the settings is claimed under P30 instead',
    'N05': 'bit-exact round trips depend on floating-point rounding; the formula-level agreement of the two directions is claimed under P07 and P08 instead',
}
TECH = {
    'P16': 'exhaustive table analysis over the syntax tree plus abstract compilation to a gated value graph',
    'P17': 'interprocedural effect analysis over the syntax tree and abstract heap',
    'P18': 'interprocedural taint analysis: host decisions on traced array values',
    'P19': 'linear-use dataflow analysis of random keys',
    'P29': 'interface conformance analysis over the class hierarchy',
}
DEF = 'abstract compilation of the source to a gated value graph; congruence of value graphs (dataflow analysis)'
checks, na = [], []
for p in props:
  pid = p['id']
  if pid in NA:
    na.append(dict(property=pid, reason=NA[pid]))
  elif os.path.exists(os.path.join(HERE, 'specs', pid.lower() + '.py')):
    checks.append(dict(
        property=pid, quick_cmd=f'python3 check.py --property {pid}', thorough_cmd=f'python3 check.py --property {pid} --strict',
        evidence_file=f'evidence/{pid}.json', technique=TECH.get(pid, DEF), level='other',
        level_note='Static analysis of the current source for all inputs of the documented shapes, over exact real arithmetic and in-range indices; library calls are modelled, not analysed. Anything the analysis cannot decide is listed as undecided in the evidence.'))
  else:
    na.append(dict(property=pid, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
