"""Writes MANIFEST.json from properties.jsonl and the check modules present in mc/checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
TECH = {
    'C05': 'explicit-state exploration of all operation sequences on the real schedule objects, compared with a reference model after every step',
    'C08': 'explicit-state exploration of all action histories on real legs/swaps, every answer compared with a fresh object',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
extra = json.load(open(os.path.join(V, 'tools', 'tech.json'))) if os.path.exists(os.path.join(V, 'tools', 'tech.json')) else {}
TECH.update(extra.get('technique', {}))
NA.update(extra.get('not_applicable', {}))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
        continue
    checks.append(dict(
        property=i, quick_cmd='bash run.sh %s quick' % i, thorough_cmd='bash run.sh %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique=TECH.get(i, 'bounded exhaustive enumeration on the real code: every configuration and input of a finite alphabet executed and compared with an independent reference model'),
        level='model_checking',
        level_note='Exhaustive within the bounds written to the evidence file (nothing sampled), executing the current /repo tree directly; trusts the reference model in mc/ and the bound/alphabet choice; '
                   'nothing is claimed outside the bounds.'))
m = dict(version=1, setup_cmd='bash run.sh --selftest', checks=checks, not_applicable=na,
         notes='All checks import frm from FRM_REPO (default /repo); no hooks in /repo. Byte code and numba caches go to a scratch directory removed at exit.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
