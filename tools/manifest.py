"""Writes MANIFEST.json from props/index.py (run: python3-vt tools/manifest.py)."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from props.index import REG, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in REG: continue
    r = REG[i]
    checks.append(dict(property=i, quick_cmd='python3-vt -m vc.main %s --tier quick' % i, thorough_cmd='python3-vt -m vc.main %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=r.get('technique', 'contract-based deductive verification: contracts on the C/C++ functions, VCs generated from the compiled IR, discharged by z3'),
                       level=r.get('level', 'proof'), level_note=r['note']))
na = [dict(property=i, reason=NA[i]) for i in ids if i not in REG]
json.dump(dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na,
               notes='Contracts live in props/, the VC generator in vc/. No hooks were added to /repo; the checks read the sources as they are. Genuine defects that were repaired or recorded: known_findings.json.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
