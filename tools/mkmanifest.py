#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
checks = []
for pid, c in sorted(plan.PLAN.items()):
    if pid in plan.NOT_APPLICABLE: continue
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='VERIF_TIER=thorough python3 check.py %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid, technique=c['technique'], level=c['level'], level_note=c['note']))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks,
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(plan.NOT_APPLICABLE.items())],
    notes='Every check extracts or compiles the functions from /repo as they are now. KNOWN-FINDINGS lists repaired defects and the findings which were not repaired.')
json.dump(m, open(os.path.join(plan.HERE, 'MANIFEST.json'), 'w'), indent=1)
