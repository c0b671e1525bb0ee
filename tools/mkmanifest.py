#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plan  # noqa: E402

props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'C20': 'quantifies over client programs accepted by the type checker; there is no execution to encode',
}
checks = []
for p in props:
    if p not in plan.PLAN:
        continue
    checks.append(dict(
        property=p,
        quick_cmd='python3-vt tools/check.py %s --tier quick' % p,
        thorough_cmd='python3-vt tools/check.py %s --tier thorough' % p,
        technique='symbolic execution of the LLVM IR compiled from /repo, every path and verification condition decided by Z3; counterexamples and sampled paths replayed natively',
        level='model_checking',
        level_note=plan.note(p)))
na = [dict(property=p, reason=NA.get(p, 'no check yet')) for p in props if p not in plan.PLAN]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
