#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py."""
import json, os
from units import PROPS
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for p, c in PROPS.items():
    ded = bool(c['units'])
    checks.append(dict(
        property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'python3 check.py {p}', evidence_file=f'evidence/{p}.json',
        technique='Verus contracts on functions extracted from /repo on every run' if ded else 'bounded stand-in: runtime contract check against an independent reference',
        level=c['level'], level_note=c['note'], **({'theorems': c['theorems']} if c.get('theorems') else {})))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
         notes='check.py extracts, verifies, probes for vacuity and runs the real crate; see DESIGN.md. known-findings.txt lists repaired defects.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
