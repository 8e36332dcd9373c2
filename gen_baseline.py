#!/usr/bin/env python3
"""Writes contracts/baseline.json: the loops and derived implementations the contracts were written for.

Run by hand when contracts change, never by a check."""
import json, os, re, subprocess, sys, tempfile
from units import PROPS
here = os.path.dirname(os.path.abspath(__file__))
loops, derives = {}, {}
with tempfile.TemporaryDirectory() as d:
    for c in PROPS.values():
        for u in c['units']:
            args = [here + '/extract/target/debug/extract', '--repo', '/repo', '--inst', u['inst'], '--mode', u['mode'], '--out', d + '/b.rs', '--report', d + '/r.json']
            for o in u['overlays']:
                args += ['--overlay', f'{here}/contracts/{o}']
            for r in u['roots']:
                args += ['--root', r.replace('INST', u['inst'])]
            subprocess.run(args, check=True, stdout=subprocess.DEVNULL)
            rep = json.load(open(d + '/r.json'))
            for f in rep['functions']:
                if not f['trusted']:
                    seen = loops.setdefault(f['key'], [])
                    if f['loop_text'] not in seen:
                        seen.append(f['loop_text'])
            for t, x in rep['derives'].items():
                got = [n for n in ('Clone', 'Copy', 'PartialEq', 'Eq', 'Default', 'EnumAsInner') if re.search(r'\b' + n + r'\b', x)]
                if got:
                    derives[t] = got
json.dump(dict(loops=dict(sorted((k, v) for k, v in loops.items() if v != [[]])), derives=dict(sorted(derives.items()))), open(here + '/contracts/baseline.json', 'w'), indent=1)
