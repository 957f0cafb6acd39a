#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the list of properties (run: python3 tools/manifest.py)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'sa'), os.path.join(H, 'tools')]
sys.dont_write_bytecode = True
from checks.registry import CHECKS, TECH, NOTE
from na import REASON
DEF = ('Sound only relative to the stated abstraction: every function of the library is analysed from its current source; '
       'loops are unrolled a bounded number of times and joined, reports that depend on merged states are withheld, and platform functions behave as modelled.')
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i, technique=TECH[i], level='other', level_note=NOTE.get(i, DEF)))
    else:
        m['not_applicable'].append(dict(property=i, reason=REASON.get(i, 'No check yet.')))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
