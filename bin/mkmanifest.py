#!/usr/bin/python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
from manifest_table import CHECKS, NA
checks = []
for p in props:
    if p['id'] in CHECKS:
        tech, level, note = CHECKS[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick bin/check ' + p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p['id'],
                       'technique': tech, 'level': level, 'level_note': note})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'Check still being built.')} for p in props if p['id'] not in CHECKS]
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'hooks': {'guard': 'none', 'enable': 'No hooks: the drivers use only public interfaces.', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'TLA+ specifications in spec/, drivers in harness/, orchestration in bin/. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
