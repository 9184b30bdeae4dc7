#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks below."""
import json
NOTE = json.load(open('level_notes.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        checks.append({
            'property': i,
            'quick_cmd': f'VERIF_TIER=quick ./check.sh {i}',
            'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
            'technique': NOTE[i][0],
            'level': 'exploration',
            'level_note': NOTE[i][1],
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {
    'version': 1,
    'setup_cmd': 'cd harness && CARGO_NET_OFFLINE=true cargo build --release --offline',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks are needed: everything is observed through the public API of the crate.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
