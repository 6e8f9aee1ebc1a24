#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vf/units.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vf'))
import units
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in units.PROPS:
        P = units.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': P.get('technique', 'contract-based deductive verification (Verus) of the extracted functions; failed obligations replayed by a concrete search on the real code'),
                       'level': units.level(i), 'level_note': P.get('note', units.NOTE)})
    else:
        na.append({'property': i, 'reason': units.NOT_APPLICABLE.get(i, 'no contract written yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'cfg(mofmt_verif)', 'enable': 'RUSTFLAGS="--cfg mofmt_verif" cargo build (the search crate in /verif/search)',
               'source_commits': ['2069a2059cb14aae29ca210c1e097192c14acfed']},
     'checks': checks, 'not_applicable': na,
     'notes': 'python3 check.py ID; see DESIGN.md'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
