#!/usr/bin/env python3
"""Record the kinds of the loops the loop contracts were written for (contracts/shapes.json)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../vf'))
import units, vc
out = {}
for n, u in units.UNITS.items():
    for it in vc.extract(u['files'], units.keep()):
        if it['kind'] == 'fn' and it['kinds']:
            out[it['qual']] = it['kinds']
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../contracts/shapes.json'), 'w'), indent=0, sort_keys=True)
