#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl (run after either changes)."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks

props = [json.loads(l) for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for p in props:
    i = p['id']
    c = checks.CHECKS.get(i)
    if c:
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py ' + i,
                                thorough_cmd='VERIF_TIER=thorough python3 run.py ' + i,
                                technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m["not_applicable"].append(dict(property=i, reason=checks.NOT_CLAIMED.get(i, 'its monitor is not built yet')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
