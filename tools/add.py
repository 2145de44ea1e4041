#!/usr/bin/env python3
"""Adds or replaces one entry of checks.json: add.py ID RULE TECHNIQUE NOTE [key=value...]"""
import json, sys, os
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'checks.json')
d = json.load(open(P)); i, rule, tech, note = sys.argv[1:5]
e = {'rule': rule, 'technique': tech, 'note': note, 'cases': 6000, 'time': 15, 'cases_thorough': 400000, 'time_thorough': 200, 'fuzz': True}
for kv in sys.argv[5:]:
    k, v = kv.split('=', 1); e[k] = json.loads(v)
d[i] = e; json.dump(dict(sorted(d.items())), open(P, 'w'), indent=1); open(P, 'a').write('\n')
