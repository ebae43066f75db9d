#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
sys.dont_write_bytecode = True
from properties import P_  # noqa: E402

NA = {}

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P_:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
files = sorted(os.listdir(os.path.join(ROOT, 'checks')))
for p in P_:
    pid = p['id']
    mod = next((x[:-3] for x in files if x.startswith(pid.lower() + '_')), None)
    if mod is None or pid in NA:
        na.append({'property': pid, 'reason': NA.get(pid, 'its check is not built yet')})
        continue
    spec = importlib.import_module('checks.' + mod).SPEC
    checks.append({
        'property': pid, 'quick_cmd': f'python3 run.py {pid} quick',
        'thorough_cmd': f'python3 run.py {pid} thorough',
        'technique': spec['technique'][:400], 'level': spec['level'],
        'level_note': (spec['explanation'] + '. Trusts: ' + '; '.join(
            [*spec.get('assumptions', []), 'the analyser\'s models of the standard library and of '
             'cryptography (sa/extcalls.py)']))[:900]})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
