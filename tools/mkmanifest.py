#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        C = CHECKS[i]
        fl = sorted({j.get('flavor', 'asan') for j in C['jobs']})
        san = {'asan': 'AddressSanitizer+UBSan', 'tsan': 'ThreadSanitizer'}
        checks.append(dict(property=i, quick_cmd=f'VERIF_TIER=quick python3 tools/vf.py check {i}',
                           thorough_cmd=f'VERIF_TIER=thorough python3 tools/vf.py check {i}',
                           evidence_file=f'evidence/{i}.json',
                           technique=C.get('technique', 'runtime monitor') + ' under ' + ', '.join(san[f] for f in fl),
                           level=C.get('level', 'exploration'),
                           level_note='Held on every execution explored (seeded case counts in the evidence file). ' + C['rule'] + '. Assumes: ' + '; '.join(C.get('assumptions', ['the harness oracle'])) + '.'))
    else:
        na.append(dict(property=i, reason='Not claimed yet: the monitor for it is still being built.'))
json.dump(dict(version=1, setup_cmd='python3 tools/vf.py setup',
               hooks=dict(guard='POTHOS_VERIF', enable='tools/vf.py compiles /repo/lib with -DPOTHOS_VERIF; no hook in /repo is needed so far (instrumentation is by compiler sanitizers, -fsanitize-coverage=trace-pc and interposed pthread calls)', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='See DESIGN.md. tools/vf.py builds, runs, judges; harness/*.cpp are workloads plus monitors.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
