#!/usr/bin/env python3
"""Writes MANIFEST.json from props/index.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import index

ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in index.META:
        m = index.META[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation: seeded search over schedules, workloads and faults',
            'level': m['level'],
            'level_note': 'Holds on every simulated run explored (%d quick, %d thorough seeds); not a proof. '
                          'Workload: %s Real code: %s. Stubs: %s. Assumes: %s.' % (
                              m['quick'], m['thorough'], m['rule'], ', '.join(m['real'][:-1]),
                              ', '.join(m['stub']), '; '.join(m['assumptions'])),
        })
    else:
        na.append({'property': i, 'reason': index.NOT_APPLICABLE.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup_check.py', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks were needed in /repo: the seams are the modules fbuild imports '
                    '(os, threading, time, subprocess, sqlite3, ...), replaced by the import hook in '
                    'sim/world.py. Commits in /repo are repairs only, listed in known_findings.json.'},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
