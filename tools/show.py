#!/usr/bin/env python3
"""Prints what a replay file does: show.py FILE [trace-lines]"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
f = sys.argv[1]
d = json.load(open(f))
r, e = check.one(['one', d['property'], f], 180)
r = r['run']
s = r.get('sample') or {}
for k, v in s.items():
    if isinstance(v, list):
        print(k)
        for x in v:
            print('   ', x)
    else:
        print(k, v)
if len(sys.argv) > 2:
    for t in r.get('trace', [])[-int(sys.argv[2]):]:
        print(t)
print(r['violation'], r['error'], e[-500:] if e else '')
