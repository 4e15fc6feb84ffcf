"""Checks the machinery itself: the same seeds give the same executions.

    tools/selftest.py [PROP ...] [--runs N]

Every run of a property has a digest of its complete schedule, history and outcome. They have to
be equal when the runs are spread over one and over four worker processes.
"""
import argparse
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def digest(prop, runs, workers):
    out = subprocess.run(
        ['python3', 'check.py', prop, '--digest', '--runs', str(runs), '--workers', str(workers)],
        cwd=HERE, stdout=subprocess.PIPE, universal_newlines=True).stdout
    return [l for l in out.splitlines() if 'digest' in l][-1:]


def main():
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        manifest = json.load(f)
    ids = [c['property'] if 'property' in c else c['property_id'] for c in manifest['checks']]
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--runs', type=int, default=40)
    a = ap.parse_args()
    bad = 0
    for prop in a.props or ids:
        one, four = digest(prop, a.runs, 1), digest(prop, a.runs, 4)
        ok = one and one == four
        bad += not ok
        print('%s %s %s' % (prop, 'same' if ok else 'DIFFERENT', one if ok else (one, four)))
    return bool(bad)


if __name__ == '__main__':
    sys.exit(main())
