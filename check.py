#!/usr/bin/env python3
"""Decides one property by seeded simulation.

    check.py PROP [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
    check.py --replay FILE

Exit 0: held on every run. Exit 1 with a VIOLATION line: broken. Exit 2: the harness went wrong.
"""
import argparse
import hashlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get('VERIF_PYTHON') or next(
    (p for p in ('/opt/venv-pypy/bin/python', shutil.which('pypy3') or '') if p and os.path.exists(p)),
    sys.executable)
RUN_WALL = 60.0               # no single run takes this long unless the code loops


def spawn(args, **kw):
    env = dict(os.environ)
    env.setdefault('PYTHONHASHSEED', '0')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    return subprocess.Popen([PYTHON, '-B', os.path.join(HERE, 'worker.py')] + [str(a) for a in args],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE, **kw)


class Worker:
    def __init__(self, n, args, q):
        self.n = n
        self.p = spawn(args)
        self.q = q
        self.current = None
        self.since = time.time()
        self.err = b''
        self.ended = False
        self.done = False
        threading.Thread(target=self.read, daemon=True).start()
        threading.Thread(target=self.read_err, daemon=True).start()

    def read_err(self):
        for line in self.p.stderr:
            self.err = (self.err + line)[-4000:]

    def read(self):
        for line in self.p.stdout:
            try:
                d = json.loads(line.decode())
            except ValueError:
                continue
            self.q.put((self, d))
        self.p.wait()
        self.q.put((self, None))

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass


def one(args, timeout):
    p = spawn(args)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'timeout'
    for line in out.decode().splitlines():
        try:
            return json.loads(line), err.decode()[-2000:]
        except ValueError:
            pass
    return None, err.decode()[-2000:]


def explore(prop, tier, seed, total, workers, wall_cap):
    """Run indices 0..total-1; returns (results by index, stuck indices, harness failures)."""
    q = queue.Queue()
    ws = [Worker(n, ['runs', prop, tier, seed, n, workers, total], q) for n in range(workers)]
    results, stuck, broken = {}, [], []
    t0 = time.time()
    bad = None                   # lowest index with a violation
    live = set(ws)
    capped = False

    def finish(w):
        if w in live:
            live.discard(w)
            w.kill()
    while live:
        try:
            w, d = q.get(timeout=1.0)
        except queue.Empty:
            w = d = None
        now = time.time()
        if w is not None:
            w.since = now
            if d is None:
                if w in live:
                    live.discard(w)
                    if not w.done:
                        broken.append('worker %d died at run %s: %s' % (
                            w.n, w.current, w.err.decode(errors='replace')[-1500:]))
            elif 'start' in d:
                w.current = d['start']
            elif 'run' in d:
                r = d['run']
                results[r['index']] = r
                if r['error']:
                    broken.append('run %d: %s' % (r['index'], r['error']))
                    if len(broken) > 20:
                        for x in list(live):
                            finish(x)
                elif r['violation'] and (bad is None or r['index'] < bad):
                    bad = r['index']
            elif 'done' in d:
                w.done = True
        for x in list(live):
            if bad is not None and x.current is not None and x.current > bad:
                finish(x)
            elif now - x.since > RUN_WALL:
                stuck.append(x.current)
                finish(x)
        if now - t0 > wall_cap:
            capped = True
            for x in list(live):
                finish(x)
    return results, stuck, broken, capped


def known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == prop]


def write_replay(prop, seed, res, options):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%d-%s.json' % (prop, seed, res.get('index', 'x')))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': res['seed'], 'options': options,
                   'kind': res['violation']['kind'], 'detail': res['violation']['detail'],
                   'choices': res['choices']}, f)
    return path


def finish_replay(prop, path, minimise_s):
    """Minimise the replay file, then replay it in two fresh processes."""
    with open(path) as f:
        original = f.read()
    if minimise_s > 0:
        one(['minimise', prop, path, minimise_s], minimise_s + 120)
    runs = [one(['one', prop, path], 180)[0] for _ in range(2)]
    kind = json.loads(original)['kind']

    def good(runs):
        return all(r and not r['run']['error'] and r['run']['violation']
                   and r['run']['violation']['kind'] == kind for r in runs) \
            and runs[0]['run']['digest'] == runs[1]['run']['digest']
    if not good(runs):
        with open(path, 'w') as f:
            f.write(original)
        runs = [one(['one', prop, path], 180)[0] for _ in range(2)]
        if not good(runs):
            return None
    r = runs[0]['run']
    with open(path) as f:
        d = json.load(f)
    d.update(detail=r['violation']['detail'], digest=r['digest'], steps=r['steps'],
             sample=r.get('sample'), trace=(r.get('trace') or [])[-600:])
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
    return r


def do_replay(path):
    with open(path) as f:
        d = json.load(f)
    res, err = one(['one', d['property'], os.path.abspath(path)], 300)
    if res is None or res['run']['error']:
        print('replay failed:', err, res and res['run']['error'])
        return 2
    r = res['run']
    for line in r.get('trace') or []:
        print(line)
    print('sample:', json.dumps(r.get('sample'), indent=1, default=str))
    if r['violation']:
        print('%s: %s' % (r['violation']['kind'], r['violation']['detail']))
        print('digest %s, recorded %s' % (r['digest'], d.get('digest')))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('no violation on this tree')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--minimise', type=float, default=40)
    ap.add_argument('--replay')
    ap.add_argument('--digest', action='store_true', help='print a digest of all runs')
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    sys.path.insert(0, HERE)
    from props import index
    prop, tier, seed = a.prop, a.tier, a.seed
    meta = index.META[prop]
    total = a.runs or meta[tier]
    workers = a.workers or min(8, max(2, os.cpu_count() or 4))
    wall_cap = a.wall or (600 if tier == 'quick' else 780)
    print('check %s tier=%s seed=%d runs=%d workers=%d' % (prop, tier, seed, total, workers), flush=True)
    t0 = time.time()
    results, stuck, broken, capped = explore(prop, tier, seed, total, workers, wall_cap)
    options = {'tier': tier}
    status, line = 0, None
    viol = sorted(i for i, r in results.items() if r['violation'] and not r['error'])
    if viol:
        res = results[viol[0]]
        path = write_replay(prop, seed, res, options)
        final = finish_replay(prop, path, a.minimise)
        if final is None:
            broken.append('run %d: violation %r does not replay' % (viol[0], res['violation']))
            status = 2
        else:
            status = 1
            line = 'VIOLATION property=%s replay=%s' % (prop, path)
            print('%s: %s' % (final['violation']['kind'], final['violation']['detail']))
    elif stuck:
        # A run that never came back: rerun it counting lines between yield points.
        i = sorted(x for x in stuck if x is not None)[0] if any(x is not None for x in stuck) else 0
        opts = dict(options, linelimit=True)
        path = os.path.join(HERE, 'replays', '%s-%d-%d.json' % (prop, seed, i))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': '%s/%d/%d' % (prop, seed, i), 'options': opts,
                       'kind': 'no-progress', 'detail': '', 'choices': None}, f)
        res, err = one(['one', prop, path], 400)
        if res and not res['run']['error'] and res['run']['violation']:
            v = res['run']['violation']
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': '%s/%d/%d' % (prop, seed, i), 'options': opts,
                           'kind': v['kind'], 'detail': v['detail'],
                           'choices': res['run']['choices']}, f)
            if finish_replay(prop, path, 0) is not None:
                status = 1
                line = 'VIOLATION property=%s replay=%s' % (prop, path)
                print('%s: %s' % (v['kind'], v['detail']))
        if status == 0:
            broken.append('run %d did not finish within %ds: %s' % (i, RUN_WALL, err))
            status = 2
    elif broken:
        status = 2
    elif not results:
        broken.append('nothing was explored')
        status = 2

    # -- evidence --------------------------------------------------------------------------
    rs = [results[i] for i in sorted(results)]
    wall = time.time() - t0
    stats = {}
    notes = {}
    for r in rs:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
    sched = {(r['sched'], r['steps']) for r in rs if not r['trivial']}
    samples = [{'seed': r['seed'], 'sample': r['sample']} for r in rs if r['sample'] and not r['trivial']][:4]
    by_strategy = {}
    for r in rs:
        by_strategy[r['strategy']] = by_strategy.get(r['strategy'], 0) + 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'],
        'wall_s': round(wall, 2), 'violations': 1 if status == 1 else 0,
        'coverage': {
            'evaluations': len(rs),
            'distinct_nontrivial': len(sched),
            'rule': meta['rule'] + ' A run is non-trivial unless its driver says its workload was '
                    'empty; two runs are distinct if their sequence of context switches (thread, '
                    'yield point, reason) or their step count differs.',
            'samples': samples or [{'seed': r['seed']} for r in rs[:2]],
            'runs_per_hour': int(len(rs) * 3600 / wall) if wall else 0,
            'seeds': [rs[0]['seed'], rs[-1]['seed']] if rs else [],
            'simulated_seconds': round(sum(r['sim_s'] for r in rs), 3),
            'steps': sum(r['steps'] for r in rs),
            'context_switches': sum(r['switches'] for r in rs),
            'distinct_interleavings': len(sched),
            'strategies': by_strategy,
            'runs_preempted_at_every_line': sum(1 for r in rs if r['lines']),
            'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
            'probes': {k: v for k, v in sorted(notes.items())},
            'counters': {k: v for k, v in sorted(stats.items()) if not k.startswith('fault:')},
            'real_components': meta['real'], 'stubbed_components': meta['stub'],
            'stopped_by_wall_cap': capped,
        },
        'assumptions': meta['assumptions'],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    if a.digest:
        h = hashlib.md5(''.join(r['digest'] for r in rs).encode()).hexdigest()
        print('digest', len(rs), h)
    print('%d runs, %d distinct interleavings, %.1f simulated s, %.1f s, probes %s, faults %s' % (
        len(rs), len(sched), ev['coverage']['simulated_seconds'], wall, dict(sorted(notes.items())),
        ev['coverage']['faults_injected']))
    for e in known(prop):
        if e['status'] == 'finding' and status != 2:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if status == 2:
        for b in broken[:3]:
            print('HARNESS ERROR:', b)
    if line:
        print(line)
    return status


if __name__ == '__main__':
    sys.exit(main())
