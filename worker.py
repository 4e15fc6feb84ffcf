"""Runs simulated executions of one property in one interpreter; driven by check.py.

    worker.py runs PROP TIER SEED START STEP END     one JSON line per run
    worker.py one PROP FILE                          replay FILE, print the result as JSON
    worker.py minimise PROP FILE SECONDS             shrink FILE in place
"""
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(3000)

def load(prop):
    import importlib
    from props import index
    modname, name = index.SPECS[prop]
    return getattr(importlib.import_module('props.' + modname), name)


def emit(fd, obj):
    os.write(fd, (json.dumps(obj, default=str) + '\n').encode())


def slim(r):
    if not r['violation'] and not r['error']:
        r.pop('choices', None)
    return r


def runs(out, prop, tier, seed, start, step, end):
    from sim.run import simulate
    spec = load(prop)
    for i in range(start, end, step):
        emit(out, {'start': i})
        r = simulate(spec, '%s/%d/%d' % (prop, seed, i), options={'tier': tier})
        r['index'] = i
        emit(out, {'run': slim(r)})
        del r
        trim()
    emit(out, {'done': True})


def trim():
    """Give memory back: finished runs leave garbage and fragmented heaps behind."""
    with open('/proc/self/statm') as f:
        mb = int(f.read().split()[1]) // 256
    if mb > 900:
        import ctypes
        import gc
        gc.collect()
        gc.collect()
        try:
            ctypes.CDLL(None).malloc_trim(0)
        except (OSError, AttributeError):
            pass


def replay(spec, d, trace=False):
    from sim.run import simulate
    return simulate(spec, d['seed'], replay=d.get('choices'), trace=trace,
                    options=d.get('options') or {})


def size(choices):
    return sum(len(m) for m in choices.values()), sum(
        abs(v) for m in choices.values() for v in m.values())


def minimise(spec, d, seconds, save):
    """Shrink the three recorded streams while the same kind of violation persists."""
    kind = d['kind']
    t_end = time.time() + seconds
    best = d['choices']
    tries = [0]

    def attempt(cand):
        nonlocal best
        if time.time() > t_end:
            return False
        tries[0] += 1
        r = replay(spec, dict(d, choices=cand))
        if r['error'] or not r['violation'] or r['violation']['kind'] != kind:
            return False
        rec = r['choices']
        new = rec if size(rec) <= size(cand) else cand
        if size(new) >= size(best):
            return size(cand) < size(best)
        best = new
        save(best)
        return True

    def without(ch, stream, keys):
        c = {s: dict(m) for s, m in ch.items()}
        for k in keys:
            c[stream].pop(k, None)
        return c

    # Whole streams first, then the tails, then ever smaller chunks, then values.
    for stream in 'sfw':
        attempt(without(best, stream, list(best[stream])))
    changed = True
    rounds = 0
    while changed and time.time() < t_end and rounds < 6:
        changed = False
        rounds += 1
        for stream in 'wfs':
            keys = sorted(best[stream], key=int)
            n = max(1, len(keys) // 2)
            while n >= 1 and time.time() < t_end:
                i = len(keys)
                while i > 0 and time.time() < t_end:
                    chunk = keys[max(0, i - n):i]
                    if any(k in best[stream] for k in chunk) and attempt(
                            without(best, stream, chunk)):
                        changed = True
                    i -= n
                    if not any(int(k) >= 0 for k in best[stream]):
                        break
                if n == 1:
                    break
                n //= 2
                keys = sorted(best[stream], key=int)
            for k in sorted(best[stream], key=int):
                v = best[stream].get(k)
                if v is None:
                    continue
                for nv in (1, v // 2, v - 1):
                    if 0 < nv < v:
                        c = {s: dict(m) for s, m in best.items()}
                        c[stream][k] = nv
                        if attempt(c):
                            changed = True
                            break
    return best, tries[0]


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    cmd, prop = sys.argv[1:3]
    from sim import run as R
    try:
        if cmd == 'runs':
            tier = sys.argv[3]
            runs(out, prop, tier, *map(int, sys.argv[4:8]))
        elif cmd == 'one':
            with open(sys.argv[3]) as f:
                d = json.load(f)
            emit(out, {'run': replay(load(prop), d, trace=True)})
        elif cmd == 'minimise':
            path = sys.argv[3]
            with open(path) as f:
                d = json.load(f)

            def save(choices):
                d['choices'] = choices
                tmp = path + '.new'
                with open(tmp, 'w') as f:
                    json.dump(d, f)
                os.replace(tmp, path)
            before = size(d['choices'])
            best, tries = minimise(load(prop), d, float(sys.argv[4]), save)
            d['minimised'] = {'before': before, 'after': size(best), 'tries': tries}
            save(best)
            emit(out, {'ok': True})
    finally:
        R.cleanup()
    os._exit(0)


if __name__ == '__main__':
    main()
