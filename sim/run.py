"""Runs one simulated execution and reports what happened."""
import gc
import hashlib
import os
import shutil
import sys
import tempfile
import time
import traceback

from sim import kernel as K
from sim import world as W
from sim.procs import Procs

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.path.isdir('/dev/shm') else None
        _scratch = tempfile.mkdtemp(prefix='verif-sim-', dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


class Sim:
    """What a property's driver gets."""

    def __init__(self, spec, choices, trace, options):
        ch = choices
        self.ch = ch
        self.options = options
        lines = spec.lines and ch.flip('s', spec.lines)
        self.k = K.Kernel(ch, budget=spec.budget, preempt_lines=bool(lines), trace=trace)
        if lines:
            self.k.line_prob = ch.choose('s', [0.02, 0.1, 0.3])
        if self.options.get('linelimit'):
            self.k.line_limit = 400000
        gran = ch.choose('f', [0.0, 0.0, 0.01, 1.0]) if spec.granularity is None else spec.granularity
        self.world = W.World(self.k, scratch(), gran)
        self.world.vfs.order = ch.pick('f', 3)
        self.procs = Procs(self.world)
        self.notes = {}
        self.sample = None
        self.trivial = False
        self.events = []

    # helpers for drivers
    def count(self, key, n=1):
        self.k.count(key, n)

    def sigint(self, p):
        """Ctrl-C for a process that has no commands running."""
        p.pending.append(2)
        self.k.count('fault:sigint')

    def violation(self, kind, detail=''):
        raise K.Violation(kind, detail)

    def require(self, cond, kind, detail=''):
        if not cond:
            raise K.Violation(kind, detail() if callable(detail) else detail)


class Spec:
    """One property's simulation."""

    def __init__(self, run, quick=300, thorough=6000, budget=60000, lines=0.1, granularity=None,
                 rule='', real=(), stub=()):
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.budget = budget
        self.lines = lines
        self.granularity = granularity
        self.rule = rule
        self.real = list(real)
        self.stub = list(stub)


def simulate(spec, seed, replay=None, trace=False, options=None):
    """Run once. Returns a result dictionary."""
    W.install()
    gc.disable()
    del K.HARNESS_ERRORS[:]
    ch = K.Choices(seed, replay)
    sim = Sim(spec, ch, trace, options or {})
    res = {'seed': seed, 'violation': None, 'error': None}
    t0 = time.time()
    k = sim.k

    def driver():
        try:
            spec.run(sim)
            return None
        except K.Violation as v:
            return (v.kind, str(v.detail))
        except K.SimAbort:
            kind, detail = k.failure or ('aborted', '')
            return (kind, detail)

    tb = None
    try:
        v = k.run(driver)
        if v is not None:
            res['violation'] = {'kind': v[0], 'detail': v[1][:2000]}
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not k.over:
            raise
        tb = traceback.format_exc()
        res['error'] = tb[-3000:]
    finally:
        sim.world.close()
    if K.HARNESS_ERRORS:
        res['error'] = 'harness: %s' % '; '.join(K.HARNESS_ERRORS[:3]) + (
            '\n' + tb if tb else '')
    res.update(steps=k.steps, switches=k.switches, sim_s=k.now - k.start, stats=k.stats,
               sched=k.sched_hash, strategy=k.strategy, lines=k.preempt_lines,
               notes=sim.notes, sample=sim.sample, trivial=sim.trivial,
               wall=time.time() - t0,
               digest=hashlib.md5(repr((k.steps, k.switches, k.sched_hash, round(k.now, 6),
                                        sorted(k.stats.items()), sim.events, res['violation'],
                                        sorted(sim.notes.items())))
                                  .encode()).hexdigest())
    if trace:
        res['trace'] = k.trace
    res['choices'] = ch.recording()
    d = scratch()
    for f in os.listdir(d):
        try:
            os.unlink(d + '/' + f)
        except OSError:
            pass
    return res
