"""The simulation kernel: baton-passing threads, virtual time, recorded choices.

Exactly one simulated thread runs at any instant; all others are parked on a private lock. Every
decision (which thread continues, which fault fires, what the workload does) is drawn from one of
three recorded streams:

    'w'  the workload (what is built, edited, deleted, called ...)
    's'  the schedule (which runnable thread continues at a yield point)
    'f'  the faults   (where crashes, errors and signals strike, durations, delays)

A stream is recorded sparsely (position -> value, absent = 0), so a run is a pure function of the
three maps and of the code under test. 0 always means the simplest answer: keep running the current
thread, no fault, smallest value.
"""
import _thread
import heapq
import random
import sys
import zlib


class SimKill(BaseException):
    """Raised in every thread of a simulated process that was killed."""


class SimAbort(BaseException):
    """Raised in the driver when the run cannot continue (deadlock, step budget)."""


class Violation(Exception):
    """A property was seen to be broken. kind is the stable class of the failure."""

    def __init__(self, kind, detail=''):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail

    def __str__(self):
        return '%s: %s' % (self.kind, self.detail)


HARNESS_ERRORS = []
noyield = [0]                 # >0 while a module body is executing: no thread switches


class HarnessError(Exception):
    """The simulator itself went wrong; never reported as a violation."""

    def __init__(self, *args):
        super().__init__(*args)
        HARNESS_ERRORS.append(repr(args))


class Choices:
    """The three recorded decision streams."""

    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = None
        if replay is not None:
            self.replay = {s: {int(k): v for k, v in m.items()} for s, m in replay.items()}
        self.rng = {s: random.Random('%s/%s' % (seed, s)) for s in 'wsf'}
        self.pos = {'w': 0, 's': 0, 'f': 0}
        self.rec = {'w': {}, 's': {}, 'f': {}}

    def _put(self, stream, value):
        pos = self.pos[stream]
        self.pos[stream] = pos + 1
        if value:
            self.rec[stream][pos] = value
        return value

    def pick(self, stream, n):
        """An integer in [0, n)."""
        if n <= 1:
            return self._put(stream, 0)
        if self.replay is not None:
            return self._put(stream, self.replay[stream].get(self.pos[stream], 0) % n)
        return self._put(stream, self.rng[stream].randrange(n))

    def given(self, stream, n, fn):
        """An integer in [0, n) computed by fn (from the stream's rng) unless replaying."""
        if self.replay is not None:
            v = self.replay[stream].get(self.pos[stream], 0)
            return self._put(stream, v % n if n > 0 else 0)
        return self._put(stream, fn(self.rng[stream]))

    def flip(self, stream, p):
        """True with probability p."""
        if self.replay is not None:
            return bool(self._put(stream, 1 if self.replay[stream].get(self.pos[stream], 0) else 0))
        return bool(self._put(stream, 1 if self.rng[stream].random() < p else 0))

    def choose(self, stream, seq):
        return seq[self.pick(stream, len(seq))]

    def weighted(self, stream, pairs):
        """pairs: [(value, weight)]; the first one is the simplest."""
        def fn(rng):
            x = rng.random() * sum(w for _, w in pairs)
            for i, (_, w) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.given(stream, len(pairs), fn)][0]

    def shuffle(self, stream, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.pick(stream, len(seq))))
        return out

    def recording(self):
        return {s: {str(k): v for k, v in sorted(m.items())} for s, m in self.rec.items()}


class OSThread:
    """A pooled OS thread that runs simulated thread bodies."""

    def __init__(self):
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.job = None
        _thread.start_new_thread(self.loop, ())

    def loop(self):
        self.ident = _thread.get_ident()
        while True:
            self.go.acquire()
            job, self.job = self.job, None
            job(self)


_pool = []


class SimThread:
    def __init__(self, kernel, proc, fn, name):
        self.kernel = kernel
        self.proc = proc
        self.fn = fn
        self.name = name
        self.tid = len(kernel.threads)
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.done = False
        self.started = False
        self.pred = None          # blocked on this predicate
        self.deadline = None
        self.why = ''
        self.sentinels = []       # locks to release when the thread ends
        self.timed_out = False
        self.is_main = False
        self.error = None
        self.priority = 0

    def __repr__(self):
        return '<%s #%d %s>' % (self.name, self.tid, 'done' if self.done else self.why or 'ready')


class Process:
    """One incarnation of the program under test."""

    def __init__(self, kernel, name, pid):
        self.kernel = kernel
        self.name = name
        self.pid = pid
        self.pgid = pid
        self.threads = []
        self.dead = False            # killed
        self.finished = False        # main function returned and interpreter ended
        self.outcome = None          # ('return', v) | ('exit', code) | ('raise', exc)
        self.handlers = {}           # signum -> python handler
        self.pending = []            # signals not yet delivered
        self.steps = 0
        self.arms = []               # [(step, fn)]
        self.thread_errors = []      # exceptions that ended a thread
        self.umask = 0o022
        self.cwd = '/w'
        self.environ = {}
        self.stdout = []
        self.stdin = None
        self.files = []
        self.modules = None
        self.on_exit = []


class Kernel:
    TICK = 1e-5

    def __init__(self, choices, *, budget=60000, preempt_lines=False, strategy=None, trace=False):
        self.ch = choices
        self.now = 1600000000.0
        self.start = self.now
        self.threads = []
        self.current = None
        self.heap = []
        self.seq = 0
        self.steps = 0
        self.budget = budget
        self.since_event = 0
        self.failure = None
        self.over = False
        self.unwinding = None
        self.run_length = 0
        self.switches = 0
        self.sched_hash = 0
        self.stats = {}
        self.procs = []
        self.next_pid = 100
        self.trace = [] if trace else None
        self.preempt_lines = preempt_lines
        self.line_prob = 0.02
        self.line_limit = 0          # >0: this many lines without a yield point are an endless loop
        self.lines_since = 0
        self.used = []
        # Strategy of this run.
        c = self.ch
        if strategy is None:
            strategy = c.weighted('s', [('sticky', 2), ('random', 4), ('pct', 3), ('wild', 2)])
        self.strategy = strategy
        self.p_switch = {'sticky': 0.0, 'random': 0.15, 'wild': 0.6, 'pct': 0.0, 'lazy': 0.02}[strategy]
        self.sim_processes = {}      # pid -> simulated external process

    # -- statistics and logging ------------------------------------------------------------

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def log(self, *what):
        if self.trace is not None:
            t = self.current
            self.trace.append('%10.5f %-14s %s' % (
                self.now - self.start, t.name if t else '-', ' '.join(str(w) for w in what)))

    # -- events ----------------------------------------------------------------------------

    def after(self, delay, fn):
        self.seq += 1
        ev = [self.now + max(0.0, delay), self.seq, fn]
        heapq.heappush(self.heap, ev)
        return ev

    def cancel(self, ev):
        ev[2] = None

    def _fire_due(self):
        fired = False
        while self.heap and self.heap[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.heap)
            if fn is not None:
                fired = True
                noyield[0] += 1
                try:
                    fn()
                finally:
                    noyield[0] -= 1
        if fired:
            self.since_event = 0
        return fired

    def _drop_cancelled(self):
        while self.heap and self.heap[0][2] is None:
            heapq.heappop(self.heap)

    # -- threads ---------------------------------------------------------------------------

    def spawn(self, proc, fn, name):
        t = SimThread(self, proc, fn, name)
        self.threads.append(t)
        if proc is not None:
            proc.threads.append(t)
        t.priority = 0
        if self.strategy == 'pct':
            t.priority = self.ch.given('s', 1000, lambda r: r.randrange(1000))
        os_thread = _pool.pop() if _pool else OSThread()
        self.used.append(os_thread)
        os_thread.job = lambda o: self._body(t)
        t.os_thread = os_thread
        return t

    def _body(self, t):
        t.baton.acquire()
        if (self.preempt_lines or self.line_limit) and t.proc is not None:
            sys.settrace(self._tracer)
        try:
            try:
                if not (t.proc is not None and t.proc.dead) and not (self.over and t.proc is not None):
                    t.fn()
            except SimKill:
                pass
            except SimAbort as e:
                t.error = e
            except BaseException as e:
                t.error = e
                if t.proc is not None and not t.proc.dead:
                    t.proc.thread_errors.append((t.name, e))
        finally:
            if self.preempt_lines or self.line_limit:
                sys.settrace(None)
        t.done = True
        for lock in t.sentinels:
            lock._held = False
        t.fn = None
        # Give the baton away.
        if self.unwinding is not None:
            nxt = self.unwinding
        else:
            try:
                nxt = self._next(None, 'end')
            except SimAbort:
                nxt = self._abort_to_driver(t)
        self.switch_from_ending(nxt)

    def switch_from_ending(self, nxt):
        if nxt is None:                      # the driver itself ended
            self.current = None
            self.finished_lock.release()
        else:
            self._enter(nxt)
            self._resume(nxt)
            nxt.baton.release()

    def run(self, fn):
        """Run the driver function to the end; called from the real main thread."""
        self.finished_lock = _thread.allocate_lock()
        self.finished_lock.acquire()
        result = []

        def body():
            try:
                result.append(fn())
            finally:
                self._unwind_all()

        self.driver = self.spawn(None, body, 'driver')
        self.current = self.driver
        self.driver.os_thread.go.release()
        self.driver.started = True
        self.driver.baton.release()
        self.finished_lock.acquire()
        self.over = True
        _pool.extend(self.used)
        err = self.driver.error
        if err is not None:
            raise err
        return result[0]

    def _unwind_all(self):
        for p in self.procs:
            self.reap(p)
        self.over = True
        self.unwinding = None

    def reap(self, proc):
        """Unwind every thread of a killed or finished process."""
        proc.dead = True
        me = self.current
        for t in proc.threads:
            n = 0
            while not t.done:
                n += 1
                if n > 200:
                    raise HarnessError('thread does not unwind: %r' % t)
                saved, self.unwinding = self.unwinding, me
                self._resume(t)
                self._enter(t)
                t.baton.release()
                me.baton.acquire()
                self.current = me
                self.unwinding = saved
        for f in proc.on_exit:
            f()
        proc.on_exit = []

    def _resume(self, t):
        if not t.started:
            t.started = True
            t.os_thread.go.release()

    # -- scheduling ------------------------------------------------------------------------

    def _runnable(self, t):
        if t.done:
            return False
        p = t.proc
        if p is not None and p.dead:
            return False
        if t.pred is None:
            return True
        if t.pred():
            return True
        if t.deadline is not None and self.now >= t.deadline:
            return True
        if t.is_main and p.pending and t.sigok:
            return True
        return False

    def _candidates(self, cur):
        ts = self.threads
        n = len(ts)
        start = cur.tid if cur is not None else 0
        out = []
        for i in range(n):
            t = ts[(start + i) % n]
            if self._runnable(t):
                out.append(t)
        return out

    def _next(self, cur, kind):
        """Choose who runs next. cur is the current thread (None if it ended)."""
        while True:
            if self.current is self.driver and self.driver.done:
                return None
            cands = self._candidates(cur)
            if cands:
                break
            # Nobody can run: advance the clock.
            self._drop_cancelled()
            limit = min((t.deadline for t in self.threads
                         if not t.done and t.deadline is not None and t.pred is not None
                         and not (t.proc is not None and t.proc.dead)), default=None)
            if self.heap and (limit is None or self.heap[0][0] <= limit):
                self.now = max(self.now, self.heap[0][0])
                self._fire_due()
            elif limit is not None:
                self.now = max(self.now, limit)
            else:
                self._deadlock()
        if cur is not None and cands[0] is not cur:
            cur_can = False
        else:
            cur_can = cur is not None
        n = len(cands)
        if n == 1:
            idx = 0
        elif cur_can and self.run_length > 300 + self.switches * 7919 % 211:
            # Forced fairness, at points that do not resonate with a polling loop.
            idx = 1
            if self.strategy == 'pct':
                cands[0].priority -= 1000
        else:
            idx = self.ch.given('s', n, lambda r: self._strategy(r, cands, cur_can, kind))
        nxt = cands[idx]
        if nxt is cur:
            self.run_length += 1
        else:
            self.run_length = 0
            self.switches += 1
            self.sched_hash = zlib.crc32(('%x %d %s %s' % (
                self.sched_hash, nxt.tid, kind, nxt.why)).encode(), self.sched_hash >> 16) | (
                (self.sched_hash * 31 + nxt.tid) & 0xffff) << 32
        return nxt

    def _strategy(self, rng, cands, cur_can, kind):
        s = self.strategy
        if s == 'pct':
            if rng.random() < 0.01:
                cands[0].priority = rng.randrange(-1000, 0)
            best = 0
            for i, t in enumerate(cands):
                if t.priority > cands[best].priority:
                    best = i
            return best
        if kind == 'line':
            return rng.randrange(len(cands)) if rng.random() < self.line_prob else 0
        if cur_can and rng.random() >= self.p_switch:
            return 0
        return rng.randrange(len(cands))

    def _deadlock(self):
        if self.failure is None:
            self.failure = ('deadlock', self.describe())
        raise SimAbort(self.failure)

    def describe(self):
        return '; '.join('%s:%s' % (t.name, t.why or 'ready') for t in self.threads
                         if not t.done and t is not self.driver and not (t.proc and t.proc.dead))

    def step(self, kind, sig=False):
        """A yield point."""
        cur = self.current
        if cur is None or self.over:
            raise SimKill()
        p = cur.proc
        if p is not None and p.dead:
            raise SimKill()
        if noyield[0]:
            return
        self.lines_since = 0
        if self.unwinding is not None and p is not None:
            raise SimKill()
        self.steps += 1
        self.now += self.TICK
        if self.heap:
            if kind != 'line':
                self.since_event += 1
            if self.since_event > 512:
                self._drop_cancelled()
                if self.heap:
                    t = self.now + self.TICK * (1 << min(26, (self.since_event - 512) // 64))
                    self.now = max(self.now, min(t, self.heap[0][0]))
            if self.heap and self.heap[0][0] <= self.now:
                self._fire_due()
        if self.steps > self.budget:
            self._budget()
        if p is not None:
            p.steps += 1
            if p.arms:
                self._check_arms(p)
        nxt = None
        try:
            nxt = self._next(cur, kind)
        except SimAbort:
            nxt = self._abort_to_driver(cur)
        if nxt is not cur:
            cur.why = kind
            self._switch(cur, nxt)
            cur.why = ''
        if p is not None and p.dead:
            raise SimKill()
        if sig and cur.is_main and p.pending:
            self.deliver(p)

    def _budget(self, why=None):
        if self.failure is None:
            self.failure = ('no-progress', why or 'step budget of %d exhausted; %s' % (
                self.budget, self.describe()))
        self.budget = self.steps + 100000
        cur = self.current
        nxt = self._abort_to_driver(cur)
        if nxt is not cur:
            self._switch(cur, nxt)

    def _abort_to_driver(self, cur):
        d = self.driver
        if cur is d:
            raise SimAbort(self.failure)
        d.abort = True
        d.pred = None
        return d

    def _check_arms(self, p):
        due = [a for a in p.arms if a[0] <= p.steps]
        if due:
            p.arms = [a for a in p.arms if a[0] > p.steps]
            for _, fn in due:
                fn()

    def arm(self, proc, steps, fn):
        """Call fn when proc has made that many more steps."""
        proc.arms.append((proc.steps + steps, fn))

    on_switch = None

    def _enter(self, t):
        """t is about to run: bring in its process' modules."""
        self.current = t
        if self.on_switch is not None and t.proc is not None:
            self.on_switch(t.proc)

    def _switch(self, cur, nxt):
        self._enter(nxt)
        self._resume(nxt)
        nxt.baton.release()
        cur.baton.acquire()
        self.current = cur
        if cur is self.driver and getattr(cur, 'abort', False):
            cur.abort = False
            raise SimAbort(self.failure)

    def block(self, pred, why, timeout=None, sig=True):
        """Block the current thread until pred() or the timeout. Returns False on timeout."""
        cur = self.current
        if cur is None or self.over:
            raise SimKill()
        p = cur.proc
        if timeout is None:
            return self._block(cur, p, pred, why, None, sig)
        ev = self.after(timeout, _nothing)
        try:
            return self._block(cur, p, pred, why, ev[0], sig)
        finally:
            self.cancel(ev)

    def _block(self, cur, p, pred, why, deadline, sig):
        while True:
            if (p is not None and p.dead) or (self.unwinding is not None and p is not None):
                raise SimKill()
            if cur.is_main and sig and p.pending:
                self.deliver(p)
                continue
            if pred():
                return True
            if deadline is not None and self.now >= deadline:
                return False
            self.steps += 1
            if self.steps > self.budget:
                self._budget()
            cur.pred = pred
            cur.sigok = sig
            cur.deadline = deadline
            cur.why = why
            try:
                try:
                    nxt = self._next(cur, why)
                except SimAbort:
                    nxt = self._abort_to_driver(cur)
                if nxt is not cur:
                    self._switch(cur, nxt)
            finally:
                cur.pred = None
                cur.deadline = None
                cur.why = ''

    # -- signals ---------------------------------------------------------------------------

    def deliver(self, p):
        while p.pending:
            signum = p.pending.pop(0)
            h = p.handlers.get(signum, 'default-int')
            self.count('signal-delivered')
            if h in (0, 1) or h is None:        # SIG_DFL / SIG_IGN
                if h == 1:
                    continue
                self.kill(p)
                raise SimKill()
            h(signum, None)

    def kill(self, proc):
        """kill -9: nothing more of this process runs."""
        proc.dead = True
        if proc.outcome is None:
            proc.outcome = ('killed',)
        self.count('fault:kill')

    # -- line preemption -------------------------------------------------------------------

    trace_prefix = None

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.trace_prefix):
            return self._liner()
        return None

    def _liner(self):
        # The events of one frame. PyPy sometimes reports the line it is already in once more
        # (when compiled code bails out), so only a change of line is a preemption point.
        last = None

        def line(frame, event, arg):
            nonlocal last
            if event == 'line':
                if self.line_limit:
                    self._limit(frame)
                if frame.f_lineno != last:
                    last = frame.f_lineno
                    self._line()
            return line
        return line

    def _steps(self):
        cur = self.current
        return not self.over and self.unwinding is None and \
            cur is not None and cur.proc is not None and not cur.proc.dead

    def _limit(self, frame):
        if self._steps():
            self.lines_since += 1
            if self.lines_since > self.line_limit:
                self.lines_since = 0
                self._budget('loops without yielding in %s:%d' % (
                    frame.f_code.co_filename, frame.f_lineno))
                raise SimKill()

    def _line(self):
        if self.preempt_lines and self._steps():
            since = self.lines_since
            self.count('line-points')
            self.step('line')
            self.lines_since = since


def _nothing():
    pass


def start_process(kernel, fn, name='fbuild'):
    """Start fn as the main thread of a new simulated process."""
    p = Process(kernel, name, kernel.next_pid)
    kernel.next_pid += 1
    kernel.procs.append(p)

    def body():
        try:
            try:
                p.outcome = ('return', fn(p))
            except SystemExit as e:
                p.outcome = ('exit', e.code)
            except SimKill:
                raise
            except SimAbort:
                raise
            except BaseException as e:
                p.outcome = ('raise', e)
            if p.modules is not None:
                p.modules.interpreter_exit()
        finally:
            p.finished = True

    t = kernel.spawn(p, body, 'main')
    t.is_main = True
    t.sigok = True
    p.main = t
    return p


def wait_process(kernel, p, timeout=None):
    """Called by the driver: wait until the process ended or was killed, then unwind it."""
    ok = kernel.block(lambda: p.dead or p.finished, 'wait-process', timeout=timeout)
    if ok:
        kernel.reap(p)
    return ok
