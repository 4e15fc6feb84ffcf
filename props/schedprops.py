"""S01-S06: the scheduler."""
from sim.run import Spec
from sim.kernel import SimKill, HarnessError

import signal as real_signal


class Boom(Exception):
    pass


def one_of(e, raised):
    return any(e is x for x in raised) or (
        isinstance(e, KeyboardInterrupt) and any(isinstance(x, KeyboardInterrupt) for x in raised))


class Batch:
    def __init__(self, n):
        self.n = n
        self.starts = {}
        self.finished = {}
        self.running = 0
        self.closed = False
        self.raised = []
        self.failed_at = None


class World:
    """The workload and the invariants shared by the scheduler properties."""

    def __init__(self, sim, mods, threads):
        import fbuild.sched
        self.sim = sim
        self.k = sim.k
        self.ch = sim.ch
        self.mods = mods
        self.n = threads
        self.s = fbuild.sched.Scheduler(threads)
        self.holder = None           # thread now in exclusive execution
        self.batches = []
        self.commands = 0
        self.max_commands = 0
        self.depth_reached = 0
        self.serial = 0
        self.shut = False
        self.cmd_log = []
        self.bad = None              # a violation noticed on a worker thread

    # A violation seen inside a task cannot be raised there (the scheduler would catch it).
    def fail(self, kind, detail=''):
        if self.bad is None:
            self.bad = (kind, detail)
        self.sim.events.append(('bad', kind, detail))

    def check(self):
        if self.bad is not None:
            self.sim.violation(*self.bad)

    # -- exclusive execution ---------------------------------------------------------------

    def enter(self):
        me = self.k.current
        if self.holder is not None:
            self.fail('two-tasks-at-once', '%s entered while %s was executing' % (
                me.name, self.holder.name))
        self.holder = me

    def leave(self):
        if self.holder is not self.k.current:
            self.fail('two-tasks-at-once', '%s was executing, but %r is marked' % (
                self.k.current.name, self.holder))
        self.holder = None

    def body(self, n):
        for _ in range(n):
            self.k.step('body')
            if self.holder is not self.k.current:
                self.fail('two-tasks-at-once', '%s was overtaken by %r' % (
                    self.k.current.name, self.holder))

    def command(self, d, on_worker=True, error=None):
        """A command inside an interruptible section, which may fail with an error."""
        try:
            self.section(d, on_worker, error)
        except BaseException as e:
            if on_worker and e is error:
                # Out of the section, so this is exclusive again.
                self.enter()
                self.body(2)
            raise
        if on_worker:
            self.enter()

    def section(self, d, on_worker, error):
        if on_worker:
            self.leave()
        with self.s.interruptible() as yield_:
            self.commands += on_worker
            self.max_commands = max(self.max_commands, self.commands)
            if self.commands > self.n:
                self.fail('too-many-commands', '%d commands with %d threads' % (self.commands, self.n))
            t0 = self.k.now
            self.cmd_log.append(('start', t0))
            if d < 0:
                yield_()
            else:
                self.k.block(lambda: False, 'command', timeout=d, sig=True)
            self.commands -= on_worker
            self.cmd_log.append(('end', self.k.now))
            if error is not None:
                raise error

    # -- batches ---------------------------------------------------------------------------

    def plan(self, depth, fail_p, cmd_p):
        """What one task does: a list of actions drawn from the workload stream."""
        ch = self.ch
        acts = []
        for _ in range(ch.pick('w', 4)):
            a = ch.weighted('w', [('body', 4), ('cmd', 4 * cmd_p), ('map', 2 if depth > 0 else 0),
                                  ('raise', fail_p), ('catch', fail_p if depth > 0 else 0)])
            if a == 'body':
                acts.append(('body', 1 + ch.pick('w', 4)))
            elif a == 'cmd':
                acts.append(('cmd', ch.choose('w', [0.01, -1, 0.2, 1.0])))
            elif a in ('map', 'catch'):
                acts.append((a, self.batch_plan(depth - 1, fail_p, cmd_p)))
            else:
                acts.append(('raise', ch.pick('w', 5)))
                break
        return acts

    def batch_plan(self, depth, fail_p, cmd_p, most=5):
        m = self.ch.pick('w', most + 1)
        dup = self.ch.flip('w', 0.3)
        srcs = [self.ch.pick('w', 3) if dup else i for i in range(m)]
        return [(src, self.plan(depth, fail_p, cmd_p)) for src in srcs]

    def perform(self, acts, path):
        for kind, arg in acts:
            if kind == 'body':
                self.body(arg)
            elif kind == 'cmd':
                self.command(arg)
            elif kind == 'map':
                self.leave()
                try:
                    self.run_batch(arg, path)
                finally:
                    self.enter()
            elif kind == 'catch':
                self.leave()
                try:
                    self.run_batch(arg, path)
                except Boom:
                    self.sim.notes['nested failure handled'] = \
                        self.sim.notes.get('nested failure handled', 0) + 1
                finally:
                    self.enter()
            elif kind == 'raise':
                self.body(1)
                self.serial += 1
                e = KeyboardInterrupt('task') if arg == 4 and self.interrupts \
                    else Boom(self.serial)
                if self.section_errors and arg % 2 == 0:
                    self.command([0.01, -1, 0.2][arg // 2], error=e)
                raise e

    interrupts = False
    section_errors = False
    shut_at = None

    def run_batch(self, plan, path=(), fn=None):
        """s.map over the plan with every invariant of S01, S03, S04 checked."""
        b = Batch(len(plan))
        self.batches.append(b)
        self.depth_reached = max(self.depth_reached, len(path))
        # Inputs: equal values for duplicates, but each task needs its own plan, so equal
        # inputs take the plans of their group in turn.
        groups = {}
        for i, (src, acts) in enumerate(plan):
            groups.setdefault(src, []).append((i, acts))
        taken = {}
        # The thread that waits for this batch does nothing else.
        prompt = not path and not self.signalled

        def f(src):
            if b.closed:
                self.fail('task-after-batch', 'a task of a finished batch was started')
            if prompt and b.failed_at is not None and self.k.now > b.failed_at + 0.02:
                # Time only passed because the thread that waits for the batch had nothing to do.
                self.fail('task-after-failure', 'a task was started %.2f s after another failed' % (
                    self.k.now - b.failed_at))
            if self.shut_at is not None and self.k.now - self.shut_at > 0.05:
                self.fail('task-after-shutdown', 'a queued task was started %.2f s after shutdown '
                          'was requested' % (self.k.now - self.shut_at))
            self.enter()
            b.running += 1
            j = taken.get(src, 0)
            taken[src] = j + 1
            try:
                if j >= len(groups[src]):
                    self.fail('ran-twice', 'input %r run more than once' % (src,))
                    return None
                i, acts = groups[src][j]
                b.starts[i] = b.starts.get(i, 0) + 1
                try:
                    self.perform(acts, path + (i,))
                except BaseException as e:
                    if not isinstance(e, SimKill):
                        b.raised.append(e)
                        if b.failed_at is None:
                            b.failed_at = self.k.now
                    raise
                if b.closed:
                    self.fail('task-after-batch', 'a task was still running when its batch ended')
                b.finished[i] = True
                return (src, path, 'r')
            finally:
                b.running -= 1
                if self.holder is self.k.current:
                    self.holder = None
        try:
            res = self.s.map(f, [src for src, _ in plan])
        except SimKill:
            raise
        except BaseException as e:
            if not self.signalled:
                if not one_of(e, b.raised):
                    self.fail('foreign-exception', 'map raised %r, tasks raised %r' % (e, b.raised))
                if b.running:
                    self.fail('task-after-batch', '%d tasks still running when map raised' % b.running)
                b.closed = True
                for x in b.raised:
                    if isinstance(x, KeyboardInterrupt) and not isinstance(e, KeyboardInterrupt) \
                            and b.raised.index(x) == 0:
                        self.fail('interrupt-lost', 'first failure was an interrupt, got %r' % e)
            raise
        b.closed = True
        if b.raised:
            self.fail('exception-lost', 'map returned although %r was raised' % b.raised)
        if b.running:
            self.fail('task-after-batch', '%d tasks still running when map returned' % b.running)
        want = [(src, path, 'r') for src, _ in plan]
        if res != want:
            self.fail('wrong-results', 'got %r, wanted %r' % (res, want))
        if b.starts != {i: 1 for i in range(len(plan))}:
            self.fail('not-once', 'runs per input: %r' % b.starts)
        return res

    signalled = False


def threads_alive(mods):
    t = mods.get('threading')
    return [x for x in t.enumerate() if x is not t.main_thread()]


def finish(sim, p, w):
    w and w[0].check()
    if p.outcome[0] != 'return':
        e = p.outcome[1] if len(p.outcome) > 1 else None
        sim.violation('build-crashed', 'the main thread ended with %r' % (p.outcome,))
    sim.require(not p.thread_errors, 'thread-died', repr(p.thread_errors))


def note(sim, key, cond=True):
    if cond:
        sim.notes[key] = sim.notes.get(key, 0) + 1


# -- S01 / S03 --------------------------------------------------------------------------------

def run_map(sim, fail_p=0.0, main_interruptible=True, errors=False):
    ch = sim.ch
    n = 1 + ch.pick('w', 4)
    rounds = 1 + ch.pick('w', 3)
    ws = []

    def main(mods):
        w = World(sim, mods, n)
        w.section_errors = w.interrupts = errors
        ws.append(w)
        for _ in range(rounds):
            depth = ch.pick('w', 4)
            plan = w.batch_plan(depth, fail_p, 1.0, most=6)
            sim.sample = {'threads': n, 'plan': repr(plan)[:300], 'strategy': sim.k.strategy}
            sim.trivial = not plan
            pre = main_interruptible and ch.flip('w', 0.4)
            if pre:
                # The main thread (not a worker) uses an interruptible section of its own while
                # workers are busy: run the batch from a helper thread.
                t = mods.get('threading').Thread(target=lambda: result(w, plan))
                t.start()
                for _ in range(1 + ch.pick('w', 3)):
                    w.k.step('body')
                    w.command(ch.choose('w', [0.005, 0.1, -1]), on_worker=False)
                t.join()
                note(sim, 'interruptible section outside tasks')
            else:
                result(w, plan)
            note(sim, 'nested batches', w.depth_reached > 0)
            note(sim, 'overlapping commands', w.max_commands > 1)
        w.s.shutdown()
        sim.require(not threads_alive(mods), 'thread-left', 'worker threads left after shutdown')
        return 'ok'

    def result(w, plan):
        try:
            w.run_batch(plan)
        except Boom:
            note(sim, 'failed batches')
        except KeyboardInterrupt:
            note(sim, 'interrupted batches')
    p = sim.world.run(main)
    sim.events.append((repr(p.outcome),))
    finish(sim, p, ws)


def s01(sim):
    run_map(sim, 0.0)


def s03(sim):
    run_map(sim, sim.ch.choose('w', [0.0, 0.6, 1.5]), errors=sim.ch.flip('w', 0.7))


# -- S02 --------------------------------------------------------------------------------------

def s02(sim):
    ch = sim.ch
    n = 1 + ch.pick('w', 4)
    m = ch.pick('w', 8)
    cyc = ch.flip('w', 0.3)
    names = ['n%d' % i for i in range(m)]
    order = ch.shuffle('w', names)
    deps = {}
    for i in order:
        pos = order.index(i)
        pool = order[:pos]
        if cyc:
            pool = order
        d = [x for x in pool if ch.flip('w', 0.3)]
        if ch.flip('w', 0.15):
            d.insert(ch.pick('w', len(d) + 1), 'unknown-%s' % i)
        if d and ch.flip('w', 0.15):
            d.append(d[0])
        deps[i] = d
    srcs = list(names)
    if m and ch.flip('w', 0.2):
        srcs.append(srcs[ch.pick('w', m)])
    srcs = ch.shuffle('w', srcs)
    boom = {i for i in names if ch.flip('w', 0.06)}
    boom_dep = {i for i in names if ch.flip('w', 0.03)}
    nested = ch.flip('w', 0.3)
    body = {i: (ch.pick('w', 3), ch.choose('w', [None, 0.05, -1])) for i in names}
    as_iter = ch.flip('w', 0.3)
    sim.sample = {'threads': n, 'srcs': srcs, 'deps': {str(a): b for a, b in deps.items()}}
    sim.trivial = m < 2
    # Which inputs lie on a cycle or depend on one?
    known = set(names)
    adj = {i: [x for x in deps[i] if x in known] for i in known}
    blocked = set(known)
    ok = set()
    changed = True
    while changed:
        changed = False
        for i in sorted(blocked - ok):
            if all(x in ok for x in adj[i]):
                ok.add(i)
                changed = True
    stuck = known - ok
    note(sim, 'cyclic graphs', bool(stuck))
    ws = []

    def main(mods):
        import fbuild.sched
        w = World(sim, mods, n)
        ws.append(w)

        def once():
            started, done, failed = {}, set(), []

            def depends(i):
                w.enter()
                try:
                    w.body(1)
                    if i in boom_dep:
                        raise Boom('dep', i)
                    return iter(deps[i]) if as_iter else deps[i]
                finally:
                    w.leave()

            def f(i):
                w.enter()
                try:
                    started[i] = started.get(i, 0) + 1
                    for x in adj[i]:
                        if x not in done:
                            w.fail('dependency-not-first', '%r ran before its dependency %r (deps %r)'
                                   % (i, x, deps))
                    if i in stuck:
                        w.fail('cycle-ran', '%r is on a dependency cycle but was run' % i)
                    a, c = body[i]
                    w.body(a)
                    if c is not None:
                        w.command(c)
                    if i in boom:
                        failed.append(i)
                        raise Boom(i)
                    done.add(i)
                    return ('r', i)
                finally:
                    w.holder = None
            try:
                res = w.s.map_with_dependencies(depends, f, list(srcs))
            except Boom as e:
                if not failed and not (boom_dep & set(srcs)):
                    w.fail('foreign-exception', repr(e))
                if not failed and started:
                    w.fail('ran-without-dependencies', repr(started))
                note(sim, 'failing graphs')
                if any(v != 1 for v in started.values()):
                    w.fail('not-once', repr(started))
                return ('boom',)
            except fbuild.sched.DependencyLoop as e:
                str(e)
                if not stuck:
                    w.fail('false-cycle', '%r has no cycle' % deps)
                if any(v != 1 for v in started.values()):
                    w.fail('not-once', repr(started))
                return ('loop', sorted(started))
            if stuck:
                w.fail('cycle-missed', '%r: returned %r' % (deps, res))
            elif failed or boom_dep & set(srcs):
                w.fail('exception-lost', 'failed %r' % failed)
            if started != {i: 1 for i in set(srcs)}:
                w.fail('not-once', 'runs %r, inputs %r' % (started, srcs))
            if sorted(res) != [('r', i) for i in sorted(set(srcs))]:
                w.fail('wrong-results', '%r for %r' % (res, srcs))
            else:
                where = {i: p for p, (_, i) in enumerate(res)}
                for i in where:
                    for x in adj[i]:
                        if x in where and where[x] > where[i]:
                            w.fail('wrong-order', '%r before its dependency %r in %r' % (i, x, res))
            return ('ok', res)

        def one():
            if not nested:
                return once()
            out = []

            def outer(_):
                out.append(once())
            w.s.map(outer, [0])
            return out[0]
        a = one()
        b = one()
        if a[0] == b[0] == 'ok' and a != b:
            w.fail('order-not-deterministic', '%r then %r' % (a, b))
        if not boom and not boom_dep and a[0] != b[0]:
            w.fail('outcome-not-deterministic', '%r then %r' % (a, b))
        note(sim, 'completed graphs', a[0] == 'ok')
        # Still usable.
        if w.s.map(lambda x: x + 1, [1, 2]) != [2, 3]:
            w.fail('unusable', 'map after the graph')
        w.s.shutdown()
        return 'ok'
    p = sim.world.run(main)
    finish(sim, p, ws)


# -- S04 --------------------------------------------------------------------------------------

def s04(sim):
    ch = sim.ch
    n = 1 + ch.pick('w', 4)
    rounds = 1 + ch.pick('w', 3)
    fail_p = ch.choose('w', [0.5, 1.0, 2.0])
    interrupts = ch.flip('w', 0.3)
    errors = ch.flip('w', 0.5)
    ws = []

    def main(mods):
        w = World(sim, mods, n)
        w.interrupts = interrupts
        w.section_errors = errors
        ws.append(w)
        for _ in range(rounds):
            plan = w.batch_plan(ch.pick('w', 3), fail_p, 1.0, most=7)
            sim.sample = {'threads': n, 'plan': repr(plan)[:300]}
            try:
                w.run_batch(plan)
            except Boom:
                note(sim, 'failed batches')
            except KeyboardInterrupt:
                note(sim, 'interrupted batches')
            # Anything of the batch that is still alive would show itself now.
            for _ in range(3):
                sim.k.step('after')
            sim.k.block(lambda: False, 'settle', timeout=3.0)
            want = list(range(2 * n))
            if ch.flip('w', 0.7):
                got = w.s.map(lambda x: x, want)
                if got != want:
                    w.fail('unusable', 'map after a failed batch: %r' % got)
        w.s.shutdown()
        sim.require(not threads_alive(mods), 'thread-left', 'worker threads left after shutdown')
        return 'ok'
    p = sim.world.run(main)
    finish(sim, p, ws)


def s04deps(sim):
    """Dependents of a failed task never run, no task of the batch survives it."""
    ch = sim.ch
    n = 1 + ch.pick('w', 4)
    m = 2 + ch.pick('w', 6)
    deps = {i: [x for x in range(i) if ch.flip('w', 0.4)] for i in range(m)}
    acts = {i: (ch.pick('w', 3), ch.choose('w', [None, 0.05, 0.5, -1])) for i in range(m)}
    boom = {i: ch.choose('w', [Boom, Boom, KeyboardInterrupt]) for i in range(m) if ch.flip('w', 0.35)}
    nested = ch.flip('w', 0.4)
    sim.sample = {'threads': n, 'deps': {str(a): b for a, b in deps.items()},
                  'failing': sorted(boom)}
    ws = []

    def main(mods):
        w = World(sim, mods, n)
        ws.append(w)
        st = {'closed': False, 'running': 0}
        failed, raised = set(), []

        def f(i):
            if st['closed']:
                w.fail('task-after-batch', 'task %d started after the batch ended' % i)
            if not nested and failed and sim.k.now > st['failed'] + 0.02:
                # Time only passed because the thread that waits for the batch had nothing to do.
                w.fail('task-after-failure', 'task %d started %.2f s after %r failed' % (
                    i, sim.k.now - st['failed'], sorted(failed)))
            w.enter()
            st['running'] += 1
            try:
                for x in deps[i]:
                    if x in failed:
                        w.fail('dependent-ran', '%d ran although %d failed' % (i, x))
                a, c = acts[i]
                w.body(a)
                if c is not None:
                    w.command(c)
                if i in boom:
                    if not failed:
                        st['failed'] = sim.k.now
                    failed.add(i)
                    e = boom[i](i)
                    raised.append(e)
                    raise e
                if st['closed']:
                    w.fail('task-after-batch', 'task %d still ran after the batch ended' % i)
            finally:
                st['running'] -= 1
                w.holder = None

        def call():
            try:
                w.s.map_with_dependencies(lambda i: deps[i], f, list(range(m)))
            except (Boom, KeyboardInterrupt) as e:
                if not one_of(e, raised):
                    w.fail('foreign-exception', '%r, raised %r' % (e, raised))
                note(sim, 'failed batches')
            else:
                if raised:
                    w.fail('exception-lost', repr(raised))
            if st['running']:
                w.fail('task-after-batch', '%d tasks running after the batch' % st['running'])
            st['closed'] = True
        if nested:
            w.s.map(lambda _: call(), [0])
        else:
            call()
        sim.k.block(lambda: False, 'settle', timeout=3.0)
        if w.s.map(lambda x: x, [1, 2, 3]) != [1, 2, 3]:
            w.fail('unusable', '')
        w.s.shutdown()
        return 'ok'
    p = sim.world.run(main)
    finish(sim, p, ws)


def s04both(sim):
    (s04deps if sim.ch.flip('w', 0.4) else s04)(sim)


# -- S05 --------------------------------------------------------------------------------------

def s05(sim):
    ch = sim.ch
    n = 1 + ch.pick('w', 4)
    mode = ch.choose('w', ['idle', 'signal', 'signal', 'signal', 'failure', 'helper'])
    twice = ch.flip('w', 0.4)
    depth = ch.pick('w', 3)
    sim.sample = {'threads': n, 'mode': mode, 'depth': depth, 'twice': twice}
    ws = []
    at = ch.given('f', 400, lambda r: r.randrange(1, 400)) if mode == 'signal' else 0
    state = {'handled': 0}

    def main(mods):
        w = World(sim, mods, n)
        ws.append(w)
        k = sim.k
        workers = threads_alive(mods)
        sig = mods.get('signal')
        old = sig.getsignal(sig.SIGINT)

        def after():
            left = [t.name for t in workers if t.is_alive()]
            if left:
                w.fail('thread-left', 'alive after shutdown: %r' % left)

        def handler(signum, frame):
            state['handled'] += 1
            if depth == 0:
                # Without nested batches nothing that was queued may start any more.
                w.shut_at = k.now
            w.s.shutdown()
            after()
            old(signum, frame)
        sig.signal(sig.SIGINT, handler)
        if mode == 'idle':
            if ch.flip('w', 0.5):
                w.run_batch(w.batch_plan(depth, 0.0, 1.0))
        elif mode == 'helper':
            # Shut down from a second thread while the main thread is idle.
            w.run_batch(w.batch_plan(depth, 0.0, 1.0))
            t = mods.get('threading').Thread(target=w.s.shutdown)
            t.start()
            t.join()
            after()
        else:
            plan = w.batch_plan(depth, 0.8 if mode == 'failure' else 0.0, 2.0, most=7)
            sim.sample['plan'] = repr(plan)[:200]
            if mode == 'signal':
                w.signalled = True
                sim.k.arm(p_, at, lambda: sim.sigint(p_))
            try:
                for _ in range(3 if mode == 'signal' else 1):
                    w.run_batch(plan)
            except Boom:
                note(sim, 'shutdown after failure')
            except KeyboardInterrupt:
                note(sim, 'shutdown from the interrupt handler')
                note(sim, 'interrupted with tasks running', any(b.running for b in w.batches))
                p_.arms = []
        p_.arms = []
        try:
            w.s.shutdown()
            after()
            if twice:
                w.s.shutdown()
        except KeyboardInterrupt:
            w.s.shutdown()
        after()
        try:
            k.block(lambda: False, 'settle', timeout=2.0)
        except KeyboardInterrupt:
            pass
        if w.commands and depth == 0:
            w.fail('task-after-shutdown', '%d commands still running' % w.commands)
        return 'ok'
    p_ = sim.world.spawn(main)
    sim.world.wait(p_)
    finish(sim, p_, ws)


# -- S06 --------------------------------------------------------------------------------------

def s06(sim):
    ch = sim.ch
    n = 1 + ch.pick('w', 5)
    mode = ch.choose('w', ['barrier', 'nested-barrier', 'durations', 'graph'])
    sim.sample = {'threads': n, 'mode': mode}
    ws = []

    def main(mods):
        w = World(sim, mods, n)
        ws.append(w)
        k = sim.k
        if w.s.threadcount != n:
            w.fail('wrong-threadcount', '%d, wanted %d' % (w.s.threadcount, n))
        if mode in ('barrier', 'nested-barrier'):
            waves = 1 + ch.pick('w', 2)
            count = [0]

            def f(i):
                w.enter()
                w.leave()
                with w.s.interruptible():
                    w.commands += 1
                    w.max_commands = max(w.max_commands, w.commands)
                    if w.commands > n:
                        w.fail('too-many-commands', '%d > %d' % (w.commands, n))
                    count[0] += 1
                    need = ((count[0] + n - 1) // n) * n
                    # This command ends only once n of them run: each wave is one barrier.
                    k.block(lambda: count[0] >= need, 'barrier')
                    w.commands -= 1
                w.enter()
                w.leave()
                return i

            def barrier():
                got = w.s.map(f, list(range(n * waves)))
                if got != list(range(n * waves)):
                    w.fail('wrong-results', repr(got))
            if mode == 'nested-barrier':
                w.s.map(lambda _: barrier(), [0])
            else:
                barrier()
            if w.max_commands != n:
                w.fail('not-parallel', 'only %d of %d at once' % (w.max_commands, n))
            note(sim, 'barriers with %d jobs' % n)
        else:
            m = 1 + ch.pick('w', 10)
            dur = [0.3 + 0.1 * ch.pick('w', 8) for _ in range(m)]
            deps = {i: [x for x in range(i) if ch.flip('w', 0.25)] if mode == 'graph' else []
                    for i in range(m)}
            log = []                # (time, running, ready but not started)
            st = {'run': set(), 'done': set(), 'started': set()}

            def mark():
                ready = [i for i in range(m) if i not in st['started']
                         and all(d in st['done'] for d in deps[i])]
                log.append((k.now, len(st['run']), len(ready)))

            def f(i):
                w.enter()
                st['started'].add(i)
                st['run'].add(i)
                w.leave()
                mark()
                with w.s.interruptible():
                    w.commands += 1
                    w.max_commands = max(w.max_commands, w.commands)
                    if w.commands > n:
                        w.fail('too-many-commands', '%d > %d' % (w.commands, n))
                    k.block(lambda: False, 'command', timeout=dur[i])
                    w.commands -= 1
                w.enter()
                st['run'].discard(i)
                st['done'].add(i)
                w.leave()
                mark()
                return i
            if mode == 'graph':
                w.s.map_with_dependencies(lambda i: deps[i], f, list(range(m)))
            else:
                w.s.map(f, list(range(m)))
            # Between two marks more than a scheduling delay apart, either n commands run
            # or no task is ready.
            for (t0, run, ready), (t1, _, _) in zip(log, log[1:]):
                if t1 - t0 > 0.1 and run < n and ready:
                    w.fail('idle-worker', '%d of %d commands ran for %.2f s while %d tasks were '
                           'ready' % (run, n, t1 - t0, ready))
            note(sim, 'saturated runs', w.max_commands == n)
        w.s.shutdown()
        return 'ok'
    p = sim.world.run(main)
    finish(sim, p, ws)


S01 = Spec(s01)
S02 = Spec(s02)
S03 = Spec(s03)
S04 = Spec(s04both)
S05 = Spec(s05)
S06 = Spec(s06)
