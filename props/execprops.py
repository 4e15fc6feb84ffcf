"""E01, E02: executing commands."""
import errno
import os as real_os

from sim.run import Spec

from props.schedprops import finish, note, threads_alive

SIGINT, SIGKILL, SIGTERM = 2, 9, 15
EPS, SLACK = 0.001, 0.3
REUSE = 0.02


class Job:
    """One command to execute: what it does and how it is executed."""

    def __init__(self, i):
        self.i = i
        self.out = []                # what was written to each pipe
        self.err = []
        self.sent = []
        self.leader = None
        self.group = []
        self.fault = None
        self.end = ('exit', 0)

    def __repr__(self):
        return 'job %d %r timeout=%r -> %r' % (self.i, self.ops, self.timeout, self.end)


def draw_ops(ch, depth, jobs):
    ops = []
    for _ in range(ch.pick('w', 5)):
        op = ch.weighted('w', [('sleep', 3), ('out', 3), ('err', 2), ('kid', 2 if depth else 0),
                               ('ignore', 1 if depth else 0)])
        if op == 'sleep':
            ops.append((op, ch.choose('w', [0.01, 0.3, 0.9, 1.1, 2.0, 5.0])))
        elif op in ('out', 'err'):
            ops.append((op, ch.weighted('w', [(1, 6), (40, 6), (3000, 2), (70000, 1)]), ch.pick('w', 4)))
        elif op == 'kid':
            ops.append((op, draw_ops(ch, depth - 1, jobs), ch.flip('w', 0.6), ch.flip('w', 0.2)))
        else:
            ops.append((op,))
    return ops


def chunk(n, kind, serial):
    if kind == 0:
        return b'\xff\xfe%d\n' % serial + b'\x80' * n          # not UTF-8
    if kind == 1:
        return b'line %d\n' % serial * max(1, n // 8)
    if kind == 2:
        return b'\r\n  %d  ' % serial + b'x' * n                # white space at the ends
    return 'é%d\0'.encode() % serial + b'y' * n


class Exec:
    def __init__(self, sim, only):
        self.sim = sim
        self.k = sim.k
        self.ch = sim.ch
        self.only = only
        self.jobs = []
        self.bad = None
        self.serial = 0
        self.interrupting = None
        self.struck = None
        self.innocents = []
        sim.procs.add_program('job', self.program)
        sim.procs.add_program('uname', self.uname)
        sim.procs.start_fault = self.start_fault
        sim.procs.on_start = self.on_start
        sim.procs.on_reap = self.on_reap
        self.reuse = self.ch.flip('f', 0.6)

    def fail(self, kind, detail=''):
        if kind in self.only and self.bad is None:
            self.bad = (kind, detail)
        self.sim.events.append(('bad', kind, detail))

    def check(self):
        if self.bad is not None:
            self.sim.violation(*self.bad)

    # -- the simulated side ----------------------------------------------------------------

    def uname(self, c):
        yield 0.01
        c.out('Linux\n')

    def start_fault(self, args):
        if args[0] == 'job':
            return self.jobs[int(args[1])].fault

    def on_start(self, c):
        if c.args[0] == 'job' and len(c.args) == 2:
            j = self.jobs[int(c.args[1])]
            if c.owner is not None:
                if j.leader is not None:
                    self.fail('started-twice', repr(j))
                j.leader = c
            j.group.append(c)

    def on_reap(self, c):
        """Later on, another process of the machine may get the number of one that is gone."""
        if not self.reuse:
            return
        d = self.ch.choose('f', [REUSE, 0.2, 2.0])

        def other():
            from sim.procs import Command
            keep = self.k.next_pid
            o = Command(self.sim.procs, ['innocent'], {}, '/', c.pid, None, None, None, None)
            self.k.next_pid = keep
            o.pid = o.pgid = c.pid
            self.sim.procs.commands[o.pid] = o
            self.innocents.append(o)
        self.k.after(d, other)

    def program(self, c):
        """What a command does."""
        j = self.jobs[int(c.args[1])]
        ops = j.ops if c.owner is not None else c.state['ops']
        if c.owner is not None:
            if j.echo:
                yield ('stdin',)
                d = c.stdin.data if c.stdin is not None else b'<none>'
                self.emit(c, j, 'out', b'in:' + d)
            if j.show:
                self.emit(c, j, 'out', repr((c.env.get('XVAR'), c.env.get('LD_LIBRARY_PATH'),
                                             c.env.get('PATH'), c.env.get('HOME'), c.cwd)).encode())
        for op in ops:
            if op[0] == 'sleep':
                yield op[1]
            elif op[0] in ('out', 'err'):
                self.serial += 1
                self.emit(c, j, op[0], chunk(op[1], op[2], self.serial))
                yield 0.001
            elif op[0] == 'ignore':
                c.ignore_sigint = True
            elif op[0] == 'kid':
                self.kid(c, j, *op[1:])
        if c.owner is not None:
            if j.end[0] == 'exit':
                yield ('exit', j.end[1])
            else:
                yield ('die', j.end[1])

    def kid(self, c, j, ops, inherit, own):
        from sim.procs import Command
        procs = self.sim.procs
        o = Command(procs, ['job', c.args[1]], c.env, c.cwd, c.pgid, None,
                    c.stdout if inherit else None, c.stderr if inherit else None, None)
        o.state['ops'] = ops
        if own:
            o.pgid = o.pid
        procs.launch(o)

    def emit(self, c, j, which, data):
        if which == 'out':
            if c.stdout is not None:
                c.out(data)
                j.out.append(data)
        elif c.stderr is not None:
            c.errout(data)
            (j.out if j.merge else j.err).append(data)

    # -- the build's side --------------------------------------------------------------------

    def draw(self, timeouts, faults):
        ch = self.ch
        j = Job(len(self.jobs))
        j.ops = draw_ops(ch, 2, self)
        j.end = ch.weighted('w', [(('exit', 0), 8), (('exit', 1), 2), (('exit', 130), 1), (('exit', 255), 1),
                                  (('signal', SIGTERM), 1), (('signal', 11), 1), (('signal', SIGKILL), 1),
                                  (('signal', SIGINT), 1)])
        j.timeout = ch.choose('w', [None, 0.5, 1.0, 1.0, 2.5]) if timeouts else None
        j.ignore = ch.flip('w', 0.25)
        j.echo = ch.flip('w', 0.2)
        j.input = ch.choose('w', [None, b'some input\n', b'z' * 70000]) if j.echo else None
        j.show = ch.flip('w', 0.3)
        j.env = ch.choose('w', [None, {'XVAR': 'value %d' % j.i}, {'PATH': '/bin:/other', 'XVAR': ''},
                                {'LD_LIBRARY_PATH': '/given'}]) if j.show else None
        j.libs = ch.choose('w', [None, ['/l1'], ['/l1', '/l2 x']]) if j.show else None
        j.cwd = ch.choose('w', [None, '/w/sub']) if j.show else None
        j.merge = ch.flip('w', 0.15)
        j.hog = ch.choose('w', [0, 0, 0.4, 1.5])       # Python work before or after
        if faults and ch.flip('f', 0.15):
            j.fault = ch.choose('f', [errno.ENOENT, errno.EACCES, errno.EAGAIN, errno.ENOMEM])
        j.quiet = ch.pick('w', 3)
        self.jobs.append(j)
        return j

    def run(self, ctx, j):
        """Execute one command in a task and judge what comes back."""
        import fbuild
        import fbuild.subprocess
        k = self.k
        if j.hog and j.i % 2:
            k.block(lambda: False, 'python', timeout=j.hog, sig=False)
        kw = {}
        if j.merge:
            kw['stderr'] = fbuild.subprocess.STDOUT
        if j.cwd:
            kw['cwd'] = j.cwd
        err = None
        try:
            got = ctx.execute(['job', str(j.i)], 'msg %d' % j.i, input=j.input, timeout=j.timeout,
                              env=j.env, runtime_libpaths=j.libs, ignore_error=j.ignore,
                              quieter=j.quiet, **kw)
            how = 'ok'
        except fbuild.ExecutionTimedOut as e:
            how, err, got = 'timeout', e, (e.stdout, e.stderr)
        except fbuild.ExecutionError as e:
            how, err, got = 'error', e, (e.stdout, e.stderr)
        except OSError as e:
            how, err, got = 'oserror', e, None
        except KeyboardInterrupt as e:
            how, err, got = 'interrupt', e, None
        self.judge(j, how, err, got)
        if j.hog and not j.i % 2:
            k.block(lambda: False, 'python', timeout=j.hog, sig=False)
        return how

    def judge(self, j, how, err, got):
        k = self.k
        c = j.leader
        what = '%r: %s' % (j, how)
        note(self.sim, 'outcome ' + how)
        if j.fault:
            if c is not None:
                self.fail('started-twice', what)
            if how != 'oserror' or err.errno != j.fault:
                if not (how == 'interrupt' and self.interrupting == j.i):
                    self.fail('start-failure', '%s (%r) instead of errno %d' % (what, err, j.fault))
            return
        if how == 'oserror':
            self.fail('start-failure', '%s: %r' % (what, err))
            return
        interrupted = how == 'interrupt' and self.interrupting == j.i and self.struck is not None
        if c is None:
            if not interrupted:
                self.fail('not-started', what)
            return
        mine = [x for x in j.group if x.pgid == c.pgid]
        sent = [(t, pid, sig) for t, kind, pid, _, sig in self.sim.procs.history
                if kind == 'signal' and pid in [x.pid for x in mine]]
        kills = [t for t, pid, sig in sent if sig == SIGKILL]
        if interrupted:
            left = [x for x in mine if x.status is None and not x.ignore_sigint]
            if all(x.ended is not None and x.ended <= self.struck for x in mine
                   if x is c or x.stdout is not None or x.stderr is not None):
                left = []            # it had ended when the interrupt came
            if left:
                self.fail('left-running', '%s: still running after the interrupt: %r' % (
                    what, [(x.pid, x.args) for x in left]))
            note(self.sim, 'interrupted commands')
            return
        if c.status is None:
            self.fail('returned-early', '%s: still running' % what)
            return
        if not c.reaped:
            self.fail('zombie', '%s: nobody waited for it' % what)
        if any(sig != SIGKILL for t, pid, sig in sent):
            self.fail('killed-early', '%s: signals %r' % (what, sent))
        # How long it lasted as far as fbuild can see: the command and what holds its output in its group.
        holders = [x for x in mine if x is c or x.stdout is not None or x.stderr is not None]
        pending = [x for x in holders if x.status is None]
        foreign = [x for x in j.group if x.pgid != c.pgid and (x.stdout or x.stderr)]
        last = max([x.ended for x in holders if x.ended is not None])
        lasted = last - c.started
        if kills and (j.timeout is None or min(kills) < c.started + j.timeout - EPS):
            self.fail('killed-early', '%s: killed after %.3f s' % (what, min(kills) - c.started))
        if kills:
            note(self.sim, 'killed')
            if how != 'timeout' and c.returncode != -SIGINT:
                self.fail('timeout-hidden', what)
        if how == 'timeout':
            if j.timeout is None or (lasted < j.timeout - EPS and not foreign):
                self.fail('false-timeout', '%s: lasted %.3f s of %r' % (what, lasted, j.timeout))
            left = [x for x in mine if x.status is None]
            if left:
                self.fail('left-running', '%s: still running after the timeout: %r' % (what, left))
        if j.timeout is not None and (lasted > j.timeout + SLACK or pending):
            self.fail('not-killed', '%s: lasted %.3f s' % (what, lasted))
        # The outcome.
        out, er = b''.join(j.out), None if j.merge else b''.join(j.err)
        if how in ('ok', 'error', 'timeout'):
            if got[0] != out or got[1] != er:
                self.fail('wrong-output', '%s: %r instead of %r' % (
                    what, [x and (len(x), x[:60]) for x in got],
                    [x and (len(x), x[:60]) for x in (out, er)]))
        if how in ('error', 'timeout') and err.returncode != c.returncode:
            self.fail('wrong-status', '%s: %r instead of %r' % (what, err.returncode, c.returncode))
        if how != 'timeout':
            rc = c.returncode
            want = 'ok' if rc == 0 else 'interrupt' if rc == -SIGINT else \
                'ok' if j.ignore else 'error'
            if how != want:
                self.fail('wrong-outcome', '%s although it ended with %r' % (what, rc))
        if j.show and how in ('ok', 'error'):
            base = self.environ
            env = dict(base, **(j.env or {}))
            lib = env.get('LD_LIBRARY_PATH')
            if j.libs:
                p = ':'.join(j.libs)
                lib = p if lib is None else lib + ':' + p
            exp = repr((env.get('XVAR'), lib, env.get('PATH'), env.get('HOME'), j.cwd or '/w')).encode()
            if exp not in out:
                self.fail('wrong-environment', '%s: wanted %r in %r' % (what, exp, out[:200]))
            note(self.sim, 'environment checks')
        if j.echo and how in ('ok', 'error'):
            if b'in:' + (j.input or b'<none>') not in out:
                self.fail('wrong-input', what)

    def after(self, mods):
        """Nothing may be left behind, now or later."""
        self.k.block(lambda: False, 'settle', timeout=0.01, sig=False)
        left = [t.name for t in threads_alive(mods) if type(t).__name__ == 'Timer']
        if left:
            self.fail('timer-left', repr(left))
        self.k.block(lambda: False, 'settle', timeout=10.0, sig=False)
        for o in self.innocents:
            if o.status is not None:
                self.fail('killed-other', 'a process that got the number of a finished command was killed')
        if self.sim.procs.signals_to_self:
            self.fail('killed-self', repr(self.sim.procs.signals_to_self))


def e_run(sim, only):
    ch = sim.ch
    n = 1 + ch.pick('w', 4)
    x = Exec(sim, only)
    timeouts = ch.flip('w', 0.75)
    rounds = [[x.draw(timeouts, True) for _ in range(1 + ch.pick('w', 5))] for _ in range(1 + ch.pick('w', 2))]
    direct = [x.draw(timeouts, True) for _ in range(ch.pick('w', 3))]
    strike = ch.flip('f', 0.4)
    at = [ch.given('f', 300, lambda r: r.randrange(1, 150)) for _ in direct] if strike else []
    if ch.flip('w', 0.3):
        sim.world.environ['LD_LIBRARY_PATH'] = '/base'
    x.environ = dict(sim.world.environ)
    sim.world.vfs.mkdirs('/w/sub')
    sim.sample = {'threads': n, 'jobs': [repr(j)[:160] for j in x.jobs[:5]]}

    def strike_now():
        x.struck = sim.k.now
        sim.sigint(p)

    def main(mods):
        import fbuild.context
        ctx = fbuild.context.make_default_context(['--database-engine=cache', '-j%d' % n])
        ctx.create_buildroot()
        ctx.load_configuration()
        for batch in rounds:
            try:
                ctx.scheduler.map(lambda j: x.run(ctx, j), batch)
            except KeyboardInterrupt:
                pass
        for j in direct:
            if strike:
                sim.k.arm(p, at[direct.index(j)], strike_now)
            x.interrupting = j.i if strike else None
            x.struck = None
            try:
                x.run(ctx, j)
            except KeyboardInterrupt:
                pass
            p.arms = []
            del p.pending[:]
        x.interrupting = None
        if dict(mods.get('os').environ) != x.environ:
            x.fail('environment-changed', repr(dict(mods.get('os').environ)))
        x.after(mods)
        ctx.db.shutdown()
        ctx.scheduler.shutdown()
        return 'ok'
    p = sim.world.spawn(main)
    sim.world.wait(p)
    x.check()
    finish(sim, p, [x])


OUTCOME = {'start-failure', 'started-twice', 'not-started', 'returned-early', 'wrong-output', 'wrong-status',
           'wrong-outcome', 'wrong-environment', 'wrong-input', 'environment-changed', 'false-timeout'}
KILLS = {'killed-early', 'false-timeout', 'timeout-hidden', 'left-running', 'not-killed', 'timer-left',
         'killed-other', 'killed-self', 'zombie', 'returned-early'}

E01 = Spec(lambda sim: e_run(sim, OUTCOME), budget=200000)
E02 = Spec(lambda sim: e_run(sim, KILLS), budget=200000)
