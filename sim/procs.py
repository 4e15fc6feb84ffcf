"""Simulated external commands, process groups, pipes and the subprocess module."""
import errno
import os as real_os
import signal as real_signal
import subprocess as real_subprocess
import types

from sim.kernel import HarnessError, SimKill, noyield
from sim.vfs import err

SIGINT, SIGKILL, SIGTERM = 2, 9, 15
PIPE_CAPACITY = 65536


class Pipe:
    """A pipe whose write end is held by simulated commands (or the reverse)."""

    def __init__(self):
        self.data = b''
        self.writers = set()       # pids
        self.reader_active = False
        self.reader_gone = False
        self.total = 0

    @property
    def eof(self):
        return not self.writers


class Command:
    """One simulated external process."""

    def __init__(self, procs, args, env, cwd, parent_pgid, stdin, stdout, stderr, owner):
        self.procs = procs
        self.k = procs.k
        self.vfs = procs.world.vfs
        self.args = args
        self.env = env
        self.cwd = cwd
        self.pid = procs.k.next_pid
        procs.k.next_pid += 1
        self.pgid = parent_pgid
        self.stdin = stdin         # Pipe or None
        self.stdout = stdout       # Pipe or None (inherited / devnull)
        self.stderr = stderr
        self.owner = owner         # Process that started it (for wait)
        self.status = None         # None while running; else (kind, value)
        self.reaped = False
        self.children = []
        self.gen = None
        self.ev = None
        self.ignore_sigint = False
        self.started = self.k.now
        self.ended = None
        self.state = {}
        for p in (stdout, stderr):
            if p is not None:
                p.writers.add(self.pid)

    # used by programs
    def path(self, p):
        return real_os.path.normpath(real_os.path.join(self.cwd, str.__str__(p)))

    def out(self, data):
        if isinstance(data, str):
            data = data.encode()
        if self.stdout is not None:
            self.stdout.data += data
            self.stdout.total += len(data)

    def errout(self, data):
        if isinstance(data, str):
            data = data.encode()
        if self.stderr is not None:
            self.stderr.data += data
            self.stderr.total += len(data)

    def read(self, p):
        return self.vfs.read(self.path(p))

    def write(self, p, data):
        self.vfs.write(self.path(p), data)

    def spawn(self, args, inherit=True, own_group=False):
        c = Command(self.procs, args, self.env, self.cwd, self.pgid, None,
                    self.stdout if inherit else None, self.stderr if inherit else None, None)
        if own_group:
            c.pgid = c.pid
        self.children.append(c)
        self.procs.launch(c)
        return c

    # machinery
    def stalled(self):
        for p in (self.stdout, self.stderr):
            if p is not None and len(p.data) > PIPE_CAPACITY and not p.reader_active:
                return True
        return False

    def advance(self):
        self.ev = None
        if self.status is not None:
            return
        if self.stalled():
            self.ev = self.k.after(0.01, self.advance)
            return
        try:
            d = next(self.gen)
        except StopIteration as e:
            self.finish(('exit', e.value or 0))
            return
        if isinstance(d, tuple):
            if d[0] == 'exit':
                self.finish(d)
                return
            if d[0] == 'die':               # killed by a signal
                self.finish(('signal', d[1]))
                return
            if d[0] == 'stdin':             # wait for end of input
                if self.stdin is None or self.stdin.eof:
                    d = 0.0
                else:
                    self.ev = self.k.after(0.01, self.again_stdin)
                    return
            elif d[0] == 'line':              # wait for a line on stdin (left in state['line'])
                self.poll_line()
                return
            elif d[0] == 'until':
                self.until = d[1]
                self.poll_until()
                return
        self.ev = self.k.after(d, self.advance)

    def again_stdin(self):
        if self.stdin.eof:
            self.advance()
        else:
            self.ev = self.k.after(0.01, self.again_stdin)

    def poll_line(self):
        self.ev = None
        if self.status is not None:
            return
        p = self.stdin
        i = p.data.find(b'\n') if p is not None else -1
        if i >= 0:
            self.state['line'] = p.data[:i + 1]
            p.data = p.data[i + 1:]
            self.advance()
        elif p is None or p.eof:
            self.state['line'] = p.data if p is not None else b''
            if p is not None:
                p.data = b''
            self.advance()
        else:
            self.ev = self.k.after(0.005, self.poll_line)

    def poll_until(self):
        self.ev = None
        if self.status is not None:
            return
        if self.until():
            self.advance()
        else:
            self.ev = self.k.after(0.005, self.poll_until)

    def finish(self, status):
        if self.status is not None:
            return
        self.status = status
        self.ended = self.k.now
        if self.ev is not None:
            self.k.cancel(self.ev)
            self.ev = None
        if self.gen is not None:
            self.gen.close()
        for p in (self.stdout, self.stderr):
            if p is not None:
                p.writers.discard(self.pid)
        if self.stdin is not None:
            self.stdin.reader_gone = True
        self.k.since_event = 0
        self.procs.history.append((self.k.now, 'end', self.pid, tuple(self.args), status))

    def signal(self, sig):
        if self.status is not None:
            return
        self.procs.history.append((self.k.now, 'signal', self.pid, tuple(self.args), sig))
        if sig == 0:
            return
        if sig == SIGINT and self.ignore_sigint:
            return
        if sig in (SIGINT, SIGKILL, SIGTERM, 1, 15):
            self.finish(('signal', sig))

    @property
    def returncode(self):
        return self.status[1] if self.status[0] == 'exit' else -self.status[1]


class Procs:
    def __init__(self, world):
        self.world = world
        world.procs = self
        self.k = world.k
        self.commands = {}          # pid -> Command
        self.programs = {}          # path -> generator function(cmd)
        self.history = []
        self.start_fault = None     # fn(args) -> errno
        self.running_max = 0
        self.signals_to_self = []
        self.on_start = None
        self.on_reap = None
        self.inherited_out = b''

    def add_program(self, name, fn, path=None):
        path = path or '/bin/' + name
        d = real_os.path.dirname(path)
        self.world.vfs.mkdirs(d)
        self.world.vfs.write(path, b'#!program ' + name.encode(), mode=0o755)
        self.programs[path] = fn
        self.programs[name] = fn

    def find(self, prog, cwd, env):
        vfs = self.world.vfs
        if '/' in prog:
            p = real_os.path.normpath(real_os.path.join(cwd, str.__str__(prog)))
            if not vfs.exists(p):
                raise err(errno.ENOENT, prog)
            if vfs.isdir(p):
                raise err(errno.EACCES, prog)
        else:
            for d in (env or {}).get('PATH', '/bin').split(':'):
                p = real_os.path.normpath(real_os.path.join(cwd, d, str.__str__(prog)))
                if vfs.exists(p) and not vfs.isdir(p):
                    break
            else:
                raise err(errno.ENOENT, prog)
        if not vfs.node(p).mode & 0o111:
            raise err(errno.EACCES, prog)
        fn = self.programs.get(p)
        if fn is None:
            data = vfs.read(p)
            if data.startswith(b'#!exe '):      # produced by a simulated linker
                fn = self.programs.get('#!exe')
            if fn is None:
                raise err(errno.ENOEXEC, prog)
        return fn

    def launch(self, c):
        if c.gen is None:
            c.gen = self.find(c.args[0], c.cwd, c.env)(c)
        self.commands[c.pid] = c
        self.history.append((self.k.now, 'start', c.pid, tuple(c.args), c.pgid))
        self.k.count('commands')
        if self.on_start is not None:
            self.on_start(c)
        alive = sum(1 for x in self.commands.values() if x.status is None and x.owner is not None)
        self.running_max = max(self.running_max, alive)
        c.ev = self.k.after(0.0, c.advance)

    def alive(self):
        return [c for c in self.commands.values() if c.status is None]

    def ctrl_c(self, process):
        """Ctrl-C at the terminal: SIGINT to the foreground process group."""
        process.pending.append(SIGINT)
        for c in list(self.commands.values()):
            if c.pgid == process.pgid:
                c.signal(SIGINT)
        self.k.count('fault:sigint')

    # -- posix -----------------------------------------------------------------------------

    def install_posix(self, m, mods):
        proc = mods.proc
        k = self.k
        state = {'child': None}
        mods.child_state = state

        def lookup(pid):
            c = self.commands.get(pid)
            if c is None or c.reaped:
                raise err(errno.ESRCH)
            return c

        def setsid():
            c = state['child']
            if c is None:
                raise err(errno.EPERM)
            c.pgid = c.pid
            return c.pid

        def setpgid(pid, pgid):
            c = state['child'] if pid == 0 and state['child'] is not None else lookup(pid)
            c.pgid = pgid or c.pid

        def getpgid(pid):
            k.step('getpgid')
            if pid == 0 or pid == proc.pid:
                return proc.pgid
            return lookup(pid).pgid

        def deliver_self(sig):
            self.signals_to_self.append(sig)
            if sig == SIGKILL:
                k.kill(proc)
                raise SimKill()
            if sig:
                proc.pending.append(sig)

        def killpg(pgid, sig):
            k.step('killpg')
            hit = False
            for c in list(self.commands.values()):
                if c.pgid == pgid and not c.reaped:
                    hit = True
                    c.signal(int(sig))
            if pgid == proc.pgid:
                hit = True
                deliver_self(int(sig))
            if not hit:
                raise err(errno.ESRCH)

        def kill(pid, sig):
            k.step('kill')
            if pid < 0:
                return killpg(-pid, sig)
            if pid == 0:
                return killpg(proc.pgid, sig)
            if pid == proc.pid:
                return deliver_self(int(sig))
            lookup(pid).signal(int(sig))

        def waitpid(pid, options):
            c = self.commands.get(pid)
            if c is None or c.reaped or c.owner is not proc:
                k.step('waitpid')
                raise err(errno.ECHILD)
            if options & 1:
                k.step('waitpid')
                if c.status is None:
                    return 0, 0
            else:
                k.block(lambda: c.status is not None, 'waitpid')
            if c.reaped:
                raise err(errno.ECHILD)
            c.reaped = True
            if self.on_reap is not None:
                self.on_reap(c)
            st = c.status
            return pid, (st[1] << 8) if st[0] == 'exit' else st[1]

        m.setsid = setsid
        m.setpgid = setpgid
        m.setpgrp = lambda: setpgid(0, 0)
        m.getpgid = getpgid
        m.getpgrp = lambda: getpgid(0)
        m.getsid = getpgid
        m.kill = kill
        m.killpg = killpg
        m.waitpid = waitpid

    # -- subprocess ------------------------------------------------------------------------

    def make_subprocess(self, mods):
        procs = self
        k = self.k
        m = types.ModuleType('subprocess')
        for name in ('PIPE', 'STDOUT', 'DEVNULL', 'CalledProcessError', 'SubprocessError',
                     'TimeoutExpired', 'list2cmdline', 'CompletedProcess'):
            setattr(m, name, getattr(real_subprocess, name))
        PIPE, STDOUT, DEVNULL = m.PIPE, m.STDOUT, m.DEVNULL
        TimeoutExpired = m.TimeoutExpired
        posix = mods.get('posix')

        class Popen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                         stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                         env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                         restore_signals=True, start_new_session=False, pass_fds=(), *,
                         user=None, group=None, extra_groups=None, encoding=None, errors=None,
                         text=None, umask=-1):
                k.step('fork')
                if shell:
                    args = ['sh', '-c', args] if isinstance(args, str) else ['sh', '-c'] + list(args)
                elif isinstance(args, (str, bytes)) or hasattr(args, '__fspath__'):
                    args = [args]
                args = [str(a) if isinstance(a, str) else real_os.fspath(a) for a in args]
                self.args = args
                self.pid = None
                self.returncode = None
                self._text = bool(universal_newlines or text or encoding)
                penv = mods.get('os').environ if env is None else env
                if env is not None:
                    for kk, vv in env.items():
                        if not isinstance(kk, str) or not isinstance(vv, str):
                            raise TypeError('expected str, bytes or os.PathLike object')
                wd = mods.proc.cwd if cwd is None else \
                    real_os.path.normpath(real_os.path.join(mods.proc.cwd, str.__str__(cwd)))
                if cwd is not None and not procs.world.vfs.isdir(wd):
                    raise err(errno.ENOENT, cwd)
                if procs.start_fault is not None:
                    code = procs.start_fault(args)
                    if code:
                        k.count('fault:start:%s' % errno.errorcode[code])
                        raise err(code, args[0])
                fn = procs.find(executable or args[0], wd, dict(penv))
                pin = Pipe() if stdin == PIPE else None
                pout = Pipe() if stdout == PIPE else None
                perr = Pipe() if stderr == PIPE else (pout if stderr == STDOUT else None)
                c = Command(procs, args, dict(penv), wd, mods.proc.pgid, pin, pout, perr, mods.proc)
                mods.child_state['child'] = c
                try:
                    if preexec_fn is not None:
                        noyield[0] += 1
                        try:
                            preexec_fn()
                        except SimKill:
                            raise
                        except BaseException:
                            for p in (pout, perr):
                                if p is not None:
                                    p.writers.discard(c.pid)
                            raise real_subprocess.SubprocessError('Exception occurred in preexec_fn.')
                        finally:
                            noyield[0] -= 1
                    if start_new_session:
                        c.pgid = c.pid
                finally:
                    mods.child_state['child'] = None
                c.gen = fn(c)
                self._c = c
                self.pid = c.pid
                if pin is not None:
                    pin.writers.add('parent')
                self.stdin = _W(pin, self._text) if pin is not None else None
                self.stdout = _R(pout, self._text) if pout is not None else None
                self.stderr = _R(perr, self._text) if perr is not None and stderr == PIPE else None
                procs.launch(c)
                k.step('forked')

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if self.stdin:
                    self.stdin.close()
                self.wait()

            def _handle_exitstatus(self, sts, **kw):
                self.returncode = -(sts & 127) if sts & 127 else sts >> 8

            def poll(self):
                if self.returncode is None:
                    pid, sts = self._try_wait(1)
                    if pid == self.pid:
                        self._handle_exitstatus(sts)
                return self.returncode

            _internal_poll = poll

            def _try_wait(self, flags):
                try:
                    return posix.waitpid(self.pid, flags & 1)
                except ChildProcessError:
                    return self.pid, 0

            def wait(self, timeout=None):
                if self.returncode is not None:
                    return self.returncode
                c = self._c
                if timeout is not None:
                    if not k.block(lambda: c.status is not None or self.returncode is not None,
                                   'wait', timeout=timeout):
                        raise TimeoutExpired(self.args, timeout)
                while self.returncode is None:
                    pid, sts = self._try_wait(0)
                    if self.returncode is not None:
                        break
                    if pid == self.pid:
                        self._handle_exitstatus(sts)
                return self.returncode

            def communicate(self, input=None, timeout=None):
                k.step('communicate')
                if self.stdin is not None and not self.stdin.closed:
                    if input:
                        try:
                            self.stdin.write(input)
                        except BrokenPipeError:
                            pass
                    self.stdin.close()
                elif input:
                    raise ValueError('Cannot send input after starting communication')
                pipes = [f._p for f in (self.stdout, self.stderr) if f is not None]
                for p in pipes:
                    p.reader_active = True
                if not k.block(lambda: all(p.eof for p in pipes), 'communicate', timeout=timeout):
                    raise TimeoutExpired(self.args, timeout)
                res = []
                for f in (self.stdout, self.stderr):
                    if f is None:
                        res.append(None)
                    else:
                        res.append(f.read())
                        f.closed = True
                self.wait(timeout=None)
                return tuple(res)

            def send_signal(self, sig):
                self.poll()
                if self.returncode is None:
                    posix.kill(self.pid, sig)

            def terminate(self):
                self.send_signal(SIGTERM)

            def kill(self):
                self.send_signal(SIGKILL)

        class _R:
            """The parent's read end of a pipe."""

            def __init__(self, pipe, text):
                self._p = pipe
                self._text = text
                self.closed = False

            def _ret(self, b):
                return b.decode('utf-8').replace('\r\n', '\n') if self._text else b

            def read(self, n=-1):
                p = self._p
                p.reader_active = True
                if n is None or n < 0:
                    k.block(lambda: p.eof, 'pipe-read')
                    d, p.data = p.data, b''
                else:
                    k.block(lambda: p.eof or len(p.data) >= n, 'pipe-read')
                    d, p.data = p.data[:n], p.data[n:]
                return self._ret(d)

            def readline(self, limit=-1):
                p = self._p
                p.reader_active = True
                k.block(lambda: p.eof or b'\n' in p.data, 'pipe-read')
                i = p.data.find(b'\n')
                i = len(p.data) if i < 0 else i + 1
                d, p.data = p.data[:i], p.data[i:]
                return self._ret(d)

            def readlines(self):
                return list(self)

            def __iter__(self):
                while True:
                    l = self.readline()
                    if not l:
                        return
                    yield l

            def close(self):
                self.closed = True
                self._p.reader_gone = True

            def fileno(self):
                raise HarnessError('fileno of a simulated pipe')

        class _W:
            """The parent's write end of a pipe."""

            def __init__(self, pipe, text):
                self._p = pipe
                self._text = text
                self.closed = False
                self._buf = b''

            def write(self, data):
                if self.closed:
                    raise ValueError('write to closed file')
                if self._text:
                    if not isinstance(data, str):
                        raise TypeError('write() argument must be str')
                    data = data.encode('utf-8')
                self._buf += data
                if not self._text and len(self._buf) > 8192:
                    self.flush()
                return len(data)

            def flush(self):
                k.step('pipe-write', sig=True)
                if self._buf:
                    d, self._buf = self._buf, b''
                    if self._p.reader_gone:
                        raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
                    self._p.data += d

            def close(self):
                if not self.closed:
                    try:
                        self.flush()
                    finally:
                        self.closed = True
                        self._p.writers.discard('parent')

        def run(*popenargs, input=None, capture_output=False, timeout=None, check=False, **kw):
            if input is not None:
                kw['stdin'] = PIPE
            if capture_output:
                kw['stdout'] = kw['stderr'] = PIPE
            p = Popen(*popenargs, **kw)
            out, er = p.communicate(input, timeout=timeout)
            r = real_subprocess.CompletedProcess(p.args, p.returncode, out, er)
            if check:
                r.check_returncode()
            return r

        def call(*a, timeout=None, **kw):
            return Popen(*a, **kw).wait(timeout=timeout)

        def check_call(*a, **kw):
            r = call(*a, **kw)
            if r:
                raise real_subprocess.CalledProcessError(r, a[0])
            return 0

        m.Popen = Popen
        m.run = run
        m.call = call
        m.check_call = check_call
        m.check_output = lambda *a, **kw: run(*a, stdout=PIPE, check=True, **kw).stdout
        return m
