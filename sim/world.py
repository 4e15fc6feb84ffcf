"""Loads fbuild over simulated system modules: the seams between the code and the simulator."""
import _thread
import builtins
import errno
import importlib
import importlib.machinery
import importlib.util
import io as real_io
import linecache
import os as real_os
import posix as real_posix
import random as real_random
import signal as real_signal
import sqlite3 as real_sqlite3
import subprocess as real_subprocess
import sys
import threading as real_threading
import time as real_time
import types
import warnings as real_warnings
import weakref

from sim import kernel as K
from sim.kernel import HarnessError, SimKill
from sim.vfs import VFS, Posix, err

REPO = real_os.environ.get('FBUILD_SIM_REPO', '/repo')
LIB = REPO + '/lib'
FLAG = '__verif_simulated__'
PRIVATE = {'threading', 'queue', 'os', 'posixpath', 'genericpath', 'shutil', 'tempfile', 'glob',
           'pathlib', 'selectors', 'concurrent', 'concurrent.futures', 'concurrent.futures._base',
           'concurrent.futures.thread', 'fileinput', 'filecmp', '_threading_local'}
FAKE = {'_thread', 'posix', 'time', 'signal', 'subprocess', 'random', 'io', '_io', 'sqlite3',
        '_signal', 'atexit', 'fcntl'}
BLOCKED = {'_queue', '_posixsubprocess', '_posixshmem', 'multiprocessing', 'asyncio', 'socket',
           'select', 'nt', 'ntpath_', '_winapi', 'msvcrt'}

ACTIVE = None                 # the Modules instance whose modules are in sys.modules
_code_cache = {}
_real_import = builtins.__import__
_noyield = K.noyield


# ------------------------------------------------------------------------------------------
# locks and threads

class SimLock:
    def __init__(self, k):
        self._k = k
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        k = self._k
        if _noyield[0]:
            if self._held:
                if not blocking or timeout == 0:
                    return False
                raise HarnessError('lock contention during import')
            self._held = True
            return True
        if k.current is None:
            raise SimKill()
        k.step('acquire')
        if not self._held:
            self._held = True
            return True
        if not blocking:
            return False
        if timeout is not None and timeout == 0:
            return False
        # An exception raised while Condition.wait() takes its lock back would break the standard
        # library's own bookkeeping (a known limit of Python, not of the code under test).
        restoring = sys._getframe(1).f_code.co_name == '_acquire_restore'
        ok = k.block(lambda: not self._held, 'lock',
                     None if timeout is None or timeout < 0 else timeout, sig=not restoring)
        if ok:
            self._held = True
        return ok

    def release(self):
        if not self._held:
            k = self._k
            cur = k.current
            if k.unwinding is not None or cur is None or (
                    cur.proc is not None and cur.proc.dead):
                # A killed thread was waiting to take it back.
                raise SimKill()
            raise RuntimeError('cannot release un-acquired lock')
        self._held = False
        if _noyield[0]:
            return
        k = self._k
        cur = k.current
        if cur is None or (cur.proc is not None and cur.proc.dead) or k.unwinding is not None:
            return
        k.step('release')

    def locked(self):
        return self._held

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


# ------------------------------------------------------------------------------------------
# sqlite3: the real library on a scratch file

class SimConnection:
    def __init__(self, mods, path, kw):
        self.mods = mods
        self.k = mods.k
        self.path = path
        kw.pop('check_same_thread', None)
        kw.pop('timeout', None)
        self._c = real_sqlite3.connect(path, check_same_thread=False, timeout=0, **kw)
        self._c.execute('PRAGMA synchronous = OFF').fetchall()
        self._c.execute('PRAGMA journal_mode = MEMORY').fetchall()
        self.open = True
        self.owner = mods.k.current
        mods.proc.on_exit.append(self._abandon)

    def _abandon(self):
        """The process ended or was killed: the open transaction is lost."""
        if self.open:
            self.open = False
            try:
                self._c.rollback()
                self._c.close()
            except real_sqlite3.Error:
                pass

    def _op(self, op):
        if self.k.current is not self.owner:
            raise real_sqlite3.ProgrammingError(
                'SQLite objects created in a thread can only be used in that same thread.')
        self.k.step('sql-' + op)
        f = self.mods.world.vfs.fault
        if f is not None:
            code = f('sql-' + op, self.path, self.mods.proc)
            if code:
                self.k.count('fault:sql-' + op)
                raise real_sqlite3.OperationalError(
                    'database or disk is full' if code == errno.ENOSPC else 'disk I/O error')

    def cursor(self):
        return SimCursor(self)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def executemany(self, *a):
        return self.cursor().executemany(*a)

    def executescript(self, *a):
        return self.cursor().executescript(*a)

    def commit(self):
        self._op('commit')
        self._c.commit()
        self.mods.world.note_commit(self)

    def rollback(self):
        self.k.step('sql-rollback')
        self._c.rollback()

    def close(self):
        self.k.step('sql-close')
        if self.open:
            self.open = False
            self._c.rollback()
            self._c.close()

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        elif not (self.k.current is None or self.mods.proc.dead):
            self.rollback()
        return False

    def __getattr__(self, name):
        return getattr(self._c, name)

    def __setattr__(self, name, value):
        if name in ('isolation_level', 'row_factory', 'text_factory'):
            setattr(self._c, name, value)
        else:
            object.__setattr__(self, name, value)


class SimCursor:
    def __init__(self, conn):
        self.connection = conn
        self._cur = conn._c.cursor()

    def execute(self, sql, *a):
        word = sql.lstrip()[:6].upper()
        self.connection._op('read' if word in ('SELECT', 'PRAGMA') else 'write')
        self._cur.execute(sql, *a)
        return self

    def executemany(self, sql, seq):
        self.connection._op('write')
        self._cur.executemany(sql, seq)
        return self

    def executescript(self, sql):
        self.connection._op('write')
        self._cur.executescript(sql)
        return self

    def fetchall(self):
        return self._cur.fetchall()

    def fetchone(self):
        return self._cur.fetchone()

    def fetchmany(self, *a):
        return self._cur.fetchmany(*a)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._cur)

    def close(self):
        self._cur.close()

    @property
    def lastrowid(self):
        return self._cur.lastrowid

    @property
    def rowcount(self):
        return self._cur.rowcount

    @property
    def description(self):
        return self._cur.description

    @property
    def arraysize(self):
        return self._cur.arraysize


# ------------------------------------------------------------------------------------------
# stdout

class Console:
    """sys.stdout / sys.stderr of the simulated process."""
    encoding = 'utf-8'
    errors = 'strict'
    closed = False

    def __init__(self, mods, sink):
        self.mods = mods
        self.sink = sink

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        k = self.mods.k
        if _noyield[0] == 0 and k.current is not None and k.current.proc is not None:
            k.step('console')
            f = self.mods.world.console_fault
            if f is not None:
                f(s)
        self.sink.append(str(s))
        return len(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise real_io.UnsupportedOperation('fileno')

    def close(self):
        pass


# ------------------------------------------------------------------------------------------
# module plumbing

def _compile(path):
    code = _code_cache.get(path)
    if code is None:
        with open(path, 'rb') as f:
            code = compile(f.read(), path, 'exec', dont_inherit=True)
        _code_cache[path] = code
    return code


class Loader:
    """Executes a file of /repo/lib or a generated project module with the seams in place."""

    def __init__(self, mods, path, code, source=None):
        self.mods = mods
        self.path = path
        self.code = code
        self.source = source

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        mods = self.mods
        mods.prepare_globals(module.__dict__)
        if self.source is not None:
            linecache.cache[self.path] = (len(self.source), None,
                                          self.source.splitlines(True), self.path)
        _noyield[0] += 1
        try:
            exec(self.code, module.__dict__)
        finally:
            _noyield[0] -= 1

    def get_source(self, name):
        return self.source


class Finder:
    """Meta path finder for fbuild.* and project modules of the active process."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        mods = ACTIVE
        if mods is None:
            return None
        if name == 'fbuild' or name.startswith('fbuild.'):
            base = LIB + '/' + name.replace('.', '/')
            if real_os.path.isfile(base + '/__init__.py'):
                p = base + '/__init__.py'
                spec = importlib.machinery.ModuleSpec(name, Loader(mods, p, _compile(p)),
                                                      origin=p, is_package=True)
                spec.submodule_search_locations = [base]
                spec.has_location = True
                return spec
            if real_os.path.isfile(base + '.py'):
                p = base + '.py'
                spec = importlib.machinery.ModuleSpec(name, Loader(mods, p, _compile(p)), origin=p)
                spec.has_location = True
                return spec
            return None
        src = mods.project.get(name)
        if src is not None:
            p = '/w/%s.py' % name.replace('.', '/')
            code = _source_code(p, src)
            spec = importlib.machinery.ModuleSpec(name, Loader(mods, p, code, src), origin=p)
            spec.has_location = True
            return spec
        return None


_src_codes = {}


def _source_code(path, src):
    key = (path, src)
    code = _src_codes.get(key)
    if code is None:
        if len(_src_codes) > 500:
            _src_codes.clear()
        code = _src_codes[key] = compile(src, path, 'exec', dont_inherit=True)
    return code


def sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    mods = ACTIVE
    if mods is not None and level == 0 and globals is not None and globals.get(FLAG):
        top = name.partition('.')[0]
        if top in BLOCKED:
            if top in ('_queue', '_posixsubprocess', 'nt', '_winapi', 'msvcrt', '_posixshmem'):
                raise ImportError('No module named %r (simulated)' % name)
            if top == 'select':
                return _real_import(name, globals, locals, fromlist, level)
            raise HarnessError('module %r is not simulated' % name)
        if name in FAKE or name in PRIVATE or name == 'os.path':
            m = mods.get(name)
            if fromlist or '.' not in name:
                if fromlist and name == 'concurrent.futures':
                    pass
                return m
            return mods.get(top)
        if top in PRIVATE or top in FAKE:
            m = mods.get(name)
            return m if fromlist else mods.get(top)
    return _real_import(name, globals, locals, fromlist, level)


class Modules:
    """One fresh set of modules: what a newly started interpreter would have."""

    def __init__(self, world, proc, argv=('fbuild',), project=None):
        self.world = world
        self.k = world.k
        self.proc = proc
        proc.modules = self
        self.table = {}
        self.saved = {}
        self.project = dict(project or {})
        self.argv = list(argv)
        self.posix = Posix(world.vfs, proc)
        self.out = []
        self.err = []
        self.stdout = Console(self, self.out)
        self.stderr = Console(self, self.err)
        self.stdin = None
        self.atexit = []
        self.fb = {}                  # fbuild.* and project modules while not active

    # -- activation ------------------------------------------------------------------------

    def activate(self):
        global ACTIVE
        if ACTIVE is self:
            return
        if ACTIVE is not None:
            ACTIVE.deactivate()
        ACTIVE = self
        for name, m in self.fb.items():
            sys.modules[name] = m
        sys.stdout = self.stdout
        sys.stderr = self.stderr
        sys.stdin = self.stdin
        sys.argv = self.argv

    def deactivate(self):
        global ACTIVE
        self.fb = {}
        self.stdout, self.stderr, self.stdin, self.argv = sys.stdout, sys.stderr, sys.stdin, sys.argv
        for name in list(sys.modules):
            if name == 'fbuild' or name.startswith('fbuild.') or name in self.project:
                self.fb[name] = sys.modules.pop(name)
        ACTIVE = None

    def discard(self):
        if ACTIVE is self:
            self.deactivate()
            restore_std()
        self.fb = {}
        self.table = {}

    # -- module construction ---------------------------------------------------------------

    def prepare_globals(self, d):
        d[FLAG] = True
        d['open'] = self.fopen

    def fopen(self, *a, **kw):
        f = self.posix.fopen(*a, **kw)
        self.proc.files.append(f)
        return f

    def get(self, name):
        m = self.table.get(name)
        if m is not None:
            return m
        if name == 'os.path':
            return self.get('posixpath')
        maker = getattr(self, '_make_' + name.replace('.', '_').lstrip('_'), None)
        if maker is not None:
            m = maker()
            self.table[name] = m
            return m
        real = _real_import(name, {}, {}, ['*'])
        m = types.ModuleType(name)
        path = real.__file__
        m.__file__ = path
        m.__package__ = name if hasattr(real, '__path__') else name.rpartition('.')[0]
        if hasattr(real, '__path__'):
            m.__path__ = real.__path__
        self.prepare_globals(m.__dict__)
        self.table[name] = m
        _noyield[0] += 1
        try:
            exec(_compile(path), m.__dict__)
        finally:
            _noyield[0] -= 1
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            if parent in self.table or parent in PRIVATE:
                setattr(self.get(parent), leaf, m)
        self._fix(name, m, real)
        return m

    def _fix(self, name, m, real):
        if name == 'os':
            def missing(attr):
                if hasattr(real, attr) and not attr.startswith('__'):
                    raise HarnessError('os.%s is not simulated' % attr)
                raise AttributeError(attr)
            for attr in dir(real):
                if attr not in m.__dict__ and not attr.startswith('_') and attr not in (
                        'sendfile', 'posix_fallocate', 'copy_file_range', 'fork', 'forkpty', 'setxattr',
                        'listxattr', 'getxattr', 'chflags', 'lchflags', 'lchmod', 'spawnv', 'pread',
                        'spawnve', 'spawnvp', 'spawnvpe', 'register_at_fork', 'splice'):
                    self.unsupported = attr
            m.environ = Environ(self.proc.environ)
            m.path = self.get('posixpath')
            m.supports_dir_fd = set()
            m.supports_fd = set()
            m.supports_follow_symlinks = {m.stat, m.chmod, m.utime}
            m.fdopen = lambda fd, *a, **kw: self.fopen(fd, *a, **kw)
        elif name == 'threading':
            def hook(args):
                if args.exc_type is SimKill or self.proc.dead:
                    return
                if args.exc_type is SystemExit:
                    return
                self.proc.thread_errors.append((
                    args.thread.name if args.thread is not None else '?', args.exc_value))
            m.excepthook = hook

    # -- the fakes -------------------------------------------------------------------------

    def _mod(self, name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        return m

    def _make_thread(self):
        k = self.k
        proc = self.proc
        counter = [0]

        def start_new_thread(function, args, kwargs=None):
            k.step('spawn')
            counter[0] += 1
            return k_start(function, args, kwargs or {})

        def k_start(function, args, kwargs):
            def body():
                function(*args, **kwargs)
            t = k.spawn(proc, body, 'T%d.%d' % (proc.pid, counter[0]))
            return 10000 + t.tid

        def get_ident():
            cur = k.current
            return 10000 + (cur.tid if cur is not None else 0)

        def interrupt_main(signum=real_signal.SIGINT):
            proc.pending.append(real_signal.SIGINT)

        def _set_sentinel():
            lock = SimLock(k)
            k.current.sentinels.append(lock)
            return lock

        def allocate_lock():
            return SimLock(k)

        return self._mod(
            '_thread', allocate_lock=allocate_lock, allocate=allocate_lock, LockType=SimLock,
            start_new_thread=start_new_thread, start_new=start_new_thread, get_ident=get_ident,
            get_native_id=get_ident, interrupt_main=interrupt_main, _set_sentinel=_set_sentinel,
            error=RuntimeError, TIMEOUT_MAX=4000000.0, stack_size=lambda *a: 0,
            _count=lambda: 0, exit=sys.exit, exit_thread=sys.exit, _local=real_threading.local)

    def _make_time(self):
        k = self.k
        m = self._mod('time')
        for name in dir(real_time):
            if not name.startswith('__'):
                setattr(m, name, getattr(real_time, name))

        def now():
            if _noyield[0] == 0:
                k.step('clock')
            return k.now + self.world.clock_skew

        def mono():
            if _noyield[0] == 0:
                k.step('clock')
            return k.now

        def sleep(t):
            if t < 0:
                raise ValueError('sleep length must be non-negative')
            k.step('sleep', sig=True)
            if t > 0:
                k.block(lambda: False, 'sleep', timeout=t)

        m.time = now
        m.time_ns = lambda: int(now() * 1e9)
        m.monotonic = m.perf_counter = mono
        m.monotonic_ns = m.perf_counter_ns = lambda: int(mono() * 1e9)
        m.process_time = m.thread_time = mono
        m.sleep = sleep

        def conv(fn):
            return lambda secs=None: fn(k.now + self.world.clock_skew if secs is None else secs)
        m.gmtime = conv(real_time.gmtime)
        m.localtime = conv(real_time.gmtime)
        m.ctime = conv(lambda s: real_time.asctime(real_time.gmtime(s)))
        m.strftime = lambda f, t=None: real_time.strftime(f, t if t is not None else m.gmtime())
        m.asctime = lambda t=None: real_time.asctime(t if t is not None else m.gmtime())
        return m

    def _make_signal(self):
        proc = self.proc
        k = self.k
        m = self._mod('signal')
        for name in dir(real_signal):
            if name.startswith('SIG') or name in ('Signals', 'Handlers', 'strsignal'):
                setattr(m, name, getattr(real_signal, name))

        def default_int_handler(signum, frame):
            raise KeyboardInterrupt()

        def getsignal(signum):
            h = proc.handlers.get(int(signum), real_signal.SIG_DFL)
            return h

        def signal(signum, handler):
            if not k.current.is_main:
                raise ValueError('signal only works in main thread')
            if not callable(handler) and handler not in (real_signal.SIG_IGN, real_signal.SIG_DFL):
                raise TypeError('signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a '
                                'callable object')
            k.step('signal')
            old = getsignal(signum)
            proc.handlers[int(signum)] = handler
            if handler == real_signal.SIG_IGN:
                proc.pending[:] = [s for s in proc.pending if s != signum]
            return old

        def raise_signal(signum):
            proc.pending.append(int(signum))
            k.step('signal', sig=True)

        m.default_int_handler = default_int_handler
        m.getsignal = getsignal
        m.signal = signal
        m.raise_signal = raise_signal
        m.siginterrupt = lambda *a: None
        m.set_wakeup_fd = lambda *a, **kw: -1
        proc.handlers.setdefault(int(real_signal.SIGINT), default_int_handler)
        return m

    def _make_atexit(self):
        m = self._mod('atexit')
        m.register = lambda f, *a, **kw: (self.atexit.append((f, a, kw)), f)[1]
        m.unregister = lambda f: self.atexit.__setitem__(
            slice(None), [e for e in self.atexit if e[0] is not f])
        return m

    def _make_fcntl(self):
        m = self._mod('fcntl', LOCK_EX=2, LOCK_SH=1, LOCK_NB=4, LOCK_UN=8, F_GETFD=1, F_SETFD=2,
                      FD_CLOEXEC=1, F_FULLFSYNC=51)
        m.flock = m.lockf = lambda *a, **kw: self.k.step('flock')
        m.fcntl = lambda *a: 0
        return m

    def _make_random(self):
        ch = self.k.ch
        world = self.world

        class Random(real_random.Random):
            def __init__(self, x=None):
                super().__init__(x if x is not None else world.random_seed())

            def seed(self, a=None, version=2):
                if a is None:
                    a = world.random_seed()
                super().seed(a, version)

        inst = Random()
        m = self._mod('random', Random=Random, SystemRandom=Random)
        for name in dir(real_random):
            if name.startswith('_') or name in ('Random', 'SystemRandom'):
                continue
            v = getattr(real_random, name)
            setattr(m, name, getattr(inst, name, v) if callable(v) else v)
        return m

    def _make_io(self):
        m = self._mod('io')
        for name in dir(real_io):
            if not name.startswith('__'):
                setattr(m, name, getattr(real_io, name))
        m.open = self.fopen
        return m

    def _make_sqlite3(self):
        m = self._mod('sqlite3')
        for name in dir(real_sqlite3):
            if not name.startswith('__'):
                setattr(m, name, getattr(real_sqlite3, name))
        posix = self.posix

        def connect(database, **kw):
            posix.sys('sql-connect', database, False)
            database = real_os.fspath(database)
            if database == ':memory:':
                return SimConnection(self, database, kw)
            path = self.world.vfs.real_path(database, self.proc.cwd)
            return SimConnection(self, path, kw)
        m.connect = connect
        m.Connection = SimConnection
        m.Cursor = SimCursor
        return m

    def _make_posix(self):
        p = self.posix
        k = self.k
        proc = self.proc
        m = self._mod('posix')
        for name in dir(real_posix):
            v = getattr(real_posix, name)
            if name[0].isupper() and isinstance(v, int):
                setattr(m, name, v)
        for name in ('stat', 'lstat', 'fstat', 'access', 'chmod', 'fchmod', 'utime', 'listdir',
                     'scandir', 'mkdir', 'rmdir', 'unlink', 'rename', 'replace', 'symlink', 'link',
                     'readlink', 'getcwd', 'getcwdb', 'chdir', 'truncate', 'ftruncate', 'umask',
                     'sync', 'open', 'close', 'read', 'write', 'lseek', 'fsync', 'fdatasync',
                     'dup', 'isatty'):
            setattr(m, name, getattr(p, name))
        m.remove = p.unlink
        for name in ('strerror', 'fspath', 'WIFEXITED', 'WEXITSTATUS', 'WIFSIGNALED', 'WTERMSIG',
                     'WIFSTOPPED', 'WSTOPSIG', 'stat_result', 'error', 'terminal_size', 'DirEntry',
                     'uname_result', 'statvfs_result', 'times_result', 'sched_param',
                     'waitstatus_to_exitcode', 'WCOREDUMP', 'WIFCONTINUED'):
            if hasattr(real_posix, name):
                setattr(m, name, getattr(real_posix, name))
        m.environ = {}
        m._have_functions = []
        m.getpid = lambda: proc.pid
        m.getppid = lambda: 1
        m.getuid = m.geteuid = m.getgid = m.getegid = lambda: 1000
        m.cpu_count = lambda: 4
        m.chown = lambda *a, **kw: p.sys('chown')
        m.lchown = m.fchown = m.chown
        m.mkfifo = m.mknod = lambda *a, **kw: p.sys('mknod')
        m.urandom = lambda n: bytes(self.world.rnd.randrange(256) for _ in range(n))
        m.uname = lambda: real_posix.uname_result(('Linux', 'sim', '5', '1', 'x86_64'))
        m.putenv = m.unsetenv = lambda *a: None
        m.statvfs = lambda *a: None
        m.get_inheritable = lambda fd: False
        m.set_inheritable = lambda fd, b: None
        m.get_terminal_size = lambda *a: real_posix.terminal_size((80, 24))
        m.getloadavg = lambda: (0.0, 0.0, 0.0)
        m._exit = self._exit
        m.abort = lambda: self._exit(134)
        m.times = lambda: real_posix.times_result((0, 0, 0, 0, k.now))
        m.sched_yield = lambda: k.step('sched_yield')
        m.getlogin = lambda: 'user'
        if self.world.procs is not None:
            self.world.procs.install_posix(m, self)
        return m

    def _exit(self, code):
        self.proc.outcome = ('exit', code)
        self.proc.dead = True
        raise SimKill()

    def _make_subprocess(self):
        if self.world.procs is None:
            raise HarnessError('no simulated processes in this world')
        return self.world.procs.make_subprocess(self)

    # -- interpreter exit ------------------------------------------------------------------

    def interpreter_exit(self):
        """What happens after the main module ended: join non-daemon threads, run atexit."""
        t = self.table.get('threading')
        if t is not None:
            try:
                t._shutdown()
            except SimKill:
                raise
            except BaseException as e:
                self.proc.thread_errors.append(('shutdown', e))
        for f, a, kw in reversed(self.atexit):
            f(*a, **kw)
        for f in self.proc.files:
            if not f.closed:
                try:
                    f.flush()
                except (OSError, ValueError):
                    pass


class Environ(dict):
    def copy(self):
        return dict(self)


_std = (sys.stdout, sys.stderr, sys.stdin, sys.argv)


def restore_std():
    sys.stdout, sys.stderr, sys.stdin, sys.argv = _std


class World:
    """Everything that outlives a process incarnation: the disk, the clock, external programs."""

    def __init__(self, kernel, scratch=None, granularity=0.0):
        self.k = kernel
        self.vfs = VFS(kernel, granularity, scratch)
        self.clock_skew = 0.0
        self.console_fault = None
        self.procs = None
        self.rnd = real_random.Random('world/%s' % kernel.ch.seed)
        self.n_seeds = 0
        self.vfs.mkdirs('/w')
        self.vfs.mkdirs('/tmp')
        self.environ = {'PATH': '/bin', 'HOME': '/w'}
        self.commits = 0
        self.mods = []
        kernel.on_switch = self.on_switch
        kernel.trace_prefix = LIB + '/fbuild/'

    def random_seed(self):
        self.n_seeds += 1
        return self.n_seeds * 7919 + 13

    def note_commit(self, conn):
        self.commits += 1
        self.vfs.meta.clear()        # sqlite flushes its files and their directory

    def on_switch(self, proc):
        if proc is not None and proc.modules is not None and ACTIVE is not proc.modules:
            proc.modules.activate()

    def spawn(self, main, argv=('fbuild',), project=None, name='fbuild', cwd='/w'):
        """Start a process whose main thread runs main(mods)."""
        def body(p):
            return main(p.modules)
        p = K.start_process(self.k, body, name)
        p.cwd = cwd
        p.environ = dict(self.environ)
        m = Modules(self, p, argv, project)
        self.mods.append(m)
        p.handlers[int(real_signal.SIGINT)] = m.get('signal').default_int_handler
        return p

    def wait(self, p, timeout=None):
        while True:
            steps = p.steps
            ok = K.wait_process(self.k, p, timeout)
            # As long as it makes steps it is not stuck, it just computes for long (and the
            # clock runs ahead of it): the step budget decides.
            if ok or p.steps == steps and not any(
                    t.proc is p and self.k._runnable(t) for t in self.k.threads):
                break
        if ok and p.modules is not None:
            p.modules.discard()
        return ok

    def run(self, main, **kw):
        p = self.spawn(main, **kw)
        self.wait(p)
        return p

    def close(self):
        for m in self.mods:
            m.discard()
        restore_std()
        for name in list(linecache.cache):
            if name.startswith('/w/'):
                del linecache.cache[name]


def install():
    """Put the import seam in place (once per interpreter)."""
    if builtins.__import__ is not sim_import:
        builtins.__import__ = sim_import
        sys.meta_path.insert(0, Finder)
        sys.dont_write_bytecode = True

        def hook(args):
            pass
        sys.unraisablehook = hook
        real_warnings.simplefilter('ignore')
