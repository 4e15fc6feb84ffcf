"""The simulated disk and the posix module over it."""
import errno
import io
import os as real_os
import posix as real_posix
import stat as st_mod

from sim.kernel import HarnessError, SimKill

_OSError = OSError


def err(code, path=None, path2=None):
    e = _OSError(code, real_os.strerror(code), *([path] if path is not None else []))
    return e


class Inode:
    __slots__ = ('kind', 'data', 'mode', 'mtime', 'ino', 'nlink', 'entries', 'target', 'durable',
                 'dirty', 'real', 'locked')

    def __init__(self, kind, mode, ino, mtime):
        self.kind = kind
        self.mode = mode
        self.ino = ino
        self.mtime = mtime
        self.nlink = 1
        self.data = b''
        self.entries = {} if kind == 'dir' else None
        self.target = None
        self.durable = None
        self.dirty = False
        self.real = None


class Stat(tuple):
    """Quacks like os.stat_result."""
    def __new__(cls, node, mtime, size):
        typ = {'file': st_mod.S_IFREG, 'dir': st_mod.S_IFDIR, 'link': st_mod.S_IFLNK}[node.kind]
        self = tuple.__new__(cls, (typ | node.mode, node.ino, 1, node.nlink, 1000, 1000, size,
                                   int(mtime), int(mtime), int(mtime)))
        self.st_mtime = self.st_atime = self.st_ctime = mtime
        self.st_mtime_ns = self.st_atime_ns = self.st_ctime_ns = int(mtime * 1000000000)
        self.st_blksize = 4096
        self.st_blocks = (size + 511) // 512
        return self
    st_mode = property(lambda s: s[0])
    st_ino = property(lambda s: s[1])
    st_dev = property(lambda s: s[2])
    st_nlink = property(lambda s: s[3])
    st_uid = property(lambda s: s[4])
    st_gid = property(lambda s: s[5])
    st_size = property(lambda s: s[6])


class VFS:
    def __init__(self, kernel, granularity=0.0, scratch=None):
        self.k = kernel
        self.gran = granularity
        self.skew = 0.0
        self.next_ino = 10
        self.root = Inode('dir', 0o755, 2, self.clock())
        self.meta = []               # undo log of metadata operations not yet on disk
        self.scratch = scratch
        self.next_real = 0
        self.order = 0
        self.fault = None            # fn(op, path, proc) -> None | errno
        self.denied = []             # path prefixes an unprivileged process may not change
        self.watch = None            # fn(op, path, proc): observes every modification
        self.perms = False           # may files without the owner's write bit be opened for writing?

    # -- time ------------------------------------------------------------------------------

    def clock(self):
        t = self.k.now + self.skew
        if self.gran:
            t = int(t / self.gran) * self.gran
        return float(t)

    def _new(self, kind, mode):
        self.next_ino += 1
        return Inode(kind, mode, self.next_ino, self.clock())

    # -- resolution ------------------------------------------------------------------------

    def parts(self, path, cwd='/'):
        path = real_os.fspath(path)
        if isinstance(path, bytes):
            path = path.decode()
        path = str.__str__(path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        if not path:
            raise err(errno.ENOENT, path)
        if not path.startswith('/'):
            path = cwd + '/' + path
        return [p for p in path.split('/') if p and p != '.'], path.endswith('/')

    def walk(self, path, cwd='/', follow=True, depth=0):
        """Return (parent, name, node or None)."""
        if depth > 20:
            raise err(errno.ELOOP, path)
        parts, slash = self.parts(path, cwd)
        stack = [self.root]
        i = 0
        name = ''
        parent = self.root
        node = self.root
        trail = []
        while i < len(parts):
            name = parts[i]
            if node is None:
                raise err(errno.ENOENT, path)
            if node.kind != 'dir':
                raise err(errno.ENOTDIR, path)
            if name == '..':
                if len(stack) > 1:
                    stack.pop()
                    trail.pop()
                node = stack[-1]
                parent = stack[-2] if len(stack) > 1 else self.root
                i += 1
                continue
            parent = node
            node = parent.entries.get(name)
            last = i == len(parts) - 1
            if node is not None and node.kind == 'link' and (follow or not last or slash):
                rest = '/'.join(parts[i + 1:])
                t = node.target
                if not t.startswith('/'):
                    t = '/' + '/'.join(trail) + '/' + t
                if rest:
                    t = t + '/' + rest
                return self.walk(t, '/', follow, depth + 1)
            stack.append(node)
            trail.append(name)
            i += 1
        if slash and node is not None and node.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        return parent, name, node

    def node(self, path, cwd='/', follow=True):
        n = self.walk(path, cwd, follow)[2]
        if n is None:
            raise err(errno.ENOENT, path)
        return n

    # -- raw interface for the harness and simulated commands (no faults, no yields) --------

    def exists(self, path, cwd='/', follow=True):
        try:
            return self.walk(path, cwd, follow)[2] is not None
        except _OSError:
            return False

    def isdir(self, path):
        try:
            n = self.walk(path)[2]
        except _OSError:
            return False
        return n is not None and n.kind == 'dir'

    def read(self, path, cwd='/'):
        n = self.node(path, cwd)
        if n.kind == 'dir':
            raise err(errno.EISDIR, path)
        return self.get_data(n)

    def get_data(self, n):
        if n.real is not None:
            with open(n.real, 'rb') as f:
                return f.read()
        return bytes(n.data)

    def text(self, path, cwd='/'):
        return self.read(path, cwd).decode()

    def mkdirs(self, path, cwd='/'):
        parts, _ = self.parts(path, cwd)
        cur = ''
        for p in parts:
            cur += '/' + p
            parent, name, n = self.walk(cur)
            if n is None:
                parent.entries[name] = self._new('dir', 0o755)

    def write(self, path, data, cwd='/', mtime=None, mode=None):
        if isinstance(data, str):
            data = data.encode()
        parent, name, n = self.walk(path, cwd)
        if n is None:
            if parent is None or parent.kind != 'dir':
                raise err(errno.ENOTDIR, path)
            n = self._new('file', 0o644)
            parent.entries[name] = n
        if n.kind == 'dir':
            raise err(errno.EISDIR, path)
        n.data = bytes(data)
        n.durable = n.data
        n.dirty = False
        n.mtime = self.clock() if mtime is None else mtime
        if mode is not None:
            n.mode = mode
        return n

    def append(self, path, data, cwd='/'):
        parent, name, n = self.walk(path, cwd)
        old = n.data if n is not None else b''
        return self.write(path, old + data, cwd)

    def remove(self, path, cwd='/'):
        parent, name, n = self.walk(path, cwd, False)
        if n is None:
            raise err(errno.ENOENT, path)
        del parent.entries[name]
        self._gone(n)

    def rmtree(self, path):
        if self.exists(path, follow=False):
            self.remove(path)

    def symlink(self, target, path):
        parent, name, n = self.walk(path, '/', False)
        n = self._new('link', 0o777)
        n.target = target
        parent.entries[name] = n

    def _gone(self, n):
        if n.kind == 'dir':
            for c in n.entries.values():
                self._gone(c)
            return
        n.nlink -= 1
        if n.nlink <= 0 and n.real is not None:
            for suffix in ('', '-journal', '-wal', '-shm'):
                try:
                    real_os.unlink(n.real + suffix)
                except _OSError:
                    pass

    def files(self, path='/'):
        """All files under path: {path: (kind, data, mode)}."""
        out = {}

        def rec(prefix, n):
            if n.kind == 'dir':
                for name, c in n.entries.items():
                    rec(prefix + '/' + name, c)
            elif n.kind == 'link':
                out[prefix] = ('link', n.target, 0)
            else:
                out[prefix] = ('file', self.get_data(n), n.mode)
        try:
            n = self.walk(path)[2]
        except _OSError:
            return out
        if n is not None:
            rec('' if path == '/' else path.rstrip('/'), n)
        return out

    def real_path(self, path, cwd, create=True):
        """The scratch file behind a database file."""
        parent, name, n = self.walk(path, cwd)
        if n is None:
            if not create:
                return None
            if parent.kind != 'dir':
                raise err(errno.ENOTDIR, path)
            n = self._new('file', 0o644)
            parent.entries[name] = n
        if n.real is None:
            self.next_real += 1
            n.real = '%s/db%d' % (self.scratch, self.next_real)
            with open(n.real, 'wb') as f:
                f.write(n.data)
        return n.real

    # -- power loss ------------------------------------------------------------------------

    def power_loss(self, ch, filt):
        """Drop what was not flushed. filt(path) says which files may be affected."""
        n = ch.pick('f', len(self.meta) + 1)
        for _ in range(n):
            undo = self.meta.pop()
            undo()
        if n:
            self.k.count('fault:power-loss-metadata', n)
        self.meta = []

        def rec(prefix, node):
            if node.kind == 'dir':
                for name in sorted(node.entries):
                    rec(prefix + '/' + name, node.entries[name])
            elif node.kind == 'file' and node.real is None:
                if node.dirty and filt(prefix):
                    mode = ch.pick('f', 5)
                    data = node.data
                    if mode == 1:
                        data = b''
                    elif mode == 2:
                        data = node.durable or b''
                    elif mode == 3:
                        data = data[:ch.pick('f', len(data) + 1)]
                    elif mode == 4:
                        cut = ch.pick('f', len(data) + 1)
                        data = data[:cut] + b'\0' * (len(data) - cut)
                    if data != node.data:
                        self.k.count('fault:power-loss-data')
                    node.data = data
                node.durable = node.data
                node.dirty = False
        rec('', self.root)


class OpenFile:
    def __init__(self, node, path, flags):
        self.node = node
        self.path = path
        self.pos = 0
        self.flags = flags
        self.refs = 1
        self.peer = None


class DirEntry:
    def __init__(self, fs, dirpath, name, node):
        self._fs = fs
        self.name = name
        self.path = real_os.path.join(dirpath, name)
        self._node = node

    def is_symlink(self):
        return self._node.kind == 'link'

    def _follow(self, follow_symlinks):
        if self._node.kind == 'link' and follow_symlinks:
            try:
                return self._fs.vfs.walk(self.path, self._fs.cwd())[2]
            except _OSError:
                return None
        return self._node

    def is_dir(self, *, follow_symlinks=True):
        n = self._follow(follow_symlinks)
        return n is not None and n.kind == 'dir'

    def is_file(self, *, follow_symlinks=True):
        n = self._follow(follow_symlinks)
        return n is not None and n.kind == 'file'

    def stat(self, *, follow_symlinks=True):
        return self._fs.stat(self.path, follow_symlinks=follow_symlinks)

    def inode(self):
        return self._node.ino

    def __fspath__(self):
        return self.path


class ScanIter:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


CHUNK = 4096


class Posix:
    """System calls of one simulated process."""

    def __init__(self, vfs, proc):
        self.vfs = vfs
        self.k = vfs.k
        self.proc = proc
        self.fds = {}
        self.next_fd = 3

    def cwd(self):
        return self.proc.cwd

    def abspath(self, path):
        path = real_os.fspath(path)
        if isinstance(path, str):
            path = str.__str__(path)
        if isinstance(path, bytes):
            path = path.decode()
        return real_os.path.normpath(real_os.path.join(self.proc.cwd, path))

    def sys(self, op, path=None, modify=False):
        """Every system call passes here: yield, then maybe fail."""
        self.k.step(op, sig=True)
        v = self.vfs
        if path is not None:
            p = self.abspath(path) if not isinstance(path, int) else self.fds[path].path \
                if path in self.fds else str(path)
        else:
            p = ''
        if modify and v.denied and not getattr(self.proc, 'privileged', False):
            for d in v.denied:
                if p == d or p.startswith(d + '/'):
                    raise err(errno.EACCES, path)
        if v.fault is not None:
            code = v.fault(op, p, self.proc)
            if code:
                self.k.count('fault:%s:%s' % (op, errno.errorcode[code]))
                raise err(code, path)
        if modify and v.watch is not None:
            v.watch(op, p, self.proc)

    # -- metadata --------------------------------------------------------------------------

    def _size(self, n):
        if n.kind == 'link':
            return len(n.target)
        if n.kind == 'dir':
            return 4096
        if n.real is not None:
            try:
                return real_os.path.getsize(n.real)
            except _OSError:
                return 0
        return len(n.data)

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int):
            return self.fstat(path)
        self.sys('stat', path)
        n = self.vfs.node(path, self.proc.cwd, follow_symlinks)
        return Stat(n, n.mtime, self._size(n))

    def lstat(self, path, *, dir_fd=None):
        return self.stat(path, follow_symlinks=False)

    def fstat(self, fd):
        self.sys('stat', fd)
        n = self._of(fd).node
        return Stat(n, n.mtime, self._size(n))

    def access(self, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        self.sys('stat', path)
        v = self.vfs
        if not v.exists(path, self.proc.cwd):
            return False
        if mode & 2 and v.denied and not getattr(self.proc, 'privileged', False):
            p = self.abspath(path)
            for d in v.denied:
                if p == d or p.startswith(d + '/'):
                    return False
        if mode & 1:
            n = v.node(path, self.proc.cwd)
            if n.kind == 'file' and not n.mode & 0o111:
                return False
        return True

    def chmod(self, path, mode, *, dir_fd=None, follow_symlinks=True):
        self.sys('chmod', path, True)
        n = self._of(path).node if isinstance(path, int) else \
            self.vfs.node(path, self.proc.cwd, follow_symlinks)
        n.mode = mode & 0o7777

    def fchmod(self, fd, mode):
        self.chmod(fd, mode)

    def utime(self, path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        self.sys('utime', path, True)
        n = self._of(path).node if isinstance(path, int) else \
            self.vfs.node(path, self.proc.cwd, follow_symlinks)
        if ns is not None:
            n.mtime = ns[1] / 1e9
        elif times is None:
            n.mtime = self.vfs.clock()
        else:
            n.mtime = float(times[1])

    # -- directories -----------------------------------------------------------------------

    def _names(self, node):
        names = list(node.entries)
        o = self.vfs.order
        if o == 1:
            names.reverse()
        elif o == 2:
            names.sort(key=lambda s: (sum(map(ord, s)) * 7919) % 1009)
        return names

    def listdir(self, path='.'):
        self.sys('readdir', path)
        n = self.vfs.node(path, self.proc.cwd)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        return self._names(n)

    def scandir(self, path='.'):
        self.sys('readdir', path)
        n = self.vfs.node(path, self.proc.cwd)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        return ScanIter([DirEntry(self, str(path), name, n.entries[name]) for name in self._names(n)])

    def mkdir(self, path, mode=0o777, *, dir_fd=None):
        self.sys('mkdir', path, True)
        parent, name, n = self.vfs.walk(path, self.proc.cwd, False)
        if n is not None:
            raise err(errno.EEXIST, path)
        n = self.vfs._new('dir', mode & ~self.proc.umask)
        parent.entries[name] = n
        self._undo_create(parent, name)

    def _undo_create(self, parent, name):
        self.vfs.meta.append(lambda: parent.entries.pop(name, None))

    def rmdir(self, path, *, dir_fd=None):
        self.sys('rmdir', path, True)
        parent, name, n = self.vfs.walk(path, self.proc.cwd, False)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        if n.entries:
            raise err(errno.ENOTEMPTY, path)
        del parent.entries[name]
        self.vfs.meta.append(lambda: parent.entries.__setitem__(name, n))

    def unlink(self, path, *, dir_fd=None):
        self.sys('unlink', path, True)
        parent, name, n = self.vfs.walk(path, self.proc.cwd, False)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == 'dir':
            raise err(errno.EISDIR, path)
        del parent.entries[name]
        if n.real is not None:
            self.vfs._gone(n)
        else:
            n.nlink -= 1
            self.vfs.meta.append(lambda: parent.entries.__setitem__(name, n))

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        self.sys('rename', src, True)
        v = self.vfs
        sp, sn, s = v.walk(src, self.proc.cwd, False)
        if s is None:
            raise err(errno.ENOENT, src)
        dp, dn, d = v.walk(dst, self.proc.cwd, False)
        if v.denied and not getattr(self.proc, 'privileged', False):
            p = self.abspath(dst)
            for x in v.denied:
                if p == x or p.startswith(x + '/'):
                    raise err(errno.EACCES, dst)
        if v.watch is not None:
            v.watch('rename', self.abspath(dst), self.proc)
        if d is s:
            return
        if d is not None:
            if d.kind == 'dir':
                if s.kind != 'dir':
                    raise err(errno.EISDIR, dst)
                if d.entries:
                    raise err(errno.ENOTEMPTY, dst)
            elif s.kind == 'dir':
                raise err(errno.ENOTDIR, dst)
        del sp.entries[sn]
        dp.entries[dn] = s

        def undo():
            if d is None:
                dp.entries.pop(dn, None)
            else:
                dp.entries[dn] = d
            sp.entries[sn] = s
        v.meta.append(undo)

    replace = rename

    def symlink(self, src, dst, target_is_directory=False, *, dir_fd=None):
        self.sys('symlink', dst, True)
        parent, name, n = self.vfs.walk(dst, self.proc.cwd, False)
        if n is not None:
            raise err(errno.EEXIST, dst)
        n = self.vfs._new('link', 0o777)
        n.target = str.__str__(real_os.fspath(src))
        parent.entries[name] = n
        self._undo_create(parent, name)

    def link(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
        self.sys('link', dst, True)
        s = self.vfs.node(src, self.proc.cwd, False)
        if s.kind == 'dir':
            raise err(errno.EPERM, src)
        parent, name, n = self.vfs.walk(dst, self.proc.cwd, False)
        if n is not None:
            raise err(errno.EEXIST, dst)
        parent.entries[name] = s
        s.nlink += 1
        self._undo_create(parent, name)

    def readlink(self, path, *, dir_fd=None):
        self.sys('readlink', path)
        n = self.vfs.node(path, self.proc.cwd, False)
        if n.kind != 'link':
            raise err(errno.EINVAL, path)
        return n.target

    def getcwd(self):
        self.k.step('getcwd')
        return self.proc.cwd

    def getcwdb(self):
        return self.getcwd().encode()

    def chdir(self, path):
        self.sys('chdir', path)
        n = self.vfs.node(path, self.proc.cwd)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        self.proc.cwd = self.abspath(path)

    def truncate(self, path, length):
        self.sys('truncate', path, True)
        n = self._of(path).node if isinstance(path, int) else self.vfs.node(path, self.proc.cwd)
        self._set(n, bytes(n.data[:length]).ljust(length, b'\0'))

    ftruncate = truncate

    def umask(self, m):
        old, self.proc.umask = self.proc.umask, m
        return old

    def sync(self):
        self.sys('fsync')
        self.vfs.meta.clear()

        def rec(n):
            if n.kind == 'dir':
                for c in n.entries.values():
                    rec(c)
            elif n.kind == 'file':
                n.durable = n.data
                n.dirty = False
        rec(self.vfs.root)

    # -- files -----------------------------------------------------------------------------

    def _set(self, n, data):
        if not n.dirty:
            n.durable = n.data
            n.dirty = True
        n.data = data
        n.mtime = self.vfs.clock()

    def _of(self, fd):
        try:
            return self.fds[fd]
        except KeyError:
            raise err(errno.EBADF)

    def open(self, path, flags, mode=0o777, *, dir_fd=None):
        o = real_os
        writing = bool(flags & (o.O_WRONLY | o.O_RDWR))
        self.sys('open-w' if writing else 'open-r', path, writing)
        if flags & o.O_CREAT and flags & o.O_EXCL:
            parent, name, n = self.vfs.walk(path, self.proc.cwd, False)
            if n is not None:
                raise err(errno.EEXIST, path)
        else:
            parent, name, n = self.vfs.walk(path, self.proc.cwd)
        if n is None:
            if not flags & o.O_CREAT:
                raise err(errno.ENOENT, path)
            n = self.vfs._new('file', mode & ~self.proc.umask)
            parent.entries[name] = n
            self._undo_create(parent, name)
        elif n.kind == 'dir':
            if writing or flags & (o.O_CREAT | o.O_TRUNC):
                raise err(errno.EISDIR, path)
        elif writing and self.vfs.perms and not n.mode & 0o200 and \
                not getattr(self.proc, 'privileged', False):
            raise err(errno.EACCES, path)
        elif flags & o.O_TRUNC and writing and n.data:
            self._set(n, b'')
        elif flags & o.O_TRUNC and writing:
            n.mtime = self.vfs.clock()
        of = OpenFile(n, self.abspath(path), flags)
        if flags & o.O_APPEND:
            of.pos = len(n.data)
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = of
        return fd

    def close(self, fd):
        self.k.step('close')
        self._of(fd)
        del self.fds[fd]

    def read(self, fd, n):
        self.sys('read', fd)
        of = self._of(fd)
        if of.node.kind == 'dir':
            raise err(errno.EISDIR)
        data = self.vfs.get_data(of.node)[of.pos:of.pos + n]
        of.pos += len(data)
        return data

    def write(self, fd, data):
        self.sys('write', fd, True)
        of = self._of(fd)
        if not of.flags & (real_os.O_WRONLY | real_os.O_RDWR):
            raise err(errno.EBADF)
        data = bytes(data)
        if self.vfs.fault is not None and len(data) > 1:
            short = self.vfs.fault('short-write', of.path, self.proc)
            if short:
                self.k.count('fault:short-write')
                data = data[:max(1, len(data) // 2)]
        if len(data) > CHUNK:
            data = data[:CHUNK]
        n = of.node
        if of.flags & real_os.O_APPEND:
            of.pos = len(n.data)
        old = n.data
        if len(old) < of.pos:
            old = old + b'\0' * (of.pos - len(old))
        self._set(n, old[:of.pos] + data + old[of.pos + len(data):])
        of.pos += len(data)
        return len(data)

    def lseek(self, fd, pos, how):
        of = self._of(fd)
        if how == 0:
            of.pos = pos
        elif how == 1:
            of.pos += pos
        else:
            of.pos = len(self.vfs.get_data(of.node)) + pos
        return of.pos

    def fsync(self, fd):
        self.sys('fsync', fd)
        n = self._of(fd).node
        if n.kind != 'dir':
            n.durable = n.data
            n.dirty = False
        self.vfs.meta.clear()

    fdatasync = fsync

    def dup(self, fd):
        of = self._of(fd)
        new = self.next_fd
        self.next_fd += 1
        self.fds[new] = of
        return new

    def isatty(self, fd):
        return False

    # -- open() ----------------------------------------------------------------------------

    def fopen(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
        o = real_os
        binary = 'b' in mode
        m = mode.replace('b', '').replace('t', '')
        plus = '+' in m
        m = m.replace('+', '').replace('U', '')
        if m not in ('r', 'w', 'a', 'x') :
            raise ValueError('invalid mode: %r' % mode)
        if m == 'r':
            flags = o.O_RDWR if plus else o.O_RDONLY
        else:
            flags = o.O_RDWR if plus else o.O_WRONLY
            flags |= o.O_CREAT
            flags |= {'w': o.O_TRUNC, 'a': o.O_APPEND, 'x': o.O_EXCL}[m]
        if isinstance(file, int):
            fd = file
            name = file
        else:
            name = real_os.fspath(file)
            fd = opener(file, flags) if opener is not None else self.open(name, flags, 0o666)
        if self._of(fd).node.kind == 'dir':
            if not isinstance(file, int):
                del self.fds[fd]
            raise err(errno.EISDIR, name)
        return SimFile(self, fd, name, mode, binary, m == 'r' or plus, m != 'r' or plus,
                       closefd=closefd)


class SimFile:
    """A buffered file object (text or binary) without any real lock inside."""

    def __init__(self, fs, fd, name, mode, binary, readable, writable, closefd=True):
        self.fs = fs
        self.fd = fd
        self.name = name
        self.mode = mode
        self.binary = binary
        self._r = readable
        self._w = writable
        self.closed = False
        self.wbuf = []
        self.rbuf = None
        self.encoding = 'utf-8'
        self.errors = 'strict'
        self.newlines = None
        self.closefd = closefd
        self.buffer = self
        self.busy = None             # the thread in flush(): the buffer has a lock of its own

    def fileno(self):
        self._check()
        return self.fd

    def isatty(self):
        return False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def write(self, data):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        if self.binary:
            if isinstance(data, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            b = bytes(data)
        else:
            if not isinstance(data, str):
                raise TypeError('write() argument must be str, not %s' % type(data).__name__)
            b = str.__str__(data).encode('utf-8')
        self.wbuf.append(b)
        if sum(map(len, self.wbuf)) > 8192:
            self.flush()
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        self._check()
        k = self.fs.k
        if self.busy is not None and self.busy is not k.current:
            k.block(lambda: self.busy is None, 'file', sig=False)
        if self.wbuf:
            data = b''.join(self.wbuf)
            self.wbuf = []
            self.busy = k.current
            try:
                while data:
                    try:
                        n = self.fs.write(self.fd, data)
                    except OSError:
                        self.wbuf.insert(0, data)
                        raise
                    data = data[n:]
            finally:
                self.busy = None

    def _fill(self):
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        if self.wbuf:
            self.flush()

    def read(self, n=-1):
        self._check()
        self._fill()
        if n is None:
            n = -1
        if self.binary:
            return self.fs.read(self.fd, n if n >= 0 else 1 << 40)
        of = self.fs._of(self.fd)
        data = self.fs.read(self.fd, 1 << 40).decode('utf-8', self.errors)
        data = data.replace('\r\n', '\n').replace('\r', '\n')
        if n >= 0 and len(data) > n:
            of.pos -= len(data[n:].encode('utf-8'))
            data = data[:n]
        return data

    def readline(self, limit=-1):
        self._check()
        self._fill()
        of = self.fs._of(self.fd)
        data = self.fs.read(self.fd, 1 << 40)
        i = data.find(b'\n')
        if i >= 0:
            of.pos -= len(data) - i - 1
            data = data[:i + 1]
        return data if self.binary else data.decode('utf-8').replace('\r\n', '\n')

    def readlines(self, hint=-1):
        return list(self)

    def readinto(self, b):
        d = self.fs.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def seek(self, pos, how=0):
        self._check()
        if self.wbuf:
            self.flush()
        return self.fs.lseek(self.fd, pos, how)

    def tell(self):
        self._check()
        if self.wbuf:
            self.flush()
        return self.fs._of(self.fd).pos

    def truncate(self, size=None):
        self._check()
        self.flush()
        if size is None:
            size = self.tell()
        self.fs.ftruncate(self.fd, size)
        return size

    def detach(self):
        return self

    def close(self):
        if self.closed:
            return
        try:
            self.flush()
        finally:
            self.closed = True
            self.wbuf = []
            if self.closefd:
                self.fs.close(self.fd)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()
