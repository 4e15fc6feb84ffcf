"""I01, I02: installing files, directly and through the privileged helper."""
import base64
import errno
import os as real_os
import pickle
import random

from sim import kernel as K
from sim.run import Spec

from props.schedprops import note

NAMES = ['prog', 'lib.so', 'lib.so.1', 'data file', 'doc.txt', 'x']
SUBDIRS = ['bin', 'lib/deep/er', '/etc/conf', '/opt', 'share/a b']
PERMS = [0o755, 0o644, 0o600, 0o444, 0o555, 0o4755]


def tree(vfs):
    """Everything in the simulated file system: path -> (kind, content or target, mode)."""
    res = {}

    def rec(path, n):
        for name, c in n.entries.items():
            p = path + '/' + name
            if c.kind == 'dir':
                res[p] = ('dir', None, c.mode)
                rec(p, c)
            elif c.kind == 'link':
                res[p] = ('link', c.target, None)
            else:
                res[p] = ('file', vfs.get_data(c), c.mode)
    rec('', vfs.root)
    return res


class Install:
    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.ch = sim.ch
        self.vfs = sim.world.vfs
        self.serial = 0
        self.fired = []
        self.expect_failure = None

    # -- the files -----------------------------------------------------------------------------

    def data(self):
        self.serial += 1
        return ('content %d\n' % self.serial).encode() * self.ch.choose('w', [0, 1, 5, 3000])

    def make_source(self, name):
        """Create or replace one source."""
        ch, vfs = self.ch, self.vfs
        p = '/w/out/' + name
        if vfs.exists(p, follow=False):
            vfs.remove(p)
        kind = ch.weighted('w', [('file', 6), ('link', 2), ('dangling', 1), ('dirlink', 1)])
        if kind == 'file':
            vfs.write(p, self.data(), mode=ch.choose('w', [0o644, 0o755, 0o600, 0o444]))
        elif kind == 'link':
            vfs.symlink(ch.choose('w', ['base', '/w/out/base', '../out/base', 'dir/inner']), p)
        elif kind == 'dangling':
            vfs.symlink(ch.choose('w', ['nowhere', '/w/none/at/all', name + '.2']), p)
        else:
            vfs.symlink('dir', p)

    def setup(self):
        vfs = self.vfs
        vfs.perms = True
        vfs.write('/w/out/base', b'base\n') if vfs.exists('/w/out') else None
        vfs.mkdirs('/w/out/dir')
        vfs.write('/w/out/base', b'base\n', mode=0o640)
        vfs.write('/w/out/dir/inner', b'inner\n', mode=0o600)
        vfs.mkdirs('/victims')
        vfs.write('/victims/a', b'victim a\n', mode=0o644)
        vfs.mkdirs('/victims/d')
        vfs.write('/victims/d/b', b'victim b\n', mode=0o600)
        self.names = NAMES[:1 + self.ch.pick('w', len(NAMES))]
        for n in self.names:
            self.make_source(n)

    def draw_item(self):
        """(how the source is given, subdir, rename, perms)"""
        ch = self.ch
        name = ch.choose('w', self.names)
        spelled = ch.choose('w', ['out/' + name, '/w/out/' + name, './out/dir/../' + name])
        return (spelled, ch.choose('w', SUBDIRS), ch.choose('w', [None, None, 'renamed', name + '.2']),
                ch.choose('w', [None, None] + PERMS))

    def target(self, destdir, prefix, item):
        spelled, subdir, rename, perms = item
        if subdir.startswith('/'):
            root = real_os.path.join(destdir, subdir[1:])
        else:
            root = real_os.path.join(destdir, prefix.lstrip('/'), subdir)
        return real_os.path.normpath(real_os.path.join(
            '/w', root, rename or real_os.path.basename(spelled)))

    def source(self, item):
        return real_os.path.normpath(real_os.path.join('/w', item[0]))

    def occupy(self, target, item):
        """Something is there already."""
        ch, vfs = self.ch, self.vfs
        kind = ch.weighted('w', [('none', 4), ('file', 3), ('readonly', 2), ('link', 2), ('dangling', 1),
                                 ('to-source', 1), ('to-dir', 1), ('dir', 1), ('bad-parent', 1),
                                 ('parent-link', 1)])
        if kind == 'none':
            return
        parent = real_os.path.dirname(target)
        try:
            if kind == 'bad-parent':
                up = real_os.path.dirname(parent)
                if not vfs.exists(parent, follow=False) and up != '/':
                    vfs.mkdirs(up)
                    vfs.write(parent, b'not a directory')
                return
            if kind == 'parent-link':
                up = real_os.path.dirname(parent)
                if not vfs.exists(parent, follow=False) and up != '/':
                    vfs.mkdirs(up)
                    vfs.mkdirs('/elsewhere%d' % self.serial)
                    vfs.symlink('/elsewhere%d' % self.serial, parent)
                return
            vfs.mkdirs(parent)
            if vfs.exists(target, follow=False):
                if vfs.isdir(target):
                    return
                vfs.remove(target)
            if kind == 'dir':
                vfs.mkdirs(target)
            elif kind in ('file', 'readonly'):
                vfs.write(target, b'older\n', mode=0o644 if kind == 'file' else 0o444)
            else:
                vfs.symlink({'link': ch.choose('w', ['/victims/a', '/victims/d/b']),
                             'dangling': '/victims/none', 'to-source': self.source(item),
                             'to-dir': '/victims/d'}[kind], target)
        except OSError:
            pass

    # -- what should come out -----------------------------------------------------------------

    def model(self, before, wants):
        """The expected tree, or None if something cannot be installed."""
        t = dict(before)
        for src, target, perms in wants:
            parts = target.split('/')[1:-1]
            cur = ''
            for part in parts:
                cur += '/' + part
                n = 0
                while t.get(cur, ('',))[0] == 'link' and n < 20:
                    n += 1
                    link = t[cur][1]
                    cur = real_os.path.normpath(real_os.path.join(real_os.path.dirname(cur), link))
                if cur not in t:
                    t[cur] = ('dir', None, None)
                elif t[cur][0] != 'dir':
                    return None
            target = cur + '/' + target.split('/')[-1]
            if t.get(target, ('',))[0] == 'dir':
                return None
            s = t.get(src)
            if s is None:
                return None
            if s[0] == 'link':
                t[target] = s
            else:
                t[target] = ('file', s[1], s[2] if perms is None else perms)
        return t

    def compare(self, got, want, before):
        for p in sorted(set(got) | set(want)):
            g, w = got.get(p), want.get(p)
            if p.startswith(('/w/build', '/tmp', '/bin')) or g == w:
                continue
            if g is not None and w is not None and g[0] == w[0] == 'dir':
                continue
            kind = 'source-altered' if p.startswith('/w/out') else 'other-altered' if \
                p in before and want.get(p) == before[p] else 'not-installed' if g is None else \
                'wrong-mode' if w is not None and g[:2] == w[:2] else 'wrong-file'
            short = lambda e: None if e is None else (e[0], e[1] and e[1][:40], e[2] and oct(e[2]))
            return kind, '%s is %r instead of %r' % (p, short(g), short(w))

    def untouched(self, got, before, targets):
        """After a failure: nothing but the targets may have changed."""
        for p, b in before.items():
            if p.startswith(('/w/build', '/tmp', '/bin')) or p in targets or got.get(p) == b:
                continue
            if b[0] == 'dir' and got.get(p, ('',))[0] == 'dir':
                continue
            return 'other-altered' if not p.startswith('/w/out') else 'source-altered', \
                '%s is %r instead of %r' % (p, got.get(p), b)

    def real_targets(self, wants):
        res = set()
        for src, target, perms in wants:
            res.add(target)
            res.add(real_os.path.join(self.resolve(real_os.path.dirname(target)),
                                      real_os.path.basename(target)))
        return res

    def resolve(self, p):
        cur = ''
        for part in p.split('/')[1:]:
            cur += '/' + part
            try:
                n = self.vfs.walk(cur, '/', False)[2]
            except OSError:
                n = None
            if n is not None and n.kind == 'link':
                cur = n.target
        return cur

    # -- faults --------------------------------------------------------------------------------

    def arm_faults(self, only=None):
        ch = self.ch
        at = ch.given('f', 60, lambda r: r.randrange(60))
        code = ch.choose('f', [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS, errno.EDQUOT])
        again = ch.flip('f', 0.2)
        short = ch.flip('f', 0.3)
        count = [0]

        def fault(op, path, proc):
            if only is not None and proc is not only():
                return None
            if path.startswith(('/w/build', '/bin', '/tmp')) or op in ('stat', 'getcwd'):
                return None
            if op == 'short-write':
                return short
            count[0] += 1
            if count[0] == at or (again and self.fired and count[0] < at + 3):
                self.fired.append((op, path))
                return code
        self.vfs.fault = fault


def context(engine='cache', jobs=1):
    import fbuild.context
    ctx = fbuild.context.make_default_context(['--database-engine=' + engine, '-j%d' % jobs])
    ctx.create_buildroot()
    ctx.load_configuration()
    return ctx


def draw_round(x, rounds, r):
    """The items of one round; items are kept in later rounds so that installs are repeated."""
    ch = x.ch
    if r == 0 or ch.flip('w', 0.3):
        x.items = [x.draw_item() for _ in range(1 + ch.pick('w', 5))]
    if r and ch.flip('w', 0.6):
        x.make_source(ch.choose('w', x.names))


def i01(sim):
    ch = sim.ch
    x = Install(sim)
    x.setup()
    destdir = ch.choose('w', ['/', '/inst', 'dest', '/inst/root', './d2'])
    prefix = ch.choose('w', ['/usr/local', 'pre', '/', '/usr'])
    rounds = 1 + ch.pick('w', 3)
    denied = ch.flip('f', 0.08)
    sim.sample = {'destdir': destdir, 'prefix': prefix, 'rounds': rounds}
    for r in range(rounds):
        draw_round(x, rounds, r)
        wants = [(x.source(i), x.target(destdir, prefix, i), i[3]) for i in x.items]
        if r == 0 or ch.flip('w', 0.3):
            for i, (s, t, p) in zip(x.items, wants):
                x.occupy(t, i)
        before = tree(x.vfs)
        x.fired = []
        faulty = ch.flip('f', 0.35)
        if denied:
            x.vfs.denied = ['/inst', '/w/dest', '/w/d2', '/usr', '/etc', '/opt', '/pre', '/bin', '/share']
        order = list(wants)

        def main(mods):
            import fbuild.install
            ctx = context()
            ctx.install_destdir = destdir
            ctx.install_prefix = prefix
            for spelled, subdir, rename, perms in x.items:
                ctx.install(spelled, subdir, rename=rename, perms=perms)
            if faulty:
                x.arm_faults()
            try:
                fbuild.install.Installer(ctx).install()
                return 'ok'
            except (OSError, SystemExit) as e:
                return e
            finally:
                x.vfs.fault = None
                ctx.db.shutdown()
                ctx.scheduler.shutdown()
        p = sim.world.spawn(main)
        sim.world.wait(p)
        if p.outcome[0] != 'return':
            e = p.outcome[1]
            if not (x.fired and isinstance(e, Exception)):
                if not isinstance(e, Exception):
                    sim.violation('install-broken', repr(p.outcome))
            outcome = e
        else:
            outcome = p.outcome[1]
        x.vfs.denied = []
        after = tree(x.vfs)
        want = x.model(before, order)
        if denied:
            want = None if order else want
        if outcome == 'ok':
            note(sim, 'installs')
            if want is None:
                sim.violation('false-success', 'an item cannot be installed, but no failure was reported')
            bad = x.compare(after, want, before)
            if bad and bad[0] == 'not-installed' and x.fired:
                bad = ('false-success', bad[1] + ' after %r' % (x.fired,))
            if bad:
                sim.violation(*bad)
        else:
            note(sim, 'installs that failed')
            if want is not None and not x.fired:
                sim.violation('false-failure', repr(outcome))
            bad = x.untouched(after, before, x.real_targets(order))
            if bad:
                sim.violation(*bad)
        if want is None:
            break


# -- I02 ---------------------------------------------------------------------------------------

class PipeIn:
    """sys.stdin of the helper."""

    def __init__(self, k, c):
        self.k = k
        self.c = c

    def readline(self):
        p = self.c.stdin
        self.k.block(lambda: p.eof or b'\n' in p.data, 'stdin')
        i = p.data.find(b'\n')
        i = len(p.data) if i < 0 else i + 1
        d, p.data = p.data[:i], p.data[i:]
        return d.decode()

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l


class PipeOut:
    """sys.stdout of the helper."""

    def __init__(self, k, c):
        self.k = k
        self.c = c
        self.buf = ''

    def write(self, s):
        self.buf += s
        return len(s)

    def flush(self):
        self.k.step('pipe-write')
        if self.buf:
            self.c.out(self.buf)
            self.buf = ''


class Helper:
    """pkexec: a real helper process, or a stand-in that fails in a chosen way."""

    def __init__(self, x, real, script):
        self.x = x
        self.sim = x.sim
        self.k = x.k
        self.real = real
        self.script = script
        self.cmd = None
        self.proc = None
        self.acked = []
        self.got = []
        self.closed = False
        self.kill_at = None
        x.sim.procs.add_program('pkexec', self.program)

    def program(self, c):
        self.cmd = c
        yield self.delay()
        if self.real:
            yield from self.run_real(c)
        else:
            yield from self.run_script(c)

    def delay(self):
        return self.x.ch.choose('f', [0.0, 0.01, 0.5])

    def run_real(self, c):
        if c.args[2:] != ['-m', 'fbuild.install', 'polkit']:
            c.errout('usage: pkexec')
            yield ('exit', 127)
        world = self.sim.world

        def main(mods):
            import fbuild.install
            fbuild.install.polkit_process()
        p = world.spawn(main, argv=['install.py', 'polkit'], cwd='/root', name='helper')
        self.proc = p
        p.privileged = True
        p.modules.stdin = PipeIn(self.k, c)
        p.modules.stdout = PipeOut(self.k, c)
        if self.kill_at is not None:
            self.k.arm(p, self.kill_at, lambda: self.k.kill(p))
        yield ('until', lambda: p.finished or p.dead)
        o = p.outcome
        if o[0] == 'killed':
            yield ('die', 9)
        if o[0] == 'return' or (o[0] == 'exit' and o[1] in (None, 0)):
            yield ('exit', 0)
        yield ('exit', o[1] if o[0] == 'exit' and isinstance(o[1], int) else 1)

    def run_script(self, c):
        """script: (ready, good, what, status): answers that many messages, then misbehaves."""
        ready, good, what, status, final = self.script
        if not ready:
            yield ('exit', status)
        c.out('\n')
        cwd = '/root'
        n = 0
        while True:
            yield ('line',)
            line = c.state['line']
            if not line.endswith(b'\n'):
                break
            try:
                msg = pickle.loads(base64.b64decode(line.strip(), validate=True))
            except Exception:
                yield ('exit', 1)
            self.got.append(msg)
            yield self.delay()
            if n == good and what is not None:
                if what == 'exit':
                    yield ('exit', status)
                if what == 'signal':
                    yield ('die', 9)
                c.out(what)
                if self.x.ch.flip('f', 0.5) or not what.endswith('\n'):
                    yield ('exit', status)
                if msg[0] == 'close':
                    self.closed = True
                else:
                    self.acked.append(what == 'done\n')
                n += 1
                continue
            if msg[0] == 'close':
                self.closed = True
                yield ('exit', final)
            n += 1
            self.acked.append(True)
            c.out('done\n')
        yield ('exit', final)


def i02(sim):
    ch = sim.ch
    x = Install(sim)
    x.setup()
    vfs = x.vfs
    vfs.mkdirs('/root')
    vfs.mkdirs('/inst')
    vfs.mkdirs('/w/dest')
    destdir = ch.choose('w', ['/inst', 'dest', '/'])
    prefix = ch.choose('w', ['/usr/local', 'pre', '/usr'])
    x.items = [x.draw_item() for _ in range(ch.pick('w', 6))]
    wants = [(x.source(i), x.target(destdir, prefix, i), i[3]) for i in x.items]
    for i, (s, t, p) in zip(x.items, wants):
        if ch.flip('w', 0.5):
            x.occupy(t, i)
    real = ch.flip('f', 0.6)
    script = None
    if not real:
        script = (ch.flip('f', 0.8), ch.pick('f', len(wants) + 3),
                  ch.choose('f', [None, 'exit', 'exit', 'signal', 'error\n', '\n', 'done', 'do', 'done \n',
                                  'Done\n', 'x\ndone\n']),
                  ch.choose('f', [0, 0, 1, 3, 126, 127]), ch.choose('f', [0, 0, 1, 3]))
    h = Helper(x, real, script)
    if real and ch.flip('f', 0.4):
        h.kill_at = ch.given("f", 200, lambda r: r.randrange(200))
    faulty = real and h.kill_at is None and ch.flip('f', 0.4)
    strike = ch.flip('f', 0.15) and ch.given('f', 200, lambda r: r.randrange(1, 200)) or None
    moved = ch.flip('w', 0.2)
    vfs.denied = ['/inst', '/w/dest', '/usr', '/etc', '/opt', '/pre', '/share', '/victims', '/elsewhere']
    if destdir == '/':
        vfs.denied.append('/')
    sim.sample = {'destdir': destdir, 'items': len(wants), 'real': real, 'script': repr(script),
                  'kill': h.kill_at, 'faulty': faulty, 'strike': strike}
    before = tree(vfs)

    def access_denied(path):
        return path in vfs.denied

    def main(mods):
        import fbuild.install
        ctx = context()
        ctx.install_destdir = destdir
        ctx.install_prefix = prefix
        for spelled, subdir, rename, perms in x.items:
            ctx.install(spelled, subdir, rename=rename, perms=perms)
        if faulty:
            x.arm_faults(lambda: h.proc)
        if strike:
            sim.k.arm(p, strike, lambda: sim.sigint(p))
        try:
            fbuild.install.Installer(ctx).install()
            return 'ok'
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            return e
        finally:
            del p.pending[:]
            p.arms = []
            vfs.fault = None
            sim.k.block(lambda: False, 'settle', timeout=1.0, sig=False)
            ctx.db.shutdown()
            ctx.scheduler.shutdown()
    p = sim.world.spawn(main)
    t0 = sim.k.now
    if not sim.world.wait(p, 600):
        sim.violation('hang', 'the install did not end')
    if p.outcome[0] != 'return':
        e = p.outcome[1]
        sim.violation('install-broken', '%r' % (p.outcome,))
    outcome = p.outcome[1]
    if isinstance(outcome, SystemExit) and outcome.code in (0, None):
        sim.violation('false-success', 'the program ended with status 0 without installing everything')
    c = h.cmd
    vfs.denied = []
    if c is not None and h.proc is not None:
        sim.world.wait(h.proc, 10)
    after = tree(vfs)
    want = x.model(before, wants)
    clean = c is not None and c.status == ('exit', 0)
    note(sim, 'helper %s' % ('real' if real else 'stand-in'))
    if outcome == 'ok':
        note(sim, 'success')
        if c is None:
            sim.violation('no-helper', 'nothing was sent to the helper')
        if not clean:
            sim.violation('false-success', 'the helper ended with %r' % (c.status,))
        if real:
            if want is None:
                sim.violation('false-success', 'an item cannot be installed')
            bad = x.compare(after, want, before)
            if bad:
                sim.violation(*(('false-success', bad[1]) if bad[0] == 'not-installed' else bad))
        else:
            if not h.closed and len(h.acked) < len(wants) + 1 or not all(h.acked):
                sim.violation('false-success', 'acknowledged %r of %d; script %r' % (h.acked, len(wants), script))
            sent = [(str.__str__(m[1]), real_os.path.normpath(real_os.path.join('/w', str.__str__(m[2]))), m[3])
                    for m in h.got if m[0] == 'install']
            if sent != [(s, real_os.path.normpath(t), perms) for s, t, perms in wants]:
                sim.violation('wrong-requests', '%r instead of %r' % (sent, wants))
            if h.got[0] != ('chdir', '/w'):
                sim.violation('wrong-requests', 'not told the directory: %r' % (h.got[:1],))
    else:
        note(sim, 'failure')
        good = clean and (want is not None if real else h.closed and all(h.acked))
        interrupted = isinstance(outcome, KeyboardInterrupt)
        if interrupted and not strike:
            sim.violation('install-broken', repr(outcome))
        if good and not strike and not x.fired:
            sim.violation('false-failure', '%r although the helper did everything' % (outcome,))
        if real:
            bad = x.untouched(after, before, x.real_targets(wants))
            if bad:
                sim.violation(*bad)


I01 = Spec(i01, budget=60000)
I02 = Spec(i02, budget=100000)
