"""L01: the log. T01: temporary files."""
import errno
import re
import textwrap
import os as real_os

from sim.run import Spec

from props.schedprops import finish, note

ANSI = re.compile(r'\x1b\[01;\d+m|\x1b\[0m')


class Boom(Exception):
    pass


class Obj:
    """Something that is logged without being a string."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


# -- L01 -----------------------------------------------------------------------------------------

class Logging:
    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.ch = sim.ch
        self.units = []              # [thread, verbosity, newline verbosity, regex, done]
        self.bad = None

    def fail(self, kind, detail=''):
        if self.bad is None:
            self.bad = (kind, detail)

    def check(self):
        if self.bad is not None:
            self.sim.violation(*self.bad)

    def text(self, n):
        ch = self.ch
        body = ch.choose('w', ['x', 'some words', 'y' * 45, 'one\ntwo\nthree', '  indented', 'ünï', 'a: b: c',
                               ''])
        return '<%d>%s' % (n, body)

    def unit(self, verbose, newline, regex):
        u = [self.k.current.tid, verbose, newline, regex, False]
        self.units.append(u)
        return u

    def message(self, log, task, threads):
        """Log one message."""
        ch = self.ch
        n = len(self.units)
        t = self.text(n)
        v = ch.weighted('w', [(0, 5), (1, 3), (2, 1), (3, 1)])
        color = ch.choose('w', [None, 'red', 'compile', 'no such color'])
        obj = ch.flip('w', 0.15)
        kinds = [('log', 5), ('check', 4), ('open', 1), ('passed', 1), ('direct', 1),
                 ('parts', 2 if task and threads > 1 else 0)]
        kind = ch.weighted('w', kinds)
        prefix = r'(?:\S+ *: )?' if self.show else ''
        if kind == 'log':
            u = self.unit(v, v, re.escape(t))
            log.log(Obj(t) if obj else t, verbose=v, color=color)
        elif kind == 'check':
            r = self.text(n).partition('>')[2]
            u = self.unit(v, v, prefix + re.escape(t) + ' *: ' + re.escape(r))
            log.check(t, Obj(r) if obj else r, color=color, verbose=v)
        elif kind == 'open':
            u = self.unit(v, v + 1, prefix + re.escape(t) + ' *: ')
            log.check(t, color=color, verbose=v)
        elif kind == 'passed':
            u = self.unit(0, 0, re.escape(t))
            (log.passed if ch.flip('w', 0.5) else log.failed)(Obj(t) if obj else t)
        elif kind == 'direct':
            u = self.unit(v, v, re.escape(t))
            log.write(t + '\n', buffer=False, verbose=v, color=color)
        else:
            u = self.unit(v, v, re.escape(t + ' - end'))
            log.write(t, verbose=v)
            if ch.flip('w', 0.5):
                self.k.step('body')
            log.write(' - end', verbose=v, color=color)
            log.write('\n', verbose=v)
        u[4] = True

    def parse(self, what, text, level):
        """text must consist of whole messages, each exactly once, those of one thread in order."""
        expected = {i: u for i, u in enumerate(self.units) if level is None or u[1] <= level}
        pos = 0
        seen = set()
        last = {}
        while pos < len(text):
            m = re.compile(r'(?:[^\s<]+ *: )?<(\d+)>').match(text, pos)
            if m is None:
                self.fail('mixed', '%s: no message starts at %d: %r after %r' % (
                    what, pos, text[pos:pos + 60], text[max(0, pos - 60):pos]))
                return
            i = int(m.group(1))
            if i in seen:
                self.fail('repeated', '%s: %r' % (what, text[pos:pos + 60]))
                return
            if i not in expected:
                self.fail('unexpected', '%s: %r has verbosity %d' % (what, text[pos:pos + 60], self.units[i][1]))
                return
            tid, v, nv, regex, done = expected[i]
            end = '\n' if level is None or nv <= level else ''
            m = re.compile(regex + end).match(text, pos)
            if m is None:
                self.fail('mixed', '%s: %r instead of %r' % (what, text[pos:pos + 100], regex))
                return
            seen.add(i)
            if last.get(tid, -1) > i:
                self.fail('out-of-order', '%s: message %d of thread %d after %d' % (what, i, tid, last[tid]))
            last[tid] = i
            pos = m.end()
        lost = [i for i, u in expected.items() if i not in seen and u[4]]
        if lost:
            self.fail('lost', '%s: %r' % (what, [self.units[i][3] for i in lost[:3]]))


def l01(sim):
    ch = sim.ch
    x = Logging(sim)
    threads = ch.choose('w', [1, 2, 2, 3, 4, 8])
    verbose = ch.pick('w', 4)
    x.show = ch.flip('w', 0.2)
    color = ch.flip('w', 0.5)
    outside = ch.flip('w', 0.5)
    rounds = 1 + ch.pick('w', 2)
    die = ch.flip('f', 0.15) and ch.given('f', 1500, lambda r: r.randrange(1, 1500)) or 0
    sim.sample = {'threads': threads, 'verbose': verbose, 'other thread': outside, 'killed': die}

    def main(mods):
        import fbuild.context
        args = ['--database-engine=cache', '-j%d' % threads] + ['-v'] * verbose
        if x.show:
            args.append('--show-threads')
        if not color:
            args.append('--no-color')
        ctx = fbuild.context.make_default_context(args)
        ctx.create_buildroot()
        del mods.out[:]
        stop = []

        def task(depth):
            for _ in range(ch.pick('w', 4)):
                what = ch.weighted('w', [('message', 6), ('step', 2), ('wait', 2), ('nested', 1 if depth else 0)])
                if what == 'message':
                    x.message(ctx.logger, True, threads)
                elif what == 'step':
                    sim.k.step('body')
                elif what == 'wait':
                    with ctx.scheduler.interruptible():
                        sim.k.block(lambda: False, 'command', timeout=ch.choose('w', [0.001, 0.1]))
                        if ch.flip('w', 0.4):
                            x.message(ctx.logger, True, threads)
                else:
                    note(sim, 'nested batches')
                    ctx.scheduler.map(task, [depth - 1] * (1 + ch.pick('w', 3)))
            if ch.flip('w', 0.05):
                raise Boom()

        def other():
            while not stop:
                x.message(ctx.logger, False, threads)
                sim.k.block(lambda: False, 'other', timeout=ch.choose('w', [0.0001, 0.01, 0.1]), sig=False)

        if outside:
            t = mods.get('threading').Thread(target=other)
            t.start()
        if die:
            sim.k.arm(p, die, lambda: sim.k.kill(p))
        for _ in range(rounds):
            x.message(ctx.logger, False, threads)
            try:
                ctx.scheduler.map(task, [2] * (1 + ch.pick('w', 5)))
            except Boom:
                note(sim, 'failing tasks')
        stop.append(1)
        if outside:
            t.join()
        ctx.scheduler.shutdown()
        x.message(ctx.logger, False, threads)
        return 'ok'
    p = sim.world.spawn(main)
    out = p.modules.out
    sim.world.wait(p)
    killed = p.outcome[0] == 'killed'
    log = sim.world.vfs.text('/w/build/fbuild.log') if sim.world.vfs.exists('/w/build/fbuild.log') else ''
    note(sim, 'messages', 1)
    if killed:
        # Whole messages were written; one per thread was under way.
        done = [i for i, u in enumerate(x.units) if u[4]]
        for i in done:
            if len(re.findall(re.escape('<%d>' % i), log)) != 1:
                x.fail('lost', 'killed after message %d was logged' % i)
        note(sim, 'killed')
    else:
        x.parse('log file', log, None)
        x.parse('console', ANSI.sub('', ''.join(out)), verbose)
    x.check()
    if not killed:
        finish(sim, p, [x])


# -- T01 -----------------------------------------------------------------------------------------

class Temp:
    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.ch = sim.ch
        self.vfs = sim.world.vfs
        self.bad = None
        self.handed = {}
        self.serial = 0
        self.faulted = False
        self.fault_unlink = False

    def fail(self, kind, detail=''):
        if self.bad is None:
            self.bad = (kind, detail)

    def check(self):
        if self.bad is not None:
            self.sim.violation(*self.bad)

    def listing(self, d):
        try:
            n = self.vfs.node(d, follow=False)
        except OSError:
            return None
        return sorted(n.entries) if n.kind == 'dir' else None

    def new(self, path, under):
        if str(path) in self.handed:
            self.fail('shared', '%s was handed out twice' % path)
        self.handed[str(path)] = True
        if real_os.path.dirname(str(path)) != under:
            self.fail('wrong-place', '%s is not in %s' % (path, under))

    def use(self, temp, depth):
        """One use of a temporary file or directory."""
        ch = self.ch
        self.serial += 1
        serial = self.serial
        kind = ch.choose('w', ['dir', 'file', 'file'])
        delete = ch.choose('w', [None, True, True, False])
        kw = {} if delete is None else {'delete': delete}
        under = self.tmp
        if ch.flip('w', 0.15):
            under = kw['dir'] = '/w/mine'
        if ch.flip('w', 0.3):
            kw['prefix'] = 'p%d-' % ch.pick('w', 3)
        boom = Boom(serial) if ch.flip('w', 0.2) else None
        src = ch.choose('w', ['', 'int main() {}', '    a\n      b\n    c\n', 'é\n', 'z' * 20000, '\ttabbed'])
        path = None
        error = None
        top = None
        try:
            if kind == 'dir':
                with temp.tempdir(**kw) as path:
                    top = str(path)
                    self.new(path, under)
                    if self.listing(top) != []:
                        self.fail('not-new', '%s holds %r' % (path, self.listing(top)))
                    mine = self.work(temp, top, depth, serial)
                    if self.listing(top) != sorted(mine):
                        self.fail('not-private', '%s holds %r instead of %r' % (path, self.listing(top), mine))
                    if boom:
                        raise boom
            else:
                suffix = ch.choose('w', ['', '.c', '.tar.gz'])
                name = ch.choose('w', ['temp', 'other'])
                if name != 'temp' or ch.flip('w', 0.5):
                    kw['name'] = name
                with temp.tempfile(src, suffix, **kw) as path:
                    top = real_os.path.dirname(str(path))
                    self.new(top, under)
                    if real_os.path.basename(str(path)) != name + suffix:
                        self.fail('wrong-name', '%s' % path)
                    want = (textwrap.dedent(src) + '\n').encode()
                    for n in range(2):
                        try:
                            got = self.vfs.read(str(path))
                        except OSError:
                            got = None
                        if got != want:
                            self.fail('wrong-text', '%s holds %r instead of %r' % (path, got, want[:60]))
                        if n == 0:
                            mine = self.work(temp, top, depth, serial) + [name + suffix]
                    if self.listing(top) != sorted(mine):
                        self.fail('not-private', '%s holds %r instead of %r' % (top, self.listing(top), mine))
                    if boom:
                        raise boom
        except Boom as e:
            error = e
        except OSError as e:
            if not self.faulted:
                self.fail('failed', repr(e))
            error = e
        if top is None:
            if error is None:
                self.fail('failed', 'nothing was handed out')
            note(self.sim, 'no temporary file')
            return
        if boom is not None and error is not boom and not isinstance(error, OSError):
            self.fail('failure-hidden', '%r instead of %r' % (error, boom))
        if boom is None and isinstance(error, Boom):
            self.fail('failure-invented', repr(error))
        gone = self.listing(top) is None
        if delete and not gone and not self.fault_unlink:
            self.fail('left-behind', '%s was to be deleted' % top)
        if not delete and gone:
            self.fail('deleted', '%s was to be kept' % top)
        note(self.sim, 'uses')

    def work(self, temp, top, depth, serial):
        """What the user does with the directory."""
        ch = self.ch
        mine = []
        for n in range(ch.pick('w', 3)):
            what = ch.weighted('w', [('write', 3), ('step', 2), ('wait', 2), ('link', 1), ('nested', 1 if depth else 0),
                                     ('sub', 1)])
            if what == 'write':
                self.vfs.write('%s/f%d' % (top, n), b'%d' % serial)
                mine.append('f%d' % n)
            elif what == 'link':
                self.vfs.symlink(ch.choose('w', ['/w/precious', '/w/precious/a', '/w/mine']), '%s/l%d' % (top, n))
                mine.append('l%d' % n)
            elif what == 'sub':
                self.vfs.mkdirs('%s/s%d/t' % (top, n))
                self.vfs.write('%s/s%d/t/u' % (top, n), b'%d' % serial)
                mine.append('s%d' % n)
            elif what == 'step':
                self.k.step('body')
            elif what == 'wait':
                with self.ctx.scheduler.interruptible():
                    self.k.block(lambda: False, 'command', timeout=ch.choose('w', [0.001, 0.1]))
            else:
                self.use(temp, depth - 1)
        return mine


def t01(sim):
    ch = sim.ch
    x = Temp(sim)
    vfs = sim.world.vfs
    vfs.write('/w/keep', b'keep')
    vfs.mkdirs('/w/precious')
    vfs.mkdirs('/w/mine')
    vfs.mkdirs('/w/sub')
    vfs.write('/w/precious/a', b'a')
    threads = ch.choose('w', [1, 2, 3, 4, 8])
    root = ch.choose('w', ['build', '/w/out/b', 'sub/../b2'])
    x.tmp = real_os.path.normpath(real_os.path.join('/w', root, '.tmp'))
    stale = ch.flip('w', 0.3)
    if stale:
        vfs.mkdirs(x.tmp + '/tmpold')
        vfs.write(x.tmp + '/tmpold/f', b'old')
        vfs.symlink('/w/precious', x.tmp + '/tmpold/l')
    collide = ch.flip('f', 0.4)
    errors = ch.flip('f', 0.25)
    chdir = ch.flip('w', 0.2)
    sim.sample = {'threads': threads, 'root': root, 'collisions': collide, 'errors': errors}

    def fault(op, path, proc):
        if not path.startswith((x.tmp + '/', '/w/mine/')) or op in ('short-write', 'stat'):
            return None
        if op == 'mkdir' and collide and '/s' not in path and ch.flip('f', 0.3):
            return errno.EEXIST
        if errors and op in ('mkdir', 'open-w', 'write') and ch.flip('f', 0.1):
            x.faulted = True
            return ch.choose('f', [errno.ENOSPC, errno.EIO])
        if errors and op in ('unlink', 'rmdir', 'readdir') and ch.flip('f', 0.05):
            x.fault_unlink = True
            return errno.EIO

    def main(mods):
        import fbuild.context
        import fbuild.temp
        ctx = fbuild.context.make_default_context(
            ['--database-engine=cache', '-j%d' % threads, '--buildroot=' + root])
        x.ctx = ctx
        ctx.create_buildroot()
        if x.listing(x.tmp) != []:
            x.fail('not-cleared', 'the temporary directory holds %r at the start' % (x.listing(x.tmp),))
        vfs.fault = fault
        if chdir:
            mods.get('os').chdir('/w/sub')
        before = vfs.files('/w')
        ctx.scheduler.map(lambda i: x.use(fbuild.temp, 1), range(1 + ch.pick('w', 6)))
        x.use(fbuild.temp, 1)
        if chdir:
            mods.get('os').chdir('/w')
        vfs.fault = None
        ctx.clear_temp_dir()
        if x.listing(x.tmp) is not None:
            x.fail('not-cleared', 'the temporary directory is still there')
        after = vfs.files('/w')
        lost = [f for f in before if f not in after and not f.startswith(x.tmp)]
        if lost:
            x.fail('removed-other', '%r' % (lost,))
        ctx.scheduler.shutdown()
        return 'ok'
    p = sim.world.spawn(main)
    sim.world.wait(p)
    x.check()
    for f, data in (('/w/keep', b'keep'), ('/w/precious/a', b'a')):
        if not vfs.exists(f) or vfs.read(f) != data:
            sim.violation('removed-other', f)
    finish(sim, p, [x])


L01 = Spec(l01, budget=150000, lines=0.3)
T01 = Spec(t01, budget=150000, lines=0.3)
