"""M01: how a build ends."""

from sim.run import Spec

from props.schedprops import note, threads_alive

ROOT = '''
import fbuild
import fbuild.db
import fbuild.target

@fbuild.db.caches
def cached(ctx, name, src: fbuild.db.SRC):
    return H.run_cached(ctx, name, src)

def arguments(parser):
    group = parser.add_argument_group('config options')
    group.add_argument('--extra-option', default='none')
    return parser

def post_arguments(parser, args):
    H.options = args.extra_option
    return args

def configure(ctx):
    H.target(ctx, 'configure')

def build(ctx):
    H.target(ctx, 'build')

@fbuild.target.register()
def extra(ctx):
    H.target(ctx, 'extra')

@fbuild.target.register(name='named', help='another one')
def something(ctx):
    H.target(ctx, 'named')
'''
HOOKS = '''
def pre_install(ctx):
    H.target(ctx, 'pre_install')

def post_install(ctx):
    H.target(ctx, 'post_install')
'''


class Odd(Exception):
    pass


FAILURES = ['error', 'config', 'odd', 'command', 'signalled', 'interrupt', 'ioerror']


class Build:
    """One run of the program."""

    def __init__(self, m, targets, plans, options):
        self.m = m
        self.k = m.k
        self.targets = targets
        self.plans = plans
        self.ran = []
        self.finished = []
        self.kept = []
        self.completed = []
        self.begun = []
        self.failure = None
        self.entered = False
        self.options = None
        self.opts = options
        self.struck = 0
        self.late = True
        self.calm = True             # not interrupted before the targets were run, nor twice
        self.over = False
        self.files = 0

    # called by the build script
    def target(self, ctx, name):
        self.entered = True
        self.ran.append(name)
        self.m.order(self)
        for op in self.plans.get(name, ()):
            self.do(ctx, op, True)
        self.finished.append(name)

    def run_cached(self, ctx, name, src):
        self.begun.append(name)
        with ctx.scheduler.interruptible():
            self.k.block(lambda: False, 'work', timeout=0.01)
        with self.m.mods.fopen(src) as f:
            return name + f.read()

    def fail(self, kind):
        import fbuild
        if kind == 'error':
            e = fbuild.Error('something specific went wrong')
        elif kind == 'config':
            e = fbuild.ConfigFailed('could not configure')
        elif kind == 'odd':
            e = Odd('unexpected')
        elif kind == 'ioerror':
            e = OSError(5, 'Input/output error')
        else:
            e = KeyboardInterrupt()
        if self.failure is None:
            self.failure = (kind, e)
        raise e

    def do(self, ctx, op, main):
        k = self.k
        kind = op[0]
        if kind == 'step':
            for _ in range(op[1]):
                k.step('body')
        elif kind == 'cached':
            import fbuildroot
            n = len(self.begun)
            v = fbuildroot.cached(ctx, op[1], 'src-' + op[1])
            want = op[1] + self.m.content[op[1]]
            if v != want:
                self.m.bad('wrong-result', '%r instead of %r' % (v, want))
            self.completed.append(op[1])
        elif kind == 'map':
            ctx.scheduler.map(lambda ops: [self.do(ctx, o, False) for o in ops], op[1])
        elif kind == 'execute':
            try:
                ctx.execute(['cmd', str(op[1]), str(op[2])], 'running', 'cmd', quieter=1,
                            ignore_error=op[3])
            except Exception as e:
                if self.failure is None:
                    self.failure = ('command', e)
                raise
            except KeyboardInterrupt as e:
                if op[2] < 0 and self.failure is None:
                    self.failure = ('signalled', e)
                raise
        elif kind == 'temp':
            import fbuild.temp
            with fbuild.temp.tempfile('text', '.c', delete=op[1]) as path:
                k.step('body')
                if not op[1]:
                    self.kept.append(str(path))
        elif kind == 'install':
            self.files += 1
            ctx.install('src-' + op[1], 'share')
            ctx.install_destdir = '/inst'
        elif kind == 'fail':
            self.fail(op[1])


class Main:
    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.ch = sim.ch
        self.vfs = sim.world.vfs
        self.content = {}
        self.saved = {}              # name -> content it was computed from
        self.maybe = set()
        self.problem = None
        self.mods = None
        sim.procs.add_program('cmd', self.program)
        sim.procs.add_program('uname', self.program)

    def bad(self, kind, detail=''):
        if self.problem is None:
            self.problem = (kind, detail)

    def check(self):
        if self.problem is not None:
            self.sim.violation(*self.problem)

    def program(self, c):
        yield float(c.args[1]) if len(c.args) > 1 else 0.0
        c.out('output\n')
        rc = int(c.args[2]) if len(c.args) > 2 else 0
        if rc < 0:
            yield ('die', -rc)
        yield ('exit', rc)

    # -- plans ---------------------------------------------------------------------------------

    def draw_op(self, depth, failing, top):
        ch = self.ch
        kind = ch.weighted('w', [('step', 3), ('cached', 5), ('execute', 3), ('temp', 2),
                                 ('map', 3 if depth else 0), ('fail', 2 if failing else 0),
                                 ('install', 1 if top else 0)])
        if kind == 'step':
            return (kind, 1 + ch.pick('w', 4))
        if kind == 'cached':
            return (kind, ch.choose('w', 'abcde'))
        if kind == 'execute':
            rc = ch.weighted('w', [(0, 8), (1, 2 if failing else 0), (-2, 1 if failing else 0),
                                   (-9, 1 if failing else 0)])
            return (kind, ch.choose('w', [0.0, 0.05, 1.0]), rc, ch.flip('w', 0.2))
        if kind == 'temp':
            return (kind, ch.flip('w', 0.4))
        if kind == 'map':
            return (kind, [[self.draw_op(depth - 1, failing, False) for _ in range(ch.pick('w', 4))]
                           for _ in range(1 + ch.pick('w', 4))])
        if kind == 'install':
            return (kind, ch.choose('w', 'abcde'))
        return (kind, ch.choose('w', ['error', 'config', 'odd', 'interrupt', 'ioerror']))

    def draw_targets(self):
        ch = self.ch
        t = ch.weighted('w', [('default', 4), ('some', 4), ('install', 2), ('bad', 1), ('misplaced', 1)])
        names = ['configure', 'build', 'extra', 'named']
        if t == 'default':
            return []
        some = [ch.choose('w', names) for _ in range(1 + ch.pick('w', 3))]
        if t == 'some':
            return some
        if t == 'install':
            return ch.choose('w', [['install'], ['configure', 'install'], ['build', 'install'],
                                   some + ['install']])
        if t == 'bad':
            return some[:1] + ['nosuch'] + some[1:]
        return ['install'] + some

    def expected(self, targets):
        """The targets that should be run, and what is wrong with them."""
        t = list(targets) or ['build']
        if 'install' in t:
            if t[-1] != 'install':
                return [], 'misplaced'
            if not set(t) - {'configure', 'install'}:
                t.insert(t.index('install'), 'build')
        res = []
        for name in t:
            if name == 'install':
                res += ['pre_install', 'post_install'] if self.hooks else []
            elif name == 'nosuch':
                return res, 'invalid'
            else:
                res.append(name)
        return res, None

    def order(self, b):
        want, _ = self.expected(b.targets)
        if b.ran != want[:len(b.ran)]:
            self.bad('wrong-targets', 'ran %r of %r' % (b.ran, want))

    # -- one build -----------------------------------------------------------------------------

    def build(self, first):
        sim, ch, vfs, k = self.sim, self.ch, self.vfs, self.k
        for n in 'abcde':
            if n not in self.content or ch.flip('w', 0.1):
                self.content[n] = '%d.%d' % (len(self.content), ch.pick('w', 1000))
                vfs.write('/w/src-' + n, self.content[n])
        k.block(lambda: False, 'pause', timeout=2.0)
        failing = ch.flip('w', 0.5)
        targets = self.draw_targets()
        plans = {n: [self.draw_op(2, failing, True) for _ in range(ch.pick('w', 5))]
                 for n in ('configure', 'build', 'extra', 'named', 'pre_install', 'post_install')}
        opts = []
        if not first and ch.flip('w', 0.1):
            opts.append(ch.choose('w', ['--rebuild', '--configure']))
        if ch.flip('w', 0.06):
            opts.append('--do-not-save-database')
        if ch.flip('w', 0.05):
            opts.append('--clean')
        if ch.flip('w', 0.03):
            opts.append('--bogus')
        if ch.flip('w', 0.15):
            opts.append('--explain-database')
        if ch.flip('w', 0.2):
            opts.append('--extra-option=given')
        root = ch.weighted('w', [('good', 20), ('missing', 1), ('broken', 1)])
        argv = ['fbuild', '--database-engine=' + self.engine, '-j%d' % self.threads] + opts + targets
        strike = 0
        if ch.flip('f', self.p_strike):
            strike = ch.given('f', 3000, lambda r: r.randrange(1, r.choice([100, 600, 3000])))
        again = strike and ch.flip('f', 0.25) and ch.given('f', 300, lambda r: r.randrange(1, 300))
        b = Build(self, targets, plans, opts)
        self.builds.append(repr((argv[2:], root, strike))[:200])
        source = ROOT + (HOOKS if self.hooks else '')
        project = {'fbuildroot': source}
        if root == 'missing':
            project = {}
            if vfs.exists('/w/fbuildroot.py'):
                vfs.remove('/w/fbuildroot.py')
        elif root == 'broken':
            project = {'fbuildroot': 'import no_such_module\n'}
            vfs.write('/w/fbuildroot.py', project['fbuildroot'])
        result = []
        saved_before = vfs.files('/w/build') if vfs.exists('/w/build') else {}

        def main(mods):
            self.mods = mods
            b.mods = mods
            import fbuild.main
            if root == 'good':
                import fbuildroot
                fbuildroot.H = b
            try:
                return fbuild.main.main(argv)
            finally:
                b.over = True
                p.arms = []
                b.undelivered = bool(p.pending)
                result.append([t.name for t in threads_alive(mods)
                               if not t.daemon or b.entered and b.calm and (
                                   not b.struck or 'Worker' in type(t).__name__)])
                del p.pending[:]
        p = sim.world.spawn(main, argv=argv, project=project)

        def hit():
            if b.over:
                return
            b.struck += 1
            b.calm = b.struck == 1 and b.entered
            # What arrives while the state is being saved is ignored.
            b.late = b.late and b.finished == self.expected(b.targets)[0]
            sim.procs.ctrl_c(p)
            if b.struck == 1 and again:
                k.arm(p, again, hit)
        if strike:
            k.arm(p, strike, hit)
        if not sim.world.wait(p, 3000):
            sim.violation('hang', 'the build did not end')
        self.check()
        self.judge(b, p, root, opts, result)
        self.check()
        return True

    def judge(self, b, p, root, opts, result):
        vfs = self.vfs
        o = p.outcome
        what = '%s %r: %r' % (b.targets, opts, o)
        want, wrong = self.expected(b.targets)
        success = o[0] == 'return' and o[1] in (0, None) or o[0] == 'exit' and o[1] in (0, None)
        interrupted = o[0] == 'raise' and isinstance(o[1], KeyboardInterrupt)
        delivered = b.struck and not (b.struck == 1 and b.undelivered)
        clean = '--clean' in opts
        if result and result[0]:
            self.bad('threads-left', '%s: %r' % (what, result[0]))
        if p.thread_errors and not (delivered or b.failure):
            self.bad('thread-died', '%s: %r' % (what, p.thread_errors[:2]))
        if '--bogus' in opts:
            if not delivered and not (o[0] == 'exit' and o[1] == 2):
                self.bad('wrong-status', what)
            return
        # The exit status.
        bad_root = root != 'good'
        done = b.ran == want and b.finished == want and wrong is None and b.failure is None
        if clean and not bad_root:
            if not delivered and (not success or b.ran or vfs.exists('/w/build')):
                self.bad('wrong-status', what)
            self.saved.clear()
            if vfs.exists('/w/build'):
                vfs.rmtree('/w/build')
            note(self.sim, 'cleaned')
            return
        if bad_root:
            if success or b.ran:
                self.bad('false-success', '%s without a build script' % what)
            note(self.sim, 'no build script')
            return
        note(self.sim, 'success' if success else 'interrupted' if interrupted else 'failure')
        if success and not done:
            self.bad('false-success', '%s: ran %r of %r, failure %r' % (what, b.ran, want, b.failure))
        if success and delivered and not b.late:
            self.bad('interrupt-swallowed', what)
        if not success and done and not delivered:
            self.bad('false-failure', what)
        if delivered and not b.late and b.failure is None and not interrupted and not (wrong and o[0] == 'exit'):
            self.bad('interrupt-swallowed', what)
        if not delivered and b.failure is not None:
            kind, e = b.failure
            if kind in ('error', 'config', 'command'):
                ok = o[0] == 'exit' and o[1] == 1
            elif kind in ('interrupt', 'signalled'):
                ok = interrupted
            else:
                ok = o[0] == 'raise' and o[1] is e
            # Another task may have failed differently at the same time.
            if not ok and not self.several(b):
                self.bad('wrong-failure', '%s after %r' % (what, b.failure))
        if interrupted and not delivered and not (b.failure and b.failure[0] in ('interrupt', 'signalled')) \
                and not self.several(b):
            self.bad('wrong-failure', '%s: nobody interrupted it' % what)
        if wrong and not delivered and b.failure is None and not (o[0] == 'exit' and o[1] == 1):
            self.bad('wrong-failure', '%s: %s target' % (what, wrong))
        # The temporary directory.
        tmp = vfs.exists('/w/build/.tmp', follow=False)
        if success and tmp:
            self.bad('temp-left', what)
        if b.entered and not success and not done:
            lost = [f for f in b.kept if not vfs.exists(f)]
            if not tmp or lost:
                self.bad('temp-removed', '%s: %r' % (what, lost))
        # Installed files.
        if success and b.targets[-1:] == ['install']:
            note(self.sim, 'installs', b.files)
        # The state.
        self.runs(b, opts, what)
        nosave = '--do-not-save-database' in opts
        if self.engine == 'cache':
            return
        if nosave:
            self.maybe |= set(b.begun)
            if self.engine == 'pickle' and any(x in opts for x in ('--rebuild', '--configure')) and b.entered:
                self.maybe |= set(self.saved)
            return
        for n in b.begun:
            self.maybe.add(n)
        for n in b.completed:
            self.saved[n] = self.content[n]
            self.maybe.discard(n)

    def several(self, b):
        def count(ops):
            n = 0
            for op in ops:
                if op[0] == 'fail' or op[0] == 'execute' and op[2]:
                    n += 1
                elif op[0] == 'map':
                    n += sum(count(x) for x in op[1])
            return n
        return sum(count(ops) for ops in b.plans.values()) > 1

    def runs(self, b, opts, what):
        """What was kept from earlier builds was used, and everything else was run."""
        fresh = any(x in opts for x in ('--rebuild', '--configure'))
        if fresh and b.entered and self.engine != 'cache' and '--do-not-save-database' not in opts:
            self.saved, self.maybe = {}, set()
        elif fresh:
            self.maybe |= set(self.saved)
        if self.engine == 'cache':
            self.saved, self.maybe = {}, set()
        counts = {}
        for n in b.begun:
            counts[n] = counts.get(n, 0) + 1
        for n, c in counts.items():
            if self.saved.get(n) == self.content[n] and n not in self.maybe:
                self.bad('state-lost', '%s: %r was run again' % (what, n))
        for n in b.completed:
            if n not in counts and self.saved.get(n) != self.content[n] and n not in self.maybe:
                self.bad('not-run', '%s: %r' % (what, n))
        if b.begun or b.completed:
            note(self.sim, 'state checks')


def m01(sim):
    ch = sim.ch
    m = Main(sim)
    m.engine = ch.choose('w', ['pickle', 'sqlite', 'cache'])
    m.threads = ch.choose('w', [1, 1, 2, 3, 4])
    m.hooks = ch.flip('w', 0.6)
    m.p_strike = ch.choose('f', [0.0, 0.5, 0.8])
    m.builds = []
    sim.world.vfs.mkdirs('/w')
    sim.sample = {'engine': m.engine, 'threads': m.threads, 'builds': m.builds}
    for i in range(1 + ch.pick('w', 4)):
        if not m.build(i == 0):
            return


M01 = Spec(m01, budget=400000)
