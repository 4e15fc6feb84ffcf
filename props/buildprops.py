"""B01, B02: building C objects, libraries and executables with simulated tools."""
import re

from sim.run import Spec

from props.schedprops import note

ROOT = '''
import fbuild
import fbuild.builders.c
import fbuild.builders.c.gcc
import fbuild.builders.cxx.gxx

def build(ctx):
    H.run(ctx)
'''
SAVED = '/saved'
SYSTEM = ('stdio.h', 'stdlib.h')


# -- the tools -------------------------------------------------------------------------------------

class Tools:
    """gcc, g++, ar, ranlib and uname, and the programs they make."""

    def __init__(self, sim):
        self.sim = sim
        self.ch = sim.ch
        self.k = sim.k
        self.vfs = sim.world.vfs
        self.log = []               # (tool, normalised arguments)
        self.p_fail = 0.0
        self.partial = False
        self.deterministic = False
        p = sim.procs
        for name in ('gcc', 'g++'):
            p.add_program(name, self.gcc)
        p.add_program('ar', self.ar)
        p.add_program('ranlib', self.ranlib)
        p.add_program('uname', self.uname)
        p.programs['#!exe'] = self.exe

    def time(self):
        return self.ch.choose('s', [0.0, 0.001, 0.01, 0.05, 0.3, 2.0])

    def note(self, c):
        args = [str.__str__(a) for a in c.args]
        if '-MF' in args:
            args[args.index('-MF') + 1] = 'DEP'
        self.log.append(tuple(re.sub(r'\.tmp/\w+', '.tmp/X', a) for a in args))

    def trouble(self, c):
        """A failure that has nothing to do with what is built."""
        if self.p_fail and self.ch.flip('f', self.p_fail):
            kind = self.ch.choose('f', ['exit', 'signal', 'nothing'])
            self.k.count('fault:tool-' + kind)
            return kind
        return None

    def uname(self, c):
        self.note(c)
        yield self.time()
        c.out('Linux\n')

    def exe(self, c):
        yield self.time()
        data = c.read(c.args[0])
        if b'printf("%d", foo())' in data:
            c.out('5')

    def ranlib(self, c):
        self.note(c)
        yield self.time()
        if not c.vfs.exists(c.path(c.args[-1])):
            c.errout('ranlib: no such file\n')
            yield ('exit', 1)

    def ar(self, c):
        self.note(c)
        args = [str.__str__(a) for a in c.args[1:]]
        if 'r' not in args[0]:
            c.errout('ar: bad operation\n')
            yield ('exit', 1)
        files = [a for a in args if not a.startswith('-')]
        dst, srcs = files[0], files[1:]
        yield self.time()
        t = self.trouble(c)
        if t == 'signal':
            yield ('die', 11)
        if t == 'exit':
            c.errout('ar: something happened\n')
            yield ('exit', 1)
        # Members are replaced by name, others are kept.
        old = []
        if c.vfs.exists(c.path(dst)):
            data = c.read(dst)
            if not data.startswith(b'!<arch>'):
                c.errout('ar: %s: file format not recognized\n' % dst)
                yield ('exit', 1)
            old = [tuple(m.split(b'\0', 1)) for m in data.split(b'\1')[1:]]
        new = [None] * len(old)
        for s in srcs:
            if not c.vfs.exists(c.path(s)):
                c.errout('ar: %s: no such file\n' % s)
                yield ('exit', 1)
            name = s.rsplit('/', 1)[-1].encode()
            member = (name, c.read(s))
            for i, m in enumerate(old):
                if m[0] == name and new[i] is None:
                    new[i] = member
                    break
            else:
                old.append((b'', b''))
                new.append(member)
        for i, m in enumerate(new):
            if m is not None:
                old[i] = m
        yield self.time()
        c.write(dst, b'!<arch>' + b''.join(b'\1' + m[0] + b'\0' + m[1] for m in old))

    def gcc(self, c):
        args = [str.__str__(a) for a in c.args[1:]]
        if args == ['--version']:
            c.out('gcc (GCC) 13.2.0\nCopyright (C) Free Software Foundation, Inc.\n')
            yield ('exit', 0)
        self.note(c)
        dst, dep, incs, libdirs, libs, srcs, rest = 'a.out', None, [], [], [], [], []
        i = 0
        while i < len(args):
            a = args[i]
            if a == '-o':
                i += 1
                dst = args[i]
            elif a == '-MF':
                i += 1
                dep = args[i]
            elif a == '-MMD':
                pass
            elif a.startswith('-I'):
                incs.append(a[2:])
            elif a.startswith('-L'):
                libdirs.append(a[2:])
            elif a.startswith('-l'):
                libs.append(a[2:])
            elif a.startswith('-'):
                rest.append(a)
            else:
                srcs.append(a)
            i += 1
        yield self.time()
        t = self.trouble(c)
        if t == 'signal':
            yield ('die', 11)
        problem = []
        deps = []
        if '-c' in rest:
            out = ['OBJ %s' % ' '.join(rest)]
            for s in srcs:
                self.preprocess(c, s, None, incs, out, deps, problem, 0)
            data = '\n'.join(out).encode()
        else:
            data, deps = self.link(c, srcs, libdirs, libs, rest, problem, incs)
        if t == 'exit' or problem:
            c.errout(problem[0] if problem else 'internal compiler error\n')
            yield ('exit', 1)
        if self.partial and self.ch.flip('f', 0.3):
            self.k.count('fault:partial-output')
            c.write(dst, data[:len(data) // 2])
        yield self.time()
        if t == 'nothing':
            yield ('exit', 4)
        if dep is not None:
            if '-MMD' not in args:
                problem.append('-MF without -MMD')
            def quote(name):
                return re.sub(r'([ #])', r'\\\1', name).replace('$', '$$')
            lines = ['%s: %s' % (quote(dst), quote(srcs[0]))]
            for d in map(quote, deps):
                if len(lines[-1]) > 60:
                    lines[-1] += ' \\'
                    lines.append(' ' + d)
                else:
                    lines[-1] += ' ' + d
            c.write(dep, '\n'.join(lines) + '\n')
        c.write(dst, data)
        if '-c' not in rest:
            c.vfs.node(c.path(dst)).mode = 0o755

    def preprocess(self, c, name, frm, incs, out, deps, problem, depth):
        if depth > 12:
            problem.append('%s: includes nested too deeply\n' % name)
            return
        if not c.vfs.exists(c.path(name)):
            problem.append('%s: no such file\n' % name)
            return
        for line in c.read(name).decode().splitlines():
            line = line.strip()
            m = re.match(r'#include ["<](.*)[">]', line)
            if line.startswith('#error'):
                problem.append('%s: %s\n' % (name, line))
            if not m:
                out.append(line)
                continue
            inc = m.group(1)
            dirs = ([name.rsplit('/', 1)[0] if '/' in name else '.'] if '"' in line else []) + incs
            for d in dirs:
                p = '%s/%s' % (d, inc) if d != '.' else inc
                if c.vfs.exists(c.path(p)):
                    if p not in deps:
                        deps.append(p)
                        self.preprocess(c, p, name, incs, out, deps, problem, depth + 1)
                    break
            else:
                if inc not in SYSTEM:
                    problem.append('%s: %s: no such file\n' % (name, inc))

    def link(self, c, srcs, libdirs, libs, rest, problem, incs):
        shared = '-shared' in rest
        out = ['#!so' if shared else '#!exe ', ' '.join(rest)]
        for s in srcs:
            if not c.vfs.exists(c.path(s)):
                problem.append('ld: %s: no such file\n' % s)
                continue
            if s.endswith('.c') or s.endswith('.cc'):
                self.preprocess(c, s, None, incs, out, [], problem, 0)
                continue
            data = c.read(s).decode()
            if not data.startswith('OBJ'):
                problem.append('ld: %s: file format not recognized\n' % s)
            out.append(data)
        for lib in libs:
            for d, suffix in [(d, x) for d in libdirs for x in ('.so', '.a')]:
                p = '%s/lib%s%s' % (d, lib, suffix)
                if c.vfs.exists(c.path(p)):
                    data = c.read(p).decode()
                    if suffix == '.a':
                        out.append(data)
                    else:
                        out.append('NEEDED %s %s' % (p, sorted(
                            x for x in data.splitlines() if x.startswith('def '))))
                    break
            else:
                problem.append('ld: cannot find -l%s\n' % lib)
        return '\n'.join(out).encode(), []


# -- the project -----------------------------------------------------------------------------------

class Target:
    def __init__(self, name, kind, builder, srcs, libs):
        self.name = name
        self.kind = kind
        self.builder = builder
        self.srcs = srcs
        self.libs = libs
        self.macros = []
        self.cflags = []
        self.lflags = []
        self.seen = set()


class Tree:
    """The sources and the build script's targets."""

    def __init__(self, sim):
        self.sim = sim
        self.ch = sim.ch
        self.vfs = sim.world.vfs
        self.n = 0
        self.files = {}              # path -> list of lines
        self.old = {}                # path -> earlier contents
        ch = self.ch
        self.suffix = ch.choose('w', ['.c', '.c', '.cc'])
        self.odd = ch.flip('w', 0.2)
        for d in ('src', 'src/sub', 'include', 'include2'):
            self.vfs.mkdirs('/w/' + d)
        for i in range(ch.pick('w', 5)):
            self.add_header()
        for i in range(1 + ch.pick('w', 5)):
            self.add_source()
        self.targets = []
        for i in range(1 + ch.pick('w', 4)):
            self.add_target()
        self.root_macros = []
        self.write_all()

    def fresh(self):
        self.n += 1
        return self.n

    def stem(self, name):
        return name + (self.ch.choose('w', ['', ' ', '$', '#', ' + ']) if self.odd else '')

    def headers(self):
        return sorted(f for f in self.files if f.endswith('.h'))

    def sources(self):
        return sorted(f for f in self.files if not f.endswith('.h'))

    def inc_name(self, h, frm):
        """How a file includes a header."""
        d, base = h.rsplit('/', 1)
        if d in ('include', 'include2'):
            return '#include <%s>' % base if self.fresh() % 2 else '#include "%s"' % base
        if frm.rsplit('/', 1)[0] == d:
            return '#include "%s"' % base
        return None

    def lines(self, path):
        ch = self.ch
        out = []
        # A header only includes headers made before it (cycles are cut by the tools anyway).
        for h in self.headers():
            if h != path and ch.flip('w', 0.4):
                line = self.inc_name(h, path)
                if line is not None:
                    out.append(line)
        if ch.flip('w', 0.2):
            out.append('#include <stdio.h>')
        if not path.endswith('.h') or ch.flip('w', 0.5):
            out.append('def f%d' % self.fresh())
        out.append('val %d' % self.fresh())
        return out

    def add_header(self):
        d = self.ch.choose('w', ['include', 'include', 'include2', 'src', 'src/sub'])
        path = '%s/%s%d.h' % (d, self.stem('h'), self.fresh())
        self.files[path] = self.lines(path)
        return path

    def add_source(self):
        d = self.ch.choose('w', ['src', 'src', 'src/sub'])
        path = '%s/%s%d%s' % (d, self.stem('s'), self.fresh(), self.suffix)
        if self.odd and self.sources() and self.ch.flip('w', 0.2):
            # The name of a source in another directory.
            twin = d + '/' + self.ch.choose('w', self.sources()).rsplit('/', 1)[1]
            path = path if twin in self.files else twin
        self.files[path] = self.lines(path)
        return path

    def add_target(self):
        ch = self.ch
        kind = ch.weighted('w', [('lib', 3), ('exe', 2)])
        builder = ch.choose('w', ['static', 'static', 'shared'])
        srcs = [s for s in self.sources() if ch.flip('w', 0.6)] or [ch.choose('w', self.sources())]
        libs = [t for t in self.targets if t.kind == 'lib' and ch.flip('w', 0.6)]
        t = Target('%s%d' % (self.stem(kind), self.fresh()), kind, builder, srcs, libs)
        if ch.flip('w', 0.3):
            t.macros.append('M%d' % self.fresh())
        self.targets.append(t)

    def write(self, path):
        self.vfs.write('/w/' + path, '\n'.join(self.files[path]) + '\n')

    def write_all(self):
        for path in self.files:
            self.write(path)

    # -- edits

    def edit(self, revert, toggle):
        """One change of the tree. Returns what was done."""
        ch = self.ch
        what = ch.weighted('w', [('value', 6), ('includes', 3), ('touch', 1), ('revert', 2 if revert else 0),
                                 ('add header', 2), ('remove header', 2), ('break', 1), ('rename header', 1),
                                 ('options', 2), ('add source', 1), ('drop source', 1), ('delete output', 2),
                                 ('root options', 1), ('add target', 1),
                                 ('toggle', 2 if toggle else 0)])
        path = ch.choose('w', sorted(self.files))
        t = ch.choose('w', self.targets)
        if what == 'value':
            self.change(path, [x for x in self.files[path] if not x.startswith(('val', '#error'))]
                        + ['val %d' % self.fresh()])
        elif what == 'includes':
            self.change(path, self.lines(path))
        elif what == 'touch':
            self.write(path)
        elif what == 'revert':
            if self.old.get(path):
                self.change(path, ch.choose('w', self.old[path]))
        elif what == 'add header':
            h = self.add_header()
            self.write(h)
            line = self.inc_name(h, path)
            if line is not None and path != h:
                self.change(path, [line] + self.files[path])
        elif what in ('remove header', 'rename header'):
            if self.headers():
                h = ch.choose('w', self.headers())
                old = self.files.pop(h)
                self.vfs.remove('/w/' + h)
                base = h.rsplit('/', 1)[1]
                new = None
                if what == 'rename header':
                    new = '%s/%s%d.h' % (h.rsplit('/', 1)[0], self.stem('h'), self.fresh())
                    self.files[new] = old
                    self.write(new)
                if ch.flip('w', 0.8):            # otherwise the includes are left dangling
                    for f in sorted(self.files):
                        lines = []
                        for x in self.files[f]:
                            if base not in x:
                                lines.append(x)
                            elif new is not None:
                                lines.append(x.replace(base, new.rsplit('/', 1)[1]))
                        if lines != self.files[f]:
                            self.change(f, lines)
        elif what == 'break':
            self.change(path, self.files[path] + ['#error broken %d' % self.fresh()])
        elif what == 'options':
            which = ch.choose('w', ['macros', 'cflags', 'lflags'])
            getattr(t, which).append({'macros': 'M%d', 'cflags': '-fopt%d', 'lflags': '-flink%d'}[which]
                                     % self.fresh())
        elif what == 'root options':
            self.root_macros.append('R%d' % self.fresh())
        elif what == 'add source':
            s = self.add_source()
            self.write(s)
            t.srcs = t.srcs + [s]
        elif what == 'drop source':
            if len(t.srcs) > 1:
                # Together with a new option, so that no earlier state of the target comes back.
                drop = ch.choose('w', t.srcs)
                t.srcs = [s for s in t.srcs if s != drop]
                t.lflags = t.lflags + ['-flink%d' % self.fresh()]
        elif what == 'delete output':
            fs = [f for f in sorted(self.vfs.files('/w/build')) if '/obj/' in f or '/lib' in f or '/exe' in f]
            for f in fs:
                if ch.flip('w', 0.3):
                    self.vfs.remove(f)
        elif what == 'add target':
            if len(self.targets) < 6:
                self.add_target()
        elif what == 'toggle':
            t.macros = t.macros[:-1] if t.macros and ch.flip('w', 0.6) else t.macros + ['T']
        return what

    def change(self, path, lines):
        if lines == self.files[path]:
            return
        self.old.setdefault(path, []).append(self.files[path])
        self.files[path] = list(lines)
        self.write(path)


class Builds:
    ERRORS = ()

    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.ch = sim.ch
        self.vfs = sim.world.vfs
        self.tools = Tools(sim)
        self.vfs.mkdirs('/w')
        self.tree = Tree(sim)
        ch = self.ch
        self.engine = ch.weighted('w', [('pickle', 3), ('sqlite', 2), ('cache', 1)])
        self.guess = ch.flip('w', 0.15)
        self.debug = ch.flip('w', 0.3)
        self.parallel = ch.flip('w', 0.4)
        self.history = []
        self.outputs = {}
        self.toggled = False
        sim.sample = {'engine': self.engine, 'targets': [(t.name, t.builder, t.srcs, [x.name for x in t.libs])
                                                         for t in self.tree.targets],
                      'files': {k: list(v) for k, v in self.tree.files.items()}, 'history': self.history}

    # -- called by the build script

    def run(self, ctx):
        import fbuild.builders.c.gcc as gcc
        import fbuild.builders.cxx.gxx as gxx
        kw = dict(macros=list(self.tree.root_macros), includes=['include', 'include2'])
        if self.debug:
            kw['debug'] = True
        builders = {}
        for name in sorted({t.builder for t in self.tree.targets}):
            if self.guess:
                import fbuild.builders.c as c
                import fbuild.builders.cxx as cxx
                mod = c if self.tree.suffix == '.c' else cxx
                builders[name] = getattr(mod, 'guess_' + name)(ctx, **kw)
            else:
                mod = gcc if self.tree.suffix == '.c' else gxx
                builders[name] = getattr(mod, name)(ctx, **kw)
        done = {}

        def one(t):
            b = builders[t.builder]
            f = b.build_lib if t.kind == 'lib' else b.build_exe
            kw = {}
            if t.libs:
                kw['libs'] = [done[x.name] for x in t.libs]
            done[t.name] = f(t.name, list(t.srcs), macros=list(t.macros), cflags=list(t.cflags),
                             lflags=list(t.lflags), **kw)
        targets = list(self.tree.targets)
        if self.parallel:
            while targets:
                ready = [t for t in targets if all(x.name in done for x in t.libs)]
                ctx.scheduler.map(one, ready)
                targets = [t for t in targets if t not in ready]
        else:
            for t in targets:
                one(t)
        self.outputs = {n: str.__str__(p) for n, p in done.items()}

    def root_text(self):
        return ROOT

    # -- building

    def build(self, jobs, strike=None, expect=None):
        """Run the program. Returns 'ok', 'failed', 'interrupted' or 'killed'."""
        sim, k = self.sim, self.k
        argv = ['fbuild', '--database-engine=' + self.engine, '-j%d' % jobs]
        self.outputs = None
        del self.tools.log[:]

        def main(mods):
            import fbuild.main
            import fbuildroot
            fbuildroot.H = self
            try:
                return fbuild.main.main(argv)
            finally:
                p.arms = []
                del p.pending[:]
        k.block(lambda: False, 'pause', timeout=2.0)
        p = sim.world.spawn(main, argv=argv, project={'fbuildroot': self.root_text()})
        if strike is not None:
            kind, at = strike
            if kind == 'interrupt':
                k.arm(p, at, lambda: sim.procs.ctrl_c(p))
            else:
                def die():
                    k.kill(p)
                    for c in sim.procs.alive():
                        c.signal(9)
                k.arm(p, at, die)
        if not sim.world.wait(p, 100000):
            sim.violation('hang', 'the build did not end')
        for c in sim.procs.alive():
            c.signal(9)
        o = p.outcome
        self.console = bytes(self.vfs.read('/w/build/fbuild.log'))[-300:] if self.vfs.exists('/w/build/fbuild.log') else b''
        if o[0] == 'killed':
            return 'killed'
        if o[0] == 'return' and o[1] in (0, None):
            return 'ok'
        if o[0] == 'exit':
            return 'ok' if o[1] in (0, None) else 'failed'
        if isinstance(o[1], KeyboardInterrupt):
            return 'interrupted'
        if isinstance(o[1], self.ERRORS):
            return 'failed'
        sim.violation('build-broken', 'the build ended with %r' % (o,))

    def save(self, path='/w/build'):
        parent, name, n = self.vfs.walk(path)
        if n is not None:
            del parent.entries[name]
        return n

    def restore(self, n, path='/w/build'):
        self.vfs.rmtree(path)
        if n is not None:
            parent, name, _ = self.vfs.walk(path)
            parent.entries[name] = n

    def copy(self, n):
        if n is None:
            return None
        c = self.vfs._new(n.kind, n.mode)
        c.mtime = n.mtime
        if n.kind == 'dir':
            c.entries = {k: self.copy(v) for k, v in n.entries.items()}
        elif n.kind == 'link':
            c.target = n.target
        else:
            c.data = c.durable = self.vfs.get_data(n)
        return c

    def made(self):
        """The files that were built."""
        out = {}
        for f, (kind, data, mode) in self.vfs.files('/w/build').items():
            if re.search(r'/(obj/.*\.os?|liblib\d+\.(a|so)|exe\d+)$', f):
                out[f] = data
        return out

    def commands(self):
        return sorted(self.tools.log)

    def diff(self, a, b):
        for f in sorted(set(a) | set(b)):
            if a.get(f) != b.get(f):
                return '%s is\n%s\ninstead of\n%s' % (f, a.get(f, b'(missing)').decode(),
                                                      b.get(f, b'(missing)').decode())

    def compare_clean(self, got, first, jobs):
        """Does a build from scratch give the same?"""
        outputs = self.outputs
        have = self.made()
        n = self.save()
        want = self.build(jobs)
        clean = self.made()
        self.restore(n)
        note(self.sim, 'clean builds')
        if got != want:
            self.sim.violation('outcome-differs', 'incremental build: %s, clean build: %s (%s)' % (
                got, want, first))
        if want == 'ok':
            if outputs != self.outputs:
                self.sim.violation('wrong-result', '%r instead of %r' % (outputs, self.outputs))
            d = self.diff({f: have[f] for f in clean if f in have}, clean)
            if d and self.toggled:
                # See known_findings.json.
                note(self.sim, 'known finding: options changed back')
                return False
            if d:
                self.sim.violation('stale-output', d)
        return True


def b01(sim):
    ch = sim.ch
    m = Builds(sim)
    faults = ch.choose('f', ['none', 'tools', 'interrupt', 'kill'])
    revert = faults != 'kill'
    m.tools.partial = faults != 'kill' and ch.flip('f', 0.5)
    toggle = ch.flip('w', 0.03)
    rounds = 2 + ch.pick('w', 3)
    for i in range(rounds):
        edits = []
        if i:
            edits = [m.tree.edit(revert, toggle) for _ in range(1 + ch.pick('w', 3))]
            m.toggled |= 'toggle' in edits
        last = i == rounds - 1
        strike = None
        m.tools.p_fail = 0.0
        if not last and ch.flip('f', 0.7):
            if faults == 'tools':
                m.tools.p_fail = ch.choose('f', [0.02, 0.1, 0.3])
            elif faults in ('interrupt', 'kill'):
                strike = (faults, ch.given('f', 4000, lambda r: r.randrange(1, r.choice([800, 2000, 4000]))))
        jobs = ch.choose('w', [1, 2, 3, 4])
        r = m.build(jobs, strike)
        troubled = m.tools.p_fail or strike is not None
        m.history.append('%s %s -> %s' % (edits, strike or m.tools.p_fail or '', r))
        m.tools.p_fail = 0.0
        note(sim, 'build ' + r)
        if r in ('interrupted', 'killed') and strike is None:
            sim.violation('build-broken', 'the build ended as %s' % r)
        if r == 'killed' or r == 'interrupted' or troubled and r == 'failed':
            continue
        if r == 'ok' and m.engine != 'cache' and ch.flip('w', 0.5):
            made = m.made()
            outputs = m.outputs
            r2 = m.build(jobs)
            if r2 != 'ok' or m.outputs != outputs:
                sim.violation('rebuild-differs', 'built again without a change: %s %r' % (r2, m.outputs))
            if m.tools.log:
                sim.violation('needless-command', 'built again without a change: %r' % (m.tools.log[:3],))
            if m.made() != made:
                sim.violation('rebuild-differs', 'the outputs changed without a change')
            note(sim, 'rebuilds')
        if last or ch.flip('w', 0.4):
            if not m.compare_clean(r, m.history[-1], jobs):
                return


def b02(sim):
    ch = sim.ch
    m = Builds(sim)
    # Something to start from.
    for i in range(ch.pick('w', 3)):
        r = m.build(ch.choose('w', [1, 2, 4]))
        m.history.append('-> %s' % r)
        for _ in range(1 + ch.pick('w', 3)):
            m.history.append(m.tree.edit(True, False))
    start = m.save()
    results = []
    variants = [1] + [ch.choose('w', [1, 2, 3, 4, 6]) for _ in range(1 + ch.pick('w', 2))]
    for jobs in variants:
        m.restore(m.copy(start))
        r = m.build(jobs)
        made, outputs, commands = m.made(), m.outputs, m.commands()
        again = None
        if r == 'ok':
            r2 = m.build(ch.choose('w', [1, jobs]))
            again = (r2, m.commands(), m.outputs)
        results.append((jobs, r, made, outputs, commands, again))
        note(sim, 'variant ' + r)
    a = results[0]
    for b in results[1:]:
        what = '-j%d, -j%d' % (a[0], b[0])
        if a[1] != b[1]:
            sim.violation('outcome-differs', '%s: %s, %s' % (what, a[1], b[1]))
        if a[1] != 'ok':
            continue
        if a[3] != b[3]:
            sim.violation('result-differs', '%s: %r, %r' % (what, a[3], b[3]))
        d = m.diff(b[2], a[2])
        if d:
            sim.violation('output-differs', '%s: %s' % (what, d))
        if a[4] != b[4]:
            extra = [x for x in a[4] + b[4] if a[4].count(x) != b[4].count(x)]
            sim.violation('commands-differ', '%s: %r' % (what, extra[:3]))
        if a[5] != b[5]:
            sim.violation('state-differs', '%s: built again: %r, %r' % (what, a[5], b[5]))


B01 = Spec(b01, budget=3000000, lines=0.02)
B02 = Spec(b02, budget=3000000, lines=0.02)
