"""B04: building OCaml modules, libraries and programs with simulated tools."""
import hashlib
import re

from sim.run import Spec

from props.buildprops import Builds, Tools
from props.schedprops import note

ROOT = '''
import fbuild
import fbuild.builders.ocaml

def build(ctx):
    H.run(ctx)
'''
OUTPUT = re.compile(r'\.(cm[oia]|cmxa?|o|a)$|/exe\d+$')
STDLIB = ('List', 'Printf')
USE = re.compile(r'\b([A-Z]\w*)\.(\w+)')


def crc(data):
    return hashlib.md5(data).hexdigest()[:8]


def module_name(path):
    base = path.rsplit('/', 1)[-1].rsplit('.', 1)[0]
    return base[0].upper() + base[1:]


def uses(lines):
    """The modules a file uses, in the order they come up."""
    out = []
    for line in lines:
        for m, _ in USE.findall(line):
            if m not in out:
                out.append(m)
    return out


def exports(lines):
    return sorted(set(re.findall(r'^(?:let|val) (e\d+)\b', '\n'.join(lines), re.M)))


class OcamlTools(Tools):
    """ocamldep, ocamlc, ocamllex, ocamlyacc, and the programs they make."""

    def __init__(self, sim):
        Tools.__init__(self, sim)
        p = sim.procs
        for name in ('ocamldep', 'ocamlc', 'ocamlopt', 'ocamllex', 'ocamlyacc'):
            p.add_program(name, getattr(self, name))

    def exe(self, c):
        yield self.time()
        if b'print_int Lib.x' in c.read(c.args[0]):
            c.out('5')

    def wrong(self, c, t):
        if t == 'signal':
            yield ('die', 11)
        c.errout('something happened\n')
        yield ('exit', 2)

    def source(self, c, path):
        if not c.vfs.exists(c.path(path)):
            return None
        return c.read(path).decode().splitlines()

    def ocamldep(self, c):
        self.note(c)
        yield self.time()
        t = self.trouble(c)
        lines = self.source(c, str.__str__(c.args[-1]))
        if lines is None or 'BAD' in lines or t == 'exit':
            yield from self.wrong(c, t)
        if t == 'signal':
            yield ('die', 11)
        if t == 'nothing':
            yield ('exit', 4)
        yield self.time()
        c.out('%s: %s\n' % (c.args[-1], ' '.join(sorted(uses(lines)))) if uses(lines) else '%s:\n' % c.args[-1])

    def ocamllex(self, c):
        self.note(c)
        args = [str.__str__(a) for a in c.args[1:]]
        yield from self.generate(c, args[-1], {args[args.index('-o') + 1]: ''})

    def ocamlyacc(self, c):
        self.note(c)
        base = str.__str__(c.args[-1]).rsplit('.', 1)[0]
        yield from self.generate(c, str.__str__(c.args[-1]), {base + '.ml': '', base + '.mli': 'val'})

    def generate(self, c, src, dsts):
        yield self.time()
        t = self.trouble(c)
        lines = self.source(c, src)
        if lines is None or 'BAD' in lines or t in ('exit', 'signal'):
            yield from self.wrong(c, t)
        for dst, what in dsts.items():
            text = ['val %s : int' % e for e in exports(lines)] if what else lines
            if self.partial and self.ch.flip('f', 0.3):
                c.write(dst, '\n'.join(text[:1]))
            yield self.time()
            if t == 'nothing':
                yield ('exit', 4)
            c.write(dst, '\n'.join(text) + '\n')

    def find(self, c, module, dirs, suffix='.cmi'):
        for d in ['.'] + dirs:
            for name in (module[0].lower() + module[1:], module):
                p = ('%s/%s' % (d, name) if d != '.' else name) + suffix
                if c.vfs.exists(c.path(p)):
                    return c.read(p)
        return None

    def ocamlc(self, c):
        args = [str.__str__(a) for a in c.args[1:]]
        if args == ['-version']:
            c.out('4.14.1\n')
            yield ('exit', 0)
        self.note(c)
        dst, dirs, files, flags = 'a.out', [], [], []
        i = 0
        while i < len(args):
            a = args[i]
            if a in ('-o', '-I'):
                i += 1
                if a == '-o':
                    dst = args[i]
                else:
                    dirs.append(args[i])
            elif a.startswith('-'):
                flags.append(a)
            else:
                files.append(a)
            i += 1
        yield self.time()
        t = self.trouble(c)
        if t == 'signal':
            yield ('die', 11)
        problem = []
        native = str.__str__(c.args[0]).endswith('ocamlopt')
        if '-c' in flags:
            out = self.compile(c, dst, dirs, files[0], flags, problem, native)
        else:
            data = self.link(c, files, flags, problem, native)
            if native and '-a' in flags:
                out = {dst: b'CMXA' + data[3:], dst.rsplit('.', 1)[0] + '.a': self.objects(c, files, problem)}
            elif native:
                out = {dst: data + b'\1' + self.objects(c, files, problem)}
            else:
                out = {dst: data}
        if t == 'exit' or problem:
            c.errout(problem[0] + '\n' if problem else 'Fatal error\n')
            yield ('exit', 2)
        for path, data in out.items():
            if self.partial and self.ch.flip('f', 0.3):
                self.k.count('fault:partial-output')
                c.write(path, data[:len(data) // 2])
            yield self.time()
            if t == 'nothing':
                yield ('exit', 4)
            c.write(path, data)
            if path == dst and not {'-c', '-a'} & set(flags):
                c.vfs.node(c.path(path)).mode = 0o755

    def ocamlopt(self, c):
        return self.ocamlc(c)

    def objects(self, c, files, problem):
        """The native code that goes with what is linked."""
        out = []
        for f in files:
            p = f.rsplit('.', 1)[0] + ('.o' if f.endswith('.cmx') else '.a')
            if not c.vfs.exists(c.path(p)):
                problem.append('cannot find file ' + p)
                return b''
            data = c.read(p)
            if f.endswith('.cmx') and data != b'O ' + crc(c.read(f)).encode():
                problem.append('%s does not fit %s' % (p, f))
            out.append(data)
        return b'O' + b' '.join(out)

    def compile(self, c, dst, dirs, src, flags, problem, native):
        lines = self.source(c, src)
        if lines is None:
            problem.append('%s: no such file' % src)
            return {}
        name = module_name(src)
        if 'BAD' in lines:
            problem.append('%s: syntax error' % src)
            return {}
        crcs = []
        for line in lines:
            for m, e in USE.findall(line):
                if m in STDLIB:
                    continue
                cmi = self.find(c, m, dirs)
                if cmi is None or not cmi.startswith(b'CMI %s\n' % m.encode()):
                    problem.append('%s: Unbound module %s' % (src, m))
                    return {}
                if e != 't' and e.encode() not in cmi.split():
                    problem.append('%s: Unbound value %s.%s' % (src, m, e))
                    return {}
                if 'crc %s %s' % (m, crc(cmi)) not in crcs:
                    crcs.append('crc %s %s' % (m, crc(cmi)))
                    cmx = self.find(c, m, dirs, '.cmx') if native else None
                    if cmx is not None and cmx.startswith(b'CMO'):
                        crcs.append('cmx %s %s' % (m, crc(cmx)))
        if src.endswith('.mli'):
            return {dst: '\n'.join(['CMI ' + name] + ['val %s' % e for e in exports(lines)] + lines + crcs).encode()}
        out = {}
        mli = src + 'i'
        if c.vfs.exists(c.path(mli)):
            cmi = self.find(c, name, [dst.rsplit('/', 1)[0]] + dirs)
            if cmi is None:
                problem.append('%s: could not find the .cmi file for interface %s' % (src, mli))
                return {}
            for e in re.findall(rb'^val (e\d+)$', cmi, re.M):
                if e.decode() not in exports(lines):
                    problem.append('%s: the value %s is required but not provided' % (src, e))
                    return {}
        else:
            cmi = '\n'.join(['CMI ' + name] + ['val %s' % e for e in exports(lines)] + [
                'val x'] * ('let x = 5;;' in lines)).encode()
            out[dst.rsplit('.', 1)[0] + '.cmi'] = cmi
        out[dst] = '\n'.join(['CMO ' + name, 'own ' + crc(cmi), ' '.join(flags)] + crcs + lines).encode()
        if native:
            out[dst.rsplit('.', 1)[0] + '.o'] = b'O ' + crc(out[dst]).encode()
        return out

    def link(self, c, files, flags, problem, native):
        units = []
        for f in files:
            if not c.vfs.exists(c.path(f)):
                problem.append('cannot find file ' + f)
                return b''
            data = c.read(f)
            if data.startswith(b'CMXA\1' if native else b'CMA\1'):
                units.extend(data.split(b'\1')[1:])
            elif data.startswith(b'CMO') and f.endswith('.cmx' if native else '.cmo'):
                units.append(data)
            else:
                problem.append('%s is not a bytecode object file' % f)
                return b''
        if '-a' in flags:
            return b'CMA\1' + b'\1'.join(units)
        linked, impl = {}, {}
        for u in units:
            lines = u.decode().split('\n')
            for line in lines:
                m = re.match(r'crc (\w+) (\w+)$', line)
                if m and m.group(1) not in linked:
                    problem.append('no implementations provided for %s, used by %s' % (m.group(1), lines[0]))
                elif m and linked[m.group(1)] != m.group(2):
                    problem.append('inconsistent assumptions over interface %s' % m.group(1))
            if lines[0][4:] in linked:
                problem.append('%s is linked twice' % lines[0])
            for line in lines:
                m = re.match(r'cmx (\w+) (\w+)$', line)
                if m and impl.get(m.group(1)) != m.group(2):
                    problem.append('inconsistent assumptions over implementation %s' % m.group(1))
            linked[lines[0][4:]] = lines[1][4:]
            impl[lines[0][4:]] = crc(u)
        return b'#!exe OCAML\1' + b'\1'.join(units)


class Module:
    def __init__(self, tree, target):
        self.tree = tree
        self.target = target
        self.n = tree.fresh()
        self.kind = tree.ch.choose('w', ['ml'] * 5 + ['mll', 'mly'])
        self.upper = self.kind == 'ml' and tree.ch.flip('w', 0.1)
        self.dir = target.dir
        if target.kind == 'exe' and tree.ch.flip('w', 0.3):
            self.dir = target.dir + 'sub/' if target.dir else ''
        self.base = '%sm%d' % (self.dir, self.n)
        if self.upper:
            self.base = '%sM%d' % (self.dir, self.n)
        self.name = 'M%d' % self.n
        self.lines = []
        self.mli = None
        self.exports = []
        self.export()

    def export(self):
        self.exports = self.exports + ['e%d' % self.tree.fresh()]

    def below(self):
        """The modules this one may use."""
        return [m for m in self.tree.modules if m.n < self.n and (
            m.target is self.target or m.target.kind == 'lib' and m.target.n < self.target.n)]

    def renew(self, keep=False):
        """New contents."""
        ch = self.tree.ch
        out = ['let v = %d' % self.tree.fresh()]
        if ch.flip('w', 0.2):
            out.append('let w = List.length []')
        for m in self.below():
            if ch.flip('w', 0.4):
                out.append('let u = %s.%s' % (m.name, ch.choose('w', m.visible())))
        self.lines = out

    def visible(self):
        return self.exports if self.mli is None else self.mli_exports

    def interface(self):
        ch = self.tree.ch
        self.mli_exports = [e for e in self.exports if ch.flip('w', 0.8)] or self.exports[:1]
        self.mli = ['val z : %s.t' % m.name for m in self.below() if ch.flip('w', 0.2)]

    def text(self):
        return ['let %s = %d' % (e, int(e[1:])) for e in self.exports] + self.lines

    def mli_text(self):
        return ['val %s : int' % e for e in self.mli_exports] + self.mli

    def files(self):
        """The files of this module the user writes."""
        out = {'%s.%s' % (self.base, self.kind): self.text()}
        if self.mli is not None:
            out[self.base + '.mli'] = self.mli_text()
        return out

    def problem(self):
        """Is there something wrong with this module?"""
        if 'BAD' in self.lines or self.mli is not None and 'BAD' in self.mli:
            return True
        if self.mli is not None and not set(self.mli_exports) <= set(self.exports):
            return True
        have = {m.name: m for m in self.below()}
        for line in self.lines + (self.mli or []):
            for m, e in USE.findall(line):
                if m not in STDLIB and (m not in have or e != 't' and e not in have[m].visible()):
                    return True
        return False


class Target:
    def __init__(self, tree, kind, d):
        self.n = tree.fresh()
        self.kind = kind
        self.dir = d
        self.name = '%s%s%d' % (d, kind, self.n)
        self.flags = []
        self.order = 0


class OTree:
    def __init__(self, sim):
        self.sim = sim
        self.ch = ch = sim.ch
        self.vfs = sim.world.vfs
        self.count = 0
        self.modules = []
        self.targets = []
        self.native = ch.flip('w', 0.4)
        self.written = {}
        self.old = []
        for i in range(ch.pick('w', 3)):
            self.targets.append(Target(self, 'lib', 'lib%d/' % i))
        for i in range(1 + ch.pick('w', 2)):
            self.targets.append(Target(self, 'exe', ['', 'src/', 'tool/'][ch.pick('w', 2) + i]))
        for t in self.targets:
            for _ in range(1 + ch.pick('w', 4)):
                self.add_module(t)
        self.write()

    def fresh(self):
        self.count += 1
        return self.count

    def add_module(self, t):
        m = Module(self, t)
        self.modules.append(m)
        m.renew()
        if m.kind == 'ml' and self.ch.flip('w', 0.4):
            m.interface()
        return m

    def write(self):
        """Bring the files to what the modules say."""
        want = {}
        for m in self.modules:
            want.update(m.files())
        for f in sorted(set(self.written) - set(want)):
            self.vfs.remove('/w/' + f)
        for f, lines in want.items():
            if self.written.get(f) != lines:
                self.vfs.mkdirs('/w/' + f.rpartition('/')[0])
                self.vfs.write('/w/' + f, '\n'.join(lines) + '\n')
        self.written = want

    def edit(self, revert, grow):
        ch = self.ch
        what = ch.weighted('w', [('value', 5), ('uses', 3), ('export', 2), ('hide', 1), ('touch', 1), ('break', 1),
                                 ('mend', 2), ('options', 1), ('add module', 2), ('remove module', 1),
                                 ('delete output', 2), ('interface', 2), ('revert', 2 if revert else 0),
                                 ('grow', 4 if grow else 0)])
        m = ch.choose('w', self.modules)
        if what == 'value':
            self.keep(m)
            m.lines = ['let v = %d' % self.fresh()] + m.lines[1:]
        elif what == 'uses':
            self.keep(m)
            m.renew()
        elif what == 'export':
            self.keep(m)
            m.export()
            if m.mli is not None and ch.flip('w', 0.7):
                m.mli_exports = m.mli_exports + [m.exports[-1]]
        elif what == 'hide':
            # May leave others that use it broken.
            self.keep(m)
            if m.mli is not None and ch.flip('w', 0.6):
                m.mli_exports = m.mli_exports[1:]
            else:
                m.exports = m.exports[1:]
        elif what == 'touch':
            for f in m.files():
                self.written.pop(f)
        elif what == 'break':
            if m.mli is not None and ch.flip('w', 0.4):
                m.mli = m.mli + ['BAD']
            else:
                m.lines = m.lines + ['BAD']
        elif what == 'mend':
            for m in self.modules:
                if m.problem():
                    m.renew()
                    if m.mli is not None:
                        m.interface()
        elif what == 'options':
            # Other options of a library, which change the native code others were compiled against, are
            # a known finding.
            t = ch.choose('w', [t for t in self.targets if not self.native or t.kind == 'exe' or grow])
            if self.native and t.kind == 'lib':
                what = 'grow'
            t.flags = t.flags + ['-w%d' % self.fresh()]
        elif what == 'add module':
            self.add_module(m.target)
        elif what == 'remove module':
            mine = [x for x in self.modules if x.target is m.target]
            if len(mine) > 1 and not (self.native and m.target.kind == 'lib') and not any(m.name in uses(x.lines + (x.mli or [])) for x in self.modules):
                self.modules.remove(m)
                # So that no earlier state of the target comes back.
                m.target.flags = m.target.flags + ['-w%d' % self.fresh()]
        elif what == 'delete output':
            for f in sorted(self.vfs.files('/w/build')):
                if OUTPUT.search(f) and ch.flip('w', 0.25):
                    self.vfs.remove(f)
        elif what == 'interface':
            if m.mli is not None:
                m.interface()
        elif what == 'revert':
            if self.old:
                m, old = ch.choose('w', self.old)
                m.__dict__.update(old)
        elif what == 'grow':
            if m.kind == 'ml':
                if m.mli is None:
                    m.interface()
                else:
                    m.mli = None
        for m in self.modules:
            if not m.exports:
                m.export()
            if m.mli is not None and not m.mli_exports:
                m.mli_exports = m.exports[:1]
        if ch.flip('w', 0.8) and what not in ('grow', 'break', 'mend'):
            # Mostly the user takes care that everything fits.
            for m in self.modules:
                if not ({'BAD'} & set(m.lines + (m.mli or []))) and m.problem():
                    m.renew()
                    if m.mli is not None:
                        m.interface()
        self.write()
        return what

    def keep(self, m):
        self.old.append((m, dict(lines=m.lines, exports=m.exports)))

    def valid(self):
        return not any(m.problem() for m in self.modules)


class OBuilds(Builds):
    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.ch = ch = sim.ch
        self.vfs = sim.world.vfs
        self.tools = OcamlTools(sim)
        self.vfs.mkdirs('/w')
        self.tree = OTree(sim)
        self.engine = ch.weighted('w', [('pickle', 3), ('sqlite', 2), ('cache', 1)])
        self.parallel = ch.flip('w', 0.4)
        self.native = self.tree.native
        self.options, self.flags = {}, ['-c']
        if ch.flip('w', 0.3):
            self.options['debug'] = True
            self.flags.append('-g')
        if ch.flip('w', 0.3):
            self.options['flags'] = ['-root']
            self.flags.append('-root')
        if self.native and ch.flip('w', 0.3):
            self.options['profile'] = True
            self.flags.append('-p')
        self.history = []
        self.outputs = {}
        self.toggled = False
        sim.sample = {'engine': self.engine, 'native': self.native, 'history': self.history, 'targets': [
            (t.name, [m.files() for m in self.tree.modules if m.target is t]) for t in self.tree.targets]}

    def root_text(self):
        return ROOT

    def run(self, ctx):
        import fbuild.builders.ocaml as ocaml
        from fbuild.path import Path
        builder = (ocaml.Ocamlopt if self.native else ocaml.Ocamlc)(ctx, **self.options)
        lex = yacc = None
        done = {}

        def sources(t):
            srcs = []
            for m in self.tree.modules:
                if m.target is not t:
                    continue
                if m.kind == 'mll':
                    srcs.append(ocaml.Ocamllex(ctx)(Path(m.base + '.mll')))
                elif m.kind == 'mly':
                    srcs.extend(ocaml.Ocamlyacc(ctx)(Path(m.base + '.mly')))
                else:
                    srcs.extend(Path(f) for f in m.files())
            if t.n % 2:
                srcs.reverse()
            return srcs

        def one(t):
            libs = [done[x.name] for x in self.tree.targets if x.kind == 'lib' and x.n < t.n]
            f = builder.build_lib if t.kind == 'lib' else builder.build_exe
            done[t.name] = f(t.name, sources(t), flags=list(t.flags), libs=libs)
        targets = list(self.tree.targets)
        for t in [t for t in targets if t.kind == 'lib']:
            one(t)
        exes = [t for t in targets if t.kind == 'exe']
        if self.parallel:
            ctx.scheduler.map(one, exes)
        else:
            for t in exes:
                one(t)
        self.outputs = {n: str.__str__(p) for n, p in done.items()}

    def made(self):
        return {f: v[1] for f, v in self.vfs.files('/w/build').items()
                if OUTPUT.search(f) and '/.tmp/' not in f}

    def programs(self):
        """Do the programs consist of the modules they should?"""
        for t in self.tree.targets:
            if t.kind != 'exe':
                continue
            data = bytes(self.vfs.read('/w/build/' + t.name)).decode()
            have = {}
            for u in data.split('\1')[1:]:
                if not u.startswith('CMO'):
                    continue
                lines = u.split('\n')
                have[lines[0][4:]] = sorted(lines[2].split()), [x for x in lines[3:] if not x.startswith(('crc ', 'cmx '))]
            want = {m.name: (sorted(self.flags + m.target.flags), m.text()) for m in self.tree.modules if m.target is t or
                    m.target.kind == 'lib' and m.target.n < t.n}
            if have != want:
                self.sim.violation('wrong-program', '%s has %r instead of %r' % (t.name, have, want))


def b04(sim):
    ch = sim.ch
    m = OBuilds(sim)
    faults = ch.choose('f', ['none', 'tools', 'interrupt', 'kill'])
    revert = faults != 'kill'
    m.tools.partial = faults != 'kill' and ch.flip('f', 0.5)
    rounds = 2 + ch.pick('w', 3)
    grow = ch.flip('w', 0.03)
    for i in range(rounds):
        edits = []
        if i:
            edits = [m.tree.edit(revert, grow) for _ in range(1 + ch.pick('w', 3))]
            m.toggled |= 'grow' in edits
        last = i == rounds - 1
        strike = None
        m.tools.p_fail = 0.0
        if not last and ch.flip('f', 0.7):
            if faults == 'tools':
                m.tools.p_fail = ch.choose('f', [0.02, 0.1, 0.3])
            elif faults in ('interrupt', 'kill'):
                strike = (faults, ch.given('f', 4000, lambda r: r.randrange(1, r.choice([800, 2000, 4000]))))
        jobs = ch.choose('w', [1, 2, 3, 4])
        r = m.build(jobs, strike)
        troubled = m.tools.p_fail or strike is not None
        m.history.append('%s %s -> %s' % (edits, strike or m.tools.p_fail or '', r))
        m.tools.p_fail = 0.0
        note(sim, 'build ' + r)
        if r in ('interrupted', 'killed') and strike is None:
            sim.violation('build-broken', 'the build ended as %s' % r)
        if r == 'killed' or r == 'interrupted' or troubled and r == 'failed':
            continue
        if r != ('ok' if m.tree.valid() else 'failed'):
            if m.toggled:
                note(sim, 'known finding: interface or options of a library changed')
                return
            sim.violation('wrong-outcome', 'the build %s: %s' % (r, m.console.decode()))
        if r == 'ok':
            m.programs()
        if r == 'ok' and m.engine != 'cache' and ch.flip('w', 0.5):
            made = m.made()
            outputs = m.outputs
            r2 = m.build(jobs)
            if r2 != 'ok' or m.outputs != outputs:
                sim.violation('rebuild-differs', 'built again without a change: %s %r' % (r2, m.outputs))
            if m.tools.log:
                sim.violation('needless-command', 'built again without a change: %r' % (m.tools.log[:3],))
            if m.made() != made:
                sim.violation('rebuild-differs', 'the outputs changed without a change')
            note(sim, 'rebuilds')
        if last or ch.flip('w', 0.4):
            if not m.compare_clean(r, m.history[-1], jobs):
                return


B04 = Spec(b04, budget=3000000, lines=0.02)
