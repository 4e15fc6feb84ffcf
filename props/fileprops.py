"""B03: generated files - copies, substitutions, configuration headers and parsers."""
import re

from sim.run import Spec

from props.buildprops import Builds, Tools
from props.schedprops import note

ROOT = '''
import fbuild
import fbuild.builders.bison
import fbuild.builders.file
import fbuild.builders.text

def build(ctx):
    H.run(ctx)
'''


class FileTools(Tools):
    def __init__(self, sim):
        Tools.__init__(self, sim)
        sim.procs.add_program('bison', self.bison)

    def bison(self, c):
        self.note(c)
        args = [str.__str__(a) for a in c.args[1:]]
        dst = args[args.index('-o') + 1]
        src = args[-1]
        yield self.time()
        t = self.trouble(c)
        if t == 'signal':
            yield ('die', 11)
        text = c.read(src).decode() if c.vfs.exists(c.path(src)) else 'BROKEN'
        if t == 'exit' or 'BROKEN' in text:
            c.errout('syntax error\n')
            yield ('exit', 1)
        data = 'parser %s\n%s' % (' '.join(a for a in args[:-1] if a not in ('-o', dst)), text)
        if self.partial and self.ch.flip('f', 0.3):
            self.k.count('fault:partial-output')
            c.write(dst, data[:len(data) // 2])
        yield self.time()
        if t == 'nothing':
            yield ('exit', 4)
        c.write(dst, data)


class Bad(Exception):
    """The rule fails."""


class Rule:
    KINDS = ['copy', 'copy', 'copy dir', 'copy_regex', 'substitute', 'regex', 'format', 'file', 'header', 'bison']

    def __init__(self, m, n):
        ch = m.ch
        self.m = m
        self.n = n
        self.kind = ch.choose('w', self.KINDS)
        self.patterns = {}
        self.options = []
        self.after = None               # the rule whose output this one uses
        earlier = [r for r in m.rules if r.kind != 'copy_regex']
        if earlier and self.kind != 'copy_regex' and ch.flip('w', 0.35):
            self.after = ch.choose('w', earlier)
            self.src = None
        else:
            self.src = ch.choose('w', sorted(m.files))
        self.dst = ['out%d.txt' % n, 'deep/er/out%d.txt' % n, 'build/out%d.txt' % n][ch.pick('w', 3)]
        self.buildroot = ch.choose('w', [None, None, None, 'build/other'])
        self.exclude = ch.choose('w', [None, None, 'f1'])
        if self.kind == 'copy dir':
            self.dst = 'dir%d' % n
        for name in m.names:
            if ch.flip('w', 0.9):
                self.patterns[name] = m.value()
        self.stamp = None

    def vary(self):
        """Other patterns or options, which were never used before."""
        m, ch = self.m, self.m.ch
        if self.kind == 'bison':
            self.options = self.options + ['-Wopt%d' % m.fresh()]
        elif self.kind in ('copy', 'copy dir', 'copy_regex'):
            self.dst = 'again%d%s' % (m.fresh(), '' if self.kind == 'copy dir' else '.txt')
        else:
            name = ch.choose('w', m.names)
            self.patterns = dict(self.patterns)
            if name in self.patterns and ch.flip('w', 0.2):
                del self.patterns[name]
                self.patterns['unused%d' % m.fresh()] = m.value()
            else:
                self.patterns[name] = m.value()
                if self.patterns[name] in (True, False, ''):
                    self.patterns['unused'] = m.fresh()

    def source(self):
        return self.after.target() if self.after is not None else self.src

    def text(self):
        if self.after is not None:
            t = self.after.target()
            return self.after.expect()[t]
        return self.m.files[self.src]

    def root(self):
        return (self.buildroot if self.kind not in ('copy', 'copy dir', 'copy_regex') else None) or 'build'

    def target(self):
        base = self.source().rsplit('/', 1)[-1]
        dst = self.dst if self.dst.startswith(self.root()) else self.root() + '/' + self.dst
        if self.kind == 'copy dir':
            return '%s/%s' % (dst, base)
        if self.kind == 'bison':
            return dst.rsplit('.', 1)[0] + '.c'
        return dst

    def expect(self):
        """What the rule writes. Bad if it fails."""
        kind = self.kind
        if kind == 'copy_regex':
            out = {}
            for f in sorted(self.m.files):
                if f.startswith('src/tree/') and f.endswith('.in') and not (
                        self.exclude and re.search(self.exclude, f)):
                    d = self.dst if self.dst.startswith('build') else 'build/' + self.dst
                    out['%s/%s' % (d, f[len('src/tree/'):-3] + '.copy')] = self.m.files[f]
            return out
        text = self.text()
        p = self.patterns
        if kind == 'substitute':
            for name, value in p.items():
                text = text.replace('@%s@' % name, str(value))
        elif kind == 'regex':
            for name, value in p.items():
                text = re.sub('(?m)^%s' % name, str(value), text)
        elif kind == 'format':
            def field(m):
                if m.group(1) not in p:
                    raise Bad
                return str(p[m.group(1)])
            text = re.sub(r'\{(\w+)\}', field, text)
        elif kind in ('file', 'header'):
            def word(m):
                if m.group(1) not in p:
                    raise Bad
                v = p[m.group(1)]
                return ' '.join(map(str, v)) if isinstance(v, list) else str(v)
            lines = []
            for line in text.split('\n'):
                m = re.match(r'#undef +(\w+)$', line)
                if m and kind == 'header':
                    if m.group(1) not in p:
                        raise Bad
                    v = p[m.group(1)]
                    v = ' '.join(map(str, v)) if isinstance(v, list) else int(v) if isinstance(v, bool) else v
                    lines.append('#define %s %s' % (m.group(1), v) if v else '/* #undef %s */' % m.group(1))
                else:
                    lines.append(re.sub(r'@(\w+)@', word, line))
            text = '\n'.join(lines)
        elif kind == 'bison':
            if 'BROKEN' in text:
                raise Bad
            text = 'parser %s\n%s' % (' '.join(['-d'] * (self.n % 2) + self.options), text)
        return {self.target(): text}

    def signature(self):
        if self.kind == 'copy_regex':
            return (self.kind, self.dst, self.exclude, sorted(self.expect().items()))
        return (self.kind, self.source(), self.text(), self.dst, repr(self.patterns), self.options)

    def run(self, ctx):
        import fbuild.builders.file as file
        import fbuild.builders.text as text
        kind = self.kind
        kw = {} if self.buildroot is None else {'buildroot': self.buildroot}
        src = self.source()
        if kind == 'copy':
            return [file.copy(ctx, src, self.dst)]
        if kind == 'copy dir':
            return [file.copy(ctx, src, self.dst + '/')]
        if kind == 'copy_regex':
            return file.copy_regex(ctx, srcdir='src/tree', dstdir=self.dst, src_pattern=r'(.*)\.in$',
                                   dst_pattern=r'\1.copy', exclude_pattern=self.exclude)
        if kind == 'substitute':
            return [text.substitute(ctx, self.dst, src, {'@%s@' % n: str(v) for n, v in self.patterns.items()}, **kw)]
        if kind == 'regex':
            return [text.regex_substitute(ctx, self.dst, src, [
                ('^' + n, str(v)) for n, v in self.patterns.items()], **kw)]
        if kind == 'format':
            return [text.format_substitute(ctx, self.dst, src, dict(self.patterns), **kw)]
        if kind == 'file':
            return [text.autoconf_config_file(ctx, self.dst, src, dict(self.patterns), **kw)]
        if kind == 'header':
            return [text.autoconf_config_header(ctx, self.dst, src, dict(self.patterns), **kw)]
        import fbuild.builders.bison as bison
        b = bison.Bison(ctx)
        return [b(src, self.dst, defines=bool(self.n % 2), flags=list(self.options), **kw)]


class Files(Builds):
    ERRORS = (KeyError,)           # a pattern without a value

    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.ch = ch = sim.ch
        self.vfs = sim.world.vfs
        self.tools = FileTools(sim)
        self.n = 0
        self.names = ['NAME%d' % i for i in range(1 + ch.pick('w', 4))]
        self.files = {}
        self.old = {}
        for i in range(1 + ch.pick('w', 4)):
            self.change('src/%sf%d.in' % (ch.choose('w', ['', 'tree/', 'tree/sub/']), i), self.content())
        self.rules = []
        for i in range(1 + ch.pick('w', 6)):
            self.rules.append(Rule(self, self.fresh()))
        self.engine = ch.weighted('w', [('pickle', 3), ('sqlite', 2), ('cache', 1)])
        self.parallel = ch.flip('w', 0.5)
        self.grow = ch.flip('w', 0.03)
        self.grown = False
        self.history = []
        sim.sample = {'engine': self.engine, 'history': self.history,
                      'rules': [(r.kind, r.source(), r.target() if r.kind != 'copy_regex' else r.dst)
                                for r in self.rules]}

    def root_text(self):
        return ROOT

    def fresh(self):
        self.n += 1
        return self.n

    def value(self):
        ch = self.ch
        n = self.fresh()
        return ch.choose('w', ['value%d' % n, 'two\nlines%d' % n, n, True, False, '', ['a%d' % n, 'b']])

    def content(self):
        ch = self.ch
        out = []
        for _ in range(ch.pick('w', 6)):
            name = ch.choose('w', self.names)
            out.append(ch.choose('w', ['text %d' % self.fresh(), 'x @%s@ y' % name, '#undef ' + name,
                                       '{%s} z' % name, name + ' first', '@%s@@%s@' % (name, self.names[0])]))
        out.append('end %d' % self.fresh())
        return '\n'.join(out) + '\n'

    def change(self, path, text):
        if path in self.files:
            self.old.setdefault(path, []).append(self.files[path])
        self.files[path] = text
        self.vfs.mkdirs('/w/' + path.rsplit('/', 1)[0])
        self.vfs.write('/w/' + path, text)

    def edit(self, calm):
        ch = self.ch
        what = ch.weighted('w', [('value', 5), ('touch', 1), ('revert', 2 if calm else 0), ('break', 1), ('vary', 3),
                                 ('delete output', 3 if calm else 0), ('add rule', 1), ('remove file', 1),
                                 ('add file', 1 if self.grow else 0)])
        path = ch.choose('w', sorted(self.files))
        if what == 'value':
            self.change(path, self.content())
        elif what == 'touch':
            self.vfs.write('/w/' + path, self.files[path])
        elif what == 'revert':
            if path in self.old:
                self.change(path, ch.choose('w', self.old[path]))
        elif what == 'break':
            self.change(path, self.files[path] + '@MISSING@ {MISSING}\n#undef MISSING\nBROKEN\n')
        elif what == 'vary':
            ch.choose('w', self.rules).vary()
        elif what == 'delete output':
            for r in self.rules:
                for d in sorted(r.stamp[1]) if r.stamp else ():
                    if ch.flip('w', 0.4) and self.vfs.exists('/w/' + d):
                        self.vfs.remove('/w/' + d)
        elif what == 'remove file':
            used = [r.src for r in self.rules if r.kind != 'copy_regex']
            if path.startswith('src/tree/') and path not in used:
                del self.files[path]
                self.vfs.remove('/w/' + path)
        elif what == 'add file':
            self.change('src/tree/f%d.in' % self.fresh(), self.content())
            self.grown = True
        elif what == 'add rule':
            self.rules.append(Rule(self, self.fresh()))
        return what

    def run(self, ctx):
        self.done = {}
        done = self.done

        def one(r):
            done[r] = sorted(str.__str__(d) for d in r.run(ctx))
        rules = list(self.rules)
        if self.parallel:
            while rules:
                ready = [r for r in rules if r.after is None or r.after in done]
                ctx.scheduler.map(one, ready)
                rules = [r for r in rules if r not in ready]
        else:
            for r in rules:
                one(r)
        self.outputs = True

    def node(self, path):
        n = self.vfs.walk('/w/' + path)[2]
        return None if n is None else (id(n), n.mtime, self.vfs.get_data(n))


def b03(sim):
    ch = sim.ch
    m = Files(sim)
    faults = ch.choose('f', ['none', 'tools', 'interrupt', 'kill'])
    calm = faults != 'kill'
    m.tools.partial = calm and ch.flip('f', 0.5)
    rounds = 2 + ch.pick('w', 4)
    for i in range(rounds):
        edits = [m.edit(calm) for _ in range(ch.pick('w', 4))] if i else []
        last = i == rounds - 1
        strike = None
        m.tools.p_fail = 0.0
        if not last and ch.flip('f', 0.7):
            if faults == 'tools':
                m.tools.p_fail = ch.choose('f', [0.1, 0.3])
            elif faults in ('interrupt', 'kill'):
                strike = (faults, ch.given('f', 1500, lambda r: r.randrange(1, r.choice([300, 700, 1500]))))
        want = {}
        for r in m.rules:
            try:
                want[r] = r.expect()
            except Bad:
                pass
        before = {r: {d: m.node(d) for d in r.stamp[1]} for r in m.rules if r.stamp}
        m.done = {}
        result = m.build(ch.choose('w', [1, 2, 3, 4]), strike)
        troubled = m.tools.p_fail or strike is not None
        m.history.append('%s %s -> %s' % (edits, strike or m.tools.p_fail or '', result))
        note(sim, 'build ' + result)
        if not troubled and result != ('ok' if len(want) == len(m.rules) else 'failed'):
            sim.violation('wrong-outcome', 'the build ended as %s: %s' % (result, m.console.decode()))
        if result == 'ok' and len(want) < len(m.rules):
            sim.violation('wrong-outcome', 'the build succeeded although a rule must fail')
        for r in m.rules:
            # A file's record is of its newest content, which a failing build may have found for other rules.
            if r not in m.done:
                r.stamp = None
        if strike is not None and result != 'ok':
            continue
        for r, dsts in m.done.items():
            if r not in want:
                sim.violation('wrong-outcome', '%s of %s succeeded' % (r.kind, r.source()))
            if dsts != sorted(want[r]) and m.grown and r.kind == 'copy_regex':
                # See known_findings.json.
                note(sim, 'known finding: new file in a copied directory')
                return
            if dsts != sorted(want[r]):
                sim.violation('wrong-result', '%s of %s gave %r instead of %r' % (r.kind, r.source(), dsts,
                                                                                  sorted(want[r])))
            for d, text in want[r].items():
                have = m.node(d)
                if have is None or have[2] != text.encode():
                    sim.violation('wrong-file', '%s (%s) is %r instead of %r' % (
                        d, r.kind, have and have[2].decode(), text))
            note(sim, 'rules')
            sig = r.signature()
            if m.engine != 'cache' and r.stamp is not None and r.stamp[0] == sig and \
                    None not in before[r].values() and before[r] == r.stamp[1]:
                note(sim, 'unchanged')
                if before[r] != {d: m.node(d) for d in want[r]}:
                    sim.violation('needless-work', '%s of %s was done again' % (r.kind, r.source()))
            r.stamp = (sig, {d: m.node(d) for d in want[r]})


B03 = Spec(b03, budget=3000000, lines=0.02)
