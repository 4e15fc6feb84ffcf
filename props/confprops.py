"""N01: configuration checks with simulated tools."""
import copy
import re

from sim.run import Spec

from props.buildprops import Builds, Tools
from props.schedprops import note

HEAD = '''
import fbuild
import fbuild.builders
import fbuild.builders.c
import fbuild.builders.c.gcc
import fbuild.builders.pkg_config
import fbuild.config.c as c

'''
NAME = re.compile(r'\b(?:fn|ty|in|ma|mb|va|st)_\d+\b')
SIGNATURES = [('int', ()), ('void', ()), ('void', ('int',)), ('long', ('int', 'char*'))]
STANDARD = ('stdio.h', 'stddef.h', 'stdlib.h')


class System:
    """What is installed: headers, what they declare, and libraries."""

    def __init__(self, ch):
        self.ch = ch
        self.n = 0
        self.headers = {}            # name -> (included headers, declarations)
        self.fields = {}             # every name -> (kind, header or None, detail)
        self.packages = {}
        self.signatures = {}         # function -> (type of the result, types of the arguments)
        for i in range(1 + ch.pick('w', 4)):
            h = 'hd_%d.h' % i
            incs = [x for x in sorted(self.headers) if ch.flip('w', 0.2)]
            self.headers[h] = (incs, {})
            for _ in range(ch.pick('w', 7)):
                self.declare(h)
        for i in range(ch.pick('w', 3)):
            self.packages['pk_%d' % i] = {'--modversion': '1.%d.0' % i, '--cflags': '-I/opt/pk_%d' % i,
                                          '--libs': '-lpk_%d -lm' % i}

    def declare(self, h):
        ch = self.ch
        self.n += 1
        kind = ch.choose('w', ['fn', 'fn', 'ty', 'in', 'ma', 'va', 'st'])
        name = '%s_%d' % (kind, self.n)
        if kind == 'fn':
            detail = ch.choose('w', [None, None, 'lb_0', 'lb_1'])
            self.signatures[name] = ch.choose('w', SIGNATURES)
        elif kind == 'ty':
            detail = (ch.choose('w', [1, 2, 4, 8]), ch.choose('w', [1, 4, 12, 24]))
        elif kind == 'in':
            detail = (ch.choose('w', [1, 2, 4, 8]), ch.choose('w', [1, 2, 4, 8]), ch.choose('w', [0, 1]))
        elif kind == 'st':
            detail = tuple('mb_%d' % i for i in range(3) if ch.flip('w', 0.7))
        else:
            detail = None
        if h is not None:
            self.headers[h][1][name] = detail
        self.fields[name] = (kind, h, detail)
        return name

    def visible(self, includes):
        """The declarations that a program with these includes sees, or None."""
        out = {}
        todo = list(includes)
        while todo:
            h = todo.pop()
            if h in STANDARD:
                continue
            if h not in self.headers:
                return None
            todo.extend(self.headers[h][0])
            out.update(self.headers[h][1])
        return out


class ConfTools(Tools):
    def __init__(self, sim, system):
        Tools.__init__(self, sim)
        self.system = system
        sim.procs.add_program('pkg-config', self.pkg_config)

    def pkg_config(self, c):
        self.note(c)
        yield self.time()
        pkg, option = str.__str__(c.args[1]), str.__str__(c.args[2])
        have = self.system.packages.get(pkg)
        if have is None or option not in have:
            c.errout('no such package\n')
            yield ('exit', 1)
        c.out(have[option] + '\n')

    def check(self, text):
        """What is wrong with a program, or None."""
        see = self.system.visible(re.findall(r'#include\s*[<"](.*?)[>"]', text))
        if see is None:
            return 'no such header'
        for name in re.findall(r'#ifndef\s+(\w+)\s+#error', text):
            if name not in see:
                return name + ' is not defined'
        body = re.sub(r'(?m)^\s*#.*$', '', text)
        structs = set(re.findall(r'\bst_\d+\b', body))
        for name in NAME.findall(body):
            if name.startswith('mb'):
                if not any(name in (see.get(s) or ()) for s in structs):
                    return 'no member ' + name
            elif name not in see:
                return name + ' is undeclared'
        for res, name, args in re.findall(r'(?:(\w+) res = )?\b(fn_\d+)\(([^)]*)\)', body):
            result, types = self.system.signatures[name]
            if len([a for a in args.split(',') if a.strip()]) != len(types):
                return 'wrong number of arguments to ' + name
            if res == 'void' or res and result == 'void':
                return 'void value of %s not ignored' % name
        if re.search(r'\bvoid arg_', body) or set(re.findall(r'\barg_\d+(?=[,)])', body)) - set(
                re.findall(r'\barg_\d+(?=;)', body)):
            return 'bad arguments'
        if 'SYNTAX ERROR' in text:
            return 'syntax error'

    def gcc(self, c):
        args = [str.__str__(a) for a in c.args[1:]]
        if args == ['--version']:
            c.out('gcc (GCC) 13.2.0\n')
            yield ('exit', 0)
        self.note(c)
        dst = args[args.index('-o') + 1] if '-o' in args else 'a.out'
        libs = [a[2:] for a in args if a.startswith('-l')]
        srcs = [a for i, a in enumerate(args) if not a.startswith('-') and (not i or args[i - 1] not in ('-o', '-MF'))]
        yield self.time()
        texts = []
        for s in srcs:
            p = c.path(s)
            if not c.vfs.exists(p):
                c.errout('%s: no such file\n' % s)
                yield ('exit', 1)
            text = c.read(s).decode()
            if s.endswith('.c'):
                problem = self.check(text)
                if problem:
                    c.errout('%s: %s\n' % (s, problem))
                    yield ('exit', 1)
            texts.append(text)
        text = '\n'.join(texts)
        if '-c' not in args:
            for name in re.findall(r'\bfn_\d+\b', text):
                lib = self.system.fields[name][2]
                if lib is not None and lib not in libs:
                    c.errout('undefined reference to %s\n' % name)
                    yield ('exit', 1)
            for lib in libs:
                if lib not in ('lb_0', 'lb_1') and not lib.startswith('temp'):
                    c.errout('cannot find -l%s\n' % lib)
                    yield ('exit', 1)
            if '-shared' not in args:
                text = '#!exe ' + text
        yield self.time()
        c.write(dst, text)
        if '-c' not in args:
            c.vfs.node(c.path(dst)).mode = 0o755

    def ar(self, c):
        self.note(c)
        args = [str.__str__(a) for a in c.args[1:] if not a.startswith('-')]
        yield self.time()
        c.write(args[0], '\n'.join(c.read(a).decode() for a in args[1:]))

    def exe(self, c):
        text = c.read(c.args[0]).decode()[len('#!exe '):]
        self.log.append('exe')
        yield self.time()
        m = re.search(r'typedef\s+(.*?)\s+type\s*;', text)
        if 'getchar' in text:
            yield ('stdin',)
            c.out(bytes(c.stdin.data) if c.stdin is not None else b'')
        for p in re.findall(r'printf\((.*)\)\s*;', text):
            if 'foo()' in p:
                c.out('5')
            elif m:
                detail = self.system.fields[m.group(1)][2]
                c.out('%d\n' % (detail[0] if 'offsetof' in p else detail[1] if 'sizeof' in p else detail[2]))
            else:
                s = re.match(r'\s*"(.*)"', p)
                c.out(s.group(1) if s else '')
        if 'for (;;)' in text:
            yield 10000.0
        if 'abort()' in text:
            yield ('die', 6)
        m = re.search(r'return (\d+)', text)
        yield ('exit', int(m.group(1)) if m else 0)


class Field:
    """One check, as the build script declares it, and its answer."""

    def __init__(self, conf, n):
        self.conf = conf
        self.attr = 'f%d' % n
        self.renew()

    def renew(self):
        ch, system = self.conf.ch, self.conf.system
        names = sorted(system.fields)
        self.kw = ''
        self.timeout = False
        self.custom = None
        if ch.flip('w', 0.2) or not names:
            # A program of its own.
            n = self.conf.fresh()
            what = ch.choose('w', ['right', 'wrong', 'exit', 'abort', 'hang', 'input', 'syntax'])
            body = {'right': 'OUT', 'wrong': 'printf("other");', 'exit': 'OUT return 3;', 'abort': 'OUT abort();',
                    'hang': 'OUT for (;;);', 'input': 'getchar();', 'syntax': 'SYNTAX ERROR'}[what].replace('OUT', 'printf("out%d");' % n)
            self.kind, self.name = 'va', 'name%d' % n
            self.custom = what
            self.decl = "c.variable_test(name='name%d', test='int main() { %s return 0; }', stdout=b'out%d'%s)" % (
                n, body, n, ", stdin=b'out%d'" % n if what == 'input' else ', timeout=3.0' if what == 'hang' else '')
            self.types = ()
            return
        self.name = ch.choose('w', names)
        self.kind = system.fields[self.name][0]
        if self.kind == 'fn':
            result, args = system.signatures[self.name]
            if ch.flip('w', 0.25):
                result, args = ch.choose('w', SIGNATURES)
            self.fits = len(args) == len(system.signatures[self.name][1]) and (
                result == 'void' or system.signatures[self.name][0] != 'void')
            more = ', default_args=%r' % (('7',) * len(args),) if args and ch.flip('w', 0.3) else ''
            if not args and ch.flip('w', 0.5):
                args = ('void',)
            self.types = (result,) + args
            self.decl = 'c.function_test(%s, name=%r%s)' % (', '.join(map(repr, self.types)), self.name, more)
        elif self.kind in ('ty', 'in'):
            # Asking for the wrong kind of type is no use.
            self.decl = 'c.%s(name=%r)' % ({'ty': 'type_test', 'in': 'int_type_test'}[self.kind], self.name)
        elif self.kind == 'ma':
            self.decl = 'c.macro_test(name=%r)' % self.name
        elif self.kind == 'va':
            self.decl = 'c.variable_test(name=%r)' % self.name
        else:
            self.members = tuple(('int', 'mb_%d' % i) for i in range(3) if ch.flip('w', 0.4))
            self.decl = 'c.struct_test(%s)' % ', '.join(
                [repr(m) for m in self.members] + ['name=%r' % ('struct ' + self.name)])

    def answer(self, test):
        """What the check must say for a test."""
        system = self.conf.system
        if self.custom is not None:
            if test.header is not None and test.header not in system.headers:
                return None
            if self.custom in ('right', 'input'):
                return ('Variable',)
            return None
        see = {}
        if test.header is not None:
            see = system.visible([test.header])
            if see is None:
                return None
        if self.name not in see:
            return None
        detail = system.fields[self.name][2]
        if self.kind == 'fn':
            if detail is not None and detail not in test.libs or not self.fits:
                return None
            return ('Function', self.types[0], self.types[1:])
        if self.kind == 'ty':
            return ('Type', detail[0], detail[1])
        if self.kind == 'in':
            return ('IntType', detail[0], detail[1], bool(detail[2]))
        if self.kind == 'st':
            if not all(m in detail for t, m in self.members):
                return None
            return ('Struct', self.members)
        return ('Macro',) if self.kind == 'ma' else ('Variable',)


def plain(v):
    """An answer of fbuild as a tuple."""
    if v is None or isinstance(v, (str, bool)):
        return v
    kind = type(v).__name__
    if v != copy.copy(v) or not repr(v).startswith(kind + '('):
        return ('bad', repr(v))
    if kind == 'Function':
        return (kind, v.return_type, tuple(v.args))
    if kind == 'Type':
        return (kind, v.alignment, v.size)
    if kind == 'IntType':
        return (kind, v.alignment, v.size, v.signed)
    if kind == 'Struct':
        return (kind, tuple(map(tuple, v.members)))
    return (kind,)


class Test:
    def __init__(self, conf, n):
        ch = conf.ch
        self.conf = conf
        self.name = 'Test%d' % n
        self.header = ch.choose('w', [None] + sorted(conf.system.headers) * 3 + ['nosuch.h'])
        self.libs = [x for x in ('lb_0', 'lb_1') if ch.flip('w', 0.5)]
        self.fields = [Field(conf, conf.fresh()) for _ in range(1 + ch.pick('w', 4))]
        self.base = None
        if conf.tests and ch.flip('w', 0.25):
            # Inherits from another one.
            self.base = ch.choose('w', conf.tests)
            if ch.flip('w', 0.4):
                # Declares one of its fields anew.
                ch.choose('w', self.fields).attr = ch.choose('w', self.base.all_fields()).attr

    def declares_header(self):
        return self.header is not None and not (self.base and self.base.header == self.header)

    def source(self):
        out = ['class %s(%s):' % (self.name, self.base.name if self.base else 'c.Test')]
        if self.declares_header():
            out.append('    header = c.header_test(%r)' % self.header)
        for f in self.fields:
            out.append('    %s = %s' % (f.attr, f.decl))
        return '\n'.join(out) + '\n'

    def all_fields(self):
        own = [f.attr for f in self.fields]
        return [f for f in (self.base.all_fields() if self.base else ()) if f.attr not in own] + self.fields

    def names(self):
        """The names of the fields in the order they were declared in."""
        own = (['header'] if self.declares_header() else []) + [f.attr for f in self.fields]
        return [n for n in (self.base.names() if self.base else ()) if n not in own] + own


class Conf(Builds):
    def __init__(self, sim):
        self.sim = sim
        self.k = sim.k
        self.ch = ch = sim.ch
        self.vfs = sim.world.vfs
        self.vfs.mkdirs('/w')
        self.n = 0
        self.system = System(ch)
        self.tools = ConfTools(sim, self.system)
        self.tests = []
        for i in range(1 + ch.pick('w', 3)):
            t = Test(self, i)
            if t.base is not None and t.header is None:
                t.header = t.base.header
            self.tests.append(t)
        self.engine = ch.weighted('w', [('pickle', 3), ('sqlite', 2), ('cache', 1)])
        self.builder = ch.choose('w', ['static', 'static', 'shared'])
        self.history = []
        self.outputs = {}
        self.others = True
        sim.sample = {'engine': self.engine, 'history': self.history, 'root': self.root_text()}

    def fresh(self):
        self.n += 1
        return self.n

    def root_text(self):
        return HEAD + '\n'.join(t.source() for t in self.tests) + '''
def build(ctx):
    H.run(ctx)
'''

    def run(self, ctx):
        """Called by the build script: makes all the checks, some of them at once."""
        import fbuildroot
        ch = self.ch
        import fbuild.builders as fb
        import fbuild.builders.c.gcc as gcc
        import fbuild.builders.pkg_config as pkg_config
        builder = getattr(gcc, self.builder)(ctx)
        jobs = []
        for t in self.tests:
            test = getattr(fbuildroot, t.name)(builder, external_libs=list(t.libs))
            if t.header is not None:
                jobs.append((t, 'header', lambda test=test: test.header,
                             t.header if t.header in self.system.headers else None))
            for f in t.all_fields():
                jobs.append((t, f.attr, lambda test=test, f=f: getattr(test, f.attr), f.answer(t)))
            if ch.flip('w', 0.3):
                kind = ch.choose('w', ['fn', 'ma', 'ty', 'in', 'st', 'va'])
                jobs.append((t, kind, lambda test=test, kind=kind: self.listing(test, kind),
                             self.expected_listing(t, kind)))
            if ch.flip('w', 0.2):
                jobs.append((t, 'fields', lambda test=test: ' '.join(n for n, _ in type(test).fields()),
                             ' '.join(t.names())))
        for p in sorted(self.system.packages):
            have = self.system.packages[p]
            def ask(p=p):
                pc = pkg_config.PkgConfig(ctx, p)
                return repr((pc.modversion(), pc.cflags(), pc.libs()))
            jobs.append((None, p, ask, repr((have['--modversion'], have['--cflags'].split(' '),
                                             have['--libs'].split(' ')))))
        if self.others:
            jobs.append((None, 'find', lambda: str.__str__(fb.find_program(ctx, ['nosuch', 'gcc', 'ar'])),
                         '/bin/gcc'))
            for i in range(ch.pick('w', 4)):
                jobs.append(self.other(builder))
        got = []

        def one(job):
            t, attr, f, want = job
            got.append((t.name if t else None, attr, plain(f()), want))
        for i in range(len(jobs)):
            j = i + ch.pick('w', len(jobs) - i)
            jobs[i], jobs[j] = jobs[j], jobs[i]
        if ch.flip('w', 0.6):
            ctx.scheduler.map(one, jobs)
        else:
            for job in jobs:
                one(job)
        self.outputs = got

    def other(self, builder):
        """A check that the build script makes itself."""
        ch = self.ch
        n = self.fresh()
        h = ch.choose('w', sorted(self.system.headers) + ['nosuch.h'])
        ok = h in self.system.headers
        end = ch.choose('w', ['return 0;', 'return 2;', 'abort();', 'SYNTAX ERROR;'])
        code = '#include <%s>\nint main() { %s }' % (h, end)
        compiles = ok and 'SYNTAX' not in end
        what = ch.choose('w', ['compile', 'link_lib', 'link_exe', 'run', 'output'])
        if what == 'output':
            code = '#include <stdio.h>\nint main() { printf("text%d"); return 0; }' % n
            return (None, 'other%d' % n, lambda: builder.tempfile_run(code)[0].decode(), 'text%d' % n)
        checked = ch.flip('w', 0.5)
        f = getattr(builder, ('check_' if checked else 'try_') + what)
        args = (code, 'checking other %d' % n) if checked else (code,)
        return (None, '%s%d' % (what, n), lambda: f(*args),
                compiles and (what != 'run' or end == 'return 0;'))

    GROUPS = {'fn': 'functions', 'ma': 'macros', 'ty': 'types', 'in': 'int_types', 'st': 'structs',
              'va': 'variables'}

    def listing(self, test, kind):
        return repr([(name, plain(v)) for name, v in getattr(test, self.GROUPS[kind])()])

    def expected_listing(self, t, kind):
        return repr([('struct ' + f.name if kind == 'st' else f.name, f.answer(t)) for f in t.all_fields()
                     if f.kind == kind or kind == 'ty' and f.kind == 'in'])

    def edit(self):
        """Change the build script."""
        ch = self.ch
        t = ch.choose('w', self.tests)
        what = ch.choose('w', ['field', 'field', 'add', 'remove', 'libs', 'test', 'order'])
        if what == 'field':
            ch.choose('w', t.fields).renew()
        elif what == 'add':
            t.fields.append(Field(self, self.fresh()))
        elif what == 'remove':
            if len(t.fields) > 1:
                t.fields.pop(ch.pick('w', len(t.fields)))
        elif what == 'libs':
            t.libs = [x for x in ('lb_0', 'lb_1') if ch.flip('w', 0.5)]
        elif what == 'order':
            t.fields.reverse()
        else:
            new = Test(self, self.fresh())
            new.base = None
            self.tests.append(new)
        return what


def n01(sim):
    ch = sim.ch
    m = Conf(sim)
    faults = ch.choose('f', ['none', 'none', 'interrupt', 'kill'])
    rounds = 1 + ch.pick('w', 4)
    for i in range(rounds):
        edits = [m.edit() for _ in range(1 + ch.pick('w', 2))] if i and ch.flip('w', 0.6) else []
        if edits:
            m.done = False
        strike = None
        if i < rounds - 1 and faults != 'none' and ch.flip('f', 0.8):
            strike = (faults, ch.given('f', 3000, lambda r: r.randrange(1, r.choice([800, 1500, 3000]))))
        m.others = not (i and not edits and strike is None)
        r = m.build(ch.choose('w', [1, 2, 3, 4]), strike)
        m.history.append('%s %s -> %s' % (edits, strike or '', r))
        note(sim, 'build ' + r)
        if r != 'ok':
            if strike is None:
                sim.violation('check-failed', 'the build ended as %s: %s' % (r, m.console.decode()))
            continue
        for t, attr, have, want in m.outputs:
            note(sim, 'checks')
            if have is None or have is False:
                note(sim, 'negative')
            if have != want:
                sim.violation('wrong-answer', '%s.%s is %r instead of %r' % (t, attr, have, want))
        left = [f for f in m.vfs.files('/w/build') if '/.tmp/' in f]
        if left:
            sim.violation('left-behind', repr(left[:3]))
        if m.engine != 'cache' and not m.others and m.done and m.tools.log:
            sim.violation('asked-again', repr(m.tools.log[:3]))
        m.done = True


Conf.done = False
N01 = Spec(n01, budget=3000000, lines=0.02)
