"""A generated build project, its reference semantics, and the model of what must be recorded.

The project is a set of cached functions whose bodies are interpreted by `interp` - by the real
build through RealEnv (real cached calls, simulated files) and by the reference through RefEnv
(everything from scratch, writes kept in an overlay).
"""
import hashlib


class Fail(Exception):
    """What a failing build function raises."""


def h(*a):
    return hashlib.md5(repr(a).encode()).hexdigest()[:10]


class Fn:
    def __init__(self, name, kind, params, ret, actions, variants, owner=None):
        self.name = name             # 'f0', 'K0', 'K0.m', 'K0.p'
        self.kind = kind             # fun, obj, meth, prop
        self.params = params         # [(name, annotation or '')]
        self.ret = ret               # '', 'DST', 'DSTS'
        self.variants = variants     # [{param: value}]
        self.owner = owner           # class name of a method
        self.takes = None            # class name of an object this function is given
        self.parent = None           # class name of the base class
        self.parent_variant = 0      # the arguments of the base class' constructor
        self.proto = None            # the method of the base class this one is
        self.shape = 'str'           # what kind of value it returns
        self.nkw = 0                 # how many of the last parameters are keyword-only
        self.star = None             # name of the parameter that is *args
        self.starstar = None         # name of the parameter that is **kwargs
        self._ver = 1
        self._actions = actions
        self.defaults = {}           # param -> default value

    # An inherited method is the method of the base class.
    @property
    def ver(self):
        return self.proto.ver if self.proto else self._ver

    @ver.setter
    def ver(self, v):
        if self.proto:
            self.proto.ver = v
        else:
            self._ver = v

    @property
    def actions(self):
        return self.proto.actions if self.proto else self._actions

    @actions.setter
    def actions(self, v):
        if self.proto:
            self.proto.actions = v
        else:
            self._actions = v

    @property
    def base(self):
        """The class of the object a call needs."""
        return self.owner or self.takes

    def brief(self):
        out = {'name': self.name, 'kind': self.kind, 'params': ['%s:%s' % p for p in self.params],
               'ret': self.ret, 'ver': self.ver, 'actions': self.actions, 'variants': self.variants}
        for k in ('takes', 'parent', 'nkw', 'star', 'starstar'):
            if getattr(self, k) not in (None, 0):
                out[k] = getattr(self, k)
        if self.shape != 'str':
            out['shape'] = self.shape
        if self.proto:
            out['inherited'] = self.proto.name
        return out


SHAPES = ['none', 'zero', 'false', 'empty', 'tuple', 'list', 'dict', 'bytes', 'path', 'nested',
          'same', 'set']


def shaped(shape, name, ver, token):
    """The result of a call as a plain value."""
    text = '%s:%d:%s' % (name, ver, token)
    return {
        'str': lambda: text,
        'none': lambda: None,
        'zero': lambda: 0,
        'false': lambda: False,
        'empty': lambda: '',
        'tuple': lambda: (text, 1),
        'list': lambda: [text, [2, None]],
        'dict': lambda: {'text': text, 'n': {'m': ()}},
        'bytes': lambda: text.encode(),
        'path': lambda: 'out/' + token,
        'nested': lambda: [{'a': (text, {'b': [text]})}, text],
        'same': lambda: '%s:same' % name,
        'set': lambda: {text, 'x'},
    }[shape]()


def aslist(annot, value):
    if annot in ('SRC', 'DST'):
        return [value]
    if annot in ('SRCS', 'DSTS'):
        return list(value)
    if annot in ('OPTIONAL_SRC', 'OPTIONAL_DST'):
        return [] if value is None else [value]
    return []


def declared(fn, args):
    srcs, dsts = [], []
    if fn.kind != 'obj':
        for p, annot in fn.params:
            if annot.endswith('SRC') or annot.endswith('SRCS'):
                srcs += aslist(annot, args[p])
            elif annot:
                dsts += aslist(annot, args[p])
    return srcs, dsts


def actual(fn, args, selfval):
    """The arguments of a call: methods of different objects write different files."""
    if not fn.base:
        return args
    tail = '_' + h(selfval)[:6]
    out = dict(args)
    for p, annot in fn.params:
        if annot.endswith('DST') and out[p] is not None:
            out[p] = out[p] + tail
        elif annot.endswith('DSTS'):
            out[p] = [x + tail for x in out[p]]
    return out


def dbname(fname):
    """The name fbuild knows a function by: 'K1.m^K0' is the method K0.m of a K1 object."""
    if '^' in fname:
        cls, base = fname.split('^')
        return base + '.' + cls.split('.')[1]
    return fname


class Project:
    def __init__(self):
        self.fns = {}
        self.order = []
        self.shift = 0               # comment lines on top: moves every function

    def add(self, fn):
        self.fns[fn.name] = fn
        self.order.append(fn.name)

    def versions(self):
        return {n: f.ver for n, f in self.fns.items()}

    def source(self):
        out = ['# comment'] * self.shift + ['import fbuild.db', 'H = None', '']

        def sig(fn, first):
            ps = [first] + (['o'] if fn.takes else [])
            first_kw = len(fn.params) - fn.nkw
            for i, (p, annot) in enumerate(fn.params):
                s = p
                if p == fn.star:
                    s = '*' + p
                elif p == fn.starstar:
                    s = '**' + p
                elif fn.nkw and i == first_kw and not fn.star:
                    ps.append('*')
                if annot and fn.kind != 'obj':
                    s += ': fbuild.db.' + annot
                if p in fn.defaults:
                    s += '=' + repr(fn.defaults[p])
                ps.append(s)
            r = ' -> fbuild.db.' + fn.ret if fn.ret else ''
            return '(%s)%s:' % (', '.join(ps), r)

        def args(fn):
            return 'dict(%s)' % ', '.join('%s=%s' % (p, p) for p, _ in fn.params)
        names = [n for n in self.order if n in self.fns]
        done = set()

        def emit(name):
            if name in done:
                return
            done.add(name)
            fn = self.fns[name]
            if fn.kind == 'fun':
                out.extend([
                    '@fbuild.db.caches',
                    'def %s%s' % (name, sig(fn, 'ctx')),
                    '    return H.run(ctx, %r, %d, %s%s)' % (
                        name, fn.ver, args(fn), ', o' if fn.takes else ''), ''])
            elif fn.kind == 'obj':
                if fn.parent:
                    emit(fn.parent)
                out.extend([
                    'class %s(%s):' % (name, fn.parent or 'fbuild.db.PersistentObject'),
                    '    def __init__%s' % sig(fn, 'self, ctx')])
                if fn.parent:
                    out.extend([
                        '        H.begin(self, %r, %d, %s)' % (name, fn.ver, args(fn)),
                        '        up = H.parent_args(%r)' % name,
                        '        super().__init__(ctx, *up[0], **up[1])'])
                else:
                    out.append('        super().__init__(ctx)')
                out.extend([
                    '        self.val = H.make(self, %r, %d, %s)' % (name, fn.ver, args(fn)), ''])
                for m in names:
                    f = self.fns[m]
                    if f.owner == name and not f.proto:
                        leaf = m.split('.')[1]
                        out.extend([
                            '    @fbuild.db.%s' % ('cachemethod' if f.kind == 'meth'
                                                   else 'cacheproperty'),
                            '    def %s%s' % (leaf, sig(f, 'self'))])
                        out.extend([
                            '        return H.run(self.ctx, %r, %d, %s, self)' % (
                                m, f.ver, args(f)), ''])
        for name in names:
            if not self.fns[name].owner:
                emit(name)
        return '\n'.join(out) + '\n'


def argtoken(fn, args):
    return [(p, args[p]) for p, _ in fn.params]


def norm(v):
    """A result as something that can be compared and always prints the same."""
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return ('a set of', sorted(norm(x) for x in v))
    return v


def construct(env, project, fn, args, outer=()):
    """The constructors of a class and of its base class."""
    up = None
    if fn.parent:
        p = project.fns[fn.parent]
        up = construct(env, project, p, p.variants[fn.parent_variant],
                       outer or outermost(fn, args))
    return interp(env, fn, args, up, outer)


def outermost(fn, args):
    """The call that runs the constructor of a base class writes files of its own."""
    return (h(fn.name, [(p, v if not isinstance(v, str) else str.__str__(v))
                        for p, v in argtoken(fn, args)]),)


def interp(env, fn, args, selfval, outer=()):
    """The body of every build function."""
    toks = [fn.name, fn.ver, selfval, [(p, v if not isinstance(v, str) else str.__str__(v))
                                       for p, v in argtoken(fn, args)]]
    annots = dict(fn.params)
    written = set()

    def got(path, text):
        toks.append(text)
        if '!fail' in text:
            if h(fn.name, 'tears')[0] in '01234567':
                # It was writing already.
                tear(fn.actions)
            raise env.fail(fn.name, path)

    def tear(actions):
        for a in actions:
            if a[0] == 'write':
                for p in aslist(annots[a[1]], args[a[1]]):
                    if p not in written:
                        env.tear(p)
            elif a[0] == 'extdst':
                p = a[1] % (h(fn.name, toks[2], toks[3], *outer),)
                if p not in written:
                    env.tear(p)

    def follow(path, text, seen):
        for line in text.split('\n'):
            if line.startswith('inc '):
                p = line[4:].strip()
                if p not in seen:
                    seen.add(p)
                    t = env.read(p)
                    env.register(srcs=[p])
                    got(p, t)
                    follow(p, t, seen)

    def do(actions):
        for a in actions:
            op = a[0]
            if op == 'read':
                for p in aslist(annots[a[1]], args[a[1]]):
                    got(p, env.read(p))
            elif op == 'include':
                for p in aslist(annots[a[1]], args[a[1]]):
                    t = env.read(p)
                    got(p, t)
                    follow(p, t, {p})
            elif op == 'ext':
                t = env.read(a[1])
                env.register(srcs=[a[1]])
                got(a[1], t)
            elif op == 'call':
                toks.append(env.inner(a[1], a[2], a[3]))
            elif op == 'super':
                toks.append(env.inner(a[1], a[2], 'idiom', True))
            elif op == 'map':
                toks.append(env.map(a[1]))
            elif op == 'rec':
                n = args['n']
                if n > 0:
                    toks.append(env.inner(a[1], n - 1, 'idiom'))
            elif op == 'branch':
                # Depends on the arguments alone, or on what was read last as well.
                if int(h(fn.name, toks[2:4]) if a[3] else h(toks[-1]), 16) & 1:
                    do(a[1])
                else:
                    do(a[2])
            elif op == 'pause':
                env.pause()
            elif op == 'write':
                for p in aslist(annots[a[1]], args[a[1]]):
                    written.add(p)
                    env.write(p, '%s %s\n' % (p, h(toks)))
            elif op == 'extdst':
                p = a[1] % (h(fn.name, toks[2], toks[3], *outer),)
                written.add(p)
                env.write(p, '%s %s\n' % (p, h(toks)))
                env.register(dsts=[p])
            else:
                raise AssertionError(op)
    do(fn.actions)
    if fn.ret:
        out = []
        for i in range(1 if fn.ret == 'DST' else 2):
            p = 'out/ret_%s_%s_%d' % (fn.name, h(fn.name, toks[2], toks[3]), i)
            env.write(p, '%s %s\n' % (p, h(toks)))
            out.append(p)
        return out[0] if fn.ret == 'DST' else out
    return env.result(fn.shape, fn.name, fn.ver, h(toks))


# ------------------------------------------------------------------------------------------

class Info:
    """What one cached call read, wrote and used, according to the reference."""
    __slots__ = ('key', 'result', 'srcs', 'dsts', 'deps', 'writes')


class RefFail(Exception):
    def __init__(self, kind, detail=''):
        self.kind = kind             # 'fail' or 'missing'
        self.detail = detail


class RefEnv:
    """From-scratch evaluation over the current files."""

    def __init__(self, project, vfs, cwd='/w'):
        self.project = project
        self.vfs = vfs
        self.cwd = cwd
        self.overlay = {}
        self.frames = []
        self.infos = []
        self.read_now = {}           # everything read so far

    def content(self, path):
        path = str(path)
        if path in self.overlay:
            return self.overlay[path]
        try:
            return self.vfs.text(path, self.cwd)
        except OSError:
            return None

    def read(self, path):
        c = self.content(path)
        if c is None:
            raise RefFail('missing', path)
        self.read_now[str(path)] = c
        return c

    def write(self, path, text):
        self.overlay[str(path)] = text
        for f in self.frames:
            f['writes'][str(path)] = text

    def tear(self, path):
        pass

    def register(self, srcs=(), dsts=()):
        for s in srcs:
            if self.content(s) is None:
                raise RefFail('missing', s)
        for f in self.frames:
            f['srcs'].update(str(s) for s in srcs)
            f['dsts'].update(str(d) for d in dsts)

    def fail(self, name, path):
        return RefFail('fail', (name, path))

    def pause(self):
        pass

    def result(self, shape, *a):
        return norm(shaped(shape, *a))

    def inner(self, fname, variant, mode, up=False):
        if mode == 'try':
            return self.guarded(fname, variant)
        info = self.call(fname, variant, self.frames[-1]['self'] if up else None)
        if mode == 'idiom':
            self.register(info.srcs, info.dsts)
        return info.result

    def guarded(self, fname, variant):
        before = dict(self.read_now)
        self.read_now.clear()
        try:
            try:
                info = self.call(fname, variant)
            except RefFail as e:
                if e.kind == 'missing':
                    raise
                self.register([p for p in self.read_now])
                return 'failed'
            self.register(info.srcs, info.dsts)
            return info.result
        finally:
            before.update(self.read_now)
            self.read_now = before

    def map(self, calls):
        return [self.inner(f, v, 'idiom') for f, v in calls]

    def call(self, fname, variant, selfval=None):
        """One cached call. Returns its Info."""
        fn = self.project.fns[fname]
        args = fn.variants[variant]
        if fn.base:
            if selfval is None:
                selfval = self.call(fn.base, args['__owner__']).result
            args = actual(fn, args, selfval)
        if self.frames:
            self.frames[-1]['deps'].add(dbname(fname))
        srcs, dsts = declared(fn, args)
        contents = {}
        for s in srcs:
            c = self.content(s)
            if c is None:
                raise RefFail('missing', s)
            contents[str(s)] = c
        frame = {'srcs': set(), 'dsts': set(), 'deps': set(), 'writes': {}, 'self': selfval}
        if fn.parent:
            frame['deps'].add(fn.parent)
        self.frames.append(frame)
        try:
            try:
                if fn.kind == 'obj':
                    r = construct(self, self.project, fn, args)
                else:
                    r = interp(self, fn, args, selfval)
            finally:
                self.frames.pop()
        except RefFail:
            if self.frames:
                self.frames[-1]['deps'] |= frame['deps']
            raise
        info = Info()
        info.key = (fname, variant, selfval)
        info.result = r
        info.srcs = contents
        for s in frame['srcs']:
            c = self.content(s)
            if c is None:
                raise RefFail('missing', s)
            info.srcs.setdefault(s, c)
        rets = [r] if fn.ret == 'DST' else list(r) if fn.ret == 'DSTS' else []
        info.dsts = set(map(str, dsts)) | frame['dsts'] | set(rets)
        info.deps = frame['deps']
        info.writes = frame['writes']
        self.infos.append(info)
        return info


# ------------------------------------------------------------------------------------------

class Record:
    __slots__ = ('status', 'srcs', 'dsts', 'versions', 'result', 'why')

    def __init__(self, info, versions, status='must'):
        self.status = status         # must: has to be a hit; may: either; gone: has to run
        self.srcs = dict(info.srcs)
        self.dsts = set(info.dsts)
        self.versions = dict(versions)
        self.result = info.result
        self.why = ''

    def copy(self):
        r = Record.__new__(Record)
        r.status, r.srcs, r.dsts = self.status, self.srcs, self.dsts
        r.versions, r.result, r.why = self.versions, self.result, self.why
        return r


class Model:
    """Which calls have to be answered from the database."""

    def __init__(self, project, vfs, cwd='/w'):
        self.project = project
        self.vfs = vfs
        self.cwd = cwd
        self.recs = {}
        self.fdeps = {}              # function -> every function it was ever seen to call

    def closure(self, fname):
        seen, todo = set(), [fname]
        while todo:
            f = todo.pop()
            if f not in seen:
                seen.add(f)
                todo += self.fdeps.get(f, ())
        return seen

    def callers(self, fname):
        return {f for f in set(self.fdeps) | {fname} if fname in self.closure(f)}

    def settle(self):
        """Called whenever a cached call is about to be made: notice what has changed."""
        vs = self.project.versions()
        cache = {}

        def content(p):
            if p not in cache:
                try:
                    cache[p] = self.vfs.text(p, self.cwd)
                except OSError:
                    cache[p] = None
            return cache[p]
        for key, r in self.recs.items():
            if r.status != 'must':
                continue
            for f in self.closure(dbname(key[0])):
                if vs.get(f) != r.versions.get(f):
                    r.status, r.why = 'may', 'code of %s changed' % f
                    break
            else:
                for p, c in r.srcs.items():
                    if content(p) != c:
                        r.status, r.why = 'may', 'source %s changed' % p
                        break
                else:
                    for d in r.dsts:
                        if content(d) is None:
                            r.status, r.why = 'may', 'output %s missing' % d
                            break

    def must_hit(self, info):
        r = self.recs.get(info.key)
        return r is not None and r.status == 'must' and r.srcs == info.srcs

    def record(self, info):
        self.fdeps.setdefault(dbname(info.key[0]), set()).update(info.deps)
        self.recs[info.key] = Record(info, self.project.versions())

    def snapshot(self):
        return {k: r.copy() for k, r in self.recs.items()}

    def weaken(self, why):
        for r in self.recs.values():
            if r.status == 'must':
                r.status, r.why = 'may', why
