"""Random build histories over a generated project, checked against the model after every call."""
import errno
import sqlite3

from sim.kernel import SimKill

from props import dbmodel as M
from props.dbmodel import Fail, Fn, Info, Model, Project, RefEnv, RefFail, h

ENGINES = ['pickle', 'sqlite', 'cache']


class Config:
    """What a property's histories contain."""
    kinds = None                     # violations this property judges (None: all)
    engines = ENGINES
    builds = (2, 5)
    steps = (1, 5)
    functions = (1, 5)
    sources = (1, 4)
    p_obj = 0.3
    p_call = 0.6
    p_ext = 0.3
    p_include = 0.3
    p_extdst = 0.2
    p_dst = 0.5
    p_fail = 0.0                     # an edit makes a source fail
    p_try = 0.0
    p_rec = 0.15
    p_branch = 0.2
    p_par = 0.0
    p_clash = 0.0                # calls of one function share an output file (known finding)
    p_torn = 0.0                 # outputs are deleted before a killed build (known finding)
    p_early = 0.15               # outputs are written before everything is known, and again
    p_map = 0.1
    p_focus = 0.05                   # one function, which calls others only for some arguments
    p_wide = 0.03                    # many functions, most of them called by one
    p_shape = 0.3                    # functions that return something else than a string
    p_takes = 0.2                    # functions whose argument is a cached object
    p_parent = 0.6                   # classes with a cached base class
    p_super = 0.6                    # overriding methods that call the overridden one
    p_kw = 0.35                      # keyword-only parameters, *args and **kwargs
    p_unfail = 0.0                   # what made a call fail is undone and the call repeated
    p_alter = 0.0                    # callers alter the lists they got (known finding)
    p_inproc = 0.25                  # edits between calls of one build
    p_raise = 0.5                    # a failed call ends the build
    threads = (1, 1)
    mutations = (0, 3)
    weights = dict(edit=4, touch=2, delout=2, code=2, shift=1, rename=0, remove=0, restore=1,
                   delsrc=0, delall=0)
    endings = dict(ok=1)             # how a build ends: ok, crash, power, sigint
    p_near = 0.35                    # strike around the moment the state file is written
    max_arm = 400                    # steps until a crash or interrupt strikes

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise TypeError(k)
            setattr(self, k, v)


PLAIN = [0, 7, 'x', 'yy', None, (1, 'a'), ('p', ('q', 2)), 3.5, 'é', '', -2, [1, 2], {'k': 3}]
ANNOTS_SRC = ['SRC', 'SRC', 'SRCS', 'OPTIONAL_SRC']
ANNOTS_DST = ['DST', 'DST', 'DSTS', 'OPTIONAL_DST']


class Gen:
    """Builds and edits projects."""

    def __init__(self, ch, cfg):
        self.ch = ch
        self.cfg = cfg
        self.project = Project()
        self.serial = 0
        self.names = 0
        self.clash = set()           # outputs that several calls write
        n = self.rng(cfg.sources)
        self.sources = ['s%d' % i for i in range(n)]
        self.content = {}
        for s in self.sources:
            self.content[s] = self.new_text(s, False)
        self.wide = self.flip(cfg.p_wide)
        nf = 10 + self.ch.pick('w', 6) if self.wide else self.rng(cfg.functions)
        for i in reversed(range(nf)):
            fn = self.new_fn('f%d' % i, [f for f in self.project.order if '^' not in f])
        if self.wide:
            # One function that uses nearly everything.
            for f in [f for f in self.project.order if '^' not in f and f != fn.name]:
                if self.project.fns[f].owner != fn.name and self.ch.flip('w', 0.85):
                    v = self.ch.pick('w', len(self.project.fns[f].variants))
                    calls = [(g, w) for g, w in self.prereqs(f, v) + [(f, v)]]
                    fn.actions += [('call', g, w, 'idiom') for g, w in calls]
        self.focus = None
        below = [f for f in self.project.order if '^' not in f and f != fn.name
                 and self.project.fns[f].owner != fn.name]
        if below and len(fn.variants) > 1 and self.flip(cfg.p_focus):
            self.focus = fn.name
            arms = [self.one_call(below), self.one_call(below) if self.ch.flip('w', 0.5) else []]
            fn.actions = [('branch', arms[0], arms[1], True)] + [
                a for a in fn.actions if a[0] not in ('call', 'branch', 'map')]
        self.project.order.reverse()

    def rng(self, lohi):
        lo, hi = lohi
        return lo + self.ch.pick('w', hi - lo + 1)

    def flip(self, p):
        return p > 0 and self.ch.flip('w', p)

    def new_text(self, s, may_fail=True):
        self.serial += 1
        lines = ['v%d' % self.serial]
        i = int(s[1:])
        later = [x for x in self.sources if int(x[1:]) > i]
        if later and self.flip(self.cfg.p_include):
            lines.append('inc %s' % self.ch.choose('w', later))
        if may_fail and self.flip(self.cfg.p_fail):
            lines.append('!fail')
        return '\n'.join(lines) + '\n'

    # -- functions -------------------------------------------------------------------------

    def produced(self):
        """{path: (function, variant)} for declared outputs."""
        out = {}
        for n in self.project.order:
            f = self.project.fns.get(n)
            if f is None or f.base:
                continue
            for i, args in enumerate(f.variants):
                for d in M.declared(f, args)[1]:
                    if d not in self.clash:
                        out[str(d)] = (n, i)
        return out

    def values(self, annot, name, variant, pname, pool):
        ch = self.ch
        if annot == 'SRC':
            return ch.choose('w', pool)
        if annot == 'SRCS':
            k = ch.pick('w', min(3, len(pool)) + 1)
            start = ch.pick('w', len(pool))
            return [pool[(start + j) % len(pool)] for j in range(k)]
        if annot == 'OPTIONAL_SRC':
            return None if ch.flip('w', 0.4) else ch.choose('w', pool)
        base = 'out/%s_%s%d' % (name.replace('.', '_'), pname, variant)
        if annot == 'DST':
            return base
        if annot == 'DSTS':
            return [base + '_%d' % j for j in range(ch.pick('w', 3))]
        if annot == 'OPTIONAL_DST':
            return None if ch.flip('w', 0.4) else base
        return ch.choose('w', PLAIN)

    def new_fn(self, name, callees):
        ch, cfg = self.ch, self.cfg
        kind = 'obj' if self.flip(cfg.p_obj) else 'fun'
        params = []
        if ch.flip('w', 0.6):
            params.append(('a', ''))
        rec = None
        if kind == 'fun' and self.flip(cfg.p_rec):
            rec = name
            params.append(('n', ''))
        pool = list(self.sources)
        if kind == 'fun':
            outs = self.produced()
            if rec is None:
                pool += sorted(outs)
            for j in range(1 + ch.pick('w', 2)):
                if ch.flip('w', 0.75):
                    params.append(('s%d' % j, ch.choose('w', ANNOTS_SRC)))
            if self.flip(cfg.p_dst):
                params.append(('d', ch.choose('w', ANNOTS_DST)))
        ret = ''
        if kind == 'fun' and self.flip(cfg.p_dst * 0.4):
            ret = ch.choose('w', ['DST', 'DSTS'])
        if kind == 'obj':
            name = 'K' + name[1:]
        fn = Fn(name, kind, params, ret, [], [])
        self.dress(fn)
        objs = [f for f in callees if self.project.fns[f].kind == 'obj']
        if objs and kind == 'fun' and rec is None and self.flip(cfg.p_takes):
            fn.takes = ch.choose('w', objs)
        bases = [f for f in objs if not self.project.fns[f].parent]
        if bases and kind == 'obj' and self.flip(cfg.p_parent):
            fn.parent = ch.choose('w', bases)
            fn.parent_variant = ch.pick('w', len(self.project.fns[fn.parent].variants))
        nv = 1 + ch.pick('w', 3)
        clash = kind == 'fun' and rec is None and ('d', 'DST') in params and ('a', '') in params and \
            self.flip(cfg.p_clash)
        if clash:
            self.clash.add('out/%s_d0' % name)
        for i in range(nv):
            for _ in range(8):
                args = {}
                for p, annot in params:
                    args[p] = i if p == 'n' else self.argument(
                        fn, annot, name, 0 if clash and p == 'd' else i, p, pool)
                if fn.takes:
                    args['__owner__'] = ch.pick('w', len(self.project.fns[fn.takes].variants))
                if args not in fn.variants:
                    fn.variants.append(args)
                    break
            else:
                break
            if not params and not fn.takes:
                break
        if any(p == 'n' for p, _ in params) and [v['n'] for v in fn.variants] != list(
                range(len(fn.variants))):
            fn.variants = fn.variants[:1]
        # Defaults come from the first variant, for a suffix of the parameters.
        if ch.flip('w', 0.3):
            k = ch.pick('w', len(params) + 1)
            for p, annot in params[len(params) - k:]:
                if p in (fn.star, fn.starstar):
                    continue
                v = fn.variants[0][p]
                if not isinstance(v, (list, dict)):
                    fn.defaults[p] = v
                else:
                    fn.defaults.clear()
        fn.actions = self.new_actions(fn, callees)
        self.project.add(fn)
        if kind == 'obj':
            for leaf in ('m', 'p'):
                over = self.project.fns.get('%s.%s' % (fn.parent, leaf)) if fn.parent else None
                if over is not None and ch.flip('w', 0.5):
                    self.project.add(self.inherit(fn, '%s.%s' % (name, leaf), over))
                elif ch.flip('w', 0.6):
                    ps = []
                    if leaf == 'm':
                        if ch.flip('w', 0.5):
                            ps.append(('x', ''))
                        ps.append(('s0', ch.choose('w', ANNOTS_SRC)))
                        if self.flip(cfg.p_dst):
                            ps.append(('d', ch.choose('w', ANNOTS_DST)))
                    m = Fn('%s.%s' % (name, leaf), 'meth' if leaf == 'm' else 'prop', ps, '', [], [],
                           owner=name)
                    if leaf == 'm':
                        self.dress(m)
                        ps = m.params
                    for i in range(1 + ch.pick('w', 2) if ps else 1):
                        args = {p: self.argument(m, an, name + leaf, i, p, self.sources)
                                for p, an in ps}
                        owner = ch.pick('w', len(fn.variants))
                        if m.name.endswith('.m') and any(
                                dict(v, __owner__=0) == dict(args, __owner__=0) for v in m.variants):
                            continue
                        args['__owner__'] = owner
                        m.variants.append(args)
                    m.actions = self.new_actions(m, callees)
                    if over is not None and self.flip(cfg.p_super):
                        up = self.inherit(fn, '%s.%s^%s' % (name, leaf, fn.parent), over)
                        self.project.add(up)
                        call = ('super', up.name, ch.pick('w', len(up.variants)))
                        if ch.flip('w', 0.5):
                            m.actions.append(call)
                        else:
                            m.actions.insert(0, call)
                    self.project.add(m)
                elif over is not None:
                    self.project.add(self.inherit(fn, '%s.%s' % (name, leaf), over))
        return fn

    def dress(self, fn):
        """Unusual parameters and results."""
        ch = self.ch
        if not fn.ret and fn.kind != 'obj' and self.flip(self.cfg.p_shape):
            fn.shape = ch.choose('w', M.SHAPES)
        if fn.kind == 'prop' or not self.flip(self.cfg.p_kw):
            return
        ps = [p for p, _ in fn.params]
        if 'n' in ps:
            return
        fn.nkw = ch.pick('w', len(ps) + 1)
        if ch.flip('w', 0.4):
            fn.star = 'rest'
            fn.params.insert(len(ps) - fn.nkw, (
                'rest', '' if fn.kind == 'obj' or ch.flip('w', 0.4) else 'SRCS'))
        if ch.flip('w', 0.3):
            fn.starstar = 'opts'
            fn.params.append(('opts', ''))

    def argument(self, fn, annot, name, variant, pname, pool):
        ch = self.ch
        if pname == fn.star:
            if annot:
                return tuple(self.values(annot, name, variant, pname, pool))
            return tuple(ch.choose('w', PLAIN) for _ in range(ch.pick('w', 3)))
        if pname == fn.starstar:
            return {k: ch.choose('w', PLAIN) for k in ('p', 'q')[:ch.pick('w', 3)]}
        return self.values(annot, name, variant, pname, pool)

    def inherit(self, cls, name, over):
        """The method of the base class for objects of this class."""
        m = Fn(name, over.kind, over.params, over.ret, None, [], owner=cls.name)
        m.proto = over.proto or over
        for k in ('defaults', 'nkw', 'star', 'starstar', 'shape'):
            setattr(m, k, getattr(over, k))
        for v in over.variants:
            m.variants.append(dict(v, __owner__=self.ch.pick('w', len(cls.variants))))
        return m

    def simple(self, fname):
        """May be called without registering what it used: it declares nothing."""
        f = self.project.fns[fname]
        return f.kind == 'obj' or (not f.ret and not any(a for _, a in f.params))

    def prereqs(self, fname, variant, seen=None):
        """The calls that produce the sources this call declares, in order."""
        seen = set() if seen is None else seen
        out = []
        prod = self.produced()
        f = self.project.fns[fname]
        for s in M.declared(f, f.variants[variant])[0]:
            p = prod.get(str(s))
            if p is not None and p not in seen and p[0] != fname:
                seen.add(p)
                out += self.prereqs(p[0], p[1], seen)
                out.append(p)
        return out

    def one_call(self, callees):
        f = self.ch.choose('w', callees)
        v = self.ch.pick('w', len(self.project.fns[f].variants))
        acts = [('call', g, w, 'idiom') for g, w in self.prereqs(f, v)]
        mode = 'idiom'
        if self.flip(self.cfg.p_try):
            mode = 'try'
        elif self.simple(f) and self.flip(0.5):
            mode = 'plain'
        acts.append(('call', f, v, mode))
        return acts

    def new_actions(self, fn, callees):
        ch, cfg = self.ch, self.cfg
        acts = []
        annots = dict(fn.params)
        for p, annot in fn.params:
            if annot.endswith('SRC') or annot.endswith('SRCS'):
                if fn.kind == 'obj' or ch.flip('w', 0.9):
                    acts.append(('include' if self.flip(cfg.p_include) else 'read', p))
                else:
                    acts.append(('read', p))
        if self.flip(cfg.p_ext):
            acts.append(('ext', ch.choose('w', self.sources)))
        if ch.flip('w', 0.3):
            acts.append(('pause',))
        if callees:
            for _ in range(2):
                if self.flip(cfg.p_call * 0.7):
                    acts += self.one_call(callees)
            if self.flip(cfg.p_branch):
                acts.append(('branch', self.one_call(callees), [] if ch.flip('w', 0.5)
                             else self.one_call(callees), ch.flip('w', 0.4)))
            if self.flip(cfg.p_map):
                calls = []
                for _ in range(1 + ch.pick('w', 3)):
                    f = ch.choose('w', callees)
                    v = ch.pick('w', len(self.project.fns[f].variants))
                    if not self.prereqs(f, v):
                        calls.append((f, v))
                if calls:
                    acts.append(('map', calls))
        if 'n' in annots:
            target = fn.name
            acts.append(('rec', target))
        for p, annot in fn.params:
            if annot.endswith('DST') or annot.endswith('DSTS'):
                acts.append(('write', p))
        if self.flip(cfg.p_extdst):
            acts.append(('extdst', 'out/x_%s'))
        # Some outputs are written early.
        if self.flip(cfg.p_early):
            for a in list(acts):
                if a[0] in ('write', 'extdst'):
                    acts.insert(0, a)
        return acts

    # -- edits -----------------------------------------------------------------------------

    def mentions(self, actions, names):
        for a in actions:
            if a[0] in ('call', 'rec', 'super') and a[1] in names:
                return True
            if a[0] == 'map' and any(f in names for f, _ in a[1]):
                return True
            if a[0] == 'branch' and (self.mentions(a[1], names) or self.mentions(a[2], names)):
                return True
        return False

    def substitute(self, actions, fix):
        out = []
        for a in actions:
            if a[0] in ('call', 'super'):
                n = fix(a[1])
                if n:
                    out.append((a[0], n) + tuple(a[2:]))
            elif a[0] == 'rec':
                n = fix(a[1])
                if n:
                    out.append((a[0], n))
            elif a[0] == 'map':
                calls = [(fix(f), v) for f, v in a[1] if fix(f)]
                if calls:
                    out.append(('map', calls))
            elif a[0] == 'branch':
                out.append(('branch', self.substitute(a[1], fix), self.substitute(a[2], fix), a[3]))
            else:
                out.append(a)
        return out

    def family(self, name):
        """A class and its methods."""
        return [n for n in self.project.fns if n == name or self.project.fns[n].owner == name
                or n.endswith('^' + name)]

    def replace(self, names, fix):
        """Remove or rename functions everywhere; callers are edited too."""
        pr = self.project
        for n, f in pr.fns.items():
            if n not in names and not f.proto and self.mentions(f.actions, names):
                f.actions = self.substitute(f.actions, fix)
                f.ver = self.next_ver()

    def next_ver(self):
        self.serial += 1
        return self.serial + 1

    def edit_code(self):
        pr = self.project
        names = [n for n in pr.order if n in pr.fns and '^' not in n]
        n = self.ch.choose('w', names)
        if self.focus in pr.fns and self.ch.flip('w', 0.7):
            used = [m for m in names if self.mentions(pr.fns[self.focus].actions, {m})]
            n = self.ch.choose('w', used or names)
        f = pr.fns[n]
        if f.proto:
            f = f.proto
            n = f.name
        f.ver = self.next_ver()
        if self.ch.flip('w', 0.4):
            i = pr.order.index(n)
            callees = [m for m in pr.order[i + 1:] if m in pr.fns and pr.fns[m].owner != n
                       and f.owner != m and m != f.owner and '^' not in m]
            if f.owner:
                j = pr.order.index(f.owner)
                callees = [m for m in callees if pr.fns[m].owner != f.owner]
            keep = [a for a in f.actions if a[0] == 'super' and self.ch.flip('w', 0.7)]
            f.actions = self.new_actions(f, callees) + keep

    def rename(self):
        pr = self.project
        names = [n for n in pr.order if n in pr.fns and not pr.fns[n].owner]
        n = self.ch.choose('w', names)
        self.names += 1
        new = n[0] + 'r%d' % self.names
        fam = self.family(n)
        mapping = {}
        for m in fam:
            t = m
            if t == n or t.startswith(n + '.'):
                t = new + t[len(n):]
            if t.endswith('^' + n):
                t = t[:-len(n)] + new
            mapping[m] = t

        def fix(x):
            return mapping.get(x, x)
        self.replace(set(fam), fix)
        for m in fam:
            f = pr.fns.pop(m)
            if not f.proto:
                f.actions = self.substitute(f.actions, fix)
                f.ver = self.next_ver()
            f.name = mapping[m]
            if f.owner == n:
                f.owner = new
            pr.fns[f.name] = f
            pr.order[pr.order.index(m)] = f.name
        for f in pr.fns.values():
            if f.takes == n:
                f.takes = new
            if f.parent == n:
                f.parent = new
                f.ver = self.next_ver()
        return n, new

    def remove(self):
        pr = self.project
        names = [n for n in pr.order if n in pr.fns and not pr.fns[n].owner]
        if len(names) < 2:
            return None
        n = self.ch.choose('w', names)
        if any(f.takes == n or f.parent == n for f in pr.fns.values()):
            return None
        prod = self.produced()
        outs = [p for p, (f, v) in prod.items() if f == n]
        for m in names:
            if m != n:
                for v in pr.fns[m].variants:
                    if any(str(s) in outs for s in M.declared(pr.fns[m], v)[0]):
                        return None
        fam = self.family(n)
        self.replace(set(fam), lambda x: None if x in fam else x)
        for m in fam:
            del pr.fns[m]
            pr.order.remove(m)
        return n


def where(exc):
    """The innermost frames of an exception."""
    out = []
    tb = exc.__traceback__
    while tb is not None:
        code = tb.tb_frame.f_code
        out.append('%s:%d' % (code.co_filename.rsplit('/', 1)[-1], tb.tb_lineno))
        tb = tb.tb_next
    return ' '.join(out[-6:])


def is_io_error(exc):
    return isinstance(exc, (OSError, sqlite3.Error))


class Build:
    """One build process: the object the generated build script calls (H)."""

    def __init__(self, hist, plan):
        self.hist = hist
        self.sim = hist.sim
        self.k = hist.sim.k
        self.project = hist.project
        self.plan = plan
        self.outer = {}              # the call that constructs an object
        self.log = []                # ('start'|'done', key)
        self.fails = []
        self.ctx = None
        self.mods = None
        self.mod = None
        self.inflight = []           # keys of the step in progress
        self.written = set()         # outputs written by this build
        self.returned = False
        self.raised = None           # the error this build ends with

    # -- called by the generated code --------------------------------------------------------

    def find(self, name, ver, args, selfval):
        """The call that is running: (function, variant)."""
        fn = self.project.fns[name]
        if ver != fn.ver:
            self.hist.bad('old-code', '%s version %s ran, %s is current' % (name, ver, fn.ver))
        for i, v in enumerate(fn.variants):
            v = M.actual(fn, v, selfval)
            if all(v[p] == args[p] for p, _ in fn.params):
                return fn, i
        self.hist.bad('wrong-arguments', '%s(%r)' % (name, args))
        raise Fail('wrong arguments')

    def started(self, name, key):
        self.log.append(('start', key))
        self.hist.seen_funs.add(M.dbname(name))
        self.k.step('body')

    def run(self, ctx, name, ver, args, obj=None):
        fn = self.project.fns[name]
        if fn.owner and type(obj).__name__ != fn.owner:
            # The method of a base class.
            leaf = name.split('.')[1]
            sub = self.project.fns['%s.%s' % (type(obj).__name__, leaf)]
            name = sub.name if sub.proto is fn else '%s^%s' % (sub.name, fn.owner)
        selfval = obj.val if obj is not None else None
        fn, i = self.find(name, ver, args, selfval)
        key = (name, i, selfval)
        self.started(name, key)
        r = M.interp(RealEnv(self, ctx, obj), fn, args, selfval)
        self.log.append(('done', key))
        return r

    # Constructors: those of base classes are part of the call that makes the object.

    def begin(self, obj, name, ver, args):
        if type(obj).__name__ == name:
            fn, i = self.find(name, ver, args, None)
            self.outer[id(obj)] = M.outermost(fn, args)
            self.started(name, (name, i, None))

    def parent_args(self, name):
        fn = self.project.fns[name]
        p = self.project.fns[fn.parent]
        args = dict(p.variants[fn.parent_variant])
        if p.starstar:
            args.update(args.pop(p.starstar))
        rest = args.pop(p.star) if p.star else ()
        if rest:
            # Python wants everything before *args by position.
            names = [q for q, _ in p.params]
            return tuple(args.pop(q) for q in names[:names.index(p.star)]) + rest, args
        return (), args

    def make(self, obj, name, ver, args):
        if type(obj).__name__ == name and not self.project.fns[name].parent:
            self.begin(obj, name, ver, args)
        fn, i = self.find(name, ver, args, None)
        up = obj.val if fn.parent else None
        outer = self.outer.get(id(obj), ()) if type(obj).__name__ != name else ()
        r = M.interp(RealEnv(self, obj.ctx), fn, args, up, outer)
        if type(obj).__name__ == name:
            self.log.append(('done', (name, i, None)))
        return r

    # -- calls -------------------------------------------------------------------------------

    def invoke(self, fname, variant, style=0, sets=True, obj=None):
        fn = self.project.fns[fname]
        args = dict(fn.variants[variant])
        if fn.base:
            owner = args.pop('__owner__')
            if obj is None:
                obj = self.invoke(fn.base, owner, style)[0]
            args = M.actual(fn, args, obj.val)
        regular = [p for p, _ in fn.params if p not in (fn.star, fn.starstar)]
        if fn.kind == 'obj':
            # The arguments of an object are remembered as they were spelled.
            style = variant % 2
        if style >= 2:
            Path = self.mods.path_class
            args = {p: Path(v) if isinstance(v, str) and dict(fn.params)[p] else v
                    for p, v in args.items()}
        can = len(regular) - fn.nkw
        npos = can
        rest = list(args.pop(fn.star)) if fn.star else []
        if style in (1, 3) and not rest:
            npos = (len(fname) + variant) % (can + 1)
        pos = [args[p] for p in regular[:npos]] + rest
        kw = {p: args[p] for p in regular[npos:]}
        if style in (1, 3):
            for p in list(kw):
                if p in fn.defaults and fn.defaults[p] == kw[p] and type(kw[p]) is type(
                        fn.defaults[p]):
                    del kw[p]
        if fn.starstar:
            kw.update(args[fn.starstar])
        if fn.takes:
            pos.insert(0, obj)
        key = (fname, variant, obj.val if fn.base else None)
        try:
            r = self.really(fn, pos, kw, sets, obj)
        except BaseException:
            self.log.append(('raised', key))
            raise
        self.log.append(('ok', key))
        return r

    def really(self, fn, pos, kw, sets, obj):
        fname = fn.name
        if fn.kind == 'obj':
            return getattr(self.mod, fname)(self.ctx, *pos, **kw), None, None
        if fn.kind == 'fun':
            f = getattr(self.mod, fname)
            if sets:
                return f.call(self.ctx, *pos, **kw)
            return f(self.ctx, *pos, **kw), None, None
        leaf = fname.split('^')[0].split('.')[1]
        cls = getattr(self.mod, fname.split('^')[1] if '^' in fname else fn.owner)
        if fn.kind == 'meth':
            if '^' in fname:
                # As super() in the class that overrides it.
                target = getattr(super(getattr(self.mod, fn.owner), obj), leaf)
            else:
                target = getattr(obj, leaf)
            if sets:
                return target.call(*pos, **kw)
            return target(*pos, **kw), None, None
        if sets:
            return getattr(cls, leaf).call(obj)
        return getattr(obj, leaf), None, None

    def value(self, fname, r):
        """The comparable value of a real result."""
        if self.project.fns[fname].kind == 'obj':
            return getattr(r, 'val', repr(r))
        return M.norm(r)

    # -- the build ---------------------------------------------------------------------------

    def build(self, ctx):
        self.ctx = ctx
        for step in self.plan:
            if step[0] == 'call':
                self.call_step([[(step[1], step[2], step[3])]], False, step[4])
            elif step[0] == 'par':
                self.call_step(step[1], True, step[2])
            else:
                self.hist.mutate(step)

    def call_step(self, groups, parallel, stop):
        hist, model = self.hist, self.hist.model
        model.settle()
        ref = RefEnv(self.project, hist.vfs, hist.cwd)
        expect = []
        failed = None
        for g in groups:
            for f, v, style in g:
                try:
                    expect.append(ref.call(f, v))
                except RefFail as e:
                    expect.append(e)
                    failed = e
                    break
        infos = list(ref.infos)
        hist.seen_files.update(ref.read_now)
        for i in infos:
            hist.seen_files.update(i.srcs)
            hist.seen_files.update(i.dsts)
        must, gone = {}, set()
        for i in infos:
            ok = model.must_hit(i)
            must[i.key] = must.get(i.key, True) and ok
            r = model.recs.get(i.key)
            if r is not None and r.status == 'gone':
                gone.add(i.key)
        missing_before = {i.key: sorted(d for d in i.dsts if not hist.vfs.exists(d, hist.cwd))
                          for i in infos}
        del self.log[:]
        self.inflight = infos
        got = []
        exc = None

        def work(group):
            for f, v, style in group:
                r, srcs, dsts = self.invoke(f, v, style)
                got.append((f, v, self.value(f, r), srcs, dsts))
                if hist.alter and isinstance(r, list):
                    r.append('altered')
                    hist.altered += 1
                    hist.sim.count('results altered by the caller')
        try:
            if parallel:
                self.ctx.scheduler.map(work, groups)
            else:
                work(groups[0])
        except SimKill:
            raise
        except BaseException as e:
            exc = e
        if exc is not None and not isinstance(exc, (Exception,)):
            # An interrupt: what completed stays, the rest is open.
            self.settle_partial(infos)
            raise exc
        self.check(ref, infos, expect, failed, got, exc, must, gone, parallel, missing_before)
        if exc is not None and failed is None and stop == 0:
            stop = 1
        if exc is not None and stop:
            hist.sim.count('builds stopped by a failure')
            if stop == 2:
                import fbuild
                exc = fbuild.Error('build failed: %s' % exc)
            self.raised = exc
            raise exc

    def settle_partial(self, infos):
        """The step ended early: the calls that returned are recorded, the others are open."""
        model = self.hist.model
        by = {}
        for i in infos:
            by.setdefault(i.key, i)
        runs = {key for what, key in self.log if what == 'start'}
        ok = {key for what, key in self.log if what == 'ok' and key in runs}
        # A call that failed after an earlier one succeeded is forgotten.
        ok -= {key for what, key in self.log if what == 'raised'}
        for key in runs:
            if key in by:
                model.fdeps.setdefault(M.dbname(key[0]), set()).update(by[key].deps)
            if key in by and key in ok:
                model.record(by[key])
            elif key in model.recs:
                model.recs[key].status = 'may'
                model.recs[key].why = 'the build ended while it ran'
        self.inflight = []

    def check(self, ref, infos, expect, failed, got, exc, must, gone, parallel, missing_before):
        hist, model = self.hist, self.hist.model
        bad = hist.bad
        by = {}
        for i in infos:
            by.setdefault(i.key, i)
        runs = {}
        for what, key in self.log:
            if what == 'start':
                runs[key] = runs.get(key, 0) + 1
        hist.history.append(('ran', sorted(map(repr, runs.items()))))
        # Failures.
        if hist.fired and exc is not None and is_io_error(exc):
            hist.sim.count('calls failed by a fault')
            hist.history.append(('error', type(exc).__name__))
            model.weaken('a fault')
        elif failed is None and exc is not None:
            bad('call-failed', '%r at %s from %r' % (exc, where(exc), [(i.key) for i in expect]))
        elif failed is not None:
            hist.sim.count('failing calls')
            if exc is None:
                bad('stale', 'answered although running it now fails with %s %r' % (
                    failed.kind, failed.detail))
            elif isinstance(exc, Fail):
                if not any(exc is x for x in self.fails):
                    bad('exception-changed', repr(exc))
            elif not isinstance(exc, OSError):
                bad('exception-changed', 'got %r, the function raised %r' % (exc, self.fails[-1:]))
            hist.history.append(('error', type(exc).__name__))
        # A call that failed because of a fault might have written half of its outputs again.
        raised = {key for what, key in self.log if what == 'raised'} if hist.fired else ()
        torn = {d for i in infos if i.key in raised for d in i.writes}
        # See known_findings.json: the outputs of a call are made again in one task while another
        # task, which is answered from the database, uses them already.
        twice = [] if not parallel else [
            i for i in infos if i.writes and i.key in runs and
            sum(1 for j in infos if j.key == i.key) > 1]
        twice = {d for i in twice for d in i.writes}

        racing = twice and any(not twice.isdisjoint(map(str, i.srcs)) for i in infos)
        # Results.
        want = {}
        for e in expect:
            if isinstance(e, Info):
                want[e.key[:2]] = e
        for f, v, r, srcs, dsts in got:
            e = want.get((f, v))
            if e is None:
                continue
            val = r
            if val != e.result or type(val) is not type(e.result):
                if racing:
                    hist.known('call made by two tasks')
                bad('stale', '%s variant %d returned %r, from scratch %r (%s)' % (
                    f, v, val, e.result, 'ran' if e.key in runs else 'from the database'))
            if srcs is not None:
                s = sorted(map(str.__str__, srcs))
                d = sorted(map(str.__str__, dsts))
                if s != sorted(e.srcs) or d != sorted(e.dsts):
                    bad('sets-differ', '%s variant %d (%s) reports srcs %r dsts %r, from scratch '
                        '%r %r' % (f, v, 'ran' if e.key in runs else 'from the database', s, d,
                                   sorted(e.srcs), sorted(e.dsts)))
                hist.history.append(('sets', f, v, s, d))
            hist.history.append(('result', f, v, val))
            for d, text in e.writes.items():
                try:
                    now = hist.vfs.text(d, hist.cwd)
                except OSError:
                    now = None
                if now is None:
                    bad('missing-output', '%s of %s variant %d does not exist after the call' % (
                        d, f, v))
                elif now != ref.overlay.get(d, text) and d not in torn:
                    if racing:
                        hist.known('call made by two tasks')
                    writers = {k for k in runs if k[0] == d[4:-3]}
                    if d in hist.gen.clash and writers != {e.key}:
                        # See known_findings.json: another call wrote the same file since.
                        hist.known('output file of two calls')
                    bad('stale-output', '%s of %s variant %d holds %r, from scratch %r' % (
                        d, f, v, now, text))
        # Unneeded and missing runs.
        for key, n in sorted(runs.items(), key=repr):
            hist.sim.count('runs')
            if must.get(key) and not hist.fired:
                r = model.recs[key]
                bad('needless-run', '%r ran again although nothing it depends on changed '
                    '(recorded: srcs %r dsts %r)' % (key, sorted(r.srcs), sorted(r.dsts)))
            if n > 1 and not parallel and not hist.fired and key in by and not self.has_map(key) and all(
                    i.srcs == by[key].srcs for i in infos if i.key == key) and failed is None:
                bad('needless-run', '%r ran %d times in one call' % (key, n))
        if exc is None:
            for e in expect:
                if isinstance(e, Info) and e.key in gone and e.key not in runs:
                    bad('not-rerun', '%r was answered from the database after it was deleted' % (
                        e.key,))
        hist.sim.count('hits', sum(1 for e in expect if isinstance(e, Info) and e.key not in runs))
        self.settle_partial(infos)
        if racing:
            # They might have recorded what that file held before it was made again.
            for i in infos:
                r = model.recs.get(i.key)
                if r is not None and r.status == 'must' and not twice.isdisjoint(map(str, i.srcs)):
                    r.status, r.why = 'may', 'used while made again'
        if hist.fired and exc is not None and is_io_error(exc) and hist.engine == 'sqlite':
            # The rollback took back what the calls running at that time knew of their files.
            for i in infos:
                r = model.recs.get(i.key)
                if r is not None and r.status == 'must':
                    r.status, r.why = 'may', 'running during a fault'

    def has_map(self, key):
        return self.hist.cfg.p_map > 0 and self.hist.threads > 1


class RealEnv:
    def __init__(self, build, ctx, obj=None):
        self.b = build
        self.ctx = ctx
        self.obj = obj

    def read(self, path):
        with self.b.mods.fopen(path) as f:
            return f.read()

    def write(self, path, text):
        posix = self.b.mods.posix
        i = path.rfind('/')
        if i > 0 and not self.b.hist.vfs.exists(path[:i], self.b.mods.proc.cwd):
            posix.mkdir(path[:i])
        self.b.written.add(path)
        with self.b.mods.fopen(path, 'w') as f:
            f.write(text)

    def tear(self, path):
        self.b.hist.sim.count('outputs left half written by a failing call')
        self.write(path, path[:-1])

    def register(self, srcs=(), dsts=()):
        self.ctx.db.add_external_dependencies_to_call(srcs=list(srcs), dsts=list(dsts))

    def fail(self, name, path):
        e = Fail(name, str(path))
        self.b.fails.append(e)
        return e

    def pause(self):
        k = self.b.k
        with self.ctx.scheduler.interruptible():
            k.block(lambda: False, 'work', timeout=0.05)

    def result(self, shape, *a):
        v = M.shaped(shape, *a)
        return self.b.mods.path_class(v) if shape == 'path' else v

    def inner(self, fname, variant, mode, up=False):
        b = self.b
        if mode == 'try':
            try:
                r, s, d = b.invoke(fname, variant)
            except Fail:
                ref = RefEnv(b.project, b.hist.vfs, b.hist.cwd)
                try:
                    ref.call(fname, variant)
                except RefFail:
                    pass
                self.register(srcs=sorted(ref.read_now))
                return 'failed'
        else:
            r, s, d = b.invoke(fname, variant, sets=mode != 'plain', obj=self.obj if up else None)
        if s is not None:
            self.register(s, d)
        return b.value(fname, r)

    def map(self, calls):
        return self.ctx.scheduler.map(lambda c: self.inner(c[0], c[1], 'idiom'), calls)


FBUILDROOT_TAIL = '''

def build(ctx):
    H.build(ctx)
'''


class History:
    def __init__(self, sim, cfg, engine=None, cwd='/w', gen=None, ch=None):
        self.sim = sim
        self.cfg = cfg
        self.ch = ch = sim.ch if ch is None else ch
        self.vfs = sim.world.vfs
        self.cwd = cwd
        self.gen = gen if gen is not None else Gen(ch, cfg)
        self.project = self.gen.project
        self.engine = engine or ch.choose('w', list(cfg.engines))
        lo, hi = cfg.threads
        self.threads = lo + ch.pick('w', hi - lo + 1)
        self.model = Model(self.project, self.vfs, cwd)
        self.saved = {}              # what the state file on disk holds (pickle)
        self.violation = None
        self.stopped = False
        self.history = []            # observable events, for comparing engines
        self.old_text = {}           # previous contents, for restoring
        self.ages = 0
        self.unsettled = False       # the last build did not end well
        self.judge_exit = True       # the exit status of a build is judged by finish()
        self.fired = 0               # faults injected into the current build
        self.torn = ch.flip('w', cfg.p_torn) if cfg.p_torn else False
        self.alter = ch.flip('w', cfg.p_alter) if cfg.p_alter else False
        self.altered = 0
        self.weights = dict(cfg.weights)
        if self.torn:
            self.weights['delout'] = 4
        self.again = None            # a call to repeat at the start of the next build
        self.undo = None             # a source that was broken, and the call that fails for it
        self.doomed = False          # the build that runs now may be killed
        self.tainted = set()         # outputs that a killed build was writing
        self.seen_funs = set()       # everything that ever ran
        self.seen_files = set()
        self.ops = []
        self.nbuild = 0
        self.vfs.mkdirs(cwd)
        for s, t in self.gen.content.items():
            self.write(s, t)

    # -- helpers -----------------------------------------------------------------------------

    def bad(self, kind, detail=''):
        if self.torn and self.tainted and kind in ('stale', 'stale-output'):
            # See known_findings.json: a killed build leaves half-written outputs.
            self.known('output of a killed build')
        if self.altered and self.engine != 'sqlite' and kind in (
                'stale', 'stale-output', 'wrong-arguments', 'sets-differ', 'call-failed'):
            # See known_findings.json: these engines keep the list the caller has.
            self.known('altered result')
        if self.stopped:
            return
        if self.cfg.kinds is not None and kind not in self.cfg.kinds:
            self.sim.count('ignored:' + kind)
            return
        if self.violation is None:
            self.violation = (kind, 'build %d (%s): %s' % (self.nbuild, self.engine, detail))

    def known(self, what):
        """A known finding: what follows from it is not judged."""
        self.sim.count('known:' + what)
        self.stopped = True

    def judge(self):
        if self.violation is not None:
            self.sim.violation(*self.violation)

    def write(self, path, text, age=None):
        mtime = None
        if age is not None:
            # Never the same timestamp twice: fbuild is allowed to trust those.
            self.ages += 1
            mtime = self.vfs.clock() - age - 0.013 * self.ages
        self.vfs.write(self.cwd + '/' + path, text, mtime=mtime)

    def exists(self, path):
        return self.vfs.exists(path, self.cwd)

    # -- mutations ---------------------------------------------------------------------------

    def draw(self, inproc=False):
        """A random mutation as a step, or None. The choice depends only on the plan so far."""
        ch, gen = self.ch, self.gen
        w = dict(self.weights)
        if inproc:
            for k in ('code', 'shift', 'rename', 'remove'):
                w[k] = 0
        ops = [k for k in sorted(w) for _ in range(w[k])]
        op = ch.choose('w', ops)
        if op in ('edit', 'touch', 'restore', 'delsrc'):
            s = ch.choose('w', gen.sources)
            if op == 'edit':
                return (op, s, gen.new_text(s), self.draw_age())
            if op in ('touch', 'restore'):
                return (op, s, self.draw_age())
            return (op, s)
        if op == 'delout':
            return (op, ch.pick('w', 1000))
        return (op,)

    def draw_age(self):
        """How old a written file looks: most are new, some were moved here or unpacked."""
        if self.ch.flip('w', 0.25):
            return self.ch.choose('w', [2.5, 50.0, 5000.0, -30.0])
        return None

    def outputs(self):
        return sorted(p[len(self.cwd) + 1:] for p in self.vfs.files(self.cwd + '/out'))

    def mutate(self, step):
        op = step[0]
        gen = self.gen
        self.ops.append(step)
        if op == 'edit':
            s, text, age = step[1:]
            if self.exists(s):
                self.old_text[s] = self.vfs.text(s, self.cwd)
            self.write(s, text, age)
        elif op == 'touch':
            if self.exists(step[1]):
                self.write(step[1], self.vfs.text(step[1], self.cwd), step[2])
        elif op == 'restore':
            s = step[1]
            if s in self.old_text and not self.unsettled and not self.doomed:
                cur = self.vfs.text(s, self.cwd) if self.exists(s) else None
                self.write(s, self.old_text[s], step[2])
                if cur is not None and '!fail' in cur and '!fail' not in self.old_text[s]:
                    self.sim.count('failing sources restored')
                if cur is not None:
                    self.old_text[s] = cur
        elif op == 'delsrc':
            if self.exists(step[1]):
                self.old_text[step[1]] = self.vfs.text(step[1], self.cwd)
                self.vfs.remove(self.cwd + '/' + step[1])
        elif op == 'delout':
            outs = self.outputs()
            if outs:
                self.vfs.remove(self.cwd + '/' + outs[step[1] % len(outs)])
                self.sim.count('outputs deleted')
        elif op == 'delall':
            for o in self.outputs():
                self.vfs.remove(self.cwd + '/' + o)
        elif op == 'code':
            gen.edit_code()
        elif op == 'shift':
            self.project.shift += 1
        elif op == 'rename':
            gen.rename()
            self.moved()
        elif op == 'remove':
            if gen.remove():
                self.moved()
        self.sim.count('mutation:' + op)

    def moved(self):
        # A class that can no longer be found makes the whole pickle state unreadable.
        self.model.weaken('renamed or removed')
        for r in self.saved.values():
            if r.status == 'must':
                r.status = 'may'

    def breakable(self, rec):
        return [s for s in sorted(map(str, rec.srcs)) if s in self.gen.sources and self.exists(s)
                and '!fail' not in self.vfs.text(s, self.cwd)]

    def mutations(self):
        lo, hi = self.cfg.mutations
        if self.cfg.p_unfail and not self.unsettled:
            if self.undo is not None:
                (src, again), self.undo = self.undo, None
                if self.ch.flip('w', 0.8):
                    self.again = again
                    self.mutate(('restore', src, self.draw_age()))
                    return
            elif self.ch.flip('w', self.cfg.p_unfail):
                stored = [k for k in sorted(self.model.recs, key=repr)
                          if self.model.recs[k].status == 'must' and k[0] in self.project.fns
                          and '^' not in k[0] and self.breakable(self.model.recs[k])]
                if stored:
                    k = self.ch.choose('w', stored)
                    src = self.ch.choose('w', self.breakable(self.model.recs[k]))
                    self.again = k[:2]
                    self.undo = src, self.again
                    self.mutate(('edit', src, self.vfs.text(src, self.cwd) + '!fail\n',
                                 self.draw_age()))
                    return
        self.undo = None
        if self.gen.focus and self.ch.flip('w', 0.5):
            return
        for _ in range(lo + self.ch.pick('w', hi - lo + 1)):
            m = self.draw()
            if m is not None:
                self.mutate(m)

    def elapse(self):
        """Time passes between builds."""
        dt = self.ch.choose('w', [0.0, 0.3, 2.0, 60.0])
        self.sim.k.now += dt

    # -- plans -------------------------------------------------------------------------------

    def pick_call(self):
        pr = self.project
        names = [n for n in pr.order if n in pr.fns and '^' not in n]
        f = self.ch.choose('w', names)
        if self.gen.focus in pr.fns and self.ch.flip('w', 0.7):
            f = self.gen.focus
        v = self.ch.pick('w', len(pr.fns[f].variants))
        return f, v

    def expand(self, f, v):
        style = self.ch.pick('w', 4)
        return [(g, w, style) for g, w in self.gen.prereqs(f, v)] + [(f, v, style)]

    def stop(self):
        if self.ch.flip('w', self.cfg.p_raise):
            return 1 + self.ch.pick('w', 2)
        return 0

    def plan(self):
        ch, cfg = self.ch, self.cfg
        lo, hi = cfg.steps
        steps = []
        if self.again is not None:
            f, v = self.again
            if f in self.project.fns and v < len(self.project.fns[f].variants):
                for f, v, style in self.expand(f, v):
                    steps.append(('call', f, v, style, 0))
            self.again = None
        for _ in range(lo + ch.pick('w', hi - lo + 1)):
            if cfg.p_par and ch.flip('w', cfg.p_par):
                groups = [self.expand(*self.pick_call()) for _ in range(2 + ch.pick('w', 4))]
                if ch.flip('w', 0.3):
                    groups.append(groups[0])
                steps.append(('par', groups, self.stop()))
            else:
                for f, v, style in self.expand(*self.pick_call()):
                    steps.append(('call', f, v, style, self.stop()))
            if self.gen.flip(cfg.p_inproc):
                steps.append(self.draw(True))
        return steps

    # -- builds ------------------------------------------------------------------------------

    def options(self):
        o = ['fbuild', '--database-engine=' + self.engine, '-j%d' % self.threads]
        return o

    def main_fn(self, b, argv):
        def main(mods):
            b.mods = mods
            import fbuild.main
            import fbuild.path
            mods.path_class = fbuild.path.Path
            import fbuildroot
            b.mod = fbuildroot
            fbuildroot.H = b
            return fbuild.main.main(argv)
        return main

    def source(self):
        return self.project.source() + FBUILDROOT_TAIL

    def start(self, b, extra=()):
        argv = self.options() + list(extra)
        return self.sim.world.spawn(self.main_fn(b, argv), argv=argv,
                                    project={'fbuildroot': self.source()}, cwd=self.cwd)

    def build(self, plan=None, ending='ok', extra=(), arm=None):
        """Run one build process. Returns (process, Build)."""
        self.nbuild += 1
        plan = self.plan() if plan is None else plan
        self.ops.append(('build', ending, plan))
        b = Build(self, plan)
        self.vfs.meta.clear()        # what an earlier build did has reached the disk
        if self.engine == 'cache':
            self.model.recs.clear()
        p = self.start(b, extra)
        self.fired = 0
        # What such a build learns may be lost, but its outputs stay: it must not end with
        # sources that an earlier build saw, and neither must a later one begin with them.
        self.doomed = ending in ('crash', 'power', 'fault')
        if arm is not None:
            arm(p, b)
        ended = self.sim.world.wait(p, 100000 if ending == 'sigint' else None)
        self.vfs.fault = None
        self.vfs.watch = None
        self.doomed = False
        if not ended:
            self.sim.violation('hang', 'the build did not end after it was interrupted')
        self.finish(p, b, ending)
        return p, b

    def finish(self, p, b, ending):
        o = p.outcome
        killed = o[0] == 'killed'
        if b.raised is None:
            clean = o[0] == 'return' and o[1] in (0, None) or o[0] == 'exit' and o[1] in (0, None)
        else:
            clean = o[0] == 'exit' and o[1] not in (0, None) or (
                o[0] == 'return' and o[1] not in (0, None)) or (
                o[0] == 'raise' and o[1] is b.raised)
        if o[0] == 'raise' and isinstance(o[1], KeyboardInterrupt) and ending == 'sigint':
            clean = True
            self.sim.count('builds ended by an interrupt')
        if not self.judge_exit and o[0] in ('return', 'exit'):
            clean = True
        faulty = self.fired and not clean and (
            o[0] == 'exit' and o[1] not in (0, None) or o[0] == 'raise' and is_io_error(o[1]))
        if faulty:
            self.sim.count('builds ended by a fault')
        elif self.fired:
            self.sim.count('builds that survived a fault')
        if not killed and not clean and not faulty:
            self.bad('build-broken', 'the build ended with %r%s' % (
                o, ' at ' + where(o[1]) if o[0] == 'raise' else ''))
        if p.thread_errors and not killed and ending not in ('sigint', 'fault'):
            self.bad('build-broken', 'thread errors %r' % (p.thread_errors[:2],))
        self.unsettled = killed or faulty
        if self.unsettled:
            self.old_text.clear()
        self.history.append(('build', o[0], repr(o[1]) if o[0] in ('return', 'exit') else ''))
        if killed or faulty:
            if killed:
                self.tainted |= b.written
            self.crashed(b)
        else:
            if not clean:
                self.model.weaken('broken build')
            if ending != 'sigint' or o[0] == 'return':
                self.tainted -= b.written
            self.saved = self.model.snapshot()

    def crashed(self, b):
        model = self.model
        self.sim.count('crashed builds')
        keys = {k for w, k in b.log} | {i.key for i in b.inflight}
        for k in keys if (b.inflight or b.log) else ():
            if b.inflight and k in model.recs and model.recs[k].status != 'may':
                model.recs[k].status = 'may'
        for i in b.inflight:
            model.fdeps.setdefault(M.dbname(i.key[0]), set()).update(i.deps)
        if self.engine == 'cache':
            model.recs.clear()
            return
        merged = {}
        for k in set(self.saved) | set(model.recs):
            a, c = self.saved.get(k), model.recs.get(k)
            r = (c or a).copy()
            if not (a is not None and c is not None and a.status == c.status
                    and a.srcs == c.srcs and a.versions == c.versions and a.dsts == c.dsts):
                r.status, r.why = 'may', 'crash'
            merged[k] = r
        model.recs = merged
        self.saved = model.snapshot()


def run_history(sim, cfg):
    hist = History(sim, cfg)
    try:
        histories(sim, cfg, hist)
    finally:
        finish(sim, hist)


def histories(sim, cfg, hist):
    lo, hi = cfg.builds
    n = lo + sim.ch.pick('w', hi - lo + 1)
    for i in range(n):
        if i:
            hist.elapse()
            hist.mutations()
        one_build(sim, cfg, hist)
        hist.judge()
        if hist.stopped:
            return
    # Everything the last build recorded is still right when nothing changes.
    calls = [s for s in (hist.ops[-1][2] if hist.ops and hist.ops[-1][0] == 'build' else ())
             if s[0] in ('call', 'par')]
    if calls:
        hist.elapse()
        hist.build(plan=calls)
        hist.judge()


def one_build(sim, cfg, hist):
    """A build that may end early."""
    ch = sim.ch
    ending = ch.choose('f', [e for e in sorted(cfg.endings) for _ in range(cfg.endings[e])][::-1])
    if ending == 'ok':
        return hist.build()
    # Early steps matter most in short builds: draw from a range of random size.
    top = ch.choose('f', [20, 60, 150, cfg.max_arm, cfg.max_arm * 4])
    at = 1 + ch.pick('f', top)
    near = ending != 'fault' and ch.flip('f', cfg.p_near)
    outputs = near and ending == 'sigint' and ch.flip('f', 0.5)

    def arm(p, b):
        def strike():
            if ending == 'sigint':
                sim.sigint(p)
            else:
                sim.k.kill(p)
        if ending == 'fault':
            sim.world.vfs.fault = make_fault(sim, hist, p)
        elif near and (hist.torn or outputs):
            # While an output is written.
            n = ch.pick('f', 4)
            opened = [0]

            def watch(op, path, proc):
                if proc is p and op == 'open-w' and '/out/' in '/' + path:
                    opened[0] += 1
                    if opened[0] == 1 + n:
                        sim.k.arm(p, 1 + at % 3, strike)
            sim.world.vfs.watch = watch
        elif near:
            # Around the moment the state file is replaced or saved.
            n = ch.pick('f', 2)
            seen = [0]

            def watch(op, path, proc):
                if proc is p and ('fbuild-state' in path):
                    seen[0] += 1
                    if seen[0] == 1 + n:
                        sim.k.arm(p, 1 + at % 12, strike)
            sim.world.vfs.watch = watch
        else:
            sim.k.arm(p, at, strike)
    p, b = hist.build(ending=ending, arm=arm)
    if outputs and ch.flip('w', 0.7):
        # What was interrupted is what the next build needs first.
        failed = [key for what, key in b.log if what == 'raised' and '^' not in key[0]]
        hist.again = failed[-1][:2] if failed else None
    if ending == 'power' and p.outcome[0] == 'killed':
        sim.world.vfs.power_loss(ch, lambda path: 'fbuild-state' in path)
    return p, b


def make_fault(sim, hist, p):
    """A disk that fails at one point, or from one point on."""
    ch = sim.ch
    what = ch.choose('f', ['state', 'state', 'sql', 'any', 'look', 'full'])
    if what == 'sql' and hist.engine != 'sqlite':
        what = 'state'
    if what == 'state' and hist.engine == 'sqlite' and ch.flip('f', 0.5):
        what = 'sql'
    code = ch.choose('f', [errno.EIO, errno.ENOSPC, errno.EACCES])
    nth = 1 + ch.pick('f', {'state': 8, 'sql': 60, 'any': 200, 'look': 12, 'full': 30}[what])
    lasting = ch.flip('f', 0.4)
    if what == 'full':
        # Nothing more can be written, but all else goes on.
        code, lasting = errno.ENOSPC, True
    seen = [0]

    def fault(op, path, proc):
        if proc is not p:
            return None
        if what == 'state':
            hit = 'fbuild-state' in path and not op.startswith('sql')
        elif what == 'sql':
            hit = op.startswith('sql-')
        elif what == 'full':
            hit = op in ('write', 'sql-write', 'sql-commit') or \
                op == 'short-write' and 'fbuild-state' in path
        elif what == 'look':
            # The database looks at a file.
            t = sim.k.current
            hit = t is not None and t is not p.main and 'fbuild-state' not in path and \
                op in ('stat', 'open', 'read')
        else:
            hit = True
        if not hit:
            return None
        seen[0] += 1
        if seen[0] == nth or (lasting and seen[0] > nth):
            hist.fired += 1
            return code
        return None
    return fault


def finish(sim, hist):
    sim.sample = {'engine': hist.engine, 'threads': hist.threads,
                  'functions': [f.brief() for f in hist.project.fns.values()],
                  'operations': hist.ops}
    sim.events.append(len(hist.history))
    sim.trivial = not hist.history
