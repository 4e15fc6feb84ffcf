"""Histories with more than builds: old state files (C11), deletions (C12), several engines (C13)."""
import pickletools
import sqlite3

from props import dbmodel as M
from props.dbhist import Gen, History, finish, one_build

STATE = {'pickle': 'build/fbuild-state.db', 'cache': 'build/fbuild-state.db',
         'sqlite': 'build/fbuild-state.sqldb'}


# -- C11: state files of other versions ----------------------------------------------------

def other_version(hist):
    """Turn the state file into one of another database version. Returns what was done."""
    ch, vfs = hist.ch, hist.vfs
    path = hist.cwd + '/' + STATE[hist.engine]
    if not vfs.exists(path):
        return None
    if hist.engine == 'sqlite':
        how = ch.choose('f', ['UPDATE Version SET version=?', 'DELETE FROM Version'])
        real = vfs.real_path(path, '/')
        c = sqlite3.connect(real)
        try:
            rows = c.execute('SELECT version FROM Version').fetchall()
            if not rows:
                return None
            v = ch.choose('f', [x for x in ('1', '0', '9', '') if x != rows[0][0]])
            c.execute(how, (v,) if '?' in how else ())
            c.commit()
        except sqlite3.Error:
            return None
        finally:
            c.close()
        return how
    data = vfs.read(path)
    frame = None
    pos = None
    try:
        for op, arg, at in pickletools.genops(data):
            if pos is not None:
                end = at
                if op.name not in ('MEMOIZE', 'BINPUT'):
                    break
                continue
            if op.name == 'FRAME' and frame is None:
                frame = at
            if op.name == 'SHORT_BINUNICODE':
                pos, old = at, arg
    except ValueError:
        return None
    if pos is None or len(old) != 1 or data[end:end + 1] == b'0':
        return None
    if ch.flip('f', 0.3) and frame is not None:
        # As before there were versions: without the first element.
        n = int.from_bytes(data[frame + 1:frame + 9], 'little') + 1
        data = data[:frame + 1] + n.to_bytes(8, 'little') + data[frame + 9:end] + b'0' + data[end:]
        how = 'no version'
    else:
        v = ch.choose('f', [x for x in '190' if x != old])
        data = data[:pos + 2] + v.encode() + data[pos + 3:]
        how = 'version ' + v
    vfs.write(path, data)
    return how


def run_versions(sim, cfg):
    hist = History(sim, cfg)
    try:
        lo, hi = cfg.builds
        n = lo + sim.ch.pick('w', hi - lo + 1)
        for i in range(n):
            if i:
                hist.elapse()
                hist.mutations()
                if sim.ch.flip('f', 0.6):
                    how = other_version(hist)
                    if how:
                        hist.ops.append(('other version', how))
                        sim.count('fault:state of another version')
                        for recs in (hist.model.recs, hist.saved):
                            for r in recs.values():
                                r.status, r.why = 'gone', 'another version'
            one_build(sim, cfg, hist)
            hist.judge()
            if hist.stopped:
                return
        calls = last_calls(hist)
        if calls:
            hist.elapse()
            hist.build(plan=calls)
            hist.judge()
            if hist.stopped:
                return
            hist.elapse()
            hist.build(plan=calls)
            hist.judge()
    finally:
        finish(sim, hist)


def last_calls(hist):
    for op in reversed(hist.ops):
        if op[0] == 'build':
            return [s for s in op[2] if s[0] in ('call', 'par')]
    return []


# -- C12: deleting functions and files from the state --------------------------------------

def delete(hist, what, name):
    """One run of the program that deletes something. Returns whether it succeeded."""
    model = hist.model
    flag = '--delete-%s=%s' % (what, 'fbuildroot.' + name if what == 'function' else name)
    if what == 'function':
        hit = [k for k, r in model.recs.items() if M.dbname(k[0]) == name]
        seen = name in hist.seen_funs
    else:
        hit = [k for k, r in model.recs.items() if name in r.srcs]
        seen = name in hist.seen_files
    model.settle()
    must = any(model.recs[k].status == 'must' for k in hit)
    hist.judge_exit = False
    p, b = hist.build(plan=[], extra=[flag])
    hist.judge_exit = True
    o = p.outcome
    ok = o[0] in ('return', 'exit') and o[1] in (0, None)
    failed = o[0] in ('return', 'exit') and not ok
    if not ok and not failed:
        hist.bad('build-broken', '%s ended with %r' % (flag, o))
    hist.history.append(('delete', what, name, ok))
    if hist.engine == 'cache':
        if ok:
            hist.bad('exit-status', '%s succeeded although nothing is stored' % flag)
        return ok
    if must and not ok:
        hist.bad('exit-status', '%s failed although calls of it are stored: %r' % (flag, hit))
    if not seen and ok:
        hist.bad('exit-status', '%s succeeded although nothing was ever stored' % flag)
    if what == 'function':
        callers = model.callers(name)
        for k, r in model.recs.items():
            if M.dbname(k[0]) == name:
                r.status, r.why = 'gone', 'deleted'
            elif M.dbname(k[0]) in callers and r.status == 'must':
                r.status, r.why = 'may', 'calls a deleted function'
    else:
        for k, r in model.recs.items():
            if name in r.srcs:
                r.status, r.why = 'gone', 'file deleted'
            elif name in r.dsts and r.status == 'must':
                r.status, r.why = 'may', 'output deleted'
    hist.saved = model.snapshot()
    return ok


def run_delete(sim, cfg):
    hist = History(sim, cfg)
    ch = sim.ch
    try:
        lo, hi = cfg.builds
        n = lo + ch.pick('w', hi - lo + 1)
        for i in range(n):
            if i:
                hist.elapse()
                if ch.flip('w', 0.3):
                    hist.mutations()
            hist.build()
            hist.judge()
            if hist.stopped:
                return
            for _ in range(ch.pick('w', 3)):
                hist.elapse()
                if ch.flip('w', 0.5):
                    what = 'function'
                    name = ch.choose('w', sorted(set(map(M.dbname, hist.project.fns))) + ['nothing'])
                else:
                    what = 'file'
                    name = ch.choose('w', list(hist.gen.sources) + ['nothing'] + hist.outputs()[:3])
                ok = delete(hist, what, name)
                hist.judge()
                if ok:
                    sim.count('deletions')
                else:
                    sim.count('refused deletions')
                if hist.stopped:
                    return
                if ch.flip('w', 0.3):
                    if delete(hist, what, name):
                        hist.bad('exit-status', 'deleting %s %s twice succeeded twice' % (what, name))
                    hist.judge()
            if ch.flip('w', 0.7):
                calls = last_real_calls(hist)
                if calls:
                    hist.elapse()
                    hist.build(plan=calls)
                    hist.judge()
                    if hist.stopped:
                        return
    finally:
        finish(sim, hist)


def last_real_calls(hist):
    for op in reversed(hist.ops):
        if op[0] == 'build' and op[2]:
            return [s for s in op[2] if s[0] in ('call', 'par')]
    return []


# -- C13: the same history on every engine -------------------------------------------------

class Tape:
    """Draws of the workload are recorded while the first engine runs and played to the others."""

    def __init__(self, ch):
        self.ch = ch
        self.tape = []
        self.at = None

    def rewind(self):
        self.at = 0

    def play(self, record):
        if self.at is None:
            v = record()
            self.tape.append(v)
            return v
        if self.at >= len(self.tape):
            raise Diverged()
        self.at += 1
        return self.tape[self.at - 1]

    def pick(self, stream, n):
        if stream != 'w':
            return self.ch.pick(stream, n)
        v = self.play(lambda: self.ch.pick('w', n))
        if v >= max(n, 1):
            raise Diverged()
        return v

    def flip(self, stream, p):
        if stream != 'w':
            return self.ch.flip(stream, p)
        return bool(self.play(lambda: int(self.ch.flip('w', p))))

    def choose(self, stream, seq):
        return seq[self.pick(stream, len(seq))]

    def __getattr__(self, name):
        return getattr(self.ch, name)


class Diverged(Exception):
    pass


def engine_history(sim, cfg, hist, single):
    """Everything that happens, on one engine."""
    ch = hist.ch
    lo, hi = cfg.builds
    n = 1 if single else lo + ch.pick('w', hi - lo + 1)
    for i in range(n):
        if i:
            hist.elapse()
            hist.mutations()
        hist.build()
        hist.judge()
        if not single and ch.flip('w', 0.25):
            hist.elapse()
            if ch.flip('w', 0.5):
                delete(hist, 'function', ch.choose('w', sorted(set(map(M.dbname, hist.project.fns)))))
            else:
                delete(hist, 'file', ch.choose('w', list(hist.gen.sources)))
            hist.judge()


def run_engines(sim, cfg):
    tape = Tape(sim.ch)
    single = sim.ch.flip('w', 0.3)
    engines = ['pickle', 'sqlite', 'cache'] if single else ['pickle', 'sqlite']
    first = None
    try:
        for i, e in enumerate(engines):
            if i:
                tape.rewind()
            cwd = '/w' if not i else '/w%d' % i
            hist = History(sim, cfg, engine=e, cwd=cwd, ch=tape)
            first = first or hist
            diverged = False
            try:
                engine_history(sim, cfg, hist, single)
            except Diverged:
                diverged = True
            if hist is first:
                continue
            for a, b in zip(first.history, hist.history):
                if a != b:
                    hist.bad('engines-differ', '%s: %r, %s: %r' % (engines[0], a, e, b))
                    hist.judge()
            if diverged or len(first.history) != len(hist.history):
                hist.bad('engines-differ', '%s: %d events, %s: %d events' % (
                    engines[0], len(first.history), e, len(hist.history)))
                hist.judge()
            sim.count('histories compared')
    finally:
        if first is not None:
            finish(sim, first)
