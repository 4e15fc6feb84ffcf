"""R01, R02: the server thread."""
from sim.run import Spec
from sim.kernel import SimKill

from props.schedprops import note, threads_alive


class Refused(Exception):
    pass


class Fatal(BaseException):
    pass


class Server:
    """An RPC server with a recording handler."""

    def __init__(self, sim, mods):
        import fbuild.rpc
        self.sim = sim
        self.k = sim.k
        self.mods = mods
        self.ran = []                # payloads in the order handled
        self.inside = None
        self.bad = None
        self.NotRunning = fbuild.rpc.RPCNotRunning
        self.rpc = fbuild.rpc.RPC(self.handle)
        self.rpc.daemon = True

    def fail(self, kind, detail=''):
        if self.bad is None:
            self.bad = (kind, detail)

    def handle(self, who, i, steps, how, keyword=None):
        if self.inside is not None:
            self.fail('calls-overlap', '%r while %r' % ((who, i), self.inside))
        self.inside = (who, i)
        try:
            for _ in range(steps):
                self.k.step('handler')
            if steps == 3 or how == 'die' and steps:
                self.k.block(lambda: False, 'handler', timeout=0.1)
            self.ran.append((who, i))
            if keyword != (who, 'kw', i):
                self.fail('wrong-arguments', repr(keyword))
            if how == 'raise':
                raise Refused(who, i)
            if how == 'exc-result':
                return ('exc', who, i)
            if how == 'none':
                return None
            if how == 'die':
                raise Fatal(who, i)
            return ('r', who, i)
        finally:
            self.inside = None

    def call(self, who, i, steps, how):
        """One call with its answer checked. Returns 'ok', 'refused' or 'dead'."""
        try:
            r = self.rpc.call(who, i, steps, how, keyword=(who, 'kw', i))
        except Refused as e:
            if e.args != (who, i) or how != 'raise':
                self.fail('wrong-answer', '%r got the exception %r' % ((who, i, how), e))
            return 'ok'
        except self.NotRunning:
            return 'refused'
        except Fatal as e:
            return 'dead'
        except AssertionError as e:
            self.fail('call-lost', '%r: %r' % ((who, i), e))
            return 'ok'
        want = {'ret': ('r', who, i), 'exc-result': ('exc', who, i), 'none': None}.get(how, 'raises')
        if r != want:
            self.fail('wrong-answer', '%r got %r, wanted %r' % ((who, i, how), r, want))
        return 'ok'

    def order_ok(self):
        last = {}
        for who, i in self.ran:
            if last.get(who, -1) >= i:
                self.fail('order', 'calls of %s handled as %r' % (
                    who, [j for w, j in self.ran if w == who]))
            last[who] = i


def plan(sim, most, hows):
    ch = sim.ch
    return [(ch.pick('w', 4), ch.choose('w', hows)) for _ in range(ch.pick('w', most + 1))]


HOWS = ['ret', 'ret', 'raise', 'exc-result', 'none']


def r01(sim):
    ch = sim.ch
    clients = ch.pick('w', 4)
    plans = [plan(sim, 4, HOWS) for _ in range(clients + 1)]
    early = ch.flip('w', 0.5)         # clients start before the server
    fatal = ch.flip('w', 0.25)
    interrupts = ch.flip('f', 0.4)
    at = [ch.given('f', 300, lambda r: r.randrange(1, 120)) for _ in range(1 + ch.pick('f', 2))] \
        if interrupts else []
    sim.sample = {'plans': plans, 'early': early, 'interrupts': at}
    sim.trivial = not any(plans)
    srv = []

    def main(mods):
        s = Server(sim, mods)
        srv.append(s)
        T = mods.get('threading').Thread
        go = mods.get('threading').Event()
        done = {}

        def client(who, plan):
            go.wait()
            for i, (steps, how) in enumerate(plan):
                st = s.call(who, i, steps, how)
                if st != 'ok':
                    s.fail('call-refused', '%r was %s although the server runs' % ((who, i), st))
            done[who] = True
        ts = [T(target=client, args=('c%d' % n, p)) for n, p in enumerate(plans[1:])]
        for t in ts:
            t.daemon = True
            t.start()
        if not early:
            s.rpc.start()
            go.set()
        else:
            s.rpc.start()
            go.set()
        for a in at:
            sim.k.arm(p_, a, lambda: sim.sigint(p_))
        interrupted = []
        for i, (steps, how) in enumerate(plans[0]):
            try:
                st = s.call('main', i, steps, how)
                if st != 'ok':
                    s.fail('call-refused', '%r was %s although the server runs' % (('main', i), st))
            except KeyboardInterrupt:
                interrupted.append(i)
                note(sim, 'interrupted calls')
        p_.arms = []
        del p_.pending[:]
        while True:
            try:
                for t in ts:
                    t.join()
                break
            except KeyboardInterrupt:
                pass
        if len(done) != len(ts):
            s.fail('client-died', repr(p_.thread_errors))
        # What is queued behind an interrupted call is complete once a further call is answered.
        tries = 0
        while True:
            try:
                s.call('last', tries, 0, 'ret')
                break
            except KeyboardInterrupt:
                tries += 1
        s.order_ok()
        for n, p in enumerate(plans):
            who = 'main' if n == 0 else 'c%d' % (n - 1)
            for i in range(len(p)):
                c = s.ran.count((who, i))
                if c > 1 or (c == 0 and not (who == 'main' and i in interrupted)):
                    s.fail('not-once', '%r handled %d times' % ((who, i), c))
        note(sim, 'calls', len(s.ran))
        sim.notes['calls'] = len(s.ran)
        if fatal:
            # An exception that ends the server still belongs to the call that raised it.
            st = s.call('fatal', 0, 1, 'die')
            if st != 'dead':
                s.fail('wrong-answer', 'the call that ended the server was %s' % st)
            note(sim, 'fatal calls')
        s.rpc.join()
        return 'ok'
    p_ = sim.world.spawn(main)
    sim.world.wait(p_)
    finish(sim, p_, srv)


def finish(sim, p, srv):
    if srv and srv[0].bad:
        sim.violation(*srv[0].bad)
    sim.require(p.outcome[0] == 'return', 'crashed', repr(p.outcome))
    errs = [e for e in p.thread_errors if not isinstance(e[1], Fatal)]
    sim.require(not errs, 'thread-died', repr(errs))


def r02(sim):
    ch = sim.ch
    clients = ch.pick('w', 4)
    mode = ch.choose('w', ['join', 'join', 'two-joins', 'twice', 'die', 'die-join', 'unstarted'])
    hows = HOWS if not mode.startswith('die') else HOWS + ['die']
    plans = [plan(sim, 4, hows) for _ in range(clients + 1)]
    wait = ch.pick('w', 30)
    sim.sample = {'plans': plans, 'mode': mode}
    srv = []

    def main(mods):
        s = Server(sim, mods)
        srv.append(s)
        threading = mods.get('threading')
        T = threading.Thread
        if mode == 'unstarted':
            st = s.call('main', 0, 0, 'ret')
            if st != 'refused':
                s.fail('not-refused', 'call before start: %s' % st)
        s.rpc.start()
        answered, refused, dead = [], [], []
        joined = []
        active = [0]

        def client(who, plan):
            for i, (steps, how) in enumerate(plan):
                late = bool(joined)
                st = s.call(who, i, steps, how)
                if st == 'ok':
                    answered.append((who, i))
                    if late:
                        s.fail('accepted-after-join', repr((who, i)))
                elif st == 'refused':
                    refused.append((who, i))
                else:
                    dead.append((who, i))
        ts = [T(target=client, args=('c%d' % n, p)) for n, p in enumerate(plans[1:])]
        for t in ts:
            t.daemon = True
            t.start()

        def join():
            s.rpc.join()
            if s.rpc.is_alive():
                s.fail('join-returned-early', 'the server thread still runs')
            joined.append(True)
            st = s.call('late', len(joined) * 100, 0, 'ret')
            if st != 'refused':
                s.fail('not-refused', 'call after join: %s' % st)
        for _ in range(wait):
            sim.k.step('body')
        if mode in ('join', 'unstarted', 'die-join'):
            client('main', plans[0])
            join()
        elif mode == 'twice':
            client('main', plans[0])
            join()
            join()
        elif mode == 'two-joins':
            other = T(target=join)
            other.daemon = True
            other.start()
            join()
            other.join()
        elif mode == 'die':
            client('main', plans[0])
            for t in ts:
                t.join()
            join()
        for t in ts:
            t.join()
        s.order_ok()
        for c in answered:
            if s.ran.count(c) != 1:
                s.fail('not-once', '%r handled %d times' % (c, s.ran.count(c)))
        for c in refused:
            if s.ran.count(c):
                s.fail('refused-but-ran', repr(c))
        if dead and not mode.startswith('die'):
            s.fail('wrong-answer', 'fatal: %r' % dead)
        for c in set(s.ran):
            if s.ran.count(c) != 1:
                s.fail('not-once', '%r handled %d times' % (c, s.ran.count(c)))
        note(sim, 'calls answered', bool(answered))
        note(sim, 'calls refused', bool(refused))
        note(sim, 'servers that died', any(isinstance(e, Fatal) for _, e in p_.thread_errors))
        return 'ok'
    p_ = sim.world.spawn(main)
    sim.world.wait(p_)
    finish(sim, p_, srv)


R01 = Spec(r01)
R02 = Spec(r02)
