"""Closing the tracer stops all background work.

The sampler and the throttler are closed at every stage of their start-up, and by another thread at any
point of its steps: afterwards no periodic polling runs, none is started later, and no timer is left
that would.  While they are open they poll, over and over.  Closing the tracer closes its sampler, its
throttler and its reporter, and completes when the reporter does.
"""
from .common import *
from .c26 import REMOTE, PERIODIC
from .c28 import reach
from .c29 import REPORTER, span
from .c34 import THROTTLER


def run(P):
    P.scenario('polling', polling)
    P.scenario('polling while requests fail', unlucky)
    P.scenario('closed at each stage', stages)
    P.scenario('closed by another thread', racing)
    P.scenario('closed twice', twice)
    P.scenario('closing both ways at once', closing_race)
    P.scenario('without an event loop', no_loop)
    P.scenario('samplers', samplers)
    P.scenario('tracer', the_tracer)
    P.scenario('tracer keeps closing', the_tracer_again)
    P.scenario('whole client', whole, loop=20)


class Poller(object):
    """A sampler or throttler, with what it has scheduled."""

    def __init__(self, A, kind=None, **kw):
        self.A, self.loop, self.asked, self.periodics = A, Loop(A), [], []
        self.kind = kind or A.pick('component', ['sampler', 'throttler', 'idle throttler'])
        self.idle = self.kind == 'idle throttler'
        self.kind = self.kind.split()[-1]
        A.on(PERIODIC, self._periodic)
        ask = lambda ip, a, k: self._ask()
        self.channel = A.stub('channel', io_loop=self.loop.obj, request_sampling_strategy=ask,
                              request_throttling_credits=ask)
        self.o = A.new(REMOTE if self.kind == 'sampler' else THROTTLER, self.channel, 'service',
                       metrics_factory=metrics_factory(A), error_reporter=error_reporter_stub(A),
                       **kw)
        if self.kind == 'throttler' and not self.idle:
            A.call(self.o, 'is_allowed', 'op')

    def _ask(self):
        f = FutV('answer')
        self.asked.append(f)
        return f

    def _periodic(self, ip, a, kw):
        p = {'callback': argsof_(a, kw, ('callback',))[0], 'running': False, 'starts': 0}

        def start(ip, a, kw):
            p['running'] = True
            p['starts'] += 1
            return NONE

        def stop(ip, a, kw):
            p['running'] = False
            return NONE
        self.periodics.append(p)
        return self.A.stub('periodic', start=start, stop=stop,
                           is_running=lambda ip, a, kw: C(p['running']))

    def close(self):
        self.A.call(self.o, 'close')

    def tick(self):
        """The time of everything scheduled comes once."""
        self.loop.run()
        for p in self.periodics:
            if p['running']:
                self.A.ip.loop_call(p['callback'], [])
        for _ in range(len(self.loop.timers)):
            self.loop.fire()
        self.loop.run()

    def answered(self, failing=None):
        for f in self.asked:
            if f.state == 'pending' and failing:
                settle(self.A, f, exc=failure(self.A, failing))
            elif f.state == 'pending':
                settle(self.A, f, response(self.A, '{}'))
        self.loop.run()

    def stage(self, n):
        """new, started, first poll made, polling"""
        if n > 0:
            self.loop.run()
        if n > 1:
            self.tick()
        if n > 2:
            self.answered()
            self.tick()

    def quiet(self, at=None, answers=None):
        """Nothing goes on after closing, whatever is still answered."""
        A, n, started = self.A, len(self.asked), self.loop.started
        for _ in range(4):
            self.tick()
            self.answered(answers)
        left = [p for p in self.periodics if p['running']]
        A.require(not left, 'polling', 'the %s polls after it was closed' % self.kind, at)
        A.require(not self.loop.timers, 'timer', 'the %s has a timer left after it was closed' % (
            self.kind), at)
        A.require(self.loop.started == started, 'timer', 'the closed %s starts a timer' % (
            self.kind), at)
        A.require(len(self.asked) == n, 'requests', 'the closed %s makes %d more requests' % (
            self.kind, len(self.asked) - n), at)


STAGES = ['just made', 'waiting for its first poll', 'after its first poll', 'polling']


def polling(A):
    """As long as nobody closes it, it asks again and again, not more than once at a time."""
    r = Poller(A)
    n = [0]
    for i in range(5):
        if i == 1 and r.idle:
            A.require(not r.asked, 'idle', 'requests for no operations')
            A.call(r.o, 'is_allowed', 'op')
        r.tick()
        r.answered()
        n.append(len(r.asked))
    A.require(n[-1] >= 3, 'alive', 'the %s makes %s requests while time passes' % (r.kind, n))
    A.require(all(b - a <= 2 for a, b in zip(n, n[1:])), 'alive', 'requests: %s' % n)
    A.require(sum(p['running'] for p in r.periodics) <= 1, 'once', 'it polls several times at once')
    A.require(all(p['starts'] <= 1 for p in r.periodics), 'once', 'polling is started twice')


def unlucky(A):
    """A failed request is no reason to stop, nor to ask more often."""
    r = Poller(A, A.pick('polls', ['sampler', 'throttler']))
    n = [0]
    for i in range(5):
        r.tick()
        r.answered('OSError' if i < 2 else None)
        n.append(len(r.asked))
    A.require(n[-1] >= 3, 'alive', 'the %s makes %s requests while they fail' % (r.kind, n))
    A.require(all(b - a <= 2 for a, b in zip(n, n[1:])), 'alive', 'requests while they fail: %s' % n)
    A.require(sum(p['running'] for p in r.periodics) <= 1, 'once', 'it polls several times at once')
    r.close()
    r.quiet(answers='OSError')


def stages(A):
    r = Poller(A)
    k = A.choose(len(STAGES), STAGES)
    r.stage(k)
    if A.pick('loop', ['idle', 'callbacks waiting']) != 'idle' and r.loop.timers:
        # the timer has expired, its callback is about to run
        d, f, a, kw = r.loop.timers.pop(0)
        r.loop.callbacks.append((f, a, kw))
    r.close()
    r.quiet(answers=A.pick('answers', [('given', None), ('fail', 'OSError'), ('time out', 'TimeoutError')]))
    usable(A, r)


def usable(A, r):
    if r.kind == 'sampler':
        v = A.call(r.o, 'is_sampled', 1, 'op')
        A.require(isinstance(v, Tup) and len(v.items) == 2, 'usable', 'no decision after closing')
    else:
        v = A.call(r.o, 'is_allowed', 'op')
        A.require(A.same(v, TRUE) or A.same(v, FALSE), 'usable', 'no decision after closing')


def racing(A):
    """Closing comes at any point of the step the event loop takes."""
    r = Poller(A)
    k = A.choose(len(STAGES), STAGES)
    r.stage(k)
    if A.pick('interrupted', ['the event loop', 'close()']) == 'close()':
        at = A.race(r.close, r.tick, *reach(r.o))
    else:
        at = A.race(r.tick, r.close, *reach(r.o))
    r.quiet(at)


def twice(A):
    r = Poller(A)
    r.stage(A.choose(len(STAGES), STAGES))
    r.close()
    r.close()
    r.quiet()


def closing_race(A):
    r = Poller(A)
    r.stage(A.choose(len(STAGES), STAGES))
    at = A.race(r.close, r.close, *reach(r.o))
    r.quiet(at)


def no_loop(A):
    ch = A.stub('channel', io_loop=NONE)
    for n in (REMOTE, THROTTLER):
        o = A.new(n, ch, 'service', metrics_factory=metrics_factory(A),
                  error_reporter=error_reporter_stub(A))
        A.call(o, 'close')
        A.call(o, 'close')
    A.require(True, 'no-loop', '')


def samplers(A):
    """The others can be closed as well, and keep deciding."""
    S = 'jaeger_client.sampler:'
    s = A.pick('sampler', [
        ('constant', (S + 'ConstSampler', (True,))), ('probabilistic', (S + 'ProbabilisticSampler',
                                                                        (0.5,))),
        ('rate limiting', (S + 'RateLimitingSampler', (2,))),
        ('guaranteed throughput', (S + 'GuaranteedThroughputProbabilisticSampler', ('op', 1, 0.5))),
        ('adaptive', (S + 'AdaptiveSampler', (A.dict([('perOperationStrategies', A.list([A.dict([
            ('operation', 'a')])]))]), 2)))])
    o = A.new(s[0], *s[1])
    A.call(o, 'is_sampled', 1, 'op')
    A.call(o, 'close')
    A.call(o, 'close')
    v = A.call(o, 'is_sampled', 1, 'op')
    A.require(isinstance(v, Tup), 'usable', 'no decision after closing')


def parts(A, with_throttler):
    f = FutV('flushed')
    closed = []

    def closing(n, r):
        def go(ip, a, kw):
            closed.append(n)
            return r
        return go
    s = A.stub('sampler', is_sampled=lambda ip, a, kw: Tup([FALSE, A.dict()]),
               close=closing('sampler', NONE))
    th = A.stub('throttler', is_allowed=lambda ip, a, kw: TRUE, close=closing('throttler', NONE),
                set_client_id=lambda ip, a, kw: NONE) if with_throttler else NONE
    rep = A.stub('reporter', set_process=lambda ip, a, kw: NONE,
                 report_span=lambda ip, a, kw: NONE, close=closing('reporter', f))
    return tracer(A, sampler=s, reporter=rep, throttler=th), f, closed


def the_tracer(A):
    th = A.pick('throttler', [True, False])
    tr, f, closed = parts(A, th)
    A.require(not closed, 'open', 'closed before the tracer is: %s' % closed)
    got = A.call(tr, 'close')
    want = ['reporter', 'sampler'] + ['throttler'] * th
    A.require(sorted(closed) == want, 'parts', 'closing the tracer closes %s, expected %s' % (
        sorted(closed), want))
    if not A.require(isinstance(got, FutV), 'future', 'closing gives %s' % pretty(A, got)):
        return
    A.require(got.state == 'pending', 'early', 'complete before the reporter is')
    settle(A, f, TRUE)
    A.require(got is f or got.state == 'done', 'completes', 'the future is %s when the reporter has '
              'closed' % got.state)


def the_tracer_again(A):
    """The parts are closed whatever the tracer was used for."""
    th = A.pick('throttler', [True, False])
    tr, f, closed = parts(A, th)
    s = A.call(tr, 'start_span', 'op')
    A.call(s, 'set_tag', 'sampling.priority', 1)
    if A.pick('span', ['finished', 'open']) == 'finished':
        A.call(s, 'finish')
    A.call(tr, 'close')
    A.require('sampler' in closed and 'reporter' in closed and ('throttler' in closed) == th,
              'parts', 'closing the tracer closes %s' % closed)


def whole(A):
    """The client as the configuration builds it."""
    r = Poller(A, 'sampler')
    loop = r.loop
    sent = []

    def emit(ip, a, kw):
        batch = take(ip, list(a[1:]), dict(kw), 'batch')
        sent.extend(ip.getattr(s, 'operationName').v for s in ip.getattr(batch, 'spans').items)
        return NONE
    A.ip.func_hooks = {'Client.emitBatch': emit}
    frames = []         # the agent never answers

    def frame(ip, a, kw):
        frames.append(FutV('frame'))
        return frames[-1]
    ch = A.stub('channel2', io_loop=loop.obj, write=lambda ip, a, k: NONE,
                flush=lambda ip, a, k: NONE, readFrame=frame,
                request_sampling_strategy=lambda ip, a, k: r._ask(),
                request_throttling_credits=lambda ip, a, k: r._ask())
    mf, er = metrics_factory(A), error_reporter_stub(A)
    s = A.new(REMOTE, ch, 'service', metrics_factory=mf, error_reporter=er)
    th = A.new(THROTTLER, ch, 'service', metrics_factory=mf, error_reporter=er)
    rep = A.new(REPORTER, ch, metrics_factory=mf, error_reporter=er, batch_size=2,
                queue_capacity=4)
    r.close()
    if A.pick('reporter', ['alone', 'composite']) == 'composite':
        rep = A.new('jaeger_client.reporter:CompositeReporter', rep,
                    A.new('jaeger_client.reporter:InMemoryReporter'))
    tr = tracer(A, sampler=s, reporter=rep, throttler=th)
    k = A.choose(len(STAGES), STAGES)
    r.stage(k)
    for i in range(3):
        A.call(rep, 'report_span', span(A, 's%d' % (i + 1)))
    if A.pick('loop', ['runs', 'waits']) == 'runs':
        loop.run()
    f = A.call(tr, 'close')
    loop.run()
    A.require(isinstance(f, FutV) and f.state == 'done', 'completes', 'closing is not complete')
    A.require(sent == ['s1', 's2', 's3'], 'sent', 'sent: %s' % sent)
    left = [c for c in loop.suspended() if not any(c.waiting is f for f in frames)]
    A.require(not left, 'consumer', 'after closing %s still waits' % ', '.join(
        str(getattr(c.fn, 'qualname', c.fn)) for c in left))
    r.quiet()
