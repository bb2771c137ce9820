"""Without an event loop of the application the client runs its own; with one it uses only that.

The client is built with and without an event loop, and its parts on their own.  The thread of the
library is replaced by one that has no loop until it is started and refuses a second start; every loop
records what it is given.  Spans, polls and closing then go through exactly one loop that runs: the one
the application gave, else one run by a daemon thread that the client started once.
"""
from .client import *
from .c33 import SENDER
from .c29 import REPORTER, span
from .c26 import REMOTE
from .c34 import THROTTLER

GIVEN, CURRENT = 'the loop of the application', 'the loop of the calling thread'


def run(P):
    P.scenario('own loop', own, loop=60)
    P.scenario('given loop', given, loop=60)
    P.scenario('two tracers', two, loop=60)
    P.scenario('transport', transport, loop=60)
    P.scenario('reporter with a loop of its own', reporter, loop=60)
    P.scenario('parts without a loop', without, loop=60)


class Threads(object):
    """Event loops by name, all driven by one; the threads that run them."""

    def __init__(self, A, base):
        self.A, self.base, self.n = A, base, 0
        self.used, self.running, self.started, self.daemons = [], set(), [], []
        self.inside = None
        self.current = self.loop(CURRENT)
        A.on('threadloop.ThreadLoop', self._threadloop)
        A.on('threading.Thread', self._thread)
        A.on('tornado.ioloop.IOLoop', self._new)
        for n in ('current', 'instance'):
            A.on('tornado.ioloop.IOLoop.' + n, lambda ip, a, kw: self.current)

    def loop(self, name):
        b = self.base

        def add(f):
            def g(ip, a, kw):
                self.used.append(name)
                return f(ip, a, kw)
            return g
        return self.A.stub(
            'io_loop', add_callback=add(b._add), spawn_callback=add(b._add), call_later=add(b._later),
            add_callback_from_signal=add(b._add), time=lambda ip, a, kw: b.now,
            close=lambda ip, a, kw: NONE, stop=lambda ip, a, kw: NONE,
            start=lambda ip, a, kw: self._run(name))

    def _run(self, name):
        A = self.A
        A.require(self.inside is not None, 'blocks', 'an event loop runs on the thread that makes the client')
        self.running.add(name)
        return NONE

    def _new(self, ip, a, kw):
        self.n += 1
        return self.loop('loop %d' % self.n)

    def _started(self, daemon):
        self.started.append(daemon)

    def _threadloop(self, ip, a, kw):
        loop = a[0] if a else kw.get('io_loop', NONE)
        me = self.A.stub('threadloop', is_ready=lambda ip, a, kw: C(bool(me.attrs.get('ready'))),
                         stop=lambda ip, a, kw: NONE, start=None, _io_loop=loop)

        def start(ip, a, kw):
            if me.attrs.get('ready'):
                raise ip.exc('AssertionError', 'thread already started')
            me.attrs['ready'] = TRUE
            if me.attrs['_io_loop'] is NONE:
                me.attrs['_io_loop'] = self._new(ip, [], {})
            self._started(True)
            self.inside, was = True, self.inside
            try:
                ip.call(ip.getattr(me.attrs['_io_loop'], 'start'), [])
            finally:
                self.inside = was
            return me
        me.attrs['start'] = self.A.fn('threadloop.start', start)
        return me

    def _thread(self, ip, a, kw):
        a = argsof_(a, kw, ('group', 'target', 'name', 'args', 'kwargs'))
        me = self.A.stub('thread', join=lambda ip, a, kw: NONE, is_alive=lambda ip, a, kw: TRUE,
                         daemon=kw.get('daemon', FALSE))
        me.attrs['setDaemon'] = self.A.fn('thread.setDaemon', lambda ip, b, k: me.attrs.__setitem__(
            'daemon', b[0]) or NONE)

        def start(ip, b, k):
            self._started(self.A.truth(me.attrs['daemon']))
            self.inside, was = True, self.inside
            try:
                ip.call(a[1], [] if a[3] is NONE else list(ms.iterate(ip, a[3], None)))
            finally:
                self.inside = was
            return NONE
        me.attrs['start'] = self.A.fn('thread.start', start)
        return me

    def only(self, what, name=None):
        """One loop was used, it runs, and it is this one."""
        A = self.A
        A.require(CURRENT not in self.used, 'current', '%s: callbacks go to the loop of the calling thread, '
                  'which does not run' % what)
        A.require(all(u == GIVEN or u in self.running for u in self.used), 'running',
                  '%s: callbacks go to a loop that does not run: %s' % (what, sorted(set(self.used))))
        if name is not None:
            A.require(set(self.used) <= {name}, 'given', '%s: callbacks go to %s instead of %s' % (
                what, sorted(set(self.used) - {name}), name))

    def threads(self, n, what):
        A = self.A
        A.require(len(self.started) == n, 'threads', '%s: %d threads are started, expected %d' % (
            what, len(self.started), n))
        A.require(all(self.started), 'daemon', '%s: the thread keeps the process from ending' % what)


def everything(A):
    return A.pick('settings', [('few', {'sampler': {'type': 'const', 'param': 1}}),
                               ('polling', {'throttler': {}}), ('logging', {'logging': True, 'throttler': {'port': 9}})])


def works(A, c, what, n=2):
    """Spans are sent, polls are made, and closing completes."""
    before = sum(map(len, c.batches))
    tags = A.dict([('sampling.priority', 1)])
    c.loop.run()
    while c.loop.timers:
        c.loop.fire()
        c.loop.run()
    polled = any('/sampling' in show(u) for u in c.urls)
    A.require(polled == (c.const is False), 'polls', '%s: asked for %s' % (what, [pretty(A, u) for u in c.urls]))
    if polled:
        c.answer('{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}', 0)
    c.spans(n)
    f = A.call(c.tr, 'close')
    c.run()
    A.require(sum(map(len, c.batches)) == before + n, 'sent', '%s: of %d spans %d are sent' % (
        what, n, sum(map(len, c.batches)) - before))
    A.require(isinstance(f, FutV) and f.state == 'done', 'closed', '%s: closing does not complete' % what)


def build(A, c, loop):
    how = A.pick('called', ['new_tracer', 'initialize_tracer'])
    a = A.pick('argument', ['absent', 'None']) if loop is None else 'given'
    name = A.pick('passed', ['by position', 'by name']) if a != 'absent' else ''
    v = NONE if loop is None else loop
    args = () if a == 'absent' or name == 'by name' else (v,)
    c.tr = A.call(c.cfg, how, *args, **({'io_loop': v} if name == 'by name' else {}))


def make(A):
    d = everything(A)
    c = Client(A, dict(d))
    c.const = 'sampler' in d
    return c, Threads(A, c.loop)


def own(A):
    c, t = make(A)
    build(A, c, None)
    t.threads(1, 'a tracer without a loop')
    works(A, c, 'a tracer without a loop')
    t.only('a tracer without a loop')
    A.require(t.used != [], 'used', 'nothing runs on the loop')
    t.threads(1, 'a tracer without a loop, closed')


def given(A):
    c, t = make(A)
    build(A, c, t.loop(GIVEN))
    works(A, c, 'a tracer with a loop')
    t.only('a tracer with a loop', GIVEN)
    t.threads(0, 'a tracer with a loop')


def two(A):
    """Tracers do not take each other's loop away."""
    c, t = make(A)
    which = [A.pick('loop %d' % i, ['own', 'given']) for i in (1, 2)]
    ts = []
    for w in which:
        k = len(t.used)
        ts.append(A.call(c.cfg, 'new_tracer', NONE if w == 'own' else t.loop(GIVEN)))
        A.require(set(t.used[k:]) and all((u == GIVEN) == (w == 'given') for u in t.used[k:]), 'given',
                  'a tracer with %s loop after %s uses %s' % (w, which, sorted(set(t.used[k:]))))
    A.require(len(t.started) <= which.count('own'), 'threads', '%d threads for %s' % (len(t.started), which))
    for i, tr in enumerate(ts):
        c.tr = tr
        n = sum(map(len, c.batches))
        c.loop.run()
        s = A.call(tr, 'start_span', 'op', tags=A.dict([('sampling.priority', 1)])) if c.const else None
        if s is not None:
            A.call(s, 'finish')
        f = A.call(tr, 'close')
        c.run()
        A.require(isinstance(f, FutV) and f.state == 'done', 'closed', 'closing tracer %d does not complete' % i)
        A.require(sum(map(len, c.batches)) == n + (s is not None), 'sent', 'the span of tracer %d is not sent' % i)
    t.only('two tracers')


def transport(A):
    """The transport to the agent, made by an application."""
    c, t = make(A)
    loop = A.pick('loop', [('absent', None), ('None', NONE), ('given', t.loop(GIVEN))])
    kw = {} if loop is None else {'io_loop': loop}
    s = A.new(SENDER, 'agent', 1, 2, **kw)
    l = A.attr(s, 'io_loop')
    A.require(l is loop if kw and loop is not NONE else l is not NONE, 'given', 'the loop is %s' % pretty(A, l))
    t.threads(int(loop in (None, NONE)), 'a transport')
    A.call(l, 'add_callback', A.fn('callback'))
    t.only('a transport')


def reporter(A):
    """A loop given to the reporter is used instead of the one of the channel."""
    base = Loop(A)
    t = Threads(A, base)
    kw = {}
    theirs = A.pick('loop', ['absent', 'None', 'given'])
    if theirs != 'absent':
        kw['io_loop'] = NONE if theirs == 'None' else t.loop(GIVEN)
    sent = []
    own = t.loop('the loop of the channel')
    if theirs == 'given':     # one that does not run
        own = A.stub('io_loop', **{n: lambda ip, a, kw: NONE for n in ('add_callback', 'spawn_callback', 'call_later')})
    ch = A.stub('channel', io_loop=own, readFrame=lambda ip, a, k: FutV('frame'))
    t.running.add('the loop of the channel')

    def emit(ip, a, kw):
        sent.extend(ip.getattr(take(ip, list(a[1:]), dict(kw), 'batch'), 'spans').items)
        return NONE
    A.ip.func_hooks = {'Client.emitBatch': emit}
    r = A.new(REPORTER, ch, metrics_factory=metrics_factory(A), error_reporter=error_reporter_stub(A), **kw)
    A.call(r, 'set_process', 'service', A.dict(), 100)
    for n in ('s1', 's2'):
        A.call(r, 'report_span', span(A, n))
    f = A.call(r, 'close')
    for _ in range(9):
        base.run()
        if not base.timeouts():
            break
        base.expire()
    A.require(len(sent) == 2, 'sent', 'of 2 spans %d are sent' % len(sent))
    A.require(f.state == 'done', 'closed', 'closing does not complete')
    t.only('a reporter', GIVEN if theirs == 'given' else 'the loop of the channel')


def without(A):
    """Sampler and throttler without a loop decide, but do not poll."""
    base = Loop(A)
    t = Threads(A, base)
    urls = []
    ch = A.stub('channel', io_loop=NONE, request_sampling_strategy=lambda ip, a, k: urls.append(1) or FutV('x'),
                request_throttling_credits=lambda ip, a, k: urls.append(1) or FutV('x'))
    kw = {'metrics_factory': metrics_factory(A), 'error_reporter': error_reporter_stub(A)}
    if A.pick('part', ['sampler', 'throttler']) == 'sampler':
        s, exc = A.catch(A.new, REMOTE, ch, 'service', init_sampler=A.new('jaeger_client.sampler:ConstSampler', True),
                         **kw)
        if A.require(exc is None, 'raises', 'a sampler without a loop cannot be made'):
            A.require_same(A.call(s, 'is_sampled', 1, 'op').items[0], TRUE, 'decision', 'without a loop')
    else:
        s, exc = A.catch(A.new, THROTTLER, ch, 'service', **kw)
        if A.require(exc is None, 'raises', 'a throttler without a loop cannot be made'):
            A.require_same(A.call(s, 'is_allowed', 'op'), FALSE, 'decision', 'without a loop')
    if exc is None:
        x, exc = A.catch(A.call, s, 'close')
        A.require(exc is None, 'raises', 'closing it raises')
    A.require(not t.used and not urls and not t.started, 'polls', 'it polls without a loop')
