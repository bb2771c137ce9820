"""Every reported span is accounted for exactly once.

The reporter is followed through its event loop, queue and consumer coroutine, for every order of
reporting, running the loop, a flush timeout, sending failures and closing: each span is sent in one
batch and counted as ok, or counted as failed, or counted as dropped, and the three counters add up to
the number of spans reported.  Batches keep the order and hold no more than the configured size.
"""
from .common import *

REPORTER = 'jaeger_client.reporter:Reporter'
PREFIX = 'm.jaeger:reporter_spans.'


def run(P):
    P.scenario('histories', histories, loop=20)
    P.scenario('overflow', overflow, loop=20)
    P.scenario('failures', failures, loop=20)
    P.scenario('after close', closed, loop=20)
    P.scenario('batches', batches, loop=20)
    P.scenario('queue length', gauge, loop=20)
    P.scenario('process told again', processes, loop=20)


class Rep(object):
    """A reporter, its loop, and an agent that records the batches it is sent."""

    def __init__(self, A, capacity=4, batch=2, process=True, channel=None, **kw):
        self.A, self.loop, self.sent, self.n = A, Loop(A), [], 0
        self.since = A.mark
        self.fail = []                     # outcome of each send: None or an exception
        self.channel = channel(self.loop) if channel else A.stub('channel', io_loop=self.loop.obj,
                              write=lambda ip, a, k: NONE, flush=lambda ip, a, k: NONE,
                              readFrame=lambda ip, a, k: FutV('frame'))
        self.errors = error_reporter_stub(A)
        if not channel:
            A.ip.func_hooks = {'Client.emitBatch': self._emit}
        self.r = A.new(REPORTER, self.channel, queue_capacity=capacity, batch_size=batch,
                       flush_interval=kw.pop('flush_interval', 1.0),
                       **helpers(A, self.errors, kw))
        if process:
            A.call(self.r, 'set_process', 'service', A.dict(), 100)
        self.spans = []

    def _emit(self, ip, a, kw):
        batch = take(ip, list(a[1:]), dict(kw), 'batch')
        names = [ip.getattr(s, 'operationName') for s in ip.getattr(batch, 'spans').items]
        self.sent.append([n.v for n in names])
        exc = self.fail.pop(0) if self.fail else None
        if exc is not None:
            self.sent[-1] = None
            raise PyExc(exc, ip.where())
        return NONE

    def report(self, k=1):
        for _ in range(k):
            self.n += 1
            s = span(self.A, 's%d' % self.n)
            self.spans.append(s)
            self.A.call(self.r, 'report_span', s)

    def counts(self):
        return [count_of(self.A, PREFIX + k, self.since) for k in ('ok', 'err', 'dropped')]

    def settle(self, most=20):
        """Everything that can happen happens: callbacks and timeouts."""
        for _ in range(most):
            self.loop.run()
            if not self.loop.timeouts():
                return
            self.loop.expire()

    def accounted(self, what):
        A = self.A
        ok, err, dropped = self.counts()
        if None in (ok, err, dropped):
            return A.soft(None, 'count', 'counters')
        sent = [n for b in self.sent if b for n in b]
        A.require([] not in self.sent, 'empty', '%s: a batch without spans is sent' % what)
        A.require(len(sent) == len(set(sent)), 'twice', '%s: sent twice: %s' % (what, sent))
        A.require(ok == len(sent), 'ok', '%s: %d spans are sent, %d counted as ok' % (
            what, len(sent), ok))
        A.require(ok + err + dropped == self.n, 'lost',
                  '%s: of %d spans %d are ok, %d failed, %d dropped' % (
                      what, self.n, ok, err, dropped))
        return ok, err, dropped


def tracer_of(A):
    if not hasattr(A, 'tr'):
        s, _, _ = sampler_stub(A, TRUE, A.dict())
        A.tr = tracer(A, sampler=s)
    return A.tr


def span(A, name):
    n = int(name[1:])
    ctx = A.new(CTX, 1, 100 + n, 3, 1)
    s = A.new('jaeger_client.span:Span', context=ctx, tracer=tracer_of(A), operation_name=name,
              start_time=1.0)
    A.call(s, 'finish', 2.0)
    return s


def histories(A):
    r = Rep(A, capacity=3, batch=2)
    exc = failure(A, A.pick('failure', ['OSError', 'TimeoutError', 'ValueError', 'BlockingIOError', 'ConnectionRefusedError']))
    for step in A.pick('history', [
            'r1 run', 'r2 run', 'r1 run r1 run', 'r1 run t r1 run', 'r3 run r1 run', 'r5 run',
            'r1 run r5 run t', 'fail r2 run r2 run', 'r1 run fail t r1 run', 'r4 run', 'run r1 t r1 run',
            'r1 close run', 'r3 close run r1 run', 'r1 run close run r2 run', 'fail r2 close run',
            'r1 r1 step r1 step r1 step r1 step', 'r2 step step close r1 run', 'close r2 run',
            'r1 close close run', 'r5 run t close run', 'fail r3 run t fail r1 t run']).split():
        if step[0] == 'r' and step != 'run':
            r.report(int(step[1:]))
        elif step == 'run':
            r.loop.run()
        elif step == 'step':
            if r.loop.callbacks:
                r.loop.step()
        elif step == 't':
            r.loop.run()
            if r.loop.timeouts():
                r.loop.expire()
        elif step == 'fail':
            r.fail.append(exc)
        elif step == 'close':
            A.call(r.r, 'close')
    r.settle()
    r.accounted('at rest')


def overflow(A):
    """Whatever does not fit is dropped and counted, at once; the rest is sent in order."""
    cap = A.pick('capacity', [1, 2, 4])
    r = Rep(A, capacity=cap, batch=1)
    n = A.pick('spans', [1, 3, 6])
    # the consumer has not started yet, or waits, or is behind
    if A.pick('consumer', ['waits', 'not started']) == 'waits':
        r.loop.run()
    r.report(n)
    r.settle()
    ok, err, dropped = r.accounted('at rest') or (0, 0, 0)
    A.require(err == 0, 'failed', '%d failures' % err)
    sent = [x for b in r.sent for x in b]
    A.require(sent == sorted(sent), 'order', 'sent %s' % sent)
    A.require(ok <= cap + 1, 'bound', '%d spans are held with room for %d and one being sent' % (
        ok, cap))
    A.require(ok >= min(n, cap), 'dropped', '%d of %d spans are sent with room for %d' % (ok, n, cap))


def failures(A):
    """Sends that fail in any way are counted as failed and reported; the next batch is sent."""
    r = Rep(A, capacity=6, batch=2)
    for i in range(3):
        f = A.pick('send %d' % i, [('ok', 0), ('socket error', 'OSError'), ('other', 'ValueError')])
        r.fail.append(failure(A, f) if f else None)
    bad = sum(1 for x in r.fail if x is not None)
    r.report(6)
    since = A.mark
    r.settle()
    got = r.accounted('at rest')
    if got:
        A.require(got == (6 - 2 * bad, 2 * bad, 0), 'failed',
                  '%d ok, %d failed, %d dropped with %d failing sends of two' % (got + (bad,)))
    n = len(A.calls('errors.error', since))
    A.require(n == bad, 'report', '%d failures are reported %d times' % (bad, n))


def closed(A):
    """A span reported when the reporter is closed is dropped and counted, once."""
    r = Rep(A, capacity=4, batch=2)
    k = A.pick('before', [0, 1, 3])
    r.report(k)
    if A.pick('loop', ['runs', 'does not']) == 'runs':
        r.loop.run()
    A.call(r.r, 'close')
    r.loop.run()
    r.settle()
    r.report(2)
    r.settle()
    got = r.accounted('after close')
    if got:
        A.require(got == (k, 0, 2), 'late', '%d ok, %d failed, %d dropped' % got)


def batches(A):
    cap, size = A.pick('capacity, batch size', [('%d %d' % p, p) for p in ((6, 2), (6, 3), (6, 6),
                                                                            (6, 4))])
    r = Rep(A, capacity=cap, batch=size)
    r.report(A.pick('spans', [1, 4, 6]))
    r.settle()
    for b in r.sent:
        A.require(b and 1 <= len(b) <= size, 'size', 'a batch of %d, at most %d' % (
            len(b or ()), size))
    names = [x for b in r.sent for x in b]
    A.require(names == ['s%d' % (i + 1) for i in range(r.n)], 'order', 'sent %s' % names)
    A.require(len(r.sent) == (r.n + size - 1) // size, 'full', 'sent as %s' % r.sent)
    r.accounted('at rest')


def gauge(A):
    """The queue length is reported, and never more than the capacity."""
    r = Rep(A, capacity=3, batch=1)
    r.report(A.pick('spans', [1, 3, 5]))
    r.settle()
    es = A.calls('m.jaeger:reporter_queue_length')
    A.require(len(es) >= 1, 'gauge', 'the queue length is never reported')
    for e in es:
        v = e.args[0]
        A.require(isinstance(v, C) and 0 <= v.v <= 3, 'gauge', 'a queue length of %s' % pretty(A, v))


def processes(A):
    """Every batch carries the process that was told last; before there is one nothing is sent."""
    r = Rep(A, capacity=4, batch=1, process=False)
    seen = []
    A.ip.func_hooks = {'Client.emitBatch': lambda ip, a, kw: seen.append(
        ip.getattr(take(ip, list(a[1:]), dict(kw), 'batch'), 'process')) or NONE}
    want = []
    for i, name in enumerate(['first', 'second', 'second']):
        A.call(r.r, 'set_process', name, A.dict([('n', i)]), 100)
        r.report()
        r.settle()
        want.append((name, i))
    got = [(pretty(A, A.attr(p, 'serviceName')), [pretty(A, t) for t in tags_list(A, p)]) for p in seen]
    A.require(got == [(repr(n), [repr(i)]) for n, i in want], 'process', 'the batches carry the processes %s' % got)


def tags_list(A, process):
    """The whole numbers among the tags of a process."""
    return [A.attr(t, 'vLong') for t in A.attr(process, 'tags').items]
