"""Reporting a span never blocks, fails or sends on the thread of the application.

Reporting and closing only hand work to the event loop: the queue, the transport and the agent are used
by the loop alone, no lock is held while a batch is built or sent, and reporting raises nothing in any
state of the reporter.  The spans held in memory are bounded by the configured capacity and batch size,
and reporting from several threads, or while the loop runs, loses nothing.
"""
from .common import *
from .c28 import reach
from .c29 import Rep, tracer_of, REPORTER

OUTSIDE = ('queue.*', 'channel.*', 'time.sleep', 'socket.*', '*.emitBatch', '*.write', '*.sendto')


def run(P):
    P.scenario('application thread', application, loop=20)
    P.scenario('whole client', client, loop=20)
    P.scenario('sending holds no lock', no_lock, loop=20)
    P.scenario('bounded', bounded, loop=20)
    P.scenario('configuration', configuration)
    P.scenario('two threads report', two_threads, loop=20)
    P.scenario('report while the loop runs', while_running, loop=20, max_paths=8000)
    P.scenario('report while closing', while_closing, loop=20)
    P.scenario('in memory', in_memory)
    P.scenario('logging', logs)


STATES = ['new', 'waiting', 'behind', 'full', 'partial', 'closing', 'closed', 'failing']


def state(A, r, st):
    if st == 'waiting':
        r.loop.run()
    elif st == 'behind':
        r.loop.run()
        r.report(2)
    elif st == 'full':
        r.loop.run()
        r.report(9)
        for _ in range(9):
            r.loop.step()
    elif st == 'partial':
        r.report(1)
        r.loop.run()
    elif st == 'closing':
        r.report(3)
        A.call(r.r, 'close')
    elif st == 'closed':
        A.call(r.r, 'close')
        r.loop.run()
    elif st == 'failing':
        r.fail.append(failure(A))
        r.report(2)
        r.loop.run()


def on_thread(A, r, since, what):
    """Nothing but handing over happens here."""
    bad = [e for e in A.ip.events[since:] if e.kind in ('await',) or e.kind == 'call' and any(
        A.ip and match(p, e.name) for p in OUTSIDE)]
    A.require(not bad, 'thread', '%s uses %s on the calling thread' % (
        what, bad and (bad[0].name or bad[0].kind)), bad[0].loc if bad else None)
    A.require(not A.ip.held, 'lock', '%s leaves a lock held' % what)


def match(p, n):
    import fnmatch
    return n is not None and fnmatch.fnmatchcase(n, p)


def application(A):
    r = Rep(A, capacity=4, batch=2)
    state(A, r, A.pick('state', STATES))
    op = A.pick('operation', ['report', 'close', 'process'])
    tracer_of(A)
    sent, since = len(r.sent), A.mark
    if op == 'report':
        r.report(1)
    elif op == 'close':
        A.call(r.r, 'close')
    else:
        A.call(r.r, 'set_process', 'other', A.dict([('a', 'b')]), 10)
    on_thread(A, r, since, op)
    A.require(len(r.sent) == sent, 'thread', '%s sends a batch on the calling thread' % op)
    r.settle()
    r.accounted('at rest')


def client(A):
    """The same for finishing a span of a tracer with this reporter."""
    r = Rep(A, capacity=4, batch=2, process=False)
    s, _, _ = sampler_stub(A, TRUE, A.dict())
    tr = tracer(A, reporter=r.r, sampler=s)
    r.loop.run()
    since = A.mark
    sp = A.call(tr, 'start_span', 'op')
    A.call(sp, 'set_tag', 'k', 'v')
    A.call(sp, 'log_kv', A.dict([('event', 'e')]))
    A.call(sp, 'finish')
    on_thread(A, r, since, 'finishing a span')
    A.require(len(A.calls('io_loop.add_callback', since)) >= 1, 'reported', 'nothing is handed over')
    r.settle()
    A.require(r.sent == [['op']], 'sent', 'sent %s' % r.sent)


def no_lock(A):
    """An agent that is slow or fails delays nobody but the loop."""
    held = []
    r = Rep(A, capacity=4, batch=2)
    emit = A.ip.func_hooks['Client.emitBatch']

    def check(ip, a, kw):
        held.append([l.label or 'lock' for l in ip.held])
        return emit(ip, a, kw)
    A.ip.func_hooks['Client.emitBatch'] = check
    if A.pick('send', ['ok', 'fails']) == 'fails':
        r.fail.append(failure(A))
    r.report(3)
    r.settle()
    A.require(len(held) >= 2, 'sent', 'sent %d batches' % len(held))
    for h in held:
        A.require(not h, 'lock-held', 'sending holds %s' % ', '.join(map(str, h)))
    for e in A.calls('errors.error'):
        A.require(not e.locks, 'lock-held', 'reporting a failure holds a lock', e.loc)


def bounded(A):
    """Spans that are neither sent nor dropped are at most the capacity and one batch."""
    cap, size = A.pick('capacity, batch', [('%d %d' % p, p) for p in ((1, 1), (3, 2), (4, 4))])
    r = Rep(A, capacity=cap, batch=size)
    A.ip.func_hooks['Client.emitBatch'] = lambda ip, a, kw: NONE
    if A.pick('loop', ['ran', 'new']) == 'ran':
        r.loop.run()
    r.report(12)
    for _ in range(14):
        if r.loop.callbacks:
            r.loop.step()
        n = r.n - len(r.loop.callbacks) - sum(r.counts())
        A.require(n <= cap + size, 'bound', '%d spans are held with room for %d and batches of %d' % (
            n, cap, size))
    r.settle()
    got = r.counts()
    A.require(sum(got) == 12, 'lost', 'of 12 spans %d are ok, %d failed, %d dropped' % tuple(got))


def configuration(A):
    """A batch must fit into the queue."""
    ch = A.stub('channel', io_loop=Loop(A).obj, readFrame=lambda ip, a, k: FutV('frame'))
    cap = A.int('capacity', 1, 10 ** 6)
    size = A.int('batch', 1, 10 ** 6)
    r, e = A.catch(A.new, REPORTER, ch, queue_capacity=cap, batch_size=size)
    if A.cmp(cap, '<', size):
        A.require(e is not None and A.isinst(e, 'ValueError'), 'refused',
                  'a batch larger than the queue is accepted')
    else:
        A.require(e is None, 'accepted', 'a batch that fits is refused')


def two_threads(A):
    r = Rep(A, capacity=4, batch=2)
    if A.pick('loop', ['ran', 'new']) == 'ran':
        r.loop.run()
    at = A.race(lambda: r.report(1), lambda: r.report(1), *reach(r.r))
    r.settle()
    got = r.accounted('two threads report')
    if got:
        A.require(got == (2, 0, 0), 'lost', 'of 2 spans %d are sent' % got[0], at)


def while_running(A):
    r = Rep(A, capacity=4, batch=2)
    state(A, r, A.pick('state', ['new', 'behind', 'partial', 'failing']))
    kind = A.pick('other', ['report', 'process'])
    other = (lambda: r.report(1)) if kind == 'report' else \
        (lambda: A.call(r.r, 'set_process', 'other', A.dict(), 10))
    at = A.race(r.loop.run, other, *reach(r.r))
    r.settle()
    got = r.accounted('%s at %s' % (kind, at))
    if got:
        A.require(got[2] == 0, 'dropped', '%d spans are dropped with room left' % got[2], at)


def while_closing(A):
    """A span reported while the reporter is closed is sent or dropped, and counted."""
    r = Rep(A, capacity=4, batch=2)
    state(A, r, A.pick('state', ['new', 'behind', 'partial']))
    fs = []
    close = lambda: fs.append(A.call(r.r, 'close'))
    kind = A.pick('race', ['report during close', 'close during report', 'report during flush',
                           'close during flush'])
    rep = lambda: r.report(1)
    if kind == 'report during close':
        at = A.race(close, rep, *reach(r.r))
    elif kind == 'close during report':
        at = A.race(rep, close, *reach(r.r))
    else:
        close()
        at = A.race(r.loop.run, rep if kind == 'report during flush' else close, *reach(r.r))
    r.settle()
    r.accounted('%s at %s' % (kind, at))
    for f in fs:
        A.require(f.state == 'done', 'hangs', 'closing is %s' % f.state, at)


def in_memory(A):
    """Spans of several threads are all kept; what was handed out does not change afterwards."""
    r = A.new('jaeger_client.reporter:InMemoryReporter')
    s = [A.stub('span%d' % i) for i in range(4)]
    A.call(r, 'report_span', s[0])
    before = A.call(r, 'get_spans')
    got = []
    f = lambda: A.call(r, 'report_span', s[1])
    g = (lambda: A.call(r, 'report_span', s[2])) if A.pick('other', ['report', 'read']) == 'report' \
        else (lambda: got.append(A.call(r, 'get_spans')))
    at = A.race(f, g, *reach(r))
    now = A.call(r, 'get_spans')
    want = [s[0], s[1]] + ([] if got else [s[2]])
    A.require(len(now.items) == len(want) and all(any(x is y for y in now.items) for x in want),
              'kept', 'keeps %s of %d spans' % (pretty(A, now), len(want)), at)
    A.require(len(before.items) == 1, 'snapshot', 'spans handed out before change')
    A.call(r, 'report_span', s[3])
    A.require(len(now.items) == len(want), 'snapshot', 'spans handed out before change')


def logs(A):
    r = A.new('jaeger_client.reporter:LoggingReporter', A.stub('log', info=lambda ip, a, k: NONE))
    s = A.stub('span')
    A.call(r, 'report_span', s)
    es = [e for e in A.events('call') if (e.name or '').startswith('log.')]
    A.require(len(es) == 1 and any(x is s for x in es[0].args), 'logged', 'the span is not logged')
