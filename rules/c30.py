"""Closing the reporter sends what was reported before, then completes.

The future that closing returns is settled on every history: with spans in flight, in the queue, or
still on their way to the event loop, with a full queue, with failing sends, when closed repeatedly, and
without waiting for a flush interval.  When it is settled every span reported before is accounted for.
Work handed to an event loop settles its future exactly as the work ends.
"""
from .common import *
from .c29 import Rep

SUBMIT = 'jaeger_client.ioloop_util:submit'


def run(P):
    P.scenario('drain', drain, loop=20)
    P.scenario('failing sends', failing, loop=20)
    P.scenario('repeatedly', repeatedly, loop=20)
    P.scenario('without flush interval', no_interval, loop=20)
    P.scenario('sends that take time', slow, loop=20)
    P.scenario('other reporters', others)
    P.scenario('submit', submit)
    P.scenario('submit fails', submit_fails)


def watch(A, r, f):
    """What is accounted for at the moment the future settles."""
    seen = []
    A.require(isinstance(f, FutV), 'future', 'closing gives %s' % pretty(A, f))
    A.call(f, 'add_done_callback', Native('done', lambda ip, a, kw: (
        seen.append(sum(r.counts())), NONE)[1]))
    return seen


def finished(A, r, f, seen, k, what):
    if not A.require(f.state == 'done', 'hangs' if f.state == 'pending' else 'fails',
                     '%s: the future is %s%s' % (what, f.state, '' if f.state != 'error' else
                                                 ' with %s' % getattr(getattr(f.value, 'cls', None), 'name', f.value))):
        return
    A.require(seen and seen[0] >= k, 'early', '%s: settled when %s of %d spans are accounted for' % (
        what, seen, k))


HISTORIES = ['close', 'run close', 'r1 close', 'r1 run close', 'r3 close', 'r3 run close',
             'r6 close', 'r6 run close', 'r2 run r5 close', 'r1 step close', 'r4 step step close',
             'run r4 close', 'run r5 close', 'r3 run t r1 close', 'r1 run t close', 'r1 run r1 close',
             'r6 step step step close']


def play(A, r, steps):
    for step in steps.split():
        if step == 'run':
            r.loop.run()
        elif step == 'step':
            if r.loop.callbacks:
                r.loop.step()
        elif step == 't':
            r.loop.run()
            if r.loop.timeouts():
                r.loop.expire()
        elif step[0] == 'r':
            r.report(int(step[1:]))
        elif step == 'close':
            return A.call(r.r, 'close')


def drain(A):
    cap, size = A.pick('capacity, batch', [('%d %d' % p, p) for p in ((4, 2), (4, 4), (1, 1),
                                                                      (8, 3))])
    r = Rep(A, capacity=cap, batch=size)
    f = play(A, r, A.pick('history', HISTORIES))
    k = r.n
    seen = watch(A, r, f)
    # nothing but the loop: no time passes
    r.loop.run()
    finished(A, r, f, seen, k, 'closing')
    r.report(1)
    r.loop.run()
    r.accounted('after closing')


def failing(A):
    r = Rep(A, capacity=6, batch=2)
    for i in range(3):
        f = A.pick('send %d' % i, [('ok', 0), ('socket error', 'OSError'), ('other', 'KeyError')])
        r.fail.append(failure(A, f) if f else None)
    f = play(A, r, A.pick('history', ['r5 close', 'r3 run close', 'r6 step step close']))
    seen = watch(A, r, f)
    r.loop.run()
    finished(A, r, f, seen, r.n, 'closing')


def slow(A):
    """Sending is a coroutine; should it take a while, closing completes after it."""
    r = Rep(A, capacity=4, batch=2)
    pending = []

    def send(ip, a, kw):
        batch = take(ip, list(a[1:]), dict(kw), 'batch')
        f = FutV('sending')
        pending.append((f, [ip.getattr(s, 'operationName').v for s in ip.getattr(
            batch, 'spans').items]))
        return f
    A.ip.func_hooks['Reporter._send'] = send
    f = play(A, r, A.pick('history', HISTORIES))
    k = r.n
    A.assume(k > 0)
    seen = watch(A, r, f)
    r.loop.run()
    if not pending:
        # sent at once, or sent by something else
        A.assume(r.sent or not sum(r.counts()))
        A.stop()
    n = 0
    while n < len(pending) and n < 10:
        if not A.require(f.state == 'pending', 'early', 'settled while a batch is being sent, when '
                         '%s of %d spans are accounted for' % (sum(r.counts()), k)):
            return
        bad = A.pick('outcome', [False, True]) if n == 0 else False
        if not bad:
            r.sent.append(pending[n][1])
        settle(A, pending[n][0], NONE, exc=failure(A) if bad else None)
        n += 1
        r.loop.run()
    finished(A, r, f, seen, k, 'closing')
    r.accounted('after closing')


def repeatedly(A):
    r = Rep(A, capacity=3, batch=2)
    play(A, r, A.pick('before', ['', 'r2', 'r3 run', 'run r3', 'run r4', 'r1 run r4']))
    fs = []
    for i in range(3):
        f = A.call(r.r, 'close')
        fs.append((f, watch(A, r, f), r.n))
        what = A.pick('then %d' % i, ['', 'run', 'report', 'step'])
        if what == 'run':
            r.loop.run()
        elif what == 'report':
            r.report(1)
        elif what == 'step' and r.loop.callbacks:
            r.loop.step()
    r.loop.run()
    for i, (f, seen, k) in enumerate(fs):
        finished(A, r, f, seen, k, 'close %d' % (i + 1))
    r.accounted('after closing')


def no_interval(A):
    """Spans wait for a full batch; closing sends them all the same."""
    r = Rep(A, capacity=6, batch=4, flush_interval=A.pick('interval', [('none', NONE), ('0', C(0)),
                                                                       ('3', C(3.0))]))
    f = play(A, r, A.pick('history', ['r1 run close', 'r3 run close', 'r5 run close', 'close']))
    seen = watch(A, r, f)
    r.loop.run()
    finished(A, r, f, seen, r.n, 'closing')
    got = r.accounted('after closing')
    if got:
        A.require(got == (r.n, 0, 0), 'sent', '%d ok, %d failed, %d dropped' % got)


def others(A):
    """Reporters that hold nothing back complete at once, with the spans they keep still there."""
    n = A.pick('reporter', ['BaseReporter', 'NullReporter', 'InMemoryReporter', 'LoggingReporter'])
    r = A.new('jaeger_client.reporter:' + n)
    s = A.stub('span')
    if n != 'BaseReporter':
        A.call(r, 'report_span', s)
    f = A.call(r, 'close')
    A.require(isinstance(f, FutV) and f.state == 'done', 'hangs', 'closing %s gives %s' % (
        n, pretty(A, f)))
    if n == 'InMemoryReporter':
        got = A.call(r, 'get_spans')
        A.require(len(got.items) == 1 and got.items[0] is s, 'kept', 'keeps %s' % pretty(A, got))


def submit(A):
    """The future of submitted work has its result, when the work is done and not before."""
    loop = Loop(A)
    inner = FutV('inner')
    kind = A.pick('work gives', ['a value', 'none', 'a done future', 'a pending future'])
    x = A.obj('x')
    got = []

    def work(ip, a, kw):
        got.append((list(a), dict(kw)))
        return {'a value': x, 'none': NONE, 'a done future': settled(A, x),
                'a pending future': inner}[kind]
    f = A.apply(A.load(SUBMIT), Native('work', work), loop.obj, 1, 'two', three=3)
    A.require(isinstance(f, FutV) and f.state == 'pending', 'future', 'submit gives %s' % pretty(A, f))
    A.require(not got, 'thread', 'the work runs on the calling thread')
    loop.run()
    A.require(len(got) == 1, 'runs', 'the work runs %d times' % len(got))
    a, kw = got[0]
    A.require(len(a) == 2 and A.same(a[0], C(1)) and A.same(a[1], C('two')) and set(kw) == {'three'}
              and A.same(kw['three'], C(3)), 'arguments', 'the work gets %s %s' % (a, kw))
    if kind == 'a pending future':
        A.require(f.state == 'pending', 'early', 'settled before the work is done')
        settle(A, inner, x)
        loop.run()
    A.require(f.state == 'done' and (f.value is x or kind == 'none' and A.same(f.value, NONE)),
              'result', 'the future is %s with %s' % (f.state, pretty(A, f.value)))
    A.require(f.sets == 1, 'once', 'the future is settled %d times' % f.sets)


def submit_fails(A):
    loop = Loop(A)
    e = failure(A, A.pick('class', ['ValueError', 'KeyError', 'OSError']))
    inner = FutV('inner')
    kind = A.pick('work', ['raises', 'gives a failed future', 'gives a future that fails'])

    def work(ip, a, kw):
        if kind == 'raises':
            raise PyExc(e, ip.where())
        return settled(A, exc=e) if kind == 'gives a failed future' else inner
    f = A.apply(A.load(SUBMIT), Native('work', work), loop.obj)
    loop.run()
    if kind == 'gives a future that fails':
        A.require(f.state == 'pending', 'early', 'settled before the work is done')
        settle(A, inner, exc=e)
        loop.run()
    A.require(f.state == 'error' and f.value is e, 'error', 'the future is %s with %s' % (
        f.state, pretty(A, f.value) if f.value is not None else None))
