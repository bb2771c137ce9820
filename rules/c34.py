"""The throttler grants a debug span only against a credit it received.

Histories of requests and polls are compared with a model: a request is allowed exactly when one whole
credit of its operation is left and costs exactly one; an unknown operation is refused and asked for at
the next poll; balances received are added.  A poll that fails in any way changes nothing and is counted
and reported once; requests and responses of two threads neither lose nor double a credit.  The client
id of the requests is the one in the description of the process.
"""
from .common import *
from .c26 import periodic
from .c28 import reach

THROTTLER = 'jaeger_client.throttler:RemoteThrottler'
REFUSED = 'm.jaeger:throttled_debug_spans'
OK, ERR = 'm.jaeger:throttler_update.ok', 'm.jaeger:throttler_update.err'


def run(P):
    P.scenario('one request', one, max_paths=2000)
    P.scenario('unknown operation', unknown)
    P.scenario('balances', balances)
    P.scenario('histories', histories)
    P.scenario('operations that resemble each other', similar)
    P.scenario('many operations', many, loop=200)
    P.scenario('failed polls', failed)
    P.scenario('any response', anything, elem=1, max_paths=6000)
    P.scenario('requests to the agent', requests)
    P.scenario('client id', client_id)
    P.scenario('the client of a tracer', described)
    P.scenario('two requests', two)
    P.scenario('request against response', response_race)
    P.scenario('request against poll', poll_race)
    P.scenario('without loop', no_loop)


class Thr(object):
    """The throttler with its loop and an agent that answers when told."""

    def __init__(self, A, **kw):
        self.A, self.loop, self.asked = A, Loop(A), []
        self.channel = A.stub('channel', io_loop=self.loop.obj,
                              request_throttling_credits=self._request)
        self.errors = error_reporter_stub(A)
        self.t = A.new(THROTTLER, self.channel, 'service', **helpers(A, self.errors, kw))

    def _request(self, ip, a, kw):
        f = FutV('credits')
        self.asked.append((f, argsof_(a, kw, ('service_name', 'client_id', 'operations'))))
        return f

    def allowed(self, op):
        v = self.A.call(self.t, 'is_allowed', op)
        return self.A.ip.norm(v) if isinstance(v, (C, T)) else v

    def start(self):
        self.loop.run()
        if self.loop.timers:
            self.loop.fire()
        self.loop.run()

    def poll(self):
        """The requests a further poll makes."""
        n = len(self.asked)
        self.A.ip.loop_call(periodic(self.A), [])
        self.loop.run()
        return self.asked[n:]

    def made(self, fs=None):
        """The last request made; there has to be one, operations are known."""
        fs = self.asked if fs is None else fs
        if not self.A.require(len(fs) > 0, 'poll', 'no credits are asked for, operations are known'):
            self.A.stop()
        return fs[-1]

    def give(self, body, f=None):
        if f is None:
            if self.A.calls('tornado.ioloop.PeriodicCallback'):
                fs = self.poll()
            else:
                self.start()
                fs = self.asked
            f = self.made(fs)[0]
        settle(self.A, f, response(self.A, body if isinstance(body, (C, T)) else C(body)))
        self.loop.run()


def credits(**kw):
    return '{"balances": [%s]}' % ', '.join(
        '{"operation": "%s", "balance": %s}' % (k, v) for k, v in sorted(kw.items()))


def yes(A, v):
    return A.same(v, TRUE)


def decided(A, v, want, what):
    A.require(A.same(v, TRUE if want else FALSE), 'decision', '%s: %s, expected %s' % (
        what, pretty(A, v), bool(want)))


def left(A, t, op):
    v = lookup(A, A.attr(t, 'credits'), op)
    return v if v is None else A.ip.norm(v)


def set_credits(A, t, *pairs):
    d = A.attr(t, 'credits')
    for k, v in pairs:
        ms.setitem(A.ip, d, C(k), v)


def one(A):
    """Any balance: allowed exactly with one whole credit, which is what it costs."""
    r = Thr(A)
    c = A.sym('credit', A.pick('type', ['float', 'int']), lo=0, hi=10 ** 9)
    other = A.sym('other', 'float', lo=0, hi=10 ** 9)
    set_credits(A, r.t, ('op', c), ('b', other))
    since = A.mark
    got = r.allowed('op')
    enough = A.cmp(c, '>=', 1)
    decided(A, got, enough, 'a request')
    now = left(A, r.t, 'op')
    A.require_same(now, ms_sub(A, c, C(1)) if enough else c, 'cost', 'the balance afterwards')
    A.require_same(left(A, r.t, 'b'), other, 'cost', 'the balance of another operation')
    n = count_of(A, REFUSED, since)
    A.require(n == (0 if enough else 1), 'count', 'refusals counted: %s' % n)
    A.require(not r.loop.timers and not r.asked, 'thread', 'a request talks to the agent')


def ms_sub(A, a, b):
    from sa import m_ops
    return m_ops.binop(A.ip, 'Sub', a, b)


def unknown(A):
    r = Thr(A)
    since = A.mark
    for i in range(2):
        decided(A, r.allowed('new'), False, 'an unknown operation')
    A.require(count_of(A, REFUSED, since) == 2, 'count', 'two refusals are counted %s times' % count_of(
        A, REFUSED, since))
    r.start()
    A.require(len(r.asked) == 1, 'poll', 'the first poll makes %d requests' % len(r.asked))
    ops = r.made()[1][2]
    A.require(isinstance(ops, ListV) and len(ops.items) == 1 and A.same(ops.items[0], C('new')),
              'poll', 'asks for %s' % pretty(A, ops))
    r.give(credits(new=A.pick('balance', [1, 1.0, 2.5])), r.asked[0][0])
    decided(A, r.allowed('new'), True, 'after a credit')


def balances(A):
    """What is received is added to what is left."""
    r = Thr(A)
    r.allowed('op')
    r.start()
    c = A.sym('left', 'float', lo=0, hi=10 ** 6)
    set_credits(A, r.t, ('op', c))
    n = A.pick('entries', [0, 1, 2])
    r.allowed('z')
    q = [0, 3, 3 + 0.5][n]
    body = '{"balances": [%s]}' % ', '.join(['{"operation": "op", "balance": 3}',
                                            '{"operation": "op", "balance": 0.5}'][:n])
    since = A.mark
    r.give(C(body.encode() if A.pick('body', ['bytes', 'text']) == 'bytes' else body))
    now = left(A, r.t, 'op')
    want = ms_sub(A, c, C(-q)) if n else c
    A.require(A.ip.eq(now, want) is True, 'added', 'the balance is %s, expected %s' % (
        pretty(A, now), pretty(A, want)))
    got = count_of(A, OK, since), count_of(A, ERR, since), len(A.calls('errors.error', since))
    A.require(got == (1, 0, 0), 'count', 'a good response counts ok, failed, reported as %s' % (got,))


HISTORIES = ['a a +a1 a a', 'a b +a2b1 a a a b b', 'a +a0.5 a +a0.5 a a', 'a +b2 a b b b',
             'a +a1.5 a a +a0.5 a', 'a +a3 a ! a a a', 'a +a2 x a a a', 'a b x +a1 a b +b1 b b',
             'a +a1 +a1 +a1 a a a a', 'a + a', 'a +a0.99 a', 'a +a1 b a b a', 'a ! ! +a1 a a',
             'a +a10 a a a a a a a a a a a']


def histories(A):
    r = Thr(A)
    model, n, refused = {}, 0, 0
    since = A.mark
    for i, step in enumerate(A.pick('history', HISTORIES).split()):
        if step in 'ab':
            want = model.get(step, 0) >= 1
            decided(A, r.allowed(step), want, 'step %d' % (i + 1))
            model[step] = model.get(step, 0) - (1 if want else 0)
            refused += not want
        elif step[0] == '+':
            kw, rest = {}, step[1:]
            while rest:
                k, j = rest[0], 1
                while j < len(rest) and not rest[j].isalpha():
                    j += 1
                kw[k], rest = rest[1:j], rest[j:]
            r.give(credits(**kw))
            for k, v in kw.items():
                model[k] = model.get(k, 0) + float(v)
        elif step == '!':
            fs = r.poll() if A.calls('tornado.ioloop.PeriodicCallback') else (r.start(), r.asked)[1]
            settle(A, r.made(fs)[0], exc=failure(A))
            r.loop.run()
        elif step == 'x':
            r.give('{"balances": [{"operation": "a", "balance": 5}, {"operation": "b"}]}')
    n = count_of(A, REFUSED, since)
    A.require(n == refused, 'count', '%d refusals are counted %s times' % (refused, n))
    for k, v in model.items():
        now = left(A, r.t, k)
        A.require(isinstance(now, C) and abs(now.v - v) < 1e-9, 'balance', 'the balance of %s is %s, '
                  'expected %s' % (k, pretty(A, now) if now is not None else None, v))


NAMES = ['op', 'Op', 'op ', ' op', 'o p', 'op/1', 'op/2', '', 'öp', 'o' * 300, 'o' * 301]


def similar(A):
    """Each operation has its own credits, whatever its name looks like."""
    r = Thr(A)
    for n in NAMES:
        decided(A, r.allowed(n), False, 'unknown %r' % n[:9])
    r.start()
    i = A.choose(len(NAMES), [repr(n[:9]) + ' of %d' % len(n) for n in NAMES])
    names = r.made()[1][2].items
    A.require(sorted(x.v for x in names) == sorted(NAMES), 'request', 'asks for %s' % [x.v[:20] for x in names])
    r.give('{"balances": [{"operation": "%s", "balance": 1}]}' % NAMES[i], r.made()[0])
    for n in NAMES:
        if n != NAMES[i]:
            decided(A, r.allowed(n), False, '%r, %r has a credit' % (n[:9], NAMES[i][:9]))
    decided(A, r.allowed(NAMES[i]), True, '%r with a credit' % NAMES[i][:9])
    decided(A, r.allowed(NAMES[i]), False, '%r, its credit spent' % NAMES[i][:9])


def many(A):
    """However many operations there are, credits are asked for all of them, and all get theirs."""
    r = Thr(A)
    n = A.pick('operations', [20, 120])
    ops = ['op%03d' % i for i in range(n)]
    for o in ops:
        decided(A, r.allowed(o), False, o)
    r.start()
    names = [x.v for _, a in r.asked for x in a[2].items]
    A.require(sorted(names) == ops, 'request', 'asks for the credits of %d of %d operations' % (len(names), n))
    r.give(credits(**{o: 1 for o in ops}), r.made()[0])
    for o in (ops[0], ops[n // 2], ops[-1]):
        decided(A, r.allowed(o), True, '%s with a credit' % o)


BAD = ['', '{', '[]', '5', 'null', '{}', '{"balances": null}', '{"balances": 5}', '{"balances": [5]}',
       '{"balances": [{}]}', '{"balances": [{"operation": "op"}]}', '{"balances": [{"balance": 1}]}',
       '{"balances": [{"operation": "op", "balance": "1"}]}',
       '{"balances": [{"operation": "op", "balance": null}]}',
       '{"balances": [{"operation": "op", "balance": 7}, {"operation": "b"}]}',
       '{"balances": [{"operation": "op", "balance": 7}, 5]}',
       '{"balances": [{"operation": "b", "balance": 7}, {"operation": "op", "balance": []}]}',
       '{"balances": {"operation": "op", "balance": 7}}',
       '{"balances": [{"operation": ["op"], "balance": 7}]}']


def failed(A):
    """Nothing changes, the failure is counted and reported, and the next response is applied."""
    r = Thr(A)
    r.allowed('op')
    r.start()
    set_credits(A, r.t, ('op', C(2.0)))
    kind = A.pick('answer', ['error', 'no utf-8', 'too deep'] + BAD)
    f = r.made(r.poll())[0]
    before, since = Frozen(A, A.attr(r.t, 'credits')), A.mark
    if kind == 'error':
        settle(A, f, exc=failure(A, A.pick('class', ['OSError', 'RuntimeError'])))
        r.loop.run()
    elif kind == 'too deep':      # the parser gives up
        def gives_up(ip, a, kw):
            raise ip.exc('RecursionError', 'maximum recursion depth exceeded')
        A.on('json.loads', gives_up)
        r.give('[' * 50, f)
        A.ip.hooks.pop()
    elif kind == 'no utf-8':
        r.give(b'\xff\xfe{', f)
    else:
        r.give(kind.encode() if A.pick('body', ['bytes', 'text']) == 'bytes' else kind, f)
    got = count_of(A, OK, since), count_of(A, ERR, since), len(A.calls('errors.error', since))
    A.require(got == (0, 1, 1), 'count', '%s counts ok, failed, reported as %s' % (kind, got))
    before.unchanged('changed', '%s: the credits' % kind)
    decided(A, r.allowed('op'), True, 'after a failed poll')
    since = A.mark
    r.give(credits(op=1))
    A.require(count_of(A, OK, since) == 1, 'later', 'the next response is not applied')
    A.require_same(left(A, r.t, 'op'), C(2.0), 'later', 'the balance after the next response')


def anything(A):
    """Any body at all: nothing escapes, and it is applied or changes nothing."""
    r = Thr(A)
    r.allowed('op')
    r.start()
    set_credits(A, r.t, ('op', C(2.0)))
    f = r.made(r.poll())[0]
    before, since = Frozen(A, A.attr(r.t, 'credits')), A.mark
    r.give(A.sym('body', A.pick('type', ['bytes', 'str'])), f)
    ok, bad = count_of(A, OK, since), count_of(A, ERR, since)
    n = len(A.calls('errors.error', since))
    A.require((ok, bad, n) in ((1, 0, 0), (0, 1, 1)), 'count', 'counted ok %s, failed %s, reported %d' % (
        ok, bad, n))
    if bad:
        before.unchanged('changed', 'the credits')
    v = r.allowed('z')
    A.require(isinstance(v, (C, T)), 'answer', 'no decision')


def requests(A):
    """Polls name the service, the client and the operations known, and are spread at the start."""
    iv = A.pick('interval', [5.0, 60, 0.5])
    r = Thr(A, refresh_interval=iv)
    A.call(r.t, 'set_client_id', 77)
    A.require(not r.asked, 'thread', 'a request is made on the calling thread')
    r.loop.run()
    A.require(len(r.loop.timers) == 1, 'delay', '%d timers are set' % len(r.loop.timers))
    d = r.loop.timers[0][0]
    lo, hi = A.ip.rng(d)
    A.soft(lo is not None and hi is not None and 0 <= lo and hi <= iv, 'delay',
           'the first poll comes within %s..%s, the interval is %s' % (lo, hi, iv))
    ops = tuple(A.pick('operations', ['', 'a', 'ab']))
    for o in ops:
        r.allowed(o)
    r.loop.fire()
    r.loop.run()
    e = A.calls('tornado.ioloop.PeriodicCallback')
    A.require(len(e) == 1, 'periodic', '%d periodic callbacks' % len(e))
    A.require_same(argsof(e[0], ['callback', 'callback_time'])[1], C(iv * 1000), 'periodic',
                   'the period in milliseconds')
    A.require(len(r.asked) == (1 if ops else 0), 'poll', 'the first poll makes %d requests' % len(
        r.asked))
    r.allowed('late')
    r.poll()
    ops = ops + ('late',)
    f, (service, client, names) = r.made()
    A.require_same(service, C('service'), 'request', 'service')
    A.require_same(client, C(77), 'request', 'client')
    got = [x.v for x in names.items] if isinstance(names, (ListV, Tup)) else None
    A.require(got is not None and sorted(got) == sorted(ops), 'request', 'asks for %s, known are %s' % (
        got, ops))


def client_id(A):
    """The first id given stays."""
    r = Thr(A)
    r.allowed('op')
    a, b = A.int('a', 0, 2 ** 64), A.int('b', 0, 2 ** 64)
    A.call(r.t, 'set_client_id', a)
    A.call(r.t, 'set_client_id', b)
    r.start()
    A.require_same(r.made()[1][1], a, 'client', 'the id requests are made with')


def described(A):
    """The agent finds the client that asks in the description of the process."""
    r, seen = Thr(A), []

    def process(ip, a, kw):
        seen.append(argsof_(a, kw, ('service_name', 'tags', 'max_length'))[1])
        return NONE
    rep = A.stub('reporter', report_span=lambda ip, a, kw: NONE, set_process=process,
                 close=lambda ip, a, kw: NONE)
    own = A.pick('tags', ['none', 'some'])
    A.new(TRACER, 'service', rep, sampler_stub(A)[0], throttler=r.t,
          tags=NONE if own == 'none' else A.dict([('ip', '10.0.0.1'), ('hostname', 'h')]))
    r.allowed('op')
    r.start()
    if A.require(len(seen) == 1, 'process', 'the process is described %d times' % len(seen)):
        got = lookup(A, seen[0], 'client-uuid')
        A.require(got is not None and A.same(got, r.made()[1][1]), 'client', 'the process is described with the '
                  'client %s, requests are made with %s' % (pretty(A, got), pretty(A, r.made()[1][1])))


def two(A):
    """One credit pays for one span, two new operations are both known."""
    r = Thr(A)
    kind = A.pick('requests', ['one credit', 'two credits', 'new operation', 'new operations'])
    if kind == 'one credit':
        set_credits(A, r.t, ('op', C(1.0)))
    elif kind == 'two credits':
        set_credits(A, r.t, ('op', C(2.0)))
    got, since = [], A.mark
    second = 'op2' if kind == 'new operations' else 'op'
    at = A.race(lambda: got.append(r.allowed('op')), lambda: got.append(r.allowed(second)),
                *reach(r.t))
    n = sum(1 for v in got if yes(A, v))
    want = {'one credit': 1, 'two credits': 2}.get(kind, 0)
    A.require(n == want, 'credit', '%s: %d spans are allowed' % (kind, n), at)
    A.require(count_of(A, REFUSED, since) == 2 - want, 'count', '%s: refusals counted: %s' % (
        kind, count_of(A, REFUSED, since)), at)
    A.require_same(left(A, r.t, second), C(0.0), 'balance', '%s: the balance' % kind)


def response_race(A):
    """Credits received while a request is decided are all there afterwards."""
    r = Thr(A)
    r.allowed('op')
    r.start()
    have = A.pick('balance', [0.0, 1.0])
    set_credits(A, r.t, ('op', C(have)))
    f = r.made()[0]
    got = []
    ask = lambda: got.append(r.allowed('op'))
    give = lambda: r.give(credits(op=2, b=1), f)
    if A.pick('interrupted', ['request', 'response']) == 'request':
        at = A.race(ask, give, *reach(r.t))
    else:
        at = A.race(give, ask, *reach(r.t))
    n = sum(1 for v in got if yes(A, v))
    now = left(A, r.t, 'op')
    A.require(isinstance(now, C) and now.v == have + 2 - n, 'credit', '%s and 2 received, %d spent, '
              '%s left' % (have, n, pretty(A, now)), at)
    b = left(A, r.t, 'b')
    A.require(isinstance(b, C) and b.v == 1, 'credit', 'the credit of another operation is lost', at)


def poll_race(A):
    """New operations appear while a poll starts."""
    r = Thr(A)
    r.allowed('op')
    r.start()
    at = A.race(lambda: r.poll(), lambda: (r.allowed('new'), r.allowed('op')), *reach(r.t))
    names = r.made()[1][2]
    A.require(isinstance(names, ListV), 'request', 'asks for %s' % pretty(A, names))
    got = sorted(x.v for x in names.items)
    A.require(got in (['op'], ['new', 'op']), 'request', 'asks for %s' % got, at)
    r.allowed('third')
    A.require(sorted(x.v for x in names.items) == got, 'snapshot', 'the request changes later', at)
    A.require(all(left(A, r.t, k) is not None for k in ('op', 'new', 'third')), 'known',
              'an operation is lost', at)


def no_loop(A):
    ch = A.stub('channel', io_loop=NONE)
    t = A.new(THROTTLER, ch, 'service', metrics_factory=metrics_factory(A),
              error_reporter=error_reporter_stub(A))
    decided(A, A.call(t, 'is_allowed', 'op'), False, 'without a loop')
    A.call(t, 'close')
