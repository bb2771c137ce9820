"""A sampling response that fails leaves the sampler exactly as it was.

The remotely controlled sampler is driven through its event loop: a poll is answered with an error, a
body that is no UTF-8 or no JSON, JSON of any shape, or strategies out of range, whatever sampler is
active.  Nothing escapes into the loop, the failure is counted and reported once, the active sampler
(also its per-operation table) is unchanged, and the next good response is applied.
"""
from .common import *
from .c24 import clock

REMOTE = 'jaeger_client.sampler:RemoteControlledSampler'
PERIODIC = 'tornado.ioloop.PeriodicCallback'
OK, ERR = 'm.jaeger:sampler_queries.ok', 'm.jaeger:sampler_queries.err'
UPD, UPDERR = 'm.jaeger:sampler_updates.ok', 'm.jaeger:sampler_updates.err'


def run(P):
    P.scenario('failed request', failed)
    P.scenario('undecodable body', undecodable)
    P.scenario('malformed response', malformed)
    P.scenario('list where an object belongs', lists)
    P.scenario('any response', anything, elem=1, max_paths=6000)
    P.scenario('any operations', anyop, elem=1, max_paths=6000)
    P.scenario('a later good response', recovery)


class Remote(object):
    """The sampler, its channel and its loop."""

    def __init__(self, A, init=None, **kw):
        self.A, self.loop, self.answers = A, Loop(A), []
        self.channel = A.stub('channel', io_loop=self.loop.obj,
                              request_sampling_strategy=self._request)
        self.errors = error_reporter_stub(A)
        if init is not None:
            kw['init_sampler'] = init
        self.s = A.new(REMOTE, self.channel, 'service', **helpers(A, self.errors, kw))

    def _request(self, ip, a, kw):
        f = FutV('response')
        self.answers.append(f)
        return f

    def poll(self):
        """The pending future of a poll, started through the loop."""
        if not self.answers:
            self.loop.run()
            if not self.loop.timers:
                raise AnchorLost('no poll is scheduled')
            self.loop.fire()
            self.loop.run()
        if not self.answers:
            raise AnchorLost('no request is made')
        return self.answers[-1]

    def again(self):
        """A further poll, by the periodic callback."""
        n = len(self.answers)
        self.A.ip.loop_call(periodic(self.A), [])
        if len(self.answers) != n + 1:
            raise AnchorLost('the periodic callback makes no request')
        return self.answers[-1]

    def answer(self, body, f=None):
        settle(self.A, f or self.poll(), response(self.A, body))
        self.loop.run()


def periodic(A):
    e = A.calls(PERIODIC)
    if not e:
        raise AnchorLost('no periodic callback is made')
    return e[-1].args[0] if e[-1].args else e[-1].kwargs['callback']


def initial(A):
    """Each sampler that can be active."""
    clock(A, 1000.0)
    A.on('random.random', lambda ip, a, kw: C(1.0))
    k = A.pick('active', ['probabilistic', 'rate limiting', 'adaptive', 'constant'])
    S = 'jaeger_client.sampler:'
    if k == 'probabilistic':
        return A.new(S + 'ProbabilisticSampler', 0.5)
    if k == 'rate limiting':
        return A.new(S + 'RateLimitingSampler', 5)
    if k == 'constant':
        return A.new(S + 'ConstSampler', True)
    return A.new(S + 'AdaptiveSampler', A.dict([
        ('defaultSamplingProbability', 0.25), ('defaultLowerBoundTracesPerSecond', 1.0),
        ('perOperationStrategies', A.list([A.dict([
            ('operation', 'a'), ('probabilisticSampling', A.dict([('samplingRate', 0.5)]))])]))]), 3)


def state(A, r):
    s = A.attr(r.s, 'sampler')
    return s, Frozen(A, s)


def unchanged(A, r, before, what):
    s, old = before
    A.require(A.attr(r.s, 'sampler') is s, 'replaced', '%s: another sampler is active' % what)
    old.unchanged('changed', '%s: the active sampler' % what)


def reported(A, since, query, update, what):
    """Counters and error reports since then."""
    for n, want in ((ERR, query), (UPDERR, update), (UPD, 0), (OK, 1 - query)):
        got = count_of(A, n, since)
        A.require(None if got is None else got == want, 'count', '%s: %s counts %s, expected %d' % (
            what, n[2:], got, want))
    got = len(A.calls('errors.error', since))
    A.require(got == 1, 'report', '%s: reported %d times' % (what, got))


def free(A, r, what):
    """The sampler still answers."""
    out = A.call(r.s, 'is_sampled', 1, 'a')
    A.require(isinstance(out, Tup) and len(out.items) == 2, 'answer', '%s: no decision' % what)


def failed(A):
    r = Remote(A, initial(A))
    f, before, since = r.poll(), state(A, r), A.mark
    exc = failure(A, A.pick('error', ['OSError', 'ValueError', 'RuntimeError']))
    settle(A, f, exc=exc)
    r.loop.run()
    reported(A, since, 1, 0, 'a failed request')
    unchanged(A, r, before, 'a failed request')
    free(A, r, 'a failed request')


def undecodable(A):
    r = Remote(A, initial(A))
    f, before, since = r.poll(), state(A, r), A.mark
    body = A.pick('body', [('bytes', C(b'\xff\xfe{')), ('text', C('{')), ('empty', C('')),
                           ('empty bytes', C(b'')), ('none', NONE), ('int', C(5)),
                           ('too deep', C('[' * 50))])
    if isinstance(body, C) and isinstance(body.v, str) and len(body.v) == 50:

        def gives_up(ip, a, kw):        # as the parser does from a certain depth
            raise ip.exc('RecursionError', 'maximum recursion depth exceeded')
        A.on('json.loads', gives_up)
    r.answer(body, f)
    reported(A, since, 1, 0, 'a body that is no JSON')
    unchanged(A, r, before, 'a body that is no JSON')
    free(A, r, 'a body that is no JSON')


BAD = ['{}', '[]', '5', 'null', '"x"', '{"strategyType": "OTHER"}', '{"strategyType": null}',
       '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.5}}',
       '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": -0.1}}',
       '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": "x"}}',
       '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": -1}}',
       '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 500}}',
       '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": "5"}}',
       '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": 7}',
       '{"operationSampling": 5}',
       '{"operationSampling": {"perOperationStrategies": 5}}',
       '{"operationSampling": {"perOperationStrategies": [5]}}',
       '{"operationSampling": {"defaultSamplingProbability": 2.0}}',
       '{"operationSampling": {"defaultSamplingProbability": "x"}}',
       '{"operationSampling": {"defaultSamplingProbability": 0.125, "perOperationStrategies": ['
       '{"operation": "a", "probabilisticSampling": {"samplingRate": 0.75}}, '
       '{"operation": "b", "probabilisticSampling": {"samplingRate": 7}}]}}',
       '{"operationSampling": {"defaultLowerBoundTracesPerSecond": -1, "perOperationStrategies": ['
       '{"operation": "a", "probabilisticSampling": {"samplingRate": 0.75}}]}}',
       '{"operationSampling": {"defaultLowerBoundTracesPerSecond": "x", "perOperationStrategies": ['
       '{"operation": "a", "probabilisticSampling": {"samplingRate": 0.5}}]}}',
       '{"operationSampling": {"defaultSamplingProbability": 3, "perOperationStrategies": ['
       '{"operation": "a", "probabilisticSampling": {"samplingRate": 0.75}}]}}']


# a list where an object belongs: to be refused, or to be read as an object that holds nothing
LISTS = ['{"strategyType": "PROBABILISTIC", "probabilisticSampling": [1]}',
         '{"strategyType": "PROBABILISTIC", "probabilisticSampling": []}',
         '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": [1]}',
         '{"operationSampling": [1]}', '{"operationSampling": []}']


def malformed(A):
    r = Remote(A, initial(A))
    f, before, since = r.poll(), state(A, r), A.mark
    body = A.pick('body', BAD)
    r.answer(C(body.encode() if A.pick('bytes', [True, False]) else body), f)
    reported(A, since, 0, 1, body)
    unchanged(A, r, before, body)
    free(A, r, body)


def atomic(A, r, before, since, what):
    """Either a counted failure and no change, or success."""
    q, u = count_of(A, ERR, since), count_of(A, UPDERR, since)
    if q is None or u is None:
        return A.soft(None, 'count', 'counters')
    A.require(q + u <= 1, 'count', '%s: %s failures are counted' % (what, q + u))
    n = len(A.calls('errors.error', since))
    A.require(n == (1 if q + u else 0), 'report', '%s: reported %d times' % (what, n))
    if q + u:
        unchanged(A, r, before, what)
        got = count_of(A, UPD, since)
        A.require(got == 0, 'count', '%s: counted as an update as well' % what)
    A.require(count_of(A, OK, since) == 1 - q, 'count', '%s: queries counted' % what)


def lists(A):
    r = Remote(A, initial(A))
    f, before, since = r.poll(), state(A, r), A.mark
    body = A.pick('body', LISTS)
    r.answer(C(body.encode() if A.pick('bytes', [True, False]) else body), f)
    atomic(A, r, before, since, body)
    free(A, r, body)


def anything(A):
    r = Remote(A, initial(A))
    f, before, since = r.poll(), state(A, r), A.mark
    r.answer(A.sym('body', A.pick('type', ['bytes', 'str'])), f)
    atomic(A, r, before, since, 'any body')


def anyop(A):
    """Per-operation strategies of any shape."""
    r = Remote(A, initial(A))
    f, before, since = r.poll(), state(A, r), A.mark
    body = A.str('body')
    p = A.sym('rate', 'int|float|str|none')
    bound = A.sym('bound', 'int|float|str|none')
    d = A.sym('default', 'int|float|str|none')
    js = A.dict([('operationSampling', A.dict([
        ('defaultSamplingProbability', d), ('defaultLowerBoundTracesPerSecond', bound),
        ('perOperationStrategies', A.list([
            A.dict([('operation', 'a'), ('probabilisticSampling', A.dict([('samplingRate', 0.75)]))]),
            A.dict([('operation', 'b'), ('probabilisticSampling', A.dict([('samplingRate', p)]))])
        ]))]))])
    A.on('json.loads', lambda ip, a, kw: js)
    r.answer(body, f)
    atomic(A, r, before, since, 'any per-operation strategies')


GOOD = '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 0.75}}'


def recovery(A):
    r = Remote(A, initial(A))
    f = r.poll()
    what = A.pick('first', ['error', 'no json', 'bad strategy', 'bad operations'])
    if what == 'error':
        settle(A, f, exc=failure(A))
    else:
        r.answer(C({'no json': '{', 'bad strategy': BAD[5], 'bad operations': BAD[-1]}[what]), f)
    since = A.mark
    r.answer(C(GOOD), r.again())
    got = A.call(r.s, 'is_sampled', 2 ** 63, 'op')
    A.require_same(got.items[0], TRUE, 'recovery', 'a trace the new rate samples')
    got = A.call(r.s, 'is_sampled', 2 ** 64 - 1, 'op')
    A.require_same(got.items[0], FALSE, 'recovery', 'a trace the new rate does not sample')
    A.require(count_of(A, UPD, since) == 1, 'recovery', 'the update is not counted')
