"""A good sampling response is applied: the strategy it names, with its numbers, and nothing else.

Whatever sampler is active, a response naming a probability, a rate or per-operation strategies (with
unknown numbers in range, or left out) makes exactly that strategy decide from then on; a strategy of
the active kind keeps the credit and the operations already known; the same strategy again changes
and counts nothing; each change is counted once and requests name the service.
"""
from .common import *
from .c24 import clock
from .c25 import Model, lifted, compare, YES, NO
from .c26 import Remote, initial, OK, ERR, UPD, UPDERR

PROB = '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": %s}}'
RATE = '{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": %s}}'


def run(P):
    P.scenario('probability', probability)
    P.scenario('probability of any value', anyrate)
    P.scenario('rate', rate)
    P.scenario('operations', operations)
    P.scenario('operations after operations', again)
    P.scenario('rate after rate', reratio)
    P.scenario('kind after kind', kinds)
    P.scenario('left out numbers', missing)
    P.scenario('numbers close to each other', close_)
    P.scenario('numbers left out after numbers', left_out)
    P.scenario('request', request)


def tags_are(A, out, kind, param, what):
    tags = out.items[1]
    A.require(A.same(tags, A.dict([('sampler.type', kind), ('sampler.param', param)])), 'tags',
              '%s: tags %s' % (what, pretty(A, tags)))


def counted(A, since, updates, what):
    for n, want in ((OK, 1), (ERR, 0), (UPD, updates), (UPDERR, 0)):
        got = count_of(A, n, since)
        A.require(None if got is None else got == want, 'count', '%s: %s counts %s, expected %d' % (
            what, n[2:], got, want))
    A.require(not A.calls('errors.error', since), 'report', '%s: an error is reported' % what)


def body(A, text):
    return C(text.encode() if A.pick('body', ['bytes', 'text']) == 'bytes' else text)


def probability(A):
    r = Remote(A, initial(A))
    f, since = r.poll(), A.mark
    q = A.pick('rate', [0, 0.25, 1, 0.5])
    was = A.attr(r.s, 'sampler')
    same = A.isa(was, 'jaeger_client.sampler:ProbabilisticSampler') and q == 0.5
    r.answer(body(A, PROB % q), f)
    counted(A, since, 0 if same else 1, 'probability %s' % q)
    for tid in (0, 2 ** 62 - 1, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1):
        out = A.call(r.s, 'is_sampled', tid, 'op')
        A.require_same(out.items[0], C(tid < q * 2 ** 64), 'decision', 'id %d at %s' % (tid, q))
        tags_are(A, out, 'probabilistic', q, 'probability %s' % q)


def anyrate(A):
    r = Remote(A, initial(A))
    q = A.sym('rate', 'float', 0, 1)
    A.on('json.loads', lambda ip, a, kw: A.dict([
        ('strategyType', 'PROBABILISTIC'), ('probabilisticSampling', A.dict([('samplingRate', q)]))]))
    r.answer(C('x'))
    tid = A.int('id', 0, 2 ** 64 - 1)
    out = A.call(r.s, 'is_sampled', tid, 'op')
    tags_are(A, out, 'probabilistic', q, 'any probability')
    A.require(A.attr(A.attr(r.s, 'sampler'), 'rate') is not NONE, 'rate', 'no rate')


def rate(A):
    c = clock(A, 1000.0)
    r = Remote(A, initial(A))
    f, since = r.poll(), A.mark
    q = A.pick('rate', [0, 1, 5, 2.5, 499])
    was = A.attr(r.s, 'sampler')
    same = A.isa(was, 'jaeger_client.sampler:RateLimitingSampler') and q == 5
    r.answer(body(A, RATE % q), f)
    counted(A, since, 0 if same else 1, 'rate %s' % q)
    n = 0
    for _ in range(4):
        out = A.call(r.s, 'is_sampled', A.int('id', 0, 2 ** 64 - 1), 'op')
        n += A.truth(out.items[0])
        tags_are(A, out, 'ratelimiting', q, 'rate %s' % q)
    # one credit of five is spent when a sampler is tried out at the start
    left = 0.8 if A.isa(was, 'jaeger_client.sampler:RateLimitingSampler') else 1.0
    A.require(n == min(4, int(max(q, 1) * left)), 'rate', '%d traces at once at %s per second' % (n, q))


STRAT = {'defaultSamplingProbability': 0.25, 'defaultLowerBoundTracesPerSecond': 2.0,
         'perOperationStrategies': [
             {'operation': 'a', 'probabilisticSampling': {'samplingRate': 1.0}},
             {'operation': 'z', 'probabilisticSampling': {'samplingRate': 0.0}}]}
STRAT2 = {'defaultSamplingProbability': 0.5, 'defaultLowerBoundTracesPerSecond': 4.0,
          'perOperationStrategies': [
              {'operation': 'z', 'probabilisticSampling': {'samplingRate': 0.5}},
              {'operation': 'y', 'probabilisticSampling': {'samplingRate': 0.25}}]}
REQS = [(NO, 'z'), (YES, 'a'), (NO, 'a'), (NO, 'q'), (YES, 'q'), (NO, 'w'), (NO, 'z'), (YES, 'y')]


def js(v):
    import json
    return json.dumps({'operationSampling': v})


def operations(A):
    k = A.pick('active', ['probabilistic', 'rate limiting', 'constant'])
    c = clock(A, 1000.0)
    A.on('random.random', lambda ip, a, kw: C(1.0))
    S = 'jaeger_client.sampler:'
    init = {'probabilistic': lambda: A.new(S + 'ProbabilisticSampler', 0.5),
            'rate limiting': lambda: A.new(S + 'RateLimitingSampler', 5),
            'constant': lambda: A.new(S + 'ConstSampler', True)}[k]()
    most = A.pick('max operations', [2, 3])
    r = Remote(A, init, max_operations=most)
    f, since = r.poll(), A.mark
    r.answer(body(A, js(STRAT)), f)
    counted(A, since, 1, 'operations')
    m = Model(STRAT, most, 1.0, c[0])
    for tid, op in REQS:
        compare(A, r.s, tid, op, m.ask(tid, op, c[0]), 'operation %s' % op)


def again(A):
    """Strategies after strategies: credit already spent stays spent, known operations stay."""
    c = clock(A, 1000.0)
    A.on('random.random', lambda ip, a, kw: C(1.0))
    r = Remote(A, A.new('jaeger_client.sampler:ProbabilisticSampler', 0.5), max_operations=4)
    r.answer(C(js(STRAT)))
    m = Model(STRAT, 4, 1.0, c[0])
    for tid, op in REQS:
        compare(A, r.s, tid, op, m.ask(tid, op, c[0]), 'operation %s' % op)
    for n, x in enumerate(A.pick('updates', [('second', [STRAT2]), ('back', [STRAT2, STRAT]),
                                             ('same', [STRAT])])):
        c[0] += 0.25
        f = r.again()
        since = A.mark
        r.answer(C(js(x)), f)
        A.require(count_of(A, UPDERR, since) == 0, 'count', 'a good update fails')
        m.update(x, c[0])
        for tid, op in REQS:
            compare(A, r.s, tid, op, m.ask(tid, op, c[0]), 'update %d, operation %s' % (n, op))


def reratio(A):
    """A new rate scales the credit that is left; the same rate leaves it."""
    c = clock(A, 1000.0)
    A.on('random.random', lambda ip, a, kw: C(1.0))
    r = Remote(A, A.new('jaeger_client.sampler:RateLimitingSampler', 4))
    for _ in range(4):
        A.call(r.s, 'is_sampled', 1, 'op')
    f, since = r.poll(), A.mark
    q = A.pick('rate', [4, 8, 2])
    r.answer(C(RATE % q), f)
    counted(A, since, int(q != 4), 'rate %d' % q)
    out = A.call(r.s, 'is_sampled', 1, 'op')
    A.require_same(out.items[0], FALSE, 'refilled', 'a trace although the credit was spent')
    tags_are(A, out, 'ratelimiting', q, 'rate %d' % q)
    c[0] += 1.0
    n = sum(A.truth(A.call(r.s, 'is_sampled', 1, 'op').items[0]) for _ in range(9))
    A.require(n == q, 'rate', '%d traces in a second at %d per second' % (n, q))


def kinds(A):
    """Every sequence of two strategies ends with the second deciding."""
    c = clock(A, 1000.0)
    A.on('random.random', lambda ip, a, kw: C(1.0))
    r = Remote(A, A.new('jaeger_client.sampler:ConstSampler', True))
    texts = {'p0': PROB % 0, 'p1': PROB % 1, 'r0': RATE % 0.5, 'ops': js(STRAT)}
    a, b = A.pick('first', sorted(texts)), A.pick('second', sorted(texts))
    r.answer(C(texts[a]))
    r.answer(C(texts[b]), r.again())
    c[0] += 5.0
    out = A.call(r.s, 'is_sampled', 5, 'z')
    kind = {'p0': 'probabilistic', 'p1': 'probabilistic', 'r0': 'ratelimiting',
            'ops': 'lowerbound'}[b]
    param = {'p0': 0, 'p1': 1, 'r0': 0.5, 'ops': 0.0}[b]
    tags_are(A, out, kind, param, 'after %s and %s' % (a, b))
    A.require_same(out.items[0], C(b != 'p0'), 'decision', 'after %s and %s' % (a, b))


def missing(A):
    A.on('random.random', lambda ip, a, kw: C(1.0))
    c = clock(A, 1000.0)
    r = Remote(A, A.new('jaeger_client.sampler:ConstSampler', True))
    text, kind, param = A.pick('response', [
        ('no probability', ('{"strategyType": "PROBABILISTIC"}', 'probabilistic', 0.001)),
        ('empty probability', ('{"strategyType": "PROBABILISTIC", "probabilisticSampling": {}}',
                               'probabilistic', 0.001)),
        ('no rate', ('{"strategyType": "RATE_LIMITING"}', 'ratelimiting', 1.0 / 600)),
        ('no operations', ('{"operationSampling": {"defaultSamplingProbability": 0.5}}',
                           'lowerbound', 0.5)),
        ('both', ('{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1},'
                  '"operationSampling": {"defaultSamplingProbability": 0.5}}', 'lowerbound', 0.5))])
    r.answer(C(text))
    out = A.call(r.s, 'is_sampled', NO, 'op')
    tags_are(A, out, kind, param, text)


def request(A):
    r = Remote(A, A.new('jaeger_client.sampler:ConstSampler', True))
    r.poll()
    r.answer(C(PROB % 1))
    r.again()
    calls = A.calls('channel.request_sampling_strategy')
    A.require(len(calls) == 2, 'request', '%d requests for two polls' % len(calls))
    for e in calls:
        name = (list(e.args) + list(e.kwargs.values()))[0]
        A.require_same(name, C('service'), 'request', 'the service a request names')


def close_(A):
    """A change is a change however small it is."""
    A.on('random.random', lambda ip, a, kw: C(1.0))
    c = clock(A, 1000.0)
    r = Remote(A, A.new('jaeger_client.sampler:ConstSampler', True))
    kind, x, y = A.pick('numbers', [(str(n), n) for n in (
        ('probabilistic', 0.001, 0.0010001), ('probabilistic', 0.5, 0.4999999), ('ratelimiting', 0.001, 0.0012),
        ('ratelimiting', 2, 2.004), ('ratelimiting', 100, 99.5), ('lowerbound', 0.3, 0.3000001))])
    text = {'probabilistic': PROB, 'ratelimiting': RATE,
            'lowerbound': '{"operationSampling": {"defaultSamplingProbability": %s}}'}[kind]
    r.answer(C(text % x))
    for i, v in enumerate((y, x)):
        f, since = r.again(), A.mark
        r.answer(C(text % v), f)
        if kind != 'lowerbound':
            counted(A, since, 1, '%s after %s' % (v, (x, y)[i]))
        out = A.call(r.s, 'is_sampled', NO, 'op%d' % i)
        tags_are(A, out, kind, v, 'the change to %s' % v)
    bounds = A.pick('lower bounds', [(str(n), n) for n in ((0.5, 0.25), (1.0, 0.75), (0.001, 0.002))])
    for b in bounds:
        r.answer(C(js({'defaultLowerBoundTracesPerSecond': b, 'perOperationStrategies': [
            {'operation': 'z', 'probabilisticSampling': {'samplingRate': 0}}]})), r.again())
    A.call(r.s, 'is_sampled', NO, 'z')
    c[0] += 0.9 / max(bounds) if bounds[1] > bounds[0] else 1.1 / max(bounds)
    out = A.call(r.s, 'is_sampled', NO, 'z')
    A.require_same(out.items[0], FALSE, 'bound', 'a trace before 1 / %s s' % bounds[1])
    c[0] += 1.0 / min(bounds)
    out = A.call(r.s, 'is_sampled', NO, 'z')
    A.require_same(out.items[0], TRUE, 'bound', 'after more than 1 / %s s' % bounds[1])


def left_out(A):
    """What an answer leaves out has its default, not the value of an answer before."""
    A.on('random.random', lambda ip, a, kw: C(1.0))
    c = clock(A, 1000.0)
    r = Remote(A, A.new('jaeger_client.sampler:ConstSampler', True), max_operations=3)
    r.answer(C(js(STRAT)))
    m = Model(STRAT, 3, 1.0, c[0])
    out = A.pick('left out', ['probability', 'lower bound', 'operations', 'all'])
    pre = {'probability': 'defaultS', 'lower bound': 'defaultL', 'operations': 'per', 'all': ''}[out]
    x = {k: v for k, v in STRAT2.items() if not k.startswith(pre)}
    x['x'] = 1
    r.answer(C(js(x)), r.again())
    m.update(x, c[0])
    for tid, op in REQS:
        compare(A, r.s, tid, op, m.ask(tid, op, c[0]), 'left out %s: operation %s' % (out, op))
    c[0] += 10.0
    for tid, op in REQS:
        compare(A, r.s, tid, op, m.ask(tid, op, c[0]), 'left out %s, later: operation %s' % (out, op))
