"""A sampling response is parsed to a sampler or an error, never both and never neither.

The response is made of the thrift objects with any strategy type and any numbers in any of the fields,
or none: the sampler has exactly the number of the response, of the kind the type names, and is made only
for a number in its range; otherwise there is a message.  Nothing is raised and the response stays as it
is.
"""
from .common import *

TYPES = 'jaeger_client.thrift_gen.sampling.ttypes:'
PARSE = 'jaeger_client.thrift:parse_sampling_strategy'
PROB, RATE = 'jaeger_client.sampler:ProbabilisticSampler', 'jaeger_client.sampler:RateLimitingSampler'


def run(P):
    P.scenario('probabilistic', probabilistic)
    P.scenario('rate limiting', rate_limiting)
    P.scenario('strategy missing', missing)
    P.scenario('types', types)
    P.scenario('no numbers', odd)
    P.scenario('both strategies', both)
    P.scenario('used', used)


def response(A, typ, prob=NONE, rate=NONE):
    """prob, rate: the number, or () for a strategy without one."""
    kw = {}
    if prob is not NONE:
        kw['probabilisticSampling'] = A.new(TYPES + 'ProbabilisticSamplingStrategy', *(
            [] if prob == () else [prob]))
    if rate is not NONE:
        kw['rateLimitingSampling'] = A.new(TYPES + 'RateLimitingSamplingStrategy', *(
            [] if rate == () else [rate]))
    return A.new(TYPES + 'SamplingStrategyResponse', strategyType=typ, **kw)


def parse(A, r, what):
    """(sampler, error)"""
    fr = Frozen(A, r)
    got, exc = A.catch(A.apply, A.load(PARSE), r)
    if not A.require(exc is None, 'raises', '%s: parsing raises %s' % (what, exc and exc.cls.name),
                     exc and exc.attrs.get('__loc__')):
        raise Stop()
    fr.unchanged('response', '%s: the response' % what)
    if not A.require(isinstance(got, (Tup, ListV)) and len(got.items) == 2, 'pair', '%s: the result is %s' % (
            what, pretty(A, got))):
        raise Stop()
    s, e = got.items
    A.require((s is NONE) != (e is NONE), 'one', '%s: the sampler is %s and the error %s' % (
        what, pretty(A, s), pretty(A, e)))
    if s is NONE and isinstance(e, (C, T)):
        ok = A.ip.types(e) <= frozenset(['str'])
        A.require(ok and (not isinstance(e, C) or bool(e.v)), 'message', '%s: the error is %s' % (
            what, pretty(A, e)))
    return s, e


def made(A, s, cls, field, number, what):
    if A.require(A.isa(s, cls), 'kind', '%s: the sampler is %s' % (what, pretty(A, s))):
        A.require(s.cls is A.ip.load(cls), 'kind', '%s: the sampler is a %s' % (what, s.cls.name))
        A.require_same(A.attr(s, field), number, 'number', '%s: the sampler has' % what)


def refused(A, s, e, what):
    A.require(s is NONE, 'accepted', '%s gives the sampler %s' % (what, pretty(A, s)))


PT, RT = 0, 1


def number(A, name):
    """A number with an optional place for it, as a thrift message can hold."""
    return A.pick('number', [('a fraction', A.sym(name, 'float')), ('whole', A.sym(name, 'int')),
                             ('absent', ()), ('nan', C(float('nan'))), ('infinite', C(float('inf'))),
                             ('minus infinite', C(float('-inf'))), ('-0', C(-0.0))])


def inside(A, v, lo, hi, closed):
    if v == ():
        return False
    if isinstance(v, C) and v.v != v.v:
        return False
    return A.cmp(v, '>=', lo) and A.cmp(v, '<=' if closed else '<', hi)


def probabilistic(A):
    v = number(A, 'samplingRate')
    s, e = parse(A, response(A, PT, prob=v), 'a probability')
    if inside(A, v, 0, 1, True):
        made(A, s, PROB, 'rate', v, 'a probability')
    else:
        refused(A, s, e, 'a probability out of range')


def rate_limiting(A):
    v = number(A, 'maxTracesPerSecond')
    s, e = parse(A, response(A, RT, rate=v), 'a rate limit')
    if inside(A, v, 0, 500, False):
        made(A, s, RATE, 'traces_per_second', v, 'a rate limit')
    else:
        refused(A, s, e, 'a rate limit out of range')


def missing(A):
    t = A.pick('type', [PT, RT])
    other = A.pick('the other strategy', [NONE, A.sym('other', 'float')])
    s, e = parse(A, response(A, t, **{'rate' if t == PT else 'prob': other}), 'a missing strategy')
    refused(A, s, e, 'a missing strategy')


def types(A):
    t = A.pick('type', [('number', A.sym('type', 'int')), ('none', NONE), ('text', C('x')),
                        ('any text', A.sym('type', 'str')), ('2', C(2)), ('-1', C(-1))])
    s, e = parse(A, response(A, t, C(0.5), C(7)), 'any type')
    if isinstance(t, T) and A.ip.types(t) <= frozenset(['int', 'bool']):
        if A.cmp(t, '==', PT):
            return made(A, s, PROB, 'rate', C(0.5), 'type 0')
        if A.cmp(t, '==', RT):
            return made(A, s, RATE, 'traces_per_second', C(7), 'type 1')
    refused(A, s, e, 'an unknown type')


def odd(A):
    """At the limits."""
    t, v, ok = A.pick('number', [(str(x), x) for x in [
        (PT, 0, True), (PT, 1, True), (PT, 0.0, True), (PT, 1.0, True), (PT, 1.0000001, False),
        (PT, -1e-9, False), (PT, 2, False), (RT, 0, True), (RT, 499.999, True), (RT, 500, False),
        (RT, 501, False), (RT, -1, False), (RT, 0.5, True), (RT, 499, True)]])
    s, e = parse(A, response(A, t, **{'prob' if t == PT else 'rate': C(v)}), 'the number %r' % v)
    if ok:
        made(A, s, *((PROB, 'rate') if t == PT else (RATE, 'traces_per_second')), number=C(v),
             what='the number %r' % v)
    else:
        refused(A, s, e, 'the number %r' % v)


def both(A):
    """Only the strategy of the type counts."""
    p, r = A.sym('samplingRate', 'float'), A.sym('maxTracesPerSecond', 'float')
    t = A.pick('type', [PT, RT])
    s, e = parse(A, response(A, t, p, r), 'both strategies')
    if t == PT and inside(A, p, 0, 1, True):
        made(A, s, PROB, 'rate', p, 'both strategies')
    elif t == RT and inside(A, r, 0, 500, False):
        made(A, s, RATE, 'traces_per_second', r, 'both strategies')
    else:
        refused(A, s, e, 'a number out of range')


def used(A):
    """The sampler it gives decides as it should; two responses give two samplers."""
    p = A.pick('probability', [0.0, 1.0])
    A.on('time.time', lambda ip, a, kw: C(5.0))
    r = response(A, PT, C(p))
    a, _ = parse(A, r, 'a probability')
    b, _ = parse(A, response(A, RT, rate=C(2)), 'a rate limit')
    c, _ = parse(A, response(A, PT, C(0.5)), 'a probability')
    d = A.call(a, 'is_sampled', A.int('trace_id', 1, 2 ** 64 - 1), 'op')
    A.require_same(d.items[0], C(p == 1.0), 'decision', 'a sampler of %s' % p)
    A.require(a is not c, 'shared', 'two responses give one sampler')
