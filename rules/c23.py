"""The constant and probabilistic samplers decide by the trace id and their rate alone.

For every rate in 0..1 and every trace id, the decision is "low 64 bits < rate * 2^64": rate 0 never
and rate 1 always samples, equal low halves decide alike, a larger rate samples a superset.  The
decision draws no randomness, reads no clock, keeps no state and names the sampler and its parameter;
rates outside 0..1 are refused.
"""
from .common import *
from .c18 import binop

PROB = 'jaeger_client.sampler:ProbabilisticSampler'
CONST = 'jaeger_client.sampler:ConstSampler'


def run(P):
    P.scenario('constant', constant)
    P.scenario('probabilistic', probabilistic)
    P.scenario('extreme rates', extremes)
    P.scenario('low half only', halves)
    P.scenario('larger rate', larger)
    P.scenario('bad rates', bad)
    P.scenario('boundary ids', boundary)
    P.scenario('pure', pure)


def ask(A, s, tid, op='op'):
    r = A.call(s, 'is_sampled', tid, op)
    if isinstance(r, Tup) and len(r.items) == 2:
        return r.items
    A.violate('result', 'the sampler answers %s' % pretty(A, r))
    A.stop()


def named(A, tags, kind, param):
    if A.require(isinstance(tags, DictV), 'tags', 'tags are %s' % pretty(A, tags)):
        A.require(A.same(tags, A.dict([('sampler.type', kind), ('sampler.param', param)])), 'tags',
                  'tags %s' % pretty(A, tags))


def constant(A):
    d = A.pick('decision', [('yes', TRUE), ('no', FALSE), ('unknown', A.sym('decision', 'bool'))])
    s = A.new(CONST, d)
    for i in range(2):
        got, tags = ask(A, s, A.int('id%d' % i, 1, 2 ** 128 - 1), A.str('op%d' % i))
        A.require_same(got, d, 'decision', 'the decision')
        named(A, tags, 'const', d)


def low(A, tid):
    return A.apply(Native('low', lambda ip, a, kw: binop(ip, 'BitAnd', a[0], C(2 ** 64 - 1))), tid)


def times(A, a, b):
    return A.apply(Native('mul', lambda ip, x, kw: binop(ip, 'Mult', x[0], x[1])), a, b)


def probabilistic(A):
    rate = A.pick('rate', [('unknown', A.sym('rate', 'float', 0, 1)), ('0.5', C(0.5)),
                           ('0.25', C(0.25)), ('small', C(2.0 ** -40))])
    s = A.new(PROB, rate)
    tid = A.int('id', 0, 2 ** A.pick('bits', [64, 128]) - 1)
    got, tags = ask(A, s, tid)
    got = A.truth(got)
    want = A.quiet(lambda: A.cmp(low(A, tid), '<', times(A, rate, C(2 ** 64))))
    A.soft(None if want is None else want == got, 'decision', 'sampled=%s for id %s, rate %s' % (
        got, pretty(A, tid), pretty(A, rate)))
    named(A, tags, 'probabilistic', rate)


def extremes(A):
    r = A.pick('rate', [0, 1, 0.0, 1.0])
    s = A.new(PROB, r)
    tid = A.pick('id', [('unknown', A.int('id', 0, 2 ** 128 - 1)), ('0', C(0)),
                        ('max', C(2 ** 64 - 1)), ('max128', C(2 ** 128 - 1))])
    got, _ = ask(A, s, tid)
    want = A.quiet(lambda: A.truth(got))
    A.require(None if want is None else want == bool(r), 'extreme',
              'rate %s decides %s for id %s' % (r, pretty(A, got), pretty(A, tid)))


def halves(A):
    """The decision does not depend on the high half of a 128-bit id."""
    s = A.new(PROB, A.pick('rate', [0.5, 0.001, 1.0]))
    lo = A.pick('low', [1, 2 ** 53, 2 ** 63, 2 ** 64 - 1, 5])
    hi = A.pick('high', [1, 2 ** 63, 2 ** 64 - 1])
    a, _ = ask(A, s, lo)
    b, _ = ask(A, s, hi * 2 ** 64 + lo)
    A.require_same(b, a, 'high-half', 'the decision of an id with another high half')


def larger(A):
    r1, r2 = A.pick('rates', [('%s %s' % p, p) for p in (
        (0.0, 0.001), (0.001, 0.25), (0.25, 0.5), (0.5, 0.9), (0.9, 1.0))])
    tid = A.int('id', 0, 2 ** 64 - 1)
    a, _ = ask(A, A.new(PROB, r1), tid)
    if A.truth(a):
        b, _ = ask(A, A.new(PROB, r2), tid)
        A.require(A.truth(b), 'superset', 'an id sampled at a rate is not at a larger one')


def bad(A):
    r = A.pick('rate', [('above', A.sym('rate', 'float', 1.0000001, 10 ** 6)), ('2', C(2)),
                        ('-1', C(-1)), ('below', A.sym('rate', 'float', -10 ** 6, -0.0000001)),
                        ('text', C('0.5')), ('none', NONE)])
    _, exc = A.catch(A.new, PROB, r)
    A.require(exc is not None, 'bad-rate', 'a rate of %s is accepted' % pretty(A, r))


def boundary(A):
    r = A.pick('rate', [0.5, 0.25, 0.001, 2.0 ** -64, 1 - 2.0 ** -11])
    s = A.new(PROB, r)
    edge = int(r * 2 ** 64)
    for tid in (0, 1, edge - 1, edge, edge + 1, 2 ** 64 - 1):
        if tid < 0 or tid >= 2 ** 64:
            continue
        got, _ = ask(A, s, tid)
        A.require_same(got, C(tid < r * 2 ** 64), 'boundary', 'id %d at rate %s' % (tid, r))


def pure(A):
    """Asking changes nothing and consults nothing: the same id gets the same answer for ever."""
    s = A.pick('sampler', [('probabilistic', A.new(PROB, A.sym('rate', 'float', 0, 1))),
                           ('constant', A.new(CONST, True))])
    old, since = Frozen(A, s), A.mark
    tid = A.int('id', 0, 2 ** 128 - 1)
    a, t1 = ask(A, s, tid, 'one')
    a = A.truth(a)
    for i in range(2):
        other = A.call(s, 'is_sampled', A.int('other%d' % i, 0, 2 ** 64 - 1), 'x')
    b, t2 = ask(A, s, tid, 'two')
    A.require(A.truth(b) == a, 'history', 'the decision for an id changes')
    A.require_same(t2, t1, 'tags', 'its tags')
    old.unchanged('state', 'the sampler')
    A.require(not A.events('rng', since=since), 'random', 'the decision draws a random number')
    A.require(not A.calls('time.*', since), 'clock', 'the decision reads the clock')
