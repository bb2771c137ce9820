"""The rate limiter never spends more credit than has accrued, whatever the clock does.

For every rate, cap, balance, cost and pair of clock readings (also a clock set back), one check grants
exactly when the topped-up balance covers the cost, deducts exactly the cost or nothing, and keeps the
balance within 0..cap; an update accrues at the old rate first and scales the balance.  Histories of
several calls, and the sampler built on it (one credit per trace), are followed as well.
"""
from .common import *
from .c18 import binop

RL = 'jaeger_client.rate_limiter:RateLimiter'
RLS = 'jaeger_client.sampler:RateLimitingSampler'


def run(P):
    P.scenario('new', new)
    P.scenario('one check', one)
    P.scenario('one update', update)
    P.scenario('histories', histories)
    P.scenario('clock set back', back)
    P.scenario('the sampler', sampler)
    P.scenario('sampler update', sampler_update)
    P.scenario('bad rates', bad)


def op(A, name, a, b):
    return A.apply(Native(name, lambda ip, x, kw: binop(ip, name, x[0], x[1])), a, b)


def clock(A, start):
    """A clock the scenario turns."""
    c = [start]
    A.on('time.time', lambda ip, a, kw: lift(c[0]))
    return c


def near(A, got, want, key, what):
    got = A.ip.norm(got) if isinstance(got, (C, T)) else got
    ok = isinstance(got, C) and isinstance(got.v, (int, float)) and abs(got.v - want) < 1e-9
    A.require(ok, key, '%s: got %s, expected %s' % (what, pretty(A, got), want))


def bounded(A, rl, what, cap):
    b = A.attr(rl, 'balance')
    lo = A.quiet(lambda: A.cmp(b, '>=', 0))
    hi = A.quiet(lambda: A.cmp(b, '<=', cap))
    A.soft(lo, 'negative', '%s: the balance %s can be negative' % (what, pretty(A, b)))
    A.soft(hi, 'cap', '%s: the balance %s can exceed the cap' % (what, pretty(A, b)))


def new(A):
    cap = A.pick('cap', [('unknown', A.sym('cap', 'float', 1, 500)), ('1', C(1.0))])
    rl = A.new(RL, A.sym('rate', 'float', 0, 500), cap)
    bounded(A, rl, 'a new limiter', cap)


def setup(A, t0=None):
    rate = A.sym('rate', 'float', 0, 500)
    cap = A.sym('cap', 'float', 1, 500)
    b = A.sym('balance', 'float', 0, 500)
    A.assume(A.cmp(b, '<=', cap))
    c = clock(A, A.sym('t0', 'float', 1, 2 ** 33) if t0 is None else t0)
    rl = A.new(RL, rate, cap)
    A.ip.setattr(rl, 'balance', b)
    return rl, rate, cap, b, c


def accrued(A, b, rate, cap, t0, t1):
    """The balance topped up over one interval."""
    if t1 is t0 or A.cmp(t1, '<=', t0):
        return b
    grown = op(A, 'Add', b, op(A, 'Mult', op(A, 'Sub', t1, t0), rate))
    return cap if A.cmp(grown, '>', cap) else grown


def turn(A, c):
    """The clock at any later reading: the same, before or after."""
    if A.pick('clock', ['moved', 'stands']) == 'moved':
        t0, c[0] = c[0], A.sym('t1', 'float', 1, 2 ** 33)
        A.assume(not A.cmp(c[0], '==', t0))


def one(A):
    rl, rate, cap, b, c = setup(A)
    t0 = c[0]
    turn(A, c)
    cost = A.pick('cost', [('1', C(1.0)), ('unknown', A.sym('cost', 'float', 0, 500))])
    got = A.truth(A.call(rl, 'check_credit', cost))
    full = accrued(A, b, rate, cap, t0, c[0])
    want = A.quiet(lambda: A.cmp(full, '>=', cost))
    A.soft(None if want is None else want == got, 'grant', 'a balance of %s %s a cost of %s' % (
        pretty(A, full), 'pays' if got else 'does not pay', pretty(A, cost)))
    now = A.attr(rl, 'balance')
    A.soft(A.same(now, op(A, 'Sub', full, cost) if got else full), 'balance',
           'the balance afterwards is %s' % pretty(A, now))


def update(A):
    rl, rate, cap, b, c = setup(A)
    t0 = c[0]
    turn(A, c)
    rate2, cap2 = A.sym('rate2', 'float', 0, 500), A.sym('cap2', 'float', 1, 500)
    A.call(rl, 'update', rate2, cap2)
    full = accrued(A, b, rate, cap, t0, c[0])
    want = op(A, 'Div', op(A, 'Mult', cap2, full), cap)
    now = A.attr(rl, 'balance')
    A.soft(A.same(now, want), 'scaled', 'the balance becomes %s' % pretty(A, now))
    c[0] = op(A, 'Add', c[0], C(1.0))
    before = A.attr(rl, 'balance')
    A.call(rl, 'check_credit', 10 ** 9)
    grown = op(A, 'Add', before, rate2)
    want = cap2 if A.cmp(grown, '>', cap2) else grown
    A.soft(A.same(A.attr(rl, 'balance'), want), 'new-rate', 'after a second: %s' % pretty(
        A, A.attr(rl, 'balance')))


def histories(A):
    """Concrete histories against the leaky bucket computed here."""
    rate, cap = A.pick('limiter', [('%s/%s' % p, p) for p in ((0.5, 1.0), (2.0, 2.0), (10.0, 10.0),
                                                              (0.0, 1.0))])
    c = clock(A, 1000.0)
    rl = A.new(RL, rate, cap)
    start = A.pick('balance', [0.0, 1.0])
    A.ip.setattr(rl, 'balance', C(start))
    bal, last, spent = start, 1000.0, 0.0
    cost = A.pick('cost', [1.0, 0.25, 0.0, 1.5])
    for step in A.pick('steps', ['0 0 0', '1 0 1', '0.5 0.5 3', '2 -5 1', '-1 4 0', 'u1 1 0',
                                 '10 u4 0', '0 0.25u4 0', '0 0.5u0.5 1 1']).split():
        if 'u' in step:
            pause, new = step.split('u')
            new = float(new)
            c[0] += float(pause or 0)
            A.call(rl, 'update', new, max(new, 1.0))
            bal = min(cap, bal + max(0, c[0] - last) * rate)
            last = c[0]
            bal = max(new, 1.0) * bal / cap
            rate, cap = new, max(new, 1.0)
        else:
            c[0] += float(step)
            bal = min(cap, bal + max(0, c[0] - last) * rate)
            last = c[0]
            want = bal >= cost
            got = A.call(rl, 'check_credit', cost)
            bal -= want * cost
            spent += want
            A.require_same(got, C(want), 'history', 'grant at %s' % c[0])
        near(A, A.attr(rl, 'balance'), bal, 'history', 'balance at %s' % c[0])


def back(A):
    """A clock that jumps back neither takes credit away nor hands out more later."""
    c = clock(A, 1000.0)
    rl = A.new(RL, 1.0, 5.0)
    A.ip.setattr(rl, 'balance', C(2.0))
    c[0] = A.pick('jump', [500.0, 999.0, 1.0])
    A.require_same(A.call(rl, 'check_credit', 1.0), TRUE, 'back', 'a check after the clock was set back')
    A.require_same(A.attr(rl, 'balance'), C(1.0), 'back', 'the balance')
    c[0] += 1.0
    A.require_same(A.call(rl, 'check_credit', 1.0), TRUE, 'back', 'the next check')
    A.require_same(A.attr(rl, 'balance'), C(1.0), 'back', 'the balance a second later')


def ask(A, s):
    r = A.call(s, 'is_sampled', A.int('id', 1, 2 ** 64 - 1), 'op')
    return A.truth(r.items[0]), r.items[1]


def sampler(A):
    tps = A.pick('rate', [0, 0.5, 1, 2, 2.5, 100])
    c = clock(A, 1000.0)
    A.on('random.random', lambda ip, a, kw: C(1.0))
    s = A.new(RLS, tps)
    cap = max(float(tps), 1.0)
    n = 0
    for _ in range(4):
        got, tags = ask(A, s)
        n += got
        A.require(A.same(tags, A.dict([('sampler.type', 'ratelimiting'), ('sampler.param', tps)])),
                  'tags', 'tags %s' % pretty(A, tags))
    A.require(n <= cap, 'burst', '%d traces at once with %s per second' % (n, tps))
    A.require(n >= min(4, int(cap)), 'burst-low', '%d traces at once with %s per second' % (n, tps))
    c[0] += A.pick('pause', [0.5, 1.0, 1000.0])
    m = 0
    for _ in range(4):
        m += ask(A, s)[0]
    A.require(m + n <= cap + (c[0] - 1000.0) * tps and m <= cap, 'rate',
              '%d traces in %s s at %s per second' % (m + n, c[0] - 1000.0, tps))
    if tps and (c[0] - 1000.0) * tps >= 1:
        A.require(m >= 1, 'starved', 'no trace after %s s at %s per second' % (c[0] - 1000.0, tps))


def sampler_update(A):
    a, b = A.pick('rates', [('%s %s' % p, p) for p in ((1, 5), (5, 1), (0.5, 0.1), (2, 2), (3, 0))])
    c = clock(A, 1000.0)
    s = A.new(RLS, a)
    rl = A.attr(s, 'rate_limiter')
    A.ip.setattr(rl, 'balance', C(1.0))
    got = A.call(s, 'update', b)
    A.require_same(got, C(a != b), 'update', 'the answer whether anything changed')
    A.require_same(A.attr(s, 'traces_per_second'), C(b), 'update', 'the new rate')
    A.require(A.attr(s, 'rate_limiter') is not None, 'update', 'no limiter')
    want = 1.0 * max(b, 1.0) / max(a, 1.0)
    near(A, A.attr(A.attr(s, 'rate_limiter'), 'balance'), want, 'balance',
         'the balance after the update')
    c[0] += 1.0
    got, tags = ask(A, s)
    A.require(got == (min(want + b, max(b, 1.0)) >= 1.0), 'update', 'one second later: %s' % got)
    A.require(A.same(tags, A.dict([('sampler.type', 'ratelimiting'), ('sampler.param', b)])),
              'tags', 'tags %s' % pretty(A, tags))


def bad(A):
    r = A.pick('rate', [('-1', C(-1)), ('negative', A.sym('rate', 'float', -10 ** 6, -0.0001))])
    s = A.new(RLS, 1)
    old = A.attr(s, 'traces_per_second')
    _, exc = A.catch(A.new, RLS, r)
    A.require(exc is not None, 'bad-rate', 'a rate of %s is accepted' % pretty(A, r))
    _, exc = A.catch(A.call, s, 'update', r)
    A.require(exc is not None, 'bad-rate', 'an update to %s is accepted' % pretty(A, r))
    A.require_same(A.attr(s, 'traces_per_second'), old, 'bad-rate', 'the rate after a bad update')
