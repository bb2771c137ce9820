"""Samplers give no credit away when several threads ask at once.

Two requests, or a request and a strategy update, run in two threads: the second runs completely at any
one access the first makes to the shared sampler, as far as the locks held allow it.  One credit pays
for one trace only, one new operation gets one entry in the bounded table, no update is lost or half
seen, and nobody raises.
"""
from .common import *
from .c24 import clock
from .c25 import Model, lifted, FULL, NO, YES
from .c26 import Remote
from .c27 import js, PROB, RATE

S = 'jaeger_client.sampler:'


def run(P):
    P.scenario('one credit, two requests', credit)
    P.scenario('request against rate update', ratelimit)
    P.scenario('requests through the remote sampler', requests)
    P.scenario('request against remote update', updates)
    P.scenario('new operations', newops)
    P.scenario('credit of an operation the update brings', brought)


def reach(o, out=None):
    """Every object of the repository reachable from o."""
    out = [] if out is None else out
    if isinstance(o, (Inst, DictV, ListV)) and not any(o is x for x in out):
        out.append(o)
        kids = list(o.attrs.values()) if isinstance(o, Inst) else (
            [x for e in o.entries for x in e] if isinstance(o, DictV) else list(o.items))
        for k in kids:
            if isinstance(k, Obj) and not (isinstance(k, Inst) and k.label in (
                    'channel', 'io_loop', 'errors', 'm')):
                reach(k, out)
    return out


def ask(A, s, out, tid=NO, op='op'):
    def go():
        r = A.call(s, 'is_sampled', tid, op)
        out.append(r)
    return go


def fixed(A, fill=1.0):
    A.on('random.random', lambda ip, a, kw: C(fill))
    return clock(A, 1000.0)


def sampled(A, out):
    return sum(1 for r in out if A.same(r.items[0], TRUE))


def credit(A):
    fixed(A)
    tps = A.pick('rate', [1, 2, 0.5])
    s = A.new(S + 'RateLimitingSampler', tps)
    spent = int(max(tps, 1)) - 1
    out = []
    for _ in range(spent):
        ask(A, s, [])()
    at = A.race(ask(A, s, out), ask(A, s, out), *reach(s))
    A.require(sampled(A, out) == 1, 'credit', '%d traces for one credit' % sampled(A, out), at)


def ratelimit(A):
    """The outcome is that of one order or the other."""
    c = fixed(A)
    s = A.new(S + 'RateLimitingSampler', 2)
    A.ip.setattr(A.attr(s, 'rate_limiter'), 'balance', C(1.0))
    out = []
    new = A.pick('new rate', [4, 1])
    update = lambda: A.call(s, 'update', new)
    f, g = (ask(A, s, out), update) if A.pick('interrupted', ['request', 'update']) == 'request' \
        else (update, ask(A, s, out))
    at = A.race(f, g, *reach(s))
    bal = A.ip.norm(A.attr(A.attr(s, 'rate_limiter'), 'balance'))
    # request first: 0 left, scaled 0.  update first: 2 or .5, then one spent if there is one
    later = new / 2.0
    ok = [(True, 0.0), (later >= 1, later - (later >= 1))]
    got = (A.same(out[0].items[0], TRUE) is True, bal.v if isinstance(bal, C) else None)
    A.require(got in ok, 'order', 'sampled=%s with a balance of %s left is neither order' % got, at)
    tags = out[0].items[1]
    A.require(any(A.same(tags, A.dict([('sampler.type', 'ratelimiting'), ('sampler.param', p)]))
                  for p in (2, new)), 'tags', 'tags %s' % pretty(A, tags), at)
    A.require_same(A.attr(s, 'traces_per_second'), C(new), 'lost', 'the rate')


def requests(A):
    fixed(A)
    kind = A.pick('active', ['rate limiting', 'adaptive'])
    if kind == 'rate limiting':
        init = A.new(S + 'RateLimitingSampler', 2)     # the constructor asks once
    else:
        init = A.new(S + 'AdaptiveSampler', lifted(A, FULL), 3)
    r = Remote(A, init)
    out = []
    op = 'a'
    at = A.race(ask(A, r.s, out, NO, op), ask(A, r.s, out, NO, op), *reach(r.s))
    A.require(sampled(A, out) == 1, 'credit', '%d traces for one credit' % sampled(A, out), at)


UPD = {'probability': PROB % 1, 'rate': RATE % 4, 'operations': js(
    {'defaultSamplingProbability': 0.5, 'defaultLowerBoundTracesPerSecond': 1.0,
     'perOperationStrategies': [{'operation': 'n', 'probabilisticSampling': {'samplingRate': 1.0}},
                                {'operation': 'a', 'probabilisticSampling': {'samplingRate': 1.0}}]})}


def updates(A):
    fixed(A, 0.0)
    k = A.pick('active', ['rate limiting', 'adaptive', 'probabilistic'])
    init = {'rate limiting': lambda: A.new(S + 'RateLimitingSampler', 2),
            'adaptive': lambda: A.new(S + 'AdaptiveSampler', lifted(A, dict(
                FULL, perOperationStrategies=[FULL['perOperationStrategies'][0]])), 3),
            'probabilistic': lambda: A.new(S + 'ProbabilisticSampler', 0.0)}[k]()
    r = Remote(A, init)
    f = r.poll()
    u = A.pick('response', sorted(UPD))
    op = A.pick('operation', ['n', 'a', 'x'])
    out = []
    answer = lambda: r.answer(C(UPD[u]), f)
    p, q = (ask(A, r.s, out, 2 ** 63 + 2 ** 62, op), answer)
    if A.pick('interrupted', ['request', 'update']) == 'update':
        p, q = q, p
    at = A.race(p, q, *reach(r.s))
    A.require(count_of(A, 'm.jaeger:sampler_updates.ok') == 1, 'lost', 'the update is not applied', at)
    got = A.call(r.s, 'is_sampled', 1, 'a')
    want = {'probability': ('probabilistic', 1), 'rate': ('ratelimiting', 4),
            'operations': ('probabilistic', 1.0)}[u]
    A.require(A.same(got.items[1], A.dict([('sampler.type', want[0]), ('sampler.param', want[1])])),
              'lost', 'after the update: tags %s' % pretty(A, got.items[1]), at)
    o = out[0].items
    kinds = {('probability'): 'probabilistic', 'rate': 'ratelimiting'}
    t = lookup(A, o[1], 'sampler.type')
    A.require(t is not None, 'tags', 'no sampler tag', at)
    if A.same(o[0], TRUE):
        # only the new strategy samples this id at a zero balance
        A.require(A.same(t, C('probabilistic')), 'torn', 'sampled, tags %s' % pretty(A, o[1]), at)
        if op != 'x':
            A.require(u in ('probability', 'operations'), 'torn', 'sampled by %s' % u, at)


def newops(A):
    """Two threads bring new operations: the table keeps its bound and one entry for each."""
    fixed(A)
    most = A.pick('room', [1, 2])
    r = Remote(A, A.new(S + 'AdaptiveSampler', A.dict([
        ('defaultLowerBoundTracesPerSecond', 1.0)]), most + 1))
    A.call(r.s, 'is_sampled', NO, 'known')
    # the constructor asked for one operation already
    n0 = len(A.attr(A.attr(r.s, 'sampler'), 'samplers').entries)
    out = []
    a, b = A.pick('operations', [('same', ('p', 'p')), ('different', ('p', 'q'))])
    at = A.race(ask(A, r.s, out, NO, a), ask(A, r.s, out, NO, b), *reach(r.s))
    n = len(A.attr(A.attr(r.s, 'sampler'), 'samplers').entries)
    want = min(most + 1, n0 + (1 if a == b else 2))
    A.require(n == want, 'table', '%d operations tracked, expected %d' % (n, want), at)
    most_ok = 1 if a == b else 2
    A.require(sampled(A, out) <= most_ok, 'credit', '%d traces' % sampled(A, out), at)
    if a == b:
        A.require(sampled(A, out) == min(1, most + 1 - n0), 'credit', '%d traces for one credit' %
                  sampled(A, out), at)


def brought(A):
    """An operation that a request and an update bring at once has one credit, not two."""
    fixed(A)
    r = Remote(A, A.new(S + 'AdaptiveSampler', A.dict([
        ('defaultSamplingProbability', 0.0), ('defaultLowerBoundTracesPerSecond', 1.0)]), 9))
    f, out = r.poll(), []
    u = js({'defaultSamplingProbability': 0.0, 'defaultLowerBoundTracesPerSecond': 1.0,
            'perOperationStrategies': [
                {'operation': 'n', 'probabilisticSampling': {'samplingRate': 0.25}}]})
    p, q = ask(A, r.s, out, NO, 'n'), lambda: r.answer(C(u), f)
    if A.pick('interrupted', ['request', 'update']) == 'update':
        p, q = q, p
    at = A.race(p, q, *reach(r.s))
    A.require(count_of(A, 'm.jaeger:sampler_updates.ok') == 1, 'lost', 'the update is not applied', at)
    ask(A, r.s, out, NO, 'n')()
    A.require(sampled(A, out) == 1, 'credit', '%d traces for one credit' % sampled(A, out), at)
    got = A.call(r.s, 'is_sampled', 1, 'n')
    A.require(A.same(got.items[1], A.dict([('sampler.type', 'probabilistic'),
                                           ('sampler.param', 0.25)])), 'lost',
              'the operation has tags %s' % pretty(A, got.items[1]), at)
