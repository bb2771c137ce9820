"""Per-operation sampling: the probability decides, the lower bound guarantees, the table is bounded.

Histories of requests, pauses and strategy updates are compared with a model: a trace is sampled when
its operation's probability says so or its lower bound has credit; the bound is charged once for every
sampled trace; the tags name which of the two decided.  An unknown operation gets the defaults, at
most the configured number of them is tracked and the rest is sampled by the default probability; an
update changes the operations it names, keeps the others, and never refills their credit.
"""
from .common import *
from .c24 import clock

GT = 'jaeger_client.sampler:GuaranteedThroughputProbabilisticSampler'
AD = 'jaeger_client.sampler:AdaptiveSampler'
YES, NO = 1, 2 ** 64 - 1      # ids that every / no probability below 1 samples


def run(P):
    P.scenario('guaranteed throughput', guaranteed)
    P.scenario('its update', gt_update)
    P.scenario('decision and tags', decision)
    P.scenario('adaptive histories', adaptive)
    P.scenario('table of operations', table)
    P.scenario('adaptive updates', updates)
    P.scenario('defaults', defaults)
    P.scenario('unknown operation', unknown)


class Bucket(object):
    def __init__(self, rate, fill, now):
        self.rate, self.cap, self.last = rate, max(rate, 1.0), now
        self.bal = self.cap * fill

    def tick(self, now):
        self.bal = min(self.cap, self.bal + max(0, now - self.last) * self.rate)
        self.last = now

    def take(self, now):
        self.tick(now)
        if self.bal >= 1.0:
            self.bal -= 1.0
            return True
        return False

    def update(self, rate, now):
        if rate != self.rate:
            self.tick(now)
            self.bal = max(rate, 1.0) * self.bal / self.cap
            self.rate, self.cap = rate, max(rate, 1.0)


class Op(object):
    def __init__(self, bound, prob, fill, now):
        self.b, self.p = Bucket(bound, fill, now), prob

    def ask(self, tid, now):
        """(sampled, tags)"""
        yes = tid < self.p * 2 ** 64
        paid = self.b.take(now)
        if yes:
            return True, {'sampler.type': 'probabilistic', 'sampler.param': self.p}
        return paid, {'sampler.type': 'lowerbound', 'sampler.param': self.p}


class Model(object):
    def __init__(self, strategies, most, fill, now):
        self.most, self.fill, self.ops = most, fill, {}
        self.update(strategies, now)

    def update(self, s, now):
        bound = s.get('defaultLowerBoundTracesPerSecond', 1.0 / 600)
        for x in s.get('perOperationStrategies', []):
            p = x.get('probabilisticSampling', {}).get('samplingRate', 0.001)
            o = self.ops.get(x['operation'])
            if o is None:
                self.ops[x['operation']] = Op(bound, p, self.fill, now)
            else:
                o.p = p
                o.b.update(bound, now)
        self.bound, self.p = bound, s.get('defaultSamplingProbability', 0.001)

    def ask(self, tid, op, now):
        o = self.ops.get(op)
        if o is None:
            if len(self.ops) >= self.most:
                return tid < self.p * 2 ** 64, {'sampler.type': 'probabilistic',
                                                'sampler.param': self.p}
            o = self.ops[op] = Op(self.bound, self.p, self.fill, now)
        return o.ask(tid, now)


def lifted(A, v):
    if isinstance(v, dict):
        return A.dict([(k, lifted(A, x)) for k, x in v.items()])
    if isinstance(v, list):
        return A.list([lifted(A, x) for x in v])
    return v


def compare(A, s, tid, op, want, what):
    r = A.call(s, 'is_sampled', tid, op)
    got, tags = r.items
    A.require_same(got, C(want[0]), 'decision', '%s: sampled' % what)
    if want[0]:
        A.require(A.same(tags, lifted(A, want[1])), 'tags', '%s: tags %s, expected %s' % (
            what, pretty(A, tags), want[1]))


def start(A, fills=(0.0, 1.0)):
    fill = A.pick('first balance', list(fills))
    A.on('random.random', lambda ip, a, kw: C(fill))
    return clock(A, 1000.0), fill


def guaranteed(A):
    c, fill = start(A)
    bound, prob = A.pick('bound, probability', [('%s %s' % p, p) for p in (
        (1.0, 0.5), (2.0, 0.25), (0.0, 0.5), (0.5, 1.0), (3, 0.0))])
    s = A.new(GT, 'op', bound, prob)
    m = Op(bound, prob, fill, c[0])
    for i, step in enumerate(A.pick('requests', [
            'y n n', 'n n y', 'n 1 n n', 'y 2 n n n', 'n y 1 n', 'n n 1000 n n n n']).split()):
        if step in 'yn':
            tid = YES if step == 'y' else NO
            compare(A, s, tid, 'op', m.ask(tid, c[0]), 'request %d' % i)
        else:
            c[0] += float(step)


def gt_update(A):
    c, fill = start(A)
    s = A.new(GT, 'op', 1.0, 0.5)
    m = Op(1.0, 0.5, fill, c[0])
    for tid in (YES, NO):
        compare(A, s, tid, 'op', m.ask(tid, c[0]), 'before')
    for _ in range(2):
        bound, prob = A.pick('update', [('%s %s' % p, p) for p in (
            (1.0, 0.5), (4.0, 0.5), (1.0, 1.0), (0.5, 0.0))])
        A.call(s, 'update', bound, prob)
        m.p = prob
        m.b.update(bound, c[0])
        for tid in (NO, YES, NO):
            compare(A, s, tid, 'op', m.ask(tid, c[0]), 'updated')
        c[0] += 1.0


def decision(A):
    """For any id and any rate: sampled iff one of the two says so, with that one's tags."""
    c, fill = start(A)
    prob = A.pick('probability', [0.5, 0.25])
    s = A.new(GT, 'op', 1.0, prob)
    tid = A.int('id', 0, 2 ** 64 - 1)
    since = A.mark
    r = A.call(s, 'is_sampled', tid, 'op')
    got, tags = A.truth(r.items[0]), r.items[1]
    yes = A.cmp(tid, '<', C(int(prob * 2 ** 64)))
    A.require(got == (yes or fill == 1.0), 'decision', 'sampled=%s' % got)
    if got:
        kind = 'probabilistic' if yes else 'lowerbound'
        A.require(A.same(tags, A.dict([('sampler.type', kind), ('sampler.param', prob)])), 'tags',
                  'tags %s' % pretty(A, tags))
    A.require(not A.events('rng', since=since), 'random', 'the decision draws a random number')


A_ = {'operation': 'a', 'probabilisticSampling': {'samplingRate': 0.5}}
B_ = {'operation': 'b', 'probabilisticSampling': {'samplingRate': 1.0}}
FULL = {'defaultSamplingProbability': 0.25, 'defaultLowerBoundTracesPerSecond': 1.0,
        'perOperationStrategies': [A_, B_]}


def adaptive(A):
    c, fill = start(A)
    most = A.pick('max operations', [3, 2, 10])
    s = A.new(AD, lifted(A, FULL), most)
    m = Model(FULL, most, fill, c[0])
    for i, step in enumerate(A.pick('requests', [
            'na ya nb na', 'nc nc nd nd', 'nc 2 nc yd na', 'yb nb 1 nb na', 'na 1 na na 1 nc']
    ).split()):
        if step[0] in 'yn':
            tid = YES if step[0] == 'y' else NO
            compare(A, s, tid, step[1], m.ask(tid, step[1], c[0]), 'request %d of %s' % (i, step[1]))
        else:
            c[0] += float(step)
    A.require(len(A.attr(s, 'samplers').entries) == len(m.ops), 'table',
              '%d operations are tracked, expected %d' % (
                  len(A.attr(s, 'samplers').entries), len(m.ops)))


def table(A):
    """The table never grows past its bound, whatever operations are asked for."""
    c, fill = start(A, (0.0,))
    most = A.pick('max operations', [0, 1, 3])
    s = A.new(AD, A.dict([('defaultSamplingProbability', 0.5)]), most)
    for i in range(5):
        op = 'op%d' % i
        r = A.call(s, 'is_sampled', NO, op)
        A.require_same(r.items[0], FALSE, 'decision', 'a first request of %s' % op)
        r = A.call(s, 'is_sampled', YES, op)
        A.require_same(r.items[0], TRUE, 'decision', 'a request of %s' % op)
        n = len(A.attr(s, 'samplers').entries)
        A.require(n == min(i + 1, most), 'table', '%d operations tracked after %d, at most %d' % (
            n, i + 1, most))


UPDATES = {
    'rates': {'defaultSamplingProbability': 0.5, 'defaultLowerBoundTracesPerSecond': 1.0,
              'perOperationStrategies': [
                  {'operation': 'a', 'probabilisticSampling': {'samplingRate': 0.0}},
                  {'operation': 'c', 'probabilisticSampling': {'samplingRate': 1.0}}]},
    'bound': {'defaultSamplingProbability': 0.25, 'defaultLowerBoundTracesPerSecond': 4.0,
              'perOperationStrategies': [A_]},
    'nothing': {},
    'same': FULL,
}


def updates(A):
    c, fill = start(A)
    s = A.new(AD, lifted(A, FULL), 3)
    m = Model(FULL, 3, fill, c[0])
    for op in 'ab':
        compare(A, s, NO, op, m.ask(NO, op, c[0]), 'before')
    for _ in range(2):
        n = A.pick('update', sorted(UPDATES))
        u = lifted(A, UPDATES[n])
        old = Frozen(A, u)
        A.call(s, 'update', u)
        old.unchanged('strategies', 'the strategies given')
        m.update(UPDATES[n], c[0])
        for tid, op in ((NO, 'a'), (YES, 'a'), (NO, 'b'), (NO, 'c'), (YES, 'd'), (NO, 'd')):
            compare(A, s, tid, op, m.ask(tid, op, c[0]), 'after update %s, operation %s' % (n, op))
        c[0] += 1.0


def defaults(A):
    c, fill = start(A)
    st = A.pick('strategies', [
        ('empty', {}), ('no lists', {'defaultSamplingProbability': 1.0}),
        ('no rate', {'perOperationStrategies': [{'operation': 'a'}]}),
        ('no rate 2', {'perOperationStrategies': [{'operation': 'a', 'probabilisticSampling': {}}]}),
        ('bound', {'defaultLowerBoundTracesPerSecond': 2.0})])
    s = A.new(AD, lifted(A, st), 2)
    m = Model(st, 2, fill, c[0])
    for i, (tid, op) in enumerate(((NO, 'a'), (YES, 'a'), (NO, 'b'), (NO, 'c'), (YES, 'c'),
                                   (2 ** 54, 'c'), (2 ** 55, 'c'))):
        compare(A, s, tid, op, m.ask(tid, op, c[0]), 'request %d of %s' % (i, op))
    c[0] += 600.0
    compare(A, s, NO, 'a', m.ask(NO, 'a', c[0]), 'after ten minutes')


def unknown(A):
    """Any operation name and id: the default probability, or its own sampler."""
    c, fill = start(A)
    s = A.new(AD, lifted(A, FULL), A.pick('max operations', [2, 3]))
    most = A.attr(s, 'max_operations').v
    op = A.str('operation')
    tid = A.int('id', 0, 2 ** 64 - 1)
    r = A.call(s, 'is_sampled', tid, op)
    got = A.truth(r.items[0])
    own = {'a': 0.5, 'b': 1.0}
    p = [q for n, q in own.items() if A.eq(op, C(n))]
    rate = p[0] if p else 0.25
    yes = A.cmp(tid, '<', C(int(rate * 2 ** 64)))
    bound = (p or most == 3) and fill == 1.0
    A.require(got == (yes or bound), 'decision', 'sampled=%s at a rate of %s' % (got, rate))
    n = len(A.attr(s, 'samplers').entries)
    A.require(n == (2 if p else most), 'table', '%d operations tracked' % n)
