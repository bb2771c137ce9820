"""Every metrics backend receives each measurement once, under the right name and with the right unit.

Each factory is asked for counters, gauges and timers with any name and any tags in any order; each value
recorded reaches the backend once and unchanged (a timer of the legacy metrics in milliseconds).  The
Prometheus library is replaced by a registry which, as the library does, refuses a name that is registered
twice, so that metrics that need one of their own get one and those of equal name share one.
"""
import itertools

from .client import *
from .c18 import binop

METRICS = 'jaeger_client.metrics:Metrics'
LEGACY = 'jaeger_client.metrics:LegacyMetricsFactory'
NOOP = 'jaeger_client.metrics:MetricsFactory'
PROM = 'jaeger_client.metrics.prometheus:PrometheusMetricsFactory'
KINDS = ('counter', 'gauge', 'timer')
CALL = {'counter': 'count', 'gauge': 'gauge', 'timer': 'timing'}


def run(P):
    P.scenario('legacy names', legacy_names)
    P.scenario('legacy tags in any order', order)
    P.scenario('legacy values', legacy_values)
    P.scenario('metrics without functions', partly)
    P.scenario('an object with a truth value as function', falsy)
    P.scenario('no metrics', noop)
    P.scenario('prometheus', prom)
    P.scenario('prometheus names that resemble each other', similar)
    P.scenario('prometheus tags in any order', prom_order)
    P.scenario('prometheus metrics asked for again', again)
    P.scenario('names of the client', names, loop=60)
    P.scenario('the client', client, loop=40)


def values(A):
    return A.pick('value', [('whole', A.sym('value', 'int')), ('fraction', A.sym('value', 'float')),
                            ('0', C(0))])


def metrics(A, *names):
    return A.new(METRICS, **{n: A.fn(n) for n in (names or ('count', 'gauge', 'timing'))})


def passed(A, since, kind, key, value, what, times=1):
    """The backend got key and value, and no other function was called."""
    got = A.calls(('count', 'gauge', 'timing'), since)
    ok = A.require(len(got) == times, 'once', '%s: %d measurements reach the backend, expected %d' % (
        what, len(got), times))
    for e in got if ok else ():
        A.require(e.name == CALL[kind], 'function', '%s: given to %s' % (what, e.name))
        a = list(e.args)
        A.require(len(a) == 2 and not e.kwargs, 'arguments', '%s: %d arguments' % (what, len(a)))
        A.require_same(a[0], key, 'name', '%s: the name' % what)
        want = binop(A.ip, 'Div', value, C(1000.0)) if kind == 'timer' else value
        A.require_same(a[1], want, 'value', '%s: the value' % what)


def create(A, f, kind, name, tags=None):
    kw = {} if tags is None else {'tags': tags}
    return A.call(f, 'create_' + kind, name=name, **kw)


def legacy_names(A):
    kind = A.pick('metric', KINDS)
    f = A.new(LEGACY, metrics(A))
    name = A.str('name')
    how = A.pick('tags', ['absent', 'None', 'empty', 'one', 'two', 'numbers'])
    tags = {'absent': None, 'None': NONE, 'empty': A.dict(),
            'one': A.dict([('k', A.str('v'))]),
            'two': A.dict([('k', A.str('v')), ('a', A.str('w'))]),
            'numbers': A.dict([('n', 7)])}[how]
    key = {'one': cat(name, '.k_', A.str('v')), 'numbers': cat(name, '.n_7'),
           'two': cat(name, '.a_', A.str('w'), '.k_', A.str('v'))}.get(how, name)
    v = values(A)
    m = create(A, f, kind, name, tags)
    n = A.mark
    A.apply(m, v)
    passed(A, n, kind, key, v, 'a %s, tags %s' % (kind, how))


TAGS = [('Op', '1'), ('op', '2'), ('a', '3'), ('B', '4'), ('sampled', 'y'), ('10', 'x'), ('9', 'z')]


def order(A):
    """One name for a set of tags, whatever their order."""
    kind = A.pick('metric', KINDS)
    some = A.pick('tags', [('three', TAGS[:3]), ('others', TAGS[2:5]), ('numbers', TAGS[5:] + TAGS[:1]),
                           ('cases', TAGS[1:4])])
    f = A.new(LEGACY, metrics(A))
    keys = []
    for p in itertools.permutations(some):
        n = A.mark
        A.apply(create(A, f, kind, 'n', A.dict(list(p))), 1)
        e = A.calls(('count', 'gauge', 'timing'), n)
        keys += [pretty(A, x.args[0]) for x in e]
    A.require(len(set(keys)) == 1, 'order', 'the same tags in different orders give the names %s'
              % ', '.join(sorted(set(keys))))
    want = repr('n' + ''.join('.%s_%s' % t for t in sorted(some)))
    A.require(set(keys) == {want}, 'sorted', 'the name is %s, expected %s' % (keys[0], want))


def legacy_values(A):
    """Several metrics of one factory, several values of each."""
    f = A.new(LEGACY, metrics(A))
    ms_ = [(k, n, create(A, f, k, n, A.dict([('t', n)])))
           for k in KINDS for n in ('one', 'two')]
    more = A.pick('same name', [('no', None), ('another value', ('t', 'x')), ('another tag', ('u', 'one')), ('no tags', ())])
    if more is not None:
        k = A.pick('kind', KINDS)
        m, n = create(A, f, k, 'one', A.dict([more] if more else [])), A.mark
        A.apply(m, 5)
        passed(A, n, k, C('one.%s_%s' % more if more else 'one'), C(5), 'another %s of that name' % k)
        n = A.mark
        A.apply(ms_[KINDS.index(k) * 2][2], 6)
        passed(A, n, k, C('one.t_one'), C(6), 'the first %s of that name' % k)
        return
    for i in range(3):
        kind, n, m = A.pick('metric%d' % i, [('%s %s' % x[:2], x) for x in ms_])
        v = A.sym('value%d' % i, A.pick('type%d' % i, ['int', 'float']))
        s = A.mark
        A.apply(m, v)
        passed(A, s, kind, C('%s.t_%s' % (n, n)), v, '%s %s' % (kind, n))


def partly(A):
    have = [n for n in CALL.values() if A.pick(n, [True, False])]
    other = A.pick('instead', [('absent', None), ('None', NONE), ('number', C(123)), ('text', C('x'))])
    kw = {n: A.fn(n) for n in have}
    if other is not None:
        kw.update((n, other) for n in CALL.values() if n not in have)
    f = A.new(LEGACY, A.new(METRICS, **kw))
    for kind in KINDS:
        n = A.mark
        r, exc = A.catch(A.apply, create(A, f, kind, 'n'), 5)
        if A.require(exc is None, 'raises', 'a %s without a function raises' % kind):
            passed(A, n, kind, C('n'), C(5), kind, 1 if CALL[kind] in have else 0)


def falsy(A):
    """What can be called is called, also when it is an empty collection at the same time."""
    o = A.new('application:Collector', A.fn('used'))
    f = A.new(LEGACY, A.new(METRICS, count=o, gauge=o, timing=o))
    for kind in KINDS:
        n = A.mark
        A.apply(create(A, f, kind, 'n'), 5)
        got = A.calls('used', n)
        A.require(len(got) == 1, 'falsy', 'a %s whose function is an empty collection is recorded '
                  '%d times' % (kind, len(got)))


def noop(A):
    f = A.new(NOOP) if A.pick('factory', ['MetricsFactory', 'legacy']) == 'MetricsFactory' \
        else A.new(LEGACY, A.new(METRICS))
    kind = A.pick('metric', KINDS)
    r, exc = A.catch(A.apply, create(A, f, kind, A.str('name'), A.pick('tags', [
        ('none', None), ('some', A.dict([('a', A.str('v'))]))])), values(A))
    A.require(exc is None, 'raises', 'a %s raises %s' % (kind, exc and exc.cls.name))


# ---- Prometheus

class Registry(object):
    """The library: metrics by full name; what they are increased by or set to."""

    def __init__(self, A):
        self.A, self.metrics, self.got = A, {}, []
        for n in ('Counter', 'Gauge', 'Histogram', 'Summary'):
            A.on('prometheus_client.' + n, self.maker(n))

    def maker(self, typ):
        def make(ip, a, kw):
            a = argsof_(a, kw, ('name', 'documentation', 'labelnames', 'namespace'))
            names = [] if a[2] is NONE else [x.v for x in ms.iterate(ip, a[2], None)]
            ns = '' if a[3] is NONE else a[3].v
            full = (ns + '_' if ns else '') + a[0].v
            if full in self.metrics:
                raise ip.exc('ValueError', 'Duplicated timeseries in CollectorRegistry: ' + full)
            self.metrics[full] = (typ, names)
            return self.metric(typ, full, names, None)
        return make

    def metric(self, typ, full, names, labels):
        def labels_(ip, a, kw):
            ip_ok = labels is None and names
            if not ip_ok:
                raise ip.exc('ValueError', 'No label names were set when constructing %s' % full)
            if a:
                if kw or len(a) != len(names):
                    raise ip.exc('ValueError', 'Incorrect label count')
                kw = dict(zip(names, a))
            if sorted(kw) != sorted(names):
                raise ip.exc('ValueError', 'Incorrect label names')
            return self.metric(typ, full, names, dict(kw))

        def record(op):
            def f(ip, a, kw):
                if names and labels is None:
                    raise ip.exc('ValueError', 'metric %s is missing label values' % full)
                v = a[0] if a else kw.get('amount', kw.get('value', C(1)))
                self.got.append((typ, full, labels or {}, op, v))
                return NONE
            return f
        ops = {'Counter': ['inc'], 'Gauge': ['inc', 'dec', 'set']}.get(typ, ['observe'])
        return self.A.stub(typ, labels=labels_, **{o: record(o) for o in ops})

    def recorded(self, since, kind, full, labels, v, what):
        A = self.A
        got = self.got[since:]
        if not A.require(len(got) == 1, 'once', '%s: %d values reach the backend' % (what, len(got))):
            return
        typ, name, ls, op, val = got[0]
        A.require((typ, op) == {'counter': ('Counter', 'inc'), 'gauge': ('Gauge', 'set')}[kind],
                  'function', '%s: it is %s.%s' % (what, typ, op))
        A.require(name == full, 'name', '%s: the name is %s, expected %s' % (what, name, full))
        A.require(sorted(ls) == sorted(labels) and all(A.same(ls[k], lift(labels[k])) for k in ls),
                  'labels', '%s: the labels are %s, expected %s' % (
                      what, {k: pretty(A, x) for k, x in ls.items()},
                      {k: pretty(A, lift(x)) for k, x in labels.items()}))
        A.require_same(val, v, 'value', '%s: the value' % what)


def prom(A):
    r = Registry(A)
    ns = A.pick('namespace', ['', 'ns'])
    svc = A.pick('service label', [('absent', NONE), ('empty', C('')), ('given', A.str('svc', minlen=1))])
    f = A.new(PROM, ns, svc)
    kind = A.pick('metric', ('counter', 'gauge'))
    how = A.pick('tags', ['absent', 'None', 'empty', 'one', 'two'])
    labels = {'one': {'k': A.str('v')}, 'two': {'k': A.str('v'), 'a': A.str('w')}}.get(how, {})
    tags = {'absent': None, 'None': NONE}.get(how, A.dict(list(labels.items())))
    m, exc = A.catch(create, A, f, kind, 'n', tags)
    if not A.require(exc is None, 'raises', 'creating a %s with tags %s raises' % (kind, how)):
        return
    want = dict(labels)
    if svc is not NONE and not (isinstance(svc, C) and svc.v == ''):
        want['service'] = svc
    for i in range(2):
        v = A.sym('value%d' % i, A.pick('type%d' % i, ['int', 'float']))
        s = len(r.got)
        x, exc = A.catch(A.apply, m, v)
        if A.require(exc is None, 'raises', 'a %s with tags %s raises' % (kind, how)):
            r.recorded(s, kind, (ns + '_' if ns else '') + 'n', want, v, 'a %s' % kind)


PAIRS = [(('a', ['b']), ('ab', [])), (('a', ['b', 'c']), ('ab', ['c'])), (('a', ['b@@c']), ('ab@@c', [])),
         (('n', ['x']), ('m', ['x'])), (('n', []), ('ns', [])), (('n', ['a', 'b']), ('na', ['b'])),
         (('reporter', ['y', 'x']), ('reportery', ['x']))]


def similar(A):
    """Metrics of different names are different metrics, whatever their labels."""
    pair = A.pick('names', [(str(p), p) for p in PAIRS])
    if A.pick('first', ['one', 'other']) == 'other':
        pair = pair[::-1]
    r = Registry(A)
    f = A.new(PROM)
    kinds = [A.pick('metric%d' % i, ('counter', 'gauge')) for i in (0, 1)]
    made = []
    for kind, (n, ls) in zip(kinds, pair):
        m, exc = A.catch(create, A, f, kind, n, A.dict([(x, 'v' + x) for x in ls]))
        A.require(exc is None, 'raises', 'creating %s raises' % n)
        made.append(m)
    for kind, (n, ls), m in zip(kinds, pair, made):
        s = len(r.got)
        x, exc = A.catch(A.apply, m, 3)
        if A.require(exc is None, 'raises', 'recording %s raises' % n):
            r.recorded(s, kind, n, {x: 'v' + x for x in ls}, C(3), n)


def prom_order(A):
    """The same metric with the tags in another order, and with other values."""
    kind = A.pick('metric', ('counter', 'gauge'))
    some = A.pick('tags', [('two', TAGS[1:3]), ('three', TAGS[1:4])])
    svc = A.pick('service label', [('absent', NONE), ('given', C('svc'))])
    r = Registry(A)
    f = A.new(PROM, '', svc)
    extra = {} if svc is NONE else {'service': 'svc'}
    for i, p in enumerate(itertools.permutations(some)):
        labels = {k: v + str(i) for k, v in p}
        m, exc = A.catch(create, A, f, kind, 'n', A.dict([(k, labels[k]) for k, _ in p]))
        if not A.require(exc is None, 'order', 'a metric with its tags in another order cannot be made'):
            return
        s = len(r.got)
        A.apply(m, i + 1)
        r.recorded(s, kind, 'n', dict(labels, **extra), C(i + 1), 'tags in order %d' % i)


def again(A):
    """A metric asked for a second time is the same."""
    kind = A.pick('metric', ('counter', 'gauge'))
    r = Registry(A)
    f = A.new(PROM, 'ns')
    tags = A.pick('tags', [('none', []), ('one', [('k', 'v')])])
    ms_ = []
    for i in range(3):
        m, exc = A.catch(create, A, f, kind, 'n', A.dict(tags))
        if not A.require(exc is None, 'again', 'a metric cannot be asked for a second time'):
            return
        ms_.append(m)
    for i, m in enumerate(ms_):
        s = len(r.got)
        A.apply(m, 2)
        r.recorded(s, kind, 'ns_n', dict(tags), C(2), 'asked for the %d. time' % (i + 1))


RESULTS = {'jaeger:reporter_spans': ('ok', 'err', 'dropped'), 'jaeger:sampler_queries': ('ok', 'err'),
           'jaeger:sampler_updates': ('ok', 'err'), 'jaeger:throttler_update': ('ok', 'err')}
KNOWN = [('counter', n, (('result', r),)) for n, rs in RESULTS.items() for r in rs] + [
    ('counter', 'jaeger:traces', (('sampled', y), ('state', st))) for y in 'yn' for st in ('started', 'joined')] + [
    ('counter', 'jaeger:started_spans', (('sampled', y),)) for y in 'yn'] + [
    ('counter', 'jaeger:finished_spans', ()), ('counter', 'jaeger:throttled_debug_spans', ()),
    ('gauge', 'jaeger:reporter_queue_length', ())]


def names(A):
    """The names and tags under which the client measures; every one that is used is one of these."""
    made, used = [], []

    def create(typ):
        def f(ip, a, kw):
            n, tags = argsof_(a, kw, ('name', 'tags'))
            m = (typ, n.v, tuple(sorted((k.v, v.v) for k, v in tags.entries)) if isinstance(tags, DictV) else ())
            made.append(m)

            def value(ip, a, kw):
                used.append(m)
                return NONE
            return A.fn('metric', value)
        return f
    mf = A.stub('mf', **{'create_' + t: create(t) for t in ('counter', 'gauge', 'timer')})
    k = Client(A, {'throttler': {'port': 9}, 'reporter_batch_size': 1}, metrics_factory=mf)
    tr = k.tracer()
    k.spans(1, tags=A.dict([('sampling.priority', 1)]))
    k.run()
    k.first_polls()
    good = A.pick('answers', ['good', 'bad']) == 'good'
    for i, u in enumerate(list(k.urls)):
        credits = '/credits' in show(u)
        k.answer((b'{"balances": [{"operation": "op", "balance": 5.0}]}' if credits else
                  b'{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 5}}') if good else b'?', i)
    k.spans(2, tags=A.dict([('sampling.priority', 1)]))
    A.call(tr, 'start_span', 'x', child_of=A.new(CTX, 1, 2, NONE, 1),
           tags=A.dict([('span.kind', 'server')]))
    k.run()
    odd = sorted(set(made) - set(KNOWN))
    A.require(not odd, 'names', 'metrics are made under unknown names or tags: %s' % odd)
    want = [('counter', 'jaeger:throttled_debug_spans', ()),
            ('counter', 'jaeger:throttler_update', (('result', 'ok' if good else 'err'),)),
            ('counter', 'jaeger:sampler_queries', (('result', 'ok' if good else 'err'),))]
    if good:
        want += [('counter', 'jaeger:sampler_updates', (('result', 'ok'),)),
                 ('counter', 'jaeger:reporter_spans', (('result', 'ok'),)), ('counter', 'jaeger:finished_spans', ()),
                 ('gauge', 'jaeger:reporter_queue_length', ())]
    left = [w for w in want if w not in used]
    A.require(not left, 'used', '%s answers: no value under %s, but under %s' % (
        'good' if good else 'bad', left, sorted(set(used))))


def client(A):
    """A tracer with each kind of backend."""
    how = A.pick('backend', ['metrics', 'factory', 'prometheus', 'switched off'])
    r = Registry(A)
    kw = {'metrics': metrics(A), 'metrics_factory': NONE}
    if how == 'factory':
        kw = {'metrics_factory': A.new(LEGACY, metrics(A))}
    elif how == 'prometheus':
        kw = {'metrics_factory': A.new(PROM, 'ns', 'svc')}
    k = Client(A, {'sampler': {'type': 'const', 'param': 1}, 'metrics': how != 'switched off'}, **kw)
    n = A.mark
    k.tracer()
    k.spans(2)
    k.run()
    if how == 'prometheus':
        got = [(x[1], tuple(sorted((a, b.v) for a, b in x[2].items()))) for x in r.got
               if x[3] == 'inc' for _ in range(x[4].v)]
        want = [('ns_jaeger:started_spans', (('sampled', 'y'), ('service', 'svc'))),
                ('ns_jaeger:finished_spans', (('service', 'svc'),)),
                ('ns_jaeger:reporter_spans', (('result', 'ok'), ('service', 'svc'))),
                ('ns_jaeger:traces', (('sampled', 'y'), ('service', 'svc'), ('state', 'started')))]
    else:
        got = [e.args[0].v for e in A.calls('count', n) for _ in range(e.args[1].v)]
        want = [] if how == 'switched off' else [
            'jaeger:started_spans.sampled_y', 'jaeger:finished_spans', 'jaeger:reporter_spans.result_ok',
            'jaeger:traces.sampled_y.state_started']
    A.require(sorted(map(str, got)) == sorted(map(str, want * 2)), 'client',
              '%s: the backend counts %s, expected each of %s twice' % (how, got, want))
