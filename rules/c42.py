"""Span and trace metrics count each event once.

For every kind of parent (none, a context without a trace, any context or span with a trace, one given
by a reference, the active span), every kind of span, every answer of the sampler and the throttler and
tags that change the sampling: starting a span counts once, by the sampling state it has then; a span
that starts a trace counts as such once and a server span that takes part in a trace begun elsewhere as
joined once.  Finishing counts once for a sampled span, however often it is finished, and never for
another one.
"""
from .client import *

NAMES = {'started_y': 'm.jaeger:started_spans.y', 'started_n': 'm.jaeger:started_spans.n',
         'finished': 'm.jaeger:finished_spans',
         'trace_y': 'm.jaeger:traces.y.started', 'trace_n': 'm.jaeger:traces.n.started',
         'joined_y': 'm.jaeger:traces.y.joined', 'joined_n': 'm.jaeger:traces.n.joined'}


def run(P):
    P.scenario('names', names)
    P.scenario('root spans', root)
    P.scenario('children', child)
    P.scenario('active span', active)
    P.scenario('debug spans', debug)
    P.scenario('sampling changed by tags', changed)
    P.scenario('finishing', finishing)
    P.scenario('finishing in other ways', ways)
    P.scenario('two threads finish a span', threads)
    P.scenario('histories', histories)
    P.scenario('the client', client, loop=40)


def make(A, sampled=None, **kw):
    s, d, _ = sampler_stub(A, sampled, tags=A.dict([('sampler.type', 'stub')]))
    kw.setdefault('throttler', NONE)
    if kw['throttler'] is NONE:
        del kw['throttler']
    return tracer(A, sampler=s, metrics_factory=metrics_factory(A), **kw)


def kind(A):
    k = A.pick('kind', ['none', 'client', 'server', 'no tags'])
    return k == 'server', NONE if k == 'no tags' else A.dict(
        [] if k == 'none' else [('span.kind', k)])


def counted(A, since, what, **want):
    for k, n in NAMES.items():
        got = count_of(A, n, since)
        if got is None:
            A.soft(None, k, '%s: %s is counted by an unknown number' % (what, n[2:]))
            continue
        A.require(got == want.get(k, 0), k, '%s: %s is counted %s times, expected %d' % (
            what, n[2:], got, want.get(k, 0)))


def started(A, since, span, what, trace=False, joined=False):
    y = 'y' if A.truth(A.call(span, 'is_sampled')) else 'n'
    want = {'started_' + y: 1}
    if trace:
        want['trace_' + y] = 1
    if joined:
        want['joined_' + y] = 1
    counted(A, since, what, **want)


def names(A):
    """Every metric the tracer uses is asked for once, with these names and tags."""
    made = []

    def create(typ):
        def f(ip, a, kw):
            n, tags = argsof_(a, kw, ('name', 'tags'))
            made.append((typ, n.v, sorted((k.v, v.v) for k, v in tags.entries)
                         if isinstance(tags, DictV) else []))
            return A.fn('metric')
        return f
    mf = A.stub('mf', **{'create_' + t: create(t) for t in ('counter', 'gauge', 'timer')})
    tracer(A, metrics_factory=mf)
    want = [('counter', 'jaeger:traces', [('sampled', s), ('state', st)])
            for s in 'yn' for st in ('started', 'joined')] + \
        [('counter', 'jaeger:started_spans', [('sampled', s)]) for s in 'yn'] + \
        [('counter', 'jaeger:finished_spans', [])]
    # (one that is made when it is first used is not among them yet)
    A.require(set(map(str, made)) <= set(map(str, want)), 'names', 'the metrics are %s, expected %s' % (
        sorted(made), sorted(want)))


def root(A):
    tr = make(A, one_span_per_rpc=A.pick('rpc', [TRUE, FALSE]))
    how = A.pick('parent', ['none', 'baggage', 'reference without context', 'reference to baggage',
                            'reference by itself'])
    server, tags = kind(A)
    kw = {}
    if how == 'baggage':
        kw['child_of'] = A.new(CTX, NONE, NONE, NONE, NONE, A.dict([('k', 'v')]))
    elif how != 'none':
        c = NONE if 'without' in how else A.new(CTX, NONE, NONE, NONE, NONE, A.dict([('k', 'v')]))
        r = A.new('opentracing:Reference', 'child_of', c)
        kw['references'] = r if 'itself' in how else A.list([r])
    m = A.mark
    span = A.call(tr, 'start_span', 'op', tags=tags, **kw)
    started(A, m, span, 'a %sspan without a parent' % ('server ' if server else ''), trace=True)


def child(A):
    tr = make(A, one_span_per_rpc=A.pick('rpc', [TRUE, FALSE]))
    tid, sid = A.int('trace_id', 1, 2 ** 128 - 1), A.int('span_id', 1, 2 ** 64 - 1)
    pid = A.pick('grandparent', [('none', NONE), ('0', C(0)), ('some', A.int('parent_id', 1, 99))])
    p = A.new(CTX, tid, sid, pid, A.int('flags', 0, 255), A.dict())
    how = A.pick('given as', ['child_of', 'span', 'reference', 'references'])
    server, tags = kind(A)
    if how == 'span':
        p = A.new('jaeger_client.span:Span', context=p, tracer=tr, operation_name='p')
    ref = A.new('opentracing:Reference', 'follows_from', p)
    kw = {'references': ref if how == 'reference' else A.list([ref])} \
        if 'reference' in how else {'child_of': p}
    m = A.mark
    span = A.call(tr, 'start_span', 'op', tags=tags, **kw)
    started(A, m, span, 'a %schild' % ('server ' if server else ''), joined=server)


def active(A):
    tr = make(A)
    m = A.mark
    scope = A.call(tr, 'start_active_span', 'outer')
    outer = nonzero(A, A.attr(scope, 'span'))
    tid = A.attr(A.attr(outer, 'context'), 'trace_id')
    A.assume(not A.cmp(tid, '==', 0))
    started(A, m, outer, 'start_active_span', trace=True)
    m = A.mark
    ig = A.pick('ignore_active_span', [FALSE, TRUE])
    inner = A.call(tr, 'start_span', 'inner', ignore_active_span=ig)
    started(A, m, inner, 'inside an active span', trace=ig is TRUE)
    m = A.mark
    A.call(scope, 'close')
    y = A.truth(A.call(outer, 'is_sampled'))
    counted(A, m, 'closing the scope', finished=1 if y else 0)


def debug(A):
    th, allowed = throttler_stub(A)
    tr = make(A, sampled=A.pick('sampler', [('yes', TRUE), ('no', FALSE)]), throttler=th)
    p = A.new(CTX, NONE, NONE, NONE, NONE, A.dict(), debug_id=A.str('debug_id', minlen=1))
    server, tags = kind(A)
    m = A.mark
    span = A.call(tr, 'start_span', 'op', child_of=p, tags=tags)
    A.require_same(A.call(span, 'is_sampled'), C(allowed is TRUE), 'debug', 'a debug span')
    started(A, m, span, 'a debug span', trace=True)


def changed(A):
    """Tags given at the start that change the sampling: the state the span has then counts."""
    th, allowed = throttler_stub(A)
    tr = make(A, throttler=th)
    prio = A.pick('sampling.priority', [0, 1, '0', 'x'])
    m = A.mark
    span = A.call(tr, 'start_span', 'op', tags=A.dict([('a', 1), ('sampling.priority', prio)]))
    started(A, m, span, 'sampling.priority %r' % prio, trace=True)
    m = A.mark
    A.call(span, 'set_tag', 'sampling.priority', A.pick('later', [0, 1]))
    counted(A, m, 'changing the sampling')
    y = A.truth(A.call(span, 'is_sampled'))
    m = A.mark
    A.call(span, 'finish')
    counted(A, m, 'finishing after the change', finished=1 if y else 0)


def finishing(A):
    tr = make(A)
    span = A.call(tr, 'start_span', 'op', child_of=A.pick('parent', [
        ('none', NONE), ('some', parent_context(A))]))
    y = A.truth(A.call(span, 'is_sampled'))
    m = A.mark
    at = A.pick('finish time', [('now', NONE), ('given', A.sym('t', 'float', 1, 2 ** 33))])
    A.call(span, 'finish', at)
    counted(A, m, 'finishing', finished=1 if y else 0)
    m = A.mark
    A.call(span, 'finish')
    counted(A, m, 'finishing again')


def ways(A):
    tr = make(A, sampled=A.pick('sampled', [('yes', TRUE), ('no', FALSE)]))
    how = A.pick('finished by', ['with', 'with that fails', 'scope', 'scope that does not finish'])
    m = A.mark
    if how.startswith('with'):
        span = A.call(tr, 'start_span', 'op')
        A.call(span, '__enter__')
        e = failure(A)
        fail = 'fails' in how
        A.call(span, '__exit__', *([e.cls, e, NONE] if fail else [NONE] * 3))
    else:
        scope = A.call(tr, 'start_active_span', 'op', finish_on_close='not' not in how)
        span = A.attr(scope, 'span')
        A.call(scope, 'close')
    y = 'y' if A.truth(A.call(span, 'is_sampled')) else 'n'
    counted(A, m, how, **{'started_' + y: 1, 'trace_' + y: 1,
                          'finished': 1 if y == 'y' and 'not' not in how else 0})


def threads(A):
    tr = make(A, sampled=TRUE)
    span = A.call(tr, 'start_span', 'op')
    m = A.mark
    fin = lambda: A.call(span, 'finish')
    A.race(fin, fin, span)
    counted(A, m, 'two threads finishing one span', finished=1)


def histories(A):
    """Sequences of starting and finishing: the counts are those of the events."""
    tr = make(A)
    m = A.mark
    spans, done, n = [], [], {}

    def add(k):
        n[k] = n.get(k, 0) + 1
    for i in range(3):
        act = A.pick('act%d' % i, ['root', 'child', 'finish'])
        if act == 'root':
            s = nonzero(A, A.call(tr, 'start_span', 'op'))
            A.assume(not A.cmp(A.attr(A.attr(s, 'context'), 'trace_id'), '==', 0))
        elif not spans:
            return A.stop()
        elif act == 'child':
            s = nonzero(A, A.call(tr, 'start_span', 'op', child_of=spans[-1]))
        else:
            s = spans.pop()
            A.call(s, 'finish')
            if A.truth(A.call(s, 'is_sampled')):
                add('finished')
            continue
        y = 'y' if A.truth(A.call(s, 'is_sampled')) else 'n'
        add('started_' + y)
        if act == 'root':
            add('trace_' + y)
        spans.append(s)
    counted(A, m, 'a history', **n)


def client(A):
    """The tracer of a configuration counts with the metrics of the configuration."""
    k = Client(A, {'sampler': {'type': 'const', 'param': A.pick('sampler', [0, 1])}})
    tr = k.tracer()
    m = A.mark
    sp = k.spans(2)
    y = 'y' if A.truth(A.call(sp[0], 'is_sampled')) else 'n'
    counted(A, m, 'two spans', **{'started_' + y: 2, 'trace_' + y: 2,
                                  'finished': 2 if y == 'y' else 0})
    k.run()
    counted(A, m, 'two spans, sent', **{'started_' + y: 2, 'trace_' + y: 2,
                                        'finished': 2 if y == 'y' else 0})
