"""The client's locks are free of deadlocks.

Every operation is run with code of the application in every place where the client calls such code
(conversion of values and errors, logging handlers, metrics, samplers, throttlers, reporters), and that
code uses the span and the tracer again: no lock is awaited that the same thread holds.  After every
operation, also one that raises in the middle, no lock is held any more.  The pairs of locks taken one
within the other are collected over all paths; no two kinds are taken in both orders.
"""
from .client import *
from .c26 import Remote
from .c29 import Rep
from .c34 import Thr

APP = 'application:'
EDGES = {}


def run(P):
    EDGES.clear()
    P.scenario('life of a client', life, loop=60)
    P.scenario('values in a span', values)
    P.scenario('values of a sampling priority', priority)
    P.scenario('values that cannot be converted', failing_values)
    P.scenario('samplers and throttlers of the application', parts)
    P.scenario('parts that fail', failing_parts)
    P.scenario('metrics that fail', failing_metrics, loop=60)
    P.scenario('event loops that fail', failing_loop)
    P.scenario('initialisation', initialisation, loop=40)
    P.scenario('reporters', reporters, loop=40)
    P.scenario('reporter without a process', no_process, loop=40)


def name(l):
    return l.label or 'the lock made at %s' % getattr(l, 'site', '?')


def reaches(a, b):
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += [d for (c, d) in EDGES if c == x]
    return False


def free(A, what, f, *args, **kw):
    """f(), after which no lock is held; it does not raise PathCut for a deadlock."""
    got = None, None
    if hasattr(A, 'user'):
        A.user.left = 12        # spans that report spans do so without end
    try:
        got = A.catch(f, *args, **kw)
    except PathCut:
        if A.ip.deadlocks:
            l, where = A.ip.deadlocks[-1]
            A.require(False, 'deadlock', '%s: %s is taken again by the thread that holds it' % (
                what, name(l)), where)
            A.stop()
        raise
    A.require(not A.ip.deadlocks, 'deadlock', '%s: a deadlock' % what)
    held = [name(l) for l in A.ip.held]
    A.require(not held, 'held', '%s: %s is still held afterwards' % (what, ', '.join(held)))
    for h, l, where in A.ip.lock_edges:
        if h is l:
            continue
        a, b = name(h), name(l)
        if (a, b) not in EDGES:
            back = reaches(b, a)
            EDGES[a, b] = where
            A.require(not back, 'order', '%s is taken while %s is held, elsewhere the other way '
                      'round (%s)' % (b, a, EDGES.get((b, a))), where)
    return got


def fine(A, what, f, *args, **kw):
    """free, and it does not raise."""
    v, exc = free(A, what, f, *args, **kw)
    A.require(exc is None, 'exception', '%s raises %s' % (what, exc and exc.cls.name),
              exc.attrs.get('__loc__') if exc else None)
    return v


class User(object):
    """Code of the application that is called by the client, and uses it again."""

    def __init__(self, A):
        self.A, self.inside, self.calls, self.span, self.tr = A, False, 0, None, None
        self.cfg = None
        A.user, self.left = self, 12
        self.what = A.pick('it', ['uses the span', 'starts spans', 'starts debug spans',
                                  'injects and extracts', 'closes the tracer'])

    def __call__(self, *a):
        if self.inside or self.left == 0:
            return NONE
        self.left -= 1
        self.inside = True
        self.calls += 1
        n = len(self.A.ip.lock_edges)
        try:
            self.again()
        finally:
            self.inside = False
            # the order of locks is claimed for the client's own code
            del self.A.ip.lock_edges[n:]
        return NONE

    def again(self):
        A, s, t = self.A, self.span, self.tr
        if self.cfg is not None:
            A.call(self.cfg, 'initialized')
            A.call(self.cfg, 'initialize_tracer')
        if self.what == 'uses the span' and s is not None:
            A.call(s, 'set_operation_name', 'again')
            A.call(s, 'set_tag', 'again', 'v')
            A.call(s, 'set_tag', 'sampling.priority', 1)
            A.call(s, 'log_kv', A.dict([('event', 'again')]))
            A.call(s, 'set_baggage_item', 'again', 'v')
            A.call(s, 'get_baggage_item', 'again')
            A.call(s, 'finish')
        elif t is None:
            return
        elif self.what == 'starts spans':
            for kw in [{}] + ([{'child_of': s}] if s is not None else []):
                x = A.call(t, 'start_span', 'again', **kw)
                A.call(x, 'set_tag', 'sampling.priority', 1)
                A.call(x, 'finish')
        elif self.what == 'starts debug spans':
            x = A.call(t, 'start_span', 'again', child_of=A.new(
                CTX, NONE, NONE, NONE, NONE, NONE, 'debug'))
            A.call(x, 'finish')
        elif self.what == 'injects and extracts' and s is not None:
            h = A.dict()
            A.call(t, 'inject', s, fmt(A, 'TEXT_MAP'), h)
            A.catch(A.call, t, 'extract', fmt(A, 'TEXT_MAP'), h)     # an id can be 0
        elif self.what == 'closes the tracer':
            A.call(t, 'close')

    def native(self):
        return Native('use', lambda ip, a, kw: self())

    def metrics(self):
        def create(ip, a, kw):
            return Native('metric', lambda ip, a, kw: self())
        return self.A.stub('metrics', create_counter=create, create_gauge=create, create_timer=create)


def root(A, u, tr, **kw):
    u.span = None
    u.span = A.call(tr, 'start_span', 'op', **kw)
    return u.span


# ---- the whole client

ANSWERS = ['{"strategyType": "RATE_LIMITING", "rateLimitingSampling": {"maxTracesPerSecond": 3}}',
           '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1}}',
           '{"operationSampling": {"defaultSamplingProbability": 0.5, '
           '"defaultLowerBoundTracesPerSecond": 2, "perOperationStrategies": '
           '[{"operation": "op", "probabilisticSampling": {"samplingRate": 1}}]}}',
           '{"strategyType": "?"}', 'no json', '[]', '{"balances": []}',
           '{"balances": [{"operation": "op", "balance": 2}]}', '{"balances": 5}']


def life(A):
    u = User(A)
    kind = A.pick('sampler', ['constant', 'remote'])
    c = Client(A, {'sampler': {'type': 'const', 'param': 1} if kind == 'constant' else {},
                   'throttler': {}, 'logging': True, 'max_operations': 2},
               metrics_factory=u.metrics())
    A.ip.on_log = lambda meth, a: u()
    fine(A, 'building', c.tracer)
    u.tr = c.tr
    fine(A, 'polling', c.first_polls)
    debug = A.new(CTX, NONE, NONE, NONE, NONE, NONE, 'debug')
    which = A.pick('answers', (list(range(6)) if kind == 'remote' else [6, 7, 8]) + ['error'])
    for kw in ({}, {'child_of': debug}):
        fine(A, 'starting', root, A, u, c.tr, **kw)
        fine(A, 'priority', A.call, u.span, 'set_tag', 'sampling.priority', 1)
        fine(A, 'finishing', A.call, u.span, 'finish')
        fine(A, 'finishing twice', A.call, u.span, 'finish')
        fine(A, 'reporting', c.run)
        for p, _ in list(c.periodics):
            n = len(c.answers)
            fine(A, 'polling', A.ip.call, p, [])
            fine(A, 'polling', c.loop.run)
            if len(c.answers) == n:
                continue
            if which == 'error':
                fine(A, 'the answer', settle, A, c.answers[-1], exc=failure(A))
                fine(A, 'the answer', c.loop.run)
            else:
                fine(A, 'the answer', c.answer, ANSWERS[which])
    fine(A, 'closing', A.call, c.tr, 'close')
    fine(A, 'closing', c.run)


# ---- values

def make(A, u, sampled=TRUE, **kw):
    s, _, _ = sampler_stub(A, sampled, A.dict())
    th = A.stub('throttler', is_allowed=lambda ip, a, kw: u() and TRUE,
                set_client_id=lambda ip, a, kw: NONE, close=lambda ip, a, kw: NONE)
    f = FutV('closed')
    f.state, f.value = 'done', TRUE
    rep = A.stub('reporter', report_span=lambda ip, a, kw: u(),
                 set_process=lambda ip, a, kw: NONE, close=lambda ip, a, kw: f)
    u.tr = tracer(A, sampler=s, reporter=rep, throttler=th, metrics_factory=u.metrics(), **kw)
    A.ip.on_log = lambda meth, a: u()
    return u.tr


def recorded(A, span, v):
    """Each way to give a value to a span."""
    return A.pick('given as', [
        ('tag', lambda: A.call(span, 'set_tag', 'k', v)),
        ('log', lambda: A.call(span, 'log_kv', A.dict([('k', v)]))),
        ('timed log', lambda: A.call(span, 'log_kv', A.dict([('k', v), ('event', v)]), 5.0)),
        ('event', lambda: A.call(span, 'log_event', 'e', v)),
        ('info', lambda: A.call(span, 'info', 'm', v)),
        ('error', lambda: A.call(span, 'error', 'm', v)),
        ('exception', lambda: A.call(span, '__exit__', *(lambda x: [x.cls, x, NONE])(
            A.new(APP + 'Error', getattr(v, 'attrs', {}).get('use', NONE))))),
        ('start tag', lambda: A.call(A.attr(span, 'tracer'), 'start_span', 'op', child_of=span,
                                     tags=A.dict([('k', v)])))])


def values(A):
    u = User(A)
    tr = make(A, u)
    fine(A, 'starting', root, A, u, tr)
    v = A.new(APP + 'Value', u.native())
    fine(A, 'recording a value', recorded(A, u.span, v))
    fine(A, 'finishing', A.call, u.span, 'finish')
    A.tag('conversion')
    A.require(u.calls > 0, 'used', 'no code of the application runs')


def priority(A):
    u = User(A)
    tr = make(A, u)
    flags = A.pick('flags', [0, 1, 3])
    fine(A, 'starting', root, A, u, tr, child_of=A.new(CTX, 1, 2, 3, flags))
    v = A.new(APP + 'Value', u.native(), A.pick('priority', [0, 1]))
    fine(A, 'setting the priority', A.call, u.span, 'set_tag', 'sampling.priority', v)
    fine(A, 'finishing', A.call, u.span, 'finish')


def failing_values(A):
    u = User(A)
    tr = make(A, u)
    free(A, 'starting', root, A, u, tr, child_of=A.new(CTX, 1, 2, 3, 1))
    err = A.pick('error', ['RuntimeError', 'KeyboardInterrupt', 'ValueError'])
    v = A.new(APP + 'Failing', u.native(), A.load_builtin(err) if hasattr(A, 'load_builtin') else
              A.ip.exc(err, '').value.cls)
    if A.pick('as', ['value', 'priority']) == 'value':
        free(A, 'recording a value', recorded(A, u.span, v))
    else:
        free(A, 'setting the priority', A.call, u.span, 'set_tag', 'sampling.priority', v)
    usable(A, u.span)


def usable(A, span, may_fail=False):
    """The span can still be used, by any thread."""
    for op, args in (('set_operation_name', ['x']), ('set_tag', ['a', 'b']),
                     ('set_tag', ['sampling.priority', 1]), ('set_baggage_item', ['a', 'b']),
                     ('log_kv', [A.dict([('event', 'x')])]), ('finish', [])):
        (free if may_fail else fine)(A, 'afterwards, ' + op, A.call, span, op, *args)


# ---- parts

def parts(A):
    """The application's own sampler, throttler and reporter use the tracer."""
    u = User(A)
    tr = make(A, u, A.pick('sampled', [('yes', TRUE), ('no', FALSE)]))
    inner = A.attr(tr, 'sampler')
    inner.attrs['is_sampled'] = Native('is_sampled', lambda ip, a, kw: u() and Tup([TRUE, A.dict()]))
    kw = A.pick('parent', [('none', {}), ('debug id', {'child_of': A.new(
        CTX, NONE, NONE, NONE, NONE, NONE, 'd')}), ('some', {'child_of': A.new(CTX, 1, 2, 3, 0)})])
    fine(A, 'starting', root, A, u, tr, **kw)
    usable(A, u.span)
    fine(A, 'closing', A.call, tr, 'close')


def raising(A, what):
    def f(ip, a, kw):
        raise PyExc(failure(A, 'RuntimeError', what), ip.where())
    return Native(what, f)


def failing_parts(A):
    """A part raises in the middle of an operation."""
    part = A.pick('failing', ['sampler', 'throttler', 'reporter', 'wrapped sampler'])
    u = User(A)
    tr = make(A, u)
    sampler, th, rep = A.attr(tr, 'sampler'), A.attr(tr, 'throttler'), A.attr(tr, 'reporter')
    if part == 'wrapped sampler':
        # inside the remotely controlled one
        inner = A.stub('inner', is_sampled=lambda ip, a, kw: Tup([TRUE, A.dict()]),
                       close=lambda ip, a, kw: NONE)
        r = Remote(A, inner)
        inner.attrs['is_sampled'] = raising(A, 'is_sampled')
        A.ip.setattr(tr, 'sampler', r.s)
        u.what = 'uses the span'
    free(A, 'starting', root, A, u, tr, child_of=A.new(CTX, 1, 2, 3, 1))
    if part == 'sampler':
        sampler.attrs['is_sampled'] = raising(A, 'is_sampled')
    elif part == 'throttler':
        th.attrs['is_allowed'] = raising(A, 'is_allowed')
    elif part == 'reporter':
        rep.attrs['report_span'] = raising(A, 'report_span')
    usable(A, u.span, True)
    for kw in ({}, {'child_of': A.new(CTX, NONE, NONE, NONE, NONE, NONE, 'd')}):
        free(A, 'starting', A.call, tr, 'start_span', 'other', **kw)
    usable(A, u.span, True)


def failing_metrics(A):
    """Metrics raise; whatever the operation does then, it keeps no lock."""
    u = User(A)
    u.what = 'nothing'
    c = Client(A, {'throttler': {}, 'max_operations': 2}, metrics_factory=A.stub(
        'metrics', **{n: lambda ip, a, kw: A.failing_metric for n in (
            'create_counter', 'create_gauge', 'create_timer')}))
    boom = raising(A, 'metric')
    A.failing_metric = Native('metric', lambda ip, a, kw: boom.fn(ip, a, kw) if u.inside else NONE)
    free(A, 'building', c.tracer)
    free(A, 'polling', c.first_polls)
    free(A, 'starting', root, A, u, c.tr, child_of=A.new(CTX, 1, 2, 3, 1))
    u.inside = True
    which = A.pick('answers', list(range(len(ANSWERS))))
    free(A, 'priority', A.call, u.span, 'set_tag', 'sampling.priority', 1)
    free(A, 'finishing', A.call, u.span, 'finish')
    free(A, 'starting', A.call, c.tr, 'start_span', 'op')
    free(A, 'starting', A.call, c.tr, 'start_span', 'op', child_of=A.new(
        CTX, NONE, NONE, NONE, NONE, NONE, 'd'))
    for p, _ in list(c.periodics):
        n = len(c.answers)
        free(A, 'polling', A.ip.call, p, [])
        free(A, 'polling', c.loop.run)
        if len(c.answers) > n:
            free(A, 'the answer', c.answer, ANSWERS[which])
    u.inside = False
    usable(A, u.span)
    free(A, 'starting', A.call, c.tr, 'start_span', 'op')
    free(A, 'closing', A.call, c.tr, 'close')


def failing_loop(A):
    """The event loop or the agent refuses; the component can be used and closed afterwards."""
    kind = A.pick('component', ['sampler', 'throttler'])
    how = A.pick('failing', ['call_later', 'start', 'stop', 'request', 'log'])
    r = Remote(A) if kind == 'sampler' else Thr(A)
    o = r.s if kind == 'sampler' else r.t
    use = lambda: A.call(o, 'is_sampled', 1, 'op') if kind == 'sampler' else A.call(
        o, 'is_allowed', 'op')
    free(A, 'using', use)
    A.on(PERIODIC, lambda ip, a, kw: A.stub('periodic', **{
        n: (raising(A, n).fn if how == n else lambda ip, a, kw: NONE) for n in ('start', 'stop')}))
    if how == 'call_later':
        r.loop.obj.attrs['call_later'] = raising(A, 'call_later')
    if how == 'request':
        for n in ('request_sampling_strategy', 'request_throttling_credits'):
            r.channel.attrs[n] = raising(A, n)
    if how == 'log':
        A.ip.on_log = lambda meth, a: raising(A, 'log').fn(A.ip, a, {})
    free(A, 'starting to poll', r.loop.run)
    if r.loop.timers:
        free(A, 'polling', r.loop.fire)
        free(A, 'polling', r.loop.run)
    free(A, 'using', use)
    which = A.pick('answer', [0, 3, 7])
    for f in (r.answers if kind == 'sampler' else [x[0] for x in r.asked]):
        free(A, 'the answer', settle, A, f, response(A, C(ANSWERS[which])))
        free(A, 'the answer', r.loop.run)
    free(A, 'using', use)
    free(A, 'closing', A.call, o, 'close')
    free(A, 'closing', A.call, o, 'close')
    free(A, 'using', use)


# ---- configuration and reporters

def initialisation(A):
    u = User(A)
    c = Client(A, {'sampler': {'type': 'const', 'param': 1}}, metrics_factory=u.metrics())
    u.cfg = c.cfg
    A.ip.on_log = lambda meth, a: u()
    got = []
    for _ in range(3):
        v, exc = free(A, 'initialising', A.call, c.cfg, 'initialize_tracer', c.loop.obj)
        got.append(v)
    if A.pick('again', ['no', 'failing']) == 'failing':
        c.cfg.attrs['config'] = A.dict([('sampler', A.dict([('type', 'unknown')]))])
        free(A, 'building', A.call, c.cfg, 'new_tracer', c.loop.obj)
    free(A, 'asking', A.call, c.cfg, 'initialized')


def reporters(A):
    u = User(A)
    c = Client(A, {'sampler': {'type': 'const', 'param': 1}, 'logging': True,
                   'tags': {}}, metrics_factory=u.metrics())
    A.ip.on_log = lambda meth, a: u()
    fine(A, 'building', c.tracer)
    u.tr = c.tr
    rep = A.attr(c.tr, 'reporter')
    bad = A.pick('batches', ['sent', 'refused', 'broken'])
    if bad == 'refused':
        A.ip.func_hooks = {'Client.emitBatch': raising(A, 'emitBatch').fn}
    fine(A, 'starting', root, A, u, c.tr)
    if bad == 'broken':
        u.span.attrs['start_time'] = C('no number')
    fine(A, 'finishing', A.call, u.span, 'finish')
    fine(A, 'sending', c.run)
    fine(A, 'process', A.call, rep, 'set_process', 'service', A.dict([
        ('k', A.new(APP + A.pick('value', ['Value', 'Failing']), u.native()))]), 10)
    fine(A, 'starting', root, A, u, c.tr)
    fine(A, 'finishing', A.call, u.span, 'finish')
    fine(A, 'sending', c.run)
    for _ in range(2):
        fine(A, 'closing', A.call, c.tr, 'close')
        fine(A, 'closing', c.run)
    fine(A, 'reporting', A.call, rep, 'report_span', u.span)
    fine(A, 'sending', c.run)
    m = A.new('jaeger_client.reporter:InMemoryReporter')
    fine(A, 'in memory', A.call, m, 'report_span', u.span)
    fine(A, 'in memory', A.call, m, 'get_spans')


def no_process(A):
    r = Rep(A, process=False)
    for _ in range(2):
        fine(A, 'reporting', r.report, 3)
        fine(A, 'sending', r.loop.run)
    fine(A, 'process', A.call, r.r, 'set_process', 'service', A.dict(), 100)
    fine(A, 'reporting', r.report, 3)
    fine(A, 'sending', r.settle)
    fine(A, 'closing', A.call, r.r, 'close')
    fine(A, 'closing', r.settle)
