"""Every configured value reaches the component it configures.

The tracer is built from a configuration in which one setting is given or absent while all the others
are absent or all given, with and without the environment variables, and its behaviour is looked at:
what the sampler decides, how spans are batched, dropped and flushed, the headers, ids, tags and
lengths, where polls and batches go and how often, which metrics and loggers are used.
"""
from .client import *
from .c36 import FULL
from .c29 import span

THROTTLED = 'm.jaeger:throttled_debug_spans'
HTTP = 'http://%s:%d/'


def run(P):
    P.scenario('sampler', samplers, loop=40)
    P.scenario('sampler object', own_sampler, loop=40)
    P.scenario('wrong sampler', wrong_sampler, loop=40)
    P.scenario('remote sampler', remote, loop=40)
    P.scenario('batch size', batch_size, loop=40)
    P.scenario('queue size', queue_size, loop=250)
    P.scenario('flush interval', flush, loop=40)
    P.scenario('value length', value_length, loop=40)
    P.scenario('traceback length', traceback_length, loop=40)
    P.scenario('headers', headers, loop=40)
    P.scenario('header of the debug id', debug_header, loop=40)
    P.scenario('id width', width, loop=40)
    P.scenario('propagation', propagation, loop=40)
    P.scenario('tags', the_tags, loop=40)
    P.scenario('metrics', the_metrics, loop=40)
    P.scenario('logging', the_logging, loop=40)
    P.scenario('failures', failures_logged, loop=40)
    P.scenario('agent', agent, loop=40)
    P.scenario('throttler', throttlers, loop=40)
    P.scenario('scope manager', scopes, loop=40)
    P.scenario('given parts', given, loop=40)
    P.scenario('settings read back', read_back, loop=40)


CONST = {'type': 'const', 'param': True}


def client(A, key=None, value=None, env=None, const=True, without=(), **kw):
    """The client with one setting (absent when the value is `...`), the others all or none given."""
    full = A.pick('other settings', [('absent', False), ('given', True)])
    d = dict(FULL) if full else {}
    for k in without:
        d.pop(k, None)
    if const:
        d['sampler'] = CONST
    if key is not None:
        d.pop(key, None)
        if value is not Ellipsis:
            d[key] = value
    d.pop('service_name', None)
    c = Client(A, d, env=env, **kw)
    c.full = full
    return c


def setting(A, what, *values):
    """('absent' or a value, what is to come of it); the first is for the absent one."""
    out = [('absent', (Ellipsis, values[0]))]
    for v in values[1:]:
        out.append((repr(v[0] if isinstance(v, tuple) else v), v if isinstance(v, tuple) else (v, v)))
    return A.pick(what, out)


def samplers(A):
    t, p, want = A.pick('sampler', [(repr(x[:2]), x) for x in [
        ('const', True, True), ('const', 'true', True), ('const', 1, True), ('const', '1', True),
        ('const', False, False), ('const', 'false', False), ('const', 0, False),
        ('const', 'maybe', False), ('const', None, False), ('const', Ellipsis, False),
        ('probabilistic', 0.25, 0.25), ('probabilistic', '0.5', 0.5), ('probabilistic', 1, 1.0), ('probabilistic', 1e-7, 1e-7),
        ('probabilistic', '0.123456789', 0.123456789), ('ratelimiting', 1e-7, 1e-7), ('ratelimiting', '12345.678', 12345.678),
        ('probabilistic', 0, 0.0), ('ratelimiting', 0, 0.0), ('ratelimiting', 2, 2.0), ('rate_limiting', '3.5', 3.5),
        ('rate_limiting', 0.5, 0.5)]])
    d = {'type': t}
    if p is not Ellipsis:
        d['param'] = p
    c = client(A, 'sampler', d, const=False, without=('max_tag_value_length',))
    tr = c.tracer()
    s = A.call(tr, 'start_span', 'op')
    if t == 'const':
        A.require_same(A.call(s, 'is_sampled'), C(want), 'decision', 'a constant sampler of %r' % (p,))
    elif want == 0.0 or want == 1.0 and t == 'probabilistic':
        A.require(not A.truth(A.call(s, 'is_sampled')) if not want else A.truth(
            A.call(s, 'is_sampled')), 'decision', 'a probability of %r' % (p,))
    if A.truth(A.call(s, 'is_sampled')):
        kind = 'ratelimiting' if t == 'rate_limiting' else t
        for k, v in (('sampler.type', kind), ('sampler.param', want)):
            A.require(has_tag(A, s, k, v), 'tag', 'a %s sampler of %r does not record %s=%r' % (
                t, p, k, v))
    c.loop.run()
    A.require(not any(isinstance(t[1], Bound) and 'Sampler' in t[1].self.cls.name
                      for t in c.loop.timers), 'poll', 'a fixed sampler polls')


def up_to(A, v, most):
    v = A.ip.norm(v) if isinstance(v, (C, T)) else v
    return isinstance(v, C) and 0 <= v.v <= most


def remote(A):
    """Without a sampler the strategy is asked for."""
    how = A.pick('sampler', [('absent', Ellipsis), ('no type', {}), ('no type but a parameter', {
        'param': 1})])
    iv, seconds = setting(A, 'interval', 60, 7, (0.5, 0.5))
    ops, most = setting(A, 'operations', 3, 1, 2, (None, 3))
    full = A.pick('other settings', [('absent', {}), ('given', {k: v for k, v in FULL.items() if k not in (
        'throttler', 'service_name', 'sampler', 'sampling_refresh_interval', 'max_operations')})])
    d = dict(full)
    for k, v in (('sampler', how), ('sampling_refresh_interval', iv), ('max_operations', ops)):
        if v is not Ellipsis:
            d[k] = v
    c = Client(A, d)
    tr = c.tracer()
    ds = c.first_polls()
    if not A.require(len(ds) == 1, 'poll', 'first polls: %d' % len(ds)):
        return
    A.require(up_to(A, ds[0], seconds), 'delay', 'the first poll is after %s' % pretty(A, ds[0]))
    A.require(len(c.periodics) == 1 and A.same(c.periodics[0][1], C(seconds * 1000)), 'interval',
              'polls are %s ms apart, expected %s' % ([pretty(A, p[1]) for p in c.periodics],
                                                      seconds * 1000))
    host, port = ('h', 2) if full else ('localhost', 5778)
    A.require(len(c.urls) == 1 and A.same(c.urls[0], C(HTTP % (host, port) + 'sampling?service=service')),
              'request', 'asks %s' % [pretty(A, u) for u in c.urls])
    c.answer('{"operationSampling": {"defaultSamplingProbability": 1.0, '
             '"defaultLowerBoundTracesPerSecond": 2, "perOperationStrategies": []}}')
    for i in range(3):
        s = A.call(tr, 'start_span', 'op%d' % i)
        A.require(A.truth(A.call(s, 'is_sampled')), 'decision', 'not sampled by the strategy')
    # those the sampler keeps track of take a new probability from an update
    A.ip.call(c.periodics[0][0], [])
    c.answer('{"operationSampling": {"defaultSamplingProbability": 0.0, '
             '"defaultLowerBoundTracesPerSecond": 0.0, "perOperationStrategies": []}}')
    A.require(len(c.urls) == 2, 'again', 'asked %d times' % len(c.urls))
    n = 0
    for i in range(3):
        s = A.call(tr, 'start_span', 'op%d' % i)
        n += bool(A.truth(A.call(s, 'is_sampled')))
    A.require(n == min(3, most), 'operations', '%d of 3 operations are tracked, at most %d' % (n, most))


def batch_size(A):
    v, want = setting(A, 'batch size', 10, 1, 3, ('2', 2))
    c = client(A, 'reporter_batch_size', v, without=('reporter_queue_size',))
    c.tracer()
    c.spans(want + 1)
    c.run()
    got = [len(b) for b in c.batches]
    A.require(got == [want, 1], 'batches', 'batches of %s for %d spans, expected %s' % (
        got, want + 1, [want, 1]))


def queue_size(A):
    v, want = setting(A, 'queue size', 100, 10, 12, ('11', 11))
    c = client(A, 'reporter_queue_size', v, without=('reporter_batch_size',))
    c.tracer()
    m, n, cb = A.mark, len(c.loop.callbacks), c.loop.callbacks
    c.spans(want + 2)
    # the spans arrive before the consumer runs
    cb[:] = cb[n:] + cb[:n]
    c.run()
    sent, dropped = sum(len(b) for b in c.batches), count_of(A, 'm.jaeger:reporter_spans.dropped', m)
    A.require((sent, dropped) == (want, 2), 'queue', '%s are sent and %s dropped of %d with the consumer '
              'waiting, expected %d and 2' % (sent, dropped, want + 2, want))


def flush(A):
    v, want = setting(A, 'flush interval', 1, 5, (0.25, 0.25), (0, None), (None, None))
    c = client(A, 'reporter_flush_interval', v)
    c.tracer()
    c.spans(1)
    c.loop.run()
    es = A.events('timeout')
    if want is None:
        return A.require(not es, 'flush', 'without flush interval %d timeouts wait' % len(es))
    if A.require(len(es) == 1, 'flush', '%d timeouts wait' % len(es)):
        A.require_same(es[0].args[0], C(5000.0 + want), 'flush', 'the time of the flush (now 5000)')


def sent_span(A, c):
    c.run()
    if not A.require(len(c.batches) >= 1, 'sent', 'no span is sent'):
        A.stop()
    return c.batches[0][0]


def value_length(A):
    v, want = setting(A, 'length', 1024, 7, 1)
    c = client(A, 'max_tag_value_length', v, without=('tags',))
    c.tracer()
    s = A.call(c.tr, 'start_span', 'op', tags=A.dict([('long', 'y' * 2000)]))
    A.call(s, 'finish')
    t = thrift_tags(A, sent_span(A, c))
    A.require_same(t.get('long', NONE), C('y' * want), 'length', 'a long tag value')
    p = thrift_tags(A, c.processes[0])
    A.require(all(not isinstance(x, C) or not isinstance(x.v, str) or len(x.v) <= want
                  for x in p.values()), 'length', 'a process tag is longer')


def traceback_length(A):
    v, want = setting(A, 'length', 4096, 7, 30)
    c = client(A, 'max_traceback_length', v)
    c.tracer()
    A.on('traceback.format_tb', lambda ip, a, k: A.list(['z' * 5000]))
    s = A.call(c.tr, 'start_span', 'op')
    A.call(s, 'log_kv', A.dict([('stack', 'z' * 5000), ('event', 'error')]))
    A.ip.call(A.attr(s, '__exit__'), [mt.exc_class('ValueError'), failure(A, 'ValueError', 'bad'),
                                      A.sym('tb', 'traceback')])
    logs = A.attr(sent_span(A, c), 'logs').items
    got = [A.attr(f, 'vStr') for l in logs for f in A.attr(l, 'fields').items
           if A.same(A.attr(f, 'key'), C('stack'))]
    A.require(len(got) == 2 and A.same(got[1], C('z' * want)), 'length', 'tracebacks are recorded as %s' % [
        pretty(A, g)[:50] for g in got])


def inject(A, tr, span, f='TEXT_MAP'):
    d = A.dict()
    A.call(tr, 'inject', A.attr(span, 'context'), fmt(A, f), d)
    return d


def headers(A):
    f = A.pick('format', ['TEXT_MAP', 'HTTP_HEADERS'])
    th, tw = setting(A, 'trace id header', 'uber-trace-id', 'my-trace')
    bh, bw = setting(A, 'baggage prefix', 'uberctx-', 'my-')
    full = A.pick('other settings', [('absent', {}), ('given', {k: v for k, v in FULL.items() if k not in (
        'propagation', 'service_name', 'trace_id_header', 'baggage_header_prefix')})])
    d = dict(full, sampler=CONST)
    for k, v in (('trace_id_header', th), ('baggage_header_prefix', bh)):
        if v is not Ellipsis:
            d[k] = v
    c = Client(A, d)
    tr = c.tracer()
    s = A.call(tr, 'start_span', 'op')
    A.call(s, 'set_baggage_item', 'key', 'value')
    got = inject(A, tr, s, f)
    A.require(sorted(keys_of(got)) == sorted([tw, bw + 'key']), 'headers', 'injects %s, expected %s' % (
        keys_of(got), [tw, bw + 'key']))
    back = A.call(tr, 'extract', fmt(A, f), A.dict([(tw, '1:2:3:1'), (bw + 'a', 'b'),
                                                    ('other-trace', '9:9:9:1')]))
    same_ids(A, back, C(1), C(2), C(3), C(1), 'extracted')
    A.require_same(A.attr(back, 'baggage'), A.dict([('a', 'b')]), 'headers', 'the baggage extracted')


def debug_header(A):
    f = A.pick('format', ['TEXT_MAP', 'HTTP_HEADERS'])
    v, want = setting(A, 'header', 'jaeger-debug-id', 'my-debug')
    c = client(A, 'debug_id_header', v, without=('propagation', 'throttler'))
    tr = c.tracer()
    ctx = A.call(tr, 'extract', fmt(A, f), A.dict([(want, 'corr')]))
    if not A.require(A.isa(ctx, CTX), 'debug', 'the debug header %s is not seen' % want):
        return
    s = A.call(tr, 'start_span', 'op', child_of=ctx)
    A.require(A.truth(A.call(s, 'is_debug')), 'debug', 'no debug span')
    A.require(has_tag(A, s, want, 'corr'), 'debug', 'the id is not recorded under %s' % want)


def width(A):
    v, want = A.pick('setting', [('absent', (Ellipsis, None)), ('True', (True, 128)),
                                 ("'true'", ('true', 128)), ('False', (False, 64)),
                                 ("'false'", ('false', 64)), ("'0'", ('0', 64)), ('1', (1, 128))])
    env, ew = A.pick('environment', [('unset', (None, 64)), ('true', ('true', 128)),
                                     ('false', ('false', 64)), ('empty', ('', 64))])
    want = want or ew
    c = client(A, 'generate_128bit_trace_id', v,
               env={} if env is None else {'JAEGER_TRACEID_128BIT': env}, random=False)
    m = A.mark
    s = A.call(c.tracer(), 'start_span', 'op')
    fresh_id(A, A.attr(A.attr(s, 'context'), 'trace_id'), m, want, 'width', 'the trace id')


def propagation(A):
    v, b3 = A.pick('propagation', [('absent', (Ellipsis, False)), ('b3', ('b3', True)),
                                   ('jaeger', ('jaeger', False))])
    wide = A.pick('ids', [('64 bits', False), ('128 bits', True)])
    full = A.pick('other settings', [('absent', {}), ('given', {k: v for k, v in FULL.items() if k not in (
        'propagation', 'service_name', 'trace_id_header', 'generate_128bit_trace_id')})])
    d = dict(full, sampler=CONST)
    if wide:
        d['generate_128bit_trace_id'] = True
    if v is not Ellipsis:
        d['propagation'] = v
    tr = Client(A, d).tracer()
    s = A.call(tr, 'start_span', 'op')
    ctx = A.new(CTX, 1, 2, NONE, 1)
    out = A.dict()
    A.call(tr, 'inject', ctx, fmt(A, 'HTTP_HEADERS'), out)
    got = {k.lower(): v for k, v in zip(keys_of(out), [e[1] for e in out.entries])}
    if b3:
        A.require('x-b3-traceid' in got and 'uber-trace-id' not in got, 'headers', 'b3 injects %s' % sorted(
            got))
        n = 32 if wide else 16
        A.require_same(got.get('x-b3-traceid', NONE), C('1'.rjust(n, '0')), 'width', 'the b3 trace id')
    else:
        A.require(sorted(got) == ['uber-trace-id'], 'headers', 'without b3 injects %s' % sorted(got))
    text = inject(A, tr, s)
    A.require(keys_of(text) == ['uber-trace-id'], 'headers', 'text map: injects %s' % keys_of(text))


def the_tags(A):
    v, own = A.pick('tags', [('absent', (Ellipsis, {})), ('None', (None, {})), ('empty', ({}, {})),
                             ('two', ({'a': 'x', 'n': 1},) * 2), ('own address', ({
                                 'ip': '1.2.3.4', 'hostname': 'mine'},) * 2)])
    env, more = A.pick('environment', [('unset', (None, {})), ('empty', ('', {})), ('one', ('e=1', {'e': '1'})),
                                       ('two', ('a=env, f = g ', {'a': 'env', 'f': 'g'}))])
    c = client(A, 'tags', v, env={} if env is None else {'JAEGER_TAGS': env}, without=(
        'max_tag_value_length', 'throttler'))
    c.tracer()
    c.spans(1)
    sent_span(A, c)
    got = thrift_tags(A, c.processes[0])
    want = {'ip': '192.0.2.1', 'hostname': 'host'}
    want.update(own)
    want.update(more)
    ver = got.pop('jaeger.version', None)
    A.require(ver is not None, 'version', 'no version among the process tags')
    A.require(sorted(got) == sorted(want), 'tags', 'the process has the tags %s, expected %s' % (
        sorted(got), sorted(want)))
    for k, x in want.items():
        if k in got:
            A.require_same(got[k], C(x), 'tags', 'the process tag %s' % k)
    A.require_same(A.attr(c.processes[0], 'serviceName'), C('service'), 'service', 'service name')


def the_metrics(A):
    """They go to the given factory, of all parts, or nowhere when switched off."""
    v, on = setting(A, 'metrics', True, ('false', False), (False, False), (True, True), (0, False))
    how = A.pick('given as', ['factory', 'metrics'])
    kw = {}
    if how == 'metrics':
        count = A.fn('legacy.count')
        kw = {'metrics': A.new('jaeger_client.metrics:Metrics', count=count, gauge=A.fn('legacy.gauge')),
              'metrics_factory': NONE}
    c = client(A, 'metrics', v, const=False, **kw)
    m = A.mark
    c.tracer()
    c.spans(1)
    c.run()
    c.first_polls()
    for f in c.answers:
        settle(A, f, exc=failure(A))
    c.loop.run()
    names_ = set(e.name for e in A.events('call', since=m) if e.name.startswith(('m.jaeger', 'legacy.')))
    if not on:
        return A.require(not names_, 'off', 'metrics are off, and yet %s' % sorted(names_))
    if how == 'factory':
        A.require('m.jaeger:traces.y.started' in names_ or 'm.jaeger:traces.n.started' in names_, 'tracer',
                  'the tracer counts %s' % sorted(names_))
        if not c.full:
            A.require(any(n.startswith('m.jaeger:sampler_queries') for n in names_), 'sampler',
                      'the sampler counts nothing')
        if any(A.calls('m.jaeger:traces.y.started', m)):
            A.require('m.jaeger:reporter_spans.ok' in names_, 'reporter', 'the reporter counts nothing')
    else:
        A.require('legacy.count' in names_, 'legacy', 'the given metrics count nothing')


def the_logging(A):
    """With logging the spans are logged as well as sent."""
    v, on = setting(A, 'logging', False, (True, True), ('true', True), (False, False), ('0', False))
    c = client(A, 'logging', v)
    c.tracer()
    m = A.mark
    sp = c.spans(1)[0]
    c.run()
    A.require(len(c.batches) == 1, 'sent', 'with logging %s, %d batches are sent' % (v, len(c.batches)))
    lg = [e for e in A.events('log', since=m) if len(e.args) > 1 and e.args[1] is sp]
    A.require(bool(lg) == on, 'logging', 'a span is %slogged' % ('' if lg else 'not '))
    m, c.now = A.mark, 10 ** 6
    A.call(A.attr(c.cfg, 'error_reporter'), 'error', 'bad %s', 1)
    n = len(A.events('log', since=m))
    A.require(n == on, 'errors', 'an error after a long time is logged %d times' % n)


def failures_logged(A):
    """What fails in any part is logged when logging is on, and only then."""
    on = A.pick('logging', [('on', True), ('off', False)])
    part = A.pick('part', ['sampler', 'throttler', 'reporter'])
    c = Client(A, {'logging': on, 'throttler': {}, 'sampler': {} if part == 'sampler' else CONST})
    tr = c.tracer()
    c.now = 10 ** 6
    if part == 'throttler':
        ctx = A.call(tr, 'extract', fmt(A, 'TEXT_MAP'), A.dict([('jaeger-debug-id', 'corr')]))
        A.call(tr, 'start_span', 'op', child_of=ctx)
    if part == 'reporter':
        def fail(ip, a, kw):
            raise PyExc(failure(A), ip.where())
        A.ip.func_hooks = {'Client.emitBatch': fail}
    m = A.mark
    if part == 'reporter':
        c.spans(1)
        c.run()
    else:
        c.first_polls()
        if not A.require(len(c.answers) == 1, 'poll', '%d requests' % len(c.answers)):
            return
        settle(A, c.answers[0], exc=failure(A))
        c.loop.run()
    n = len([e for e in A.events('log', since=m) if e.name in ('error', 'exception', 'warning')])
    A.require(n == on, 'errors', 'a failure of the %s is logged %d times, logging is %s' % (
        part, n, 'on' if on else 'off'))


def agent(A):
    host, hw = A.pick('host', [('absent', (Ellipsis, None)), ('given', ('agent.example',) * 2)])
    port, pw = A.pick('port', [('absent', (Ellipsis, None)), ('given', (7000, 7000)), ("'7001'", (
        '7001', 7001)), ('no number', ('x', None))])
    sp, sw = A.pick('sampling port', [('absent', (Ellipsis, 5778)), ('given', (99, 99)), ("'98'", ('98', 98))])
    eh = A.pick('JAEGER_AGENT_HOST', [('unset', None), ('set', 'env.example'), ('IPv6', 'fe80::1'), ('IPv4', '192.0.2.9')])
    ep, epw = A.pick('JAEGER_AGENT_PORT', [('unset', (None, 6831)), ('set', ('555', 555)), (
        'no number', ('x', 6831))])
    group = {k: v for k, v in (('reporting_host', host), ('reporting_port', port),
                               ('sampling_port', sp)) if v is not Ellipsis}
    d = {'propagation': 'b3'}
    if group or A.pick('group', ['absent', 'empty']) == 'empty':
        d['local_agent'] = group
    env = {k: v for k, v in (('JAEGER_AGENT_HOST', eh), ('JAEGER_AGENT_PORT', ep)) if v is not None}
    c = Client(A, d, env=env, emit=False)
    c.tracer()
    where = (hw or eh or 'localhost', pw or epw)
    A.call(A.attr(c.tr, 'reporter'), 'report_span', span(A, 's1'))
    c.run()
    if A.require(len(c.packets) == 1, 'packet', '%d datagrams' % len(c.packets)):
        A.require_same(c.packets[0][1], Tup([C(where[0]), C(where[1])]), 'address', 'the datagram goes to')
    c.first_polls()
    A.require(len(c.urls) == 1 and A.same(c.urls[0], C(HTTP % (
        '[%s]' % where[0] if ':' in where[0] else where[0], sw) + 'sampling?service=service')),
              'request', 'asks %s' % [pretty(A, u) for u in c.urls])


def throttlers(A):
    v, port, iv = A.pick('throttler', [
        ('absent', (Ellipsis, None, None)), ('None', (None, None, None)), ('empty', ({}, 5778, 5)),
        ('port', ({'port': 77}, 77, 5)), ('ports as text', ({'port': '78', 'refresh_interval': '9'}, 78, 9)),
        ('interval', ({'refresh_interval': 3}, 5778, 3)), ('no numbers', ({'port': 'x', 'refresh_interval': 'y'},
                                                                         5778, 5))])
    c = client(A, 'throttler', v, without=('propagation', 'debug_id_header'))
    tr = c.tracer()
    ctx = A.call(tr, 'extract', fmt(A, 'TEXT_MAP'), A.dict([('jaeger-debug-id', 'corr')]))
    m = A.mark
    s = A.call(tr, 'start_span', 'op', child_of=ctx)
    if port is None:
        A.require(A.truth(A.call(s, 'is_debug')), 'debug', 'without throttler a debug span is refused')
        return A.require(not c.first_polls(), 'poll', 'polls without throttler')
    A.require(not A.truth(A.call(s, 'is_debug')), 'debug', 'a debug span without credit')
    A.require(count_of(A, THROTTLED, m) == 1, 'count', 'refused debug spans are counted in the metrics')
    ds = c.first_polls()
    if not A.require(len(ds) == 1, 'poll', 'first polls: %d' % len(ds)):
        return
    A.require(up_to(A, ds[0], iv), 'delay', 'the first poll is after %s' % pretty(A, ds[0]))
    A.require(len(c.periodics) == 1 and A.same(c.periodics[0][1], C(iv * 1000)), 'interval',
              'polls are %s ms apart, expected %s' % ([pretty(A, p[1]) for p in c.periodics], iv * 1000))
    host = 'h' if c.full else 'localhost'
    u = c.urls[0] if c.urls else NONE
    pre = HTTP % (host, port) + 'credits?service=service&uuid='
    got = show(u)
    A.require(len(c.urls) == 1 and pre in got, 'request', 'asks %s, expected %s..' % (got, pre))


def scopes(A):
    own = A.stub('scopes') if A.pick('manager', ['absent', 'given']) == 'given' else NONE
    c = client(A, scope_manager=own)
    tr = c.tracer()
    got = A.attr(tr, 'scope_manager')
    if own is NONE:
        A.require(isinstance(got, Inst) and 'ThreadLocal' in got.cls.name, 'default', 'by default %s' % (
            pretty(A, got)))
    else:
        A.require(got is own, 'given', 'the tracer has %s' % pretty(A, got))


def given(A):
    """A sampler object of the application, and parts given to create_tracer."""
    s, d, t = sampler_stub(A)
    c = Client(A, {'trace_id_header': 'my-trace', 'max_tag_value_length': 5})
    rep = reporter_stub(A)
    args = [throttler_stub(A, FALSE)[0]] if A.pick('throttler', ['given', 'absent']) == 'given' else []
    tr = A.call(c.cfg, 'create_tracer', rep, s, *args)
    sp = A.call(tr, 'start_span', 'op')
    A.require(len(A.calls('sampler.is_sampled')) == 1, 'sampler', 'the given sampler is not asked')
    out = inject(A, tr, sp)
    A.require(keys_of(out) == ['my-trace'], 'headers', 'injects %s' % keys_of(out))
    A.call(sp, 'finish')
    n = len(A.calls('reporter.report_span'))
    A.require((n == 1) == bool(A.truth(A.call(sp, 'is_sampled'))), 'reporter', 'reported %d times' % n)
    A.call(tr, 'start_span', 'op', child_of=A.call(tr, 'extract', fmt(A, 'TEXT_MAP'), A.dict([(
        'jaeger-debug-id', 'corr')])))
    A.require(len(A.calls('throttler.is_allowed')) == len(args), 'throttler', 'the throttler is asked %d times' % (
        len(A.calls('throttler.is_allowed'))))


def own_sampler(A):
    """A sampler object in the configuration is used as it is."""
    s = const_sampler(A)
    c = client(A, 'sampler', s, const=False)
    tr = c.tracer()
    A.require(A.attr(tr, 'sampler') is s, 'sampler', 'the tracer has %s' % pretty(A, A.attr(tr, 'sampler')))


def wrong_sampler(A):
    d = A.pick('sampler', [('unknown type', {'type': 'x', 'param': 1}), ('probability', {
        'type': 'probabilistic', 'param': 'x'}), ('out of range', {'type': 'probabilistic', 'param': 1.5}),
        ('rate', {'type': 'ratelimiting', 'param': 'x'})])
    o, exc = A.catch(client(A, 'sampler', d, const=False).tracer)
    A.require(exc is not None, 'refused', 'a wrong sampler is accepted')


AGENT = {'sampling_port': 5778, 'reporting_port': 6831, 'reporting_host': 'localhost', 'enabled': True}
READ = {
    'enabled': [(True, True), (False, False), ('false', False), ('true', True), ('0', False), (0, False), ('maybe', True)],
    'logging': [(False, False), (True, True), ('true', True), ('false', False), (1, True), ('maybe', False)],
    'reporter_batch_size': [(10, 10), (7, 7), ('8', 8), (0, 0)],
    'reporter_queue_size': [(100, 100), (7, 7), ('8', 8), (0, 0)],
    'reporter_flush_interval': [(1, 1), (7, 7), (0.5, 0.5), (0, 0), (None, None)],
    'sampling_refresh_interval': [(60, 60), (7, 7), (0.5, 0.5), (0, 0)],
    'max_operations': [(None, None), (7, 7), (0, 0)],
    'trace_id_header': [('uber-trace-id', 'uber-trace-id'), ('X-Id', 'X-Id')],
    'debug_id_header': [('jaeger-debug-id', 'jaeger-debug-id'), ('X-Id', 'X-Id')],
    'baggage_header_prefix': [('uberctx-', 'uberctx-'), ('X-', 'X-')],
    'max_tag_value_length': [(1024, 1024), (7, 7), (0, 0)],
    'max_traceback_length': [(4096, 4096), (7, 7), (0, 0)],
    'generate_128bit_trace_id': [(False, False), (True, True), ('true', True), ('false', False)],
    'local_agent.enabled': [(True, True), (False, False), ('false', False), ('true', True), ('maybe', True)],
    'local_agent.sampling_port': [(5778, 5778), (7, 7), ('8', 8)],
    'local_agent.reporting_port': [(6831, 6831), (7, 7), ('8', 8)],
    'local_agent.reporting_host': [('localhost', 'localhost'), ('h', 'h')],
}


def read_back(A):
    """What the configuration says it is set to: the default when absent, else the value given."""
    name = A.pick('setting', sorted(READ))
    v, want = A.pick('value', [('absent', (Ellipsis, READ[name][0][1]))] + [(repr(x[0]), x) for x in READ[name]])
    parts = name.split('.')
    d = {'service_name': 'service'}
    if len(parts) == 2:
        how = A.pick('group', ['absent', 'None', 'empty', 'others']) if v is Ellipsis else 'others'
        g = {k: 'x' if k == 'reporting_host' else 1 for k in AGENT if k != parts[1]} if how == 'others' else {}
        if v is not Ellipsis:
            g[parts[1]] = v
        if how != 'absent':
            d['local_agent'] = None if how == 'None' else g
    elif v is not Ellipsis:
        d[name] = v
    c = Client(A, d)
    got = A.attr(c.cfg, name.replace('.', '_'))
    A.require_same(got, lift(want), 'read-back', 'the setting %s, %s in the configuration, is read as %s' % (
        name, 'absent' if v is Ellipsis else repr(v), pretty(A, got)))
