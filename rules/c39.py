"""Containers the application passes in stay as they are, and belong to it afterwards.

Every entry point that takes a container is given one whose content is compared before and after, also
after the objects made from it were used; then the container is changed and everything that was made
from it (spans, contexts, process, headers, decisions, addresses) is as it was before.
"""
from .client import *
from .c09 import REF

JSPAN = 'jaeger_client.span:Span'


def run(P):
    P.scenario('configuration', config, loop=40)
    P.scenario('configuration and a global tracer', installed, loop=40)
    P.scenario('tags of a tracer', tracer_tags)
    P.scenario('codecs of a tracer', tracer_codecs)
    P.scenario('tags of a process', process_tags)
    P.scenario('references', references)
    P.scenario('tags of a span', span_tags)
    P.scenario('values in a span', span_values)
    P.scenario('fields of a log', log_fields)
    P.scenario('tags of a sampler', sampler_tags)
    P.scenario('carriers to extract from', extract)
    P.scenario('carriers to inject into', inject)
    P.scenario('contexts', contexts)
    P.scenario('strategies', strategies)
    P.scenario('tags of metrics', metric_tags)
    P.scenario('tags of prometheus metrics', prometheus)


def deep(A, v, seen=()):
    """What a value holds, as plain text."""
    if isinstance(v, (C, T)):
        return show(A.ip.norm(v))
    if id(v) in seen:
        return '...'
    seen += (id(v),)
    if isinstance(v, DictV):
        return '{%s}' % ', '.join('%s: %s' % (deep(A, k, seen), deep(A, x, seen))
                                  for k, x in v.entries)
    if isinstance(v, (ListV, Tup, SetV)):
        return '[%s]' % ', '.join(deep(A, x, seen) for x in v.items)
    if isinstance(v, ByteArr):
        return deep(A, v.val)
    if isinstance(v, Inst) and 'ttypes' in str(v.cls.mod if hasattr(v.cls, 'mod') else ''):
        return '%s(%s)' % (v.cls.name, ', '.join('%s=%s' % (n, deep(A, x, seen))
                                                  for n, x in sorted(v.attrs.items())))
    if isinstance(v, Inst) and 'Tag' in v.cls.name or isinstance(v, Inst) and v.cls.name in (
            'Log', 'SpanRef', 'Process', 'Batch', 'Span', 'SpanContext', 'Reference'):
        return '%s(%s)' % (v.cls.name, ', '.join(
            '%s=%s' % (n, deep(A, x, seen)) for n, x in sorted(v.attrs.items())
            if n not in ('_tracer', 'update_lock')))
    return '<%d>' % id(v)


def spoil(A, v, seen=None):
    """Changes a container and all within it."""
    seen = set() if seen is None else seen
    if id(v) in seen or not isinstance(v, (DictV, ListV, ByteArr)):
        return
    seen.add(id(v))
    if isinstance(v, DictV):
        kids = [x for _, x in v.entries]
        for k, x in list(v.entries):
            A.call(v, 'pop', k, NONE) if len(seen) % 2 else A.call(v, '__setitem__', k, C('spoilt'))
        A.call(v, '__setitem__', C('spoilt'), C('spoilt'))
    elif isinstance(v, ListV):
        kids = list(v.items)
        A.call(v, 'clear')
        A.call(v, 'append', C('spoilt'))
    else:
        A.call(v, 'clear')
        A.call(v, 'extend', C(b'spoilt'))
        kids = []
    for x in kids:
        spoil(A, x, seen)


def still(A, before, after, key, what):
    A.require(before == after, key, '%s: was %s, is %s' % (what, before, after))


# ---- configurations

CFG = {'sampler': {'type': 'const', 'param': 1}, 'logging': True,
       'local_agent': {'reporting_host': 'agent', 'reporting_port': 1234, 'sampling_port': 1235},
       'tags': {'a': 'b', 'hostname': 'h'}, 'reporter_batch_size': 2, 'reporter_queue_size': 50,
       'reporter_flush_interval': 2, 'max_tag_value_length': 3, 'trace_id_header': 'x-trace',
       'baggage_header_prefix': 'x-bag-', 'debug_id_header': 'x-debug', 'propagation': 'b3',
       'max_traceback_length': 9, 'generate_128bit_trace_id': True,
       'sampling_refresh_interval': 30, 'max_operations': 7,
       'throttler': {'port': 1236, 'refresh_interval': 7}}


def configured(A, **more):
    what = A.pick('configuration', ['minimal', 'full', 'remote', 'no tags'])
    d = {k: v for k, v in CFG.items() if what != 'minimal' or k in ('sampler',)}
    if what == 'remote':
        d.pop('sampler')
    if what == 'no tags':
        d['tags'] = None
    d = conv(A, d)
    env = A.pick('environment', [('empty', {}), ('tags', {'JAEGER_TAGS': 'x=y, a=z'})])
    fr = Frozen(A, d)
    cfg = A.new(CONFIG, d, service_name='service', metrics_factory=metrics_factory(A),
                validate=A.pick('validate', [True, False]))
    c = Client(A, made=cfg, env=env)
    return c, d, fr


def behaviour(A, c):
    """What the tracer does with two spans and a header."""
    n, m, u = len(c.batches), len(c.processes), len(c.urls)
    p = len(c.packets)
    spans = [A.call(c.tr, 'start_span', 'op', child_of=A.new(CTX, 1, 2, 3, 1)) for _ in range(2)]
    out = []
    for s in spans:
        A.call(s, 'set_tag', 'k', 'value')
        A.call(s, 'set_baggage_item', 'i', 'v')
        for f in ('TEXT_MAP', 'HTTP_HEADERS'):
            h = A.dict()
            A.call(c.tr, 'inject', A.new(CTX, 1, 2, 3, 1, A.dict([('i', 'v')])), fmt(A, f), h)
            out.append(deep(A, h))
        A.call(s, 'finish')
    c.run()
    for b in c.batches[n:]:
        out.append(str([[(k, deep(A, v)) for k, v in thrift_tags(A, s).items()] for s in b]))
    for b in c.processes[m:]:
        out.append(str([(k, deep(A, v)) for k, v in thrift_tags(A, b).items()]))
    out += [deep(A, x) for x in c.urls[u:]] + [str(len(c.packets) - p)]
    return out


def config(A):
    c, d, fr = configured(A)
    fr.unchanged('config', 'the configuration')
    c.tracer()
    fr.unchanged('config', 'the configuration')
    first = behaviour(A, c)
    second = behaviour(A, c)
    c.first_polls()
    fr.unchanged('config', 'the configuration')
    for x, y in zip(first, second):
        still(A, x, y, 'again', 'used again')
    spoil(A, d)
    third = behaviour(A, c)
    A.require(len(second) == len(third), 'after', 'other actions after the configuration is changed')
    for x, y in zip(second, third):
        still(A, x, y, 'after', 'after the configuration is changed')


def installed(A):
    c, d, fr = configured(A)
    c.tr = A.call(c.cfg, 'initialize_tracer', c.loop.obj)
    A.call(c.cfg, 'initialize_tracer', c.loop.obj)
    A.call(c.cfg, 'create_tracer', reporter_stub(A), const_sampler(A))
    fr.unchanged('config', 'the configuration')
    behaviour(A, c)
    fr.unchanged('config', 'the configuration')


# ---- tracers

def procs(A, r):
    """The arguments of set_process."""
    e = A.calls('reporter.set_process')[-1]
    return e.args, e.kwargs


def tracer_tags(A):
    tags = A.pick('tags', [('empty', A.dict()), ('some', A.dict([('a', 'b'), ('c', A.list([1]))])),
                           ('reserved', A.dict([('hostname', NONE), ('ip', '1.2.3.4'),
                                                ('client-uuid', 3), ('jaeger.version', 'x')])),
                           ('any', A.open_dict('tags', 'str', 'str'))])
    th = A.pick('throttler', [('none', None), ('some', throttler_stub(A, TRUE)[0])])
    fr = Frozen(A, tags)
    tr = tracer(A, tags=tags, throttler=th)
    A.require(A.attr(tr, 'tags') is not tags, 'own', 'the tracer uses the dict of the caller')
    fr.unchanged('tags', 'the tag dict')
    s = A.call(tr, 'start_span', 'op')
    A.call(s, 'finish')
    fr.unchanged('tags', 'the tag dict')
    if getattr(tags, 'open', False):
        return
    own = A.attr(tr, 'tags')
    before = deep(A, own)
    for k, _ in list(tags.entries):
        A.call(tags, 'pop', k)
    A.call(tags, '__setitem__', C('spoilt'), C(1))
    still(A, before, deep(A, own), 'after', 'tags of the tracer')


def tracer_codecs(A):
    codec = A.stub('codec', inject=lambda ip, a, kw: NONE, extract=lambda ip, a, kw: C('extracted'))
    f = A.pick('format', [('own', C('own')), ('replaced', fmt(A, 'TEXT_MAP'))])
    names = [f]
    if isinstance(f, C) and A.pick('codecs', ['one', 'for each format']) != 'one':
        names += [fmt(A, n) for n in ('TEXT_MAP', 'HTTP_HEADERS', 'BINARY')] + [C('zipkin-span-format')]
    codecs = A.dict([(n, codec) for n in names])
    fr = Frozen(A, codecs)
    tr = tracer(A, extra_codecs=codecs)
    other = tracer(A)
    fr.unchanged('codecs', 'the codec dict')
    A.call(codecs, 'clear')
    A.require_same(A.call(tr, 'extract', f, A.dict()), C('extracted'), 'after', 'codec of the tracer')
    v, exc = A.catch(A.call, other, 'extract', f, A.dict())
    A.require(exc is not None or A.is_none(v), 'other', 'another tracer uses the codec')


def process_tags(A):
    tags = A.dict([('a', 'b'), ('n', 1), ('l', A.list([1, 2]))])
    fr = Frozen(A, tags)
    how = A.pick('given to', ['reporter', 'make_process'])
    if how == 'reporter':
        from .c29 import Rep
        r = Rep(A, process=False)
        A.call(r.r, 'set_process', 'service', tags, 100)
        fr.unchanged('tags', 'the tag dict')
        seen = []
        A.ip.func_hooks = {'Client.emitBatch': lambda ip, a, kw: seen.append(
            ip.getattr(take(ip, list(a[1:]), dict(kw), 'batch'), 'process')) or NONE}
        r.report(2)
        r.loop.run()
        spoil(A, tags)
        r.report(2)
        r.loop.run()
        got = [str([(k, deep(A, v)) for k, v in thrift_tags(A, p).items()]) for p in seen]
        A.require(len(got) == 2, 'sent', '%d batches' % len(got))
        still(A, got[0], got[-1], 'after', 'process')
    else:
        p = A.new('jaeger_client.thrift:make_process', 's', tags, 100)
        fr.unchanged('tags', 'the tag dict')
        before = str([(k, deep(A, v)) for k, v in thrift_tags(A, p).items()])
        spoil(A, tags)
        still(A, before, str([(k, deep(A, v)) for k, v in thrift_tags(A, p).items()]), 'after',
              'process')


# ---- spans

def sent(A, span):
    """What is sent of a span."""
    if A.is_none(A.attr(span, 'end_time')):
        return '%s %s' % (deep(A, A.attr(span, 'tags')), deep(A, A.attr(span, 'logs')))
    got = A.new('jaeger_client.thrift:make_jaeger_batch', A.list([span]),
                A.new('jaeger_client.thrift:make_process', 's', A.dict(), 10))
    return deep(A, A.attr(got, 'spans'))


def make(A, sampled=TRUE, tags=None, **kw):
    s, _, t = sampler_stub(A, sampled, tags)
    return tracer(A, sampler=s, **kw), t


def references(A):
    tr, _ = make(A)
    a, b = A.new(CTX, 1, 2, 3, 1), A.new(CTX, 4, 5, 6, 1)
    refs = A.list(A.pick('references', [
        ('one', [A.new(REF + 'child_of', a)]), ('none', []),
        ('two', [A.new(REF + 'follows_from', a), A.new(REF + 'child_of', b)]),
        ('without a context', [A.new(REF + 'child_of', NONE), A.new(REF + 'child_of', b)])]))
    kw = A.pick('parent', [('none', {}), ('some', {'child_of': A.new(CTX, 7, 8, 9, 1)})])
    fr = Frozen(A, refs, a, b)
    s = A.call(tr, A.pick('by', ['start_span', 'start_active_span']), 'op', references=refs, **kw)
    if A.isa(s, 'opentracing:Scope'):
        s = A.attr(s, 'span')
    fr.unchanged('references', 'the list of references')
    A.call(s, 'finish', 5.0)
    before = sent(A, s)
    fr.unchanged('references', 'the list of references')
    A.call(refs, 'clear')
    still(A, before, sent(A, s), 'after', 'span')
    A.call(refs, 'append', A.new(REF + 'child_of', A.new(CTX, 11, 12, 13, 1)))
    still(A, before, sent(A, s), 'after', 'span')


def span_tags(A):
    """The dict of start_span is handed over; spans do not depend on it afterwards."""
    tr, _ = make(A, A.pick('sampled', [('yes', TRUE), ('no', FALSE)]))
    tags = A.dict(A.pick('tags', [('none', []), ('some', [('a', 'b'), ('n', 1)]), (
        'list', [('l', A.list([1, 2]))]), ('priority', [('a', 'b'), ('sampling.priority', 1)])]))
    kw = A.pick('parent', [('none', {}), ('some', {'child_of': A.new(CTX, 7, 8, 9, 1)})])
    s = A.call(tr, 'start_span', 'op', tags=tags, **kw)
    before = sent(A, s)
    spoil(A, tags)
    still(A, before, sent(A, s), 'after', 'span')
    A.call(s, 'set_tag', 'more', 1)
    A.call(s, 'finish')
    A.require(A.same(lookup(A, tags, 'more') or NONE, NONE), 'tags', 'a tag of the span appears '
              'in the dict')


def span_values(A):
    """A container as a value stays as it is, and is recorded as it was."""
    tr, _ = make(A)
    s = A.call(tr, 'start_span', 'op')
    v = A.pick('value', [('list', A.list([1, 'a'])), ('dict', A.dict([('a', 1)])),
                         ('nested', A.list([A.dict([('a', A.list([1]))])]))])
    fr = Frozen(A, v)
    how = A.pick('recorded as', ['tag', 'log', 'event', 'payload'])
    if how == 'tag':
        A.call(s, 'set_tag', 'k', v)
    elif how == 'log':
        A.call(s, 'log_kv', A.dict([('k', v)]), 5.0)
    elif how == 'event':
        A.call(s, 'info', 'message', v)
    else:
        A.call(s, 'error', 'message', v)
    fr.unchanged('value', 'the value')
    before = sent(A, s)
    spoil(A, v)
    still(A, before, sent(A, s), 'after', 'span')


def log_fields(A):
    tr, _ = make(A)
    s = A.call(tr, 'start_span', 'op')
    d = A.pick('fields', [('some', A.dict([('event', 'e'), ('n', 1)])), ('none', A.dict()),
                          ('any', A.open_dict('fields', 'str', 'str'))])
    fr = Frozen(A, d)
    A.call(s, 'log_kv', d, *A.pick('timestamp', [('given', [5.0]), ('absent', [])]))
    fr.unchanged('fields', 'the dict of the fields')
    if getattr(d, 'open', False):
        return
    before = sent(A, s)
    spoil(A, d)
    still(A, before, sent(A, s), 'after', 'span')
    A.call(s, 'log_kv', d, 6.0)
    A.call(s, 'set_tag', 'a', 'b')
    A.call(s, 'finish')


def sampler_tags(A):
    """What a sampler gives as tags is the sampler's."""
    tags = A.dict([('sampler.type', 'own'), ('sampler.param', 3)])
    tr, _ = make(A, A.pick('sampled', [('yes', TRUE), ('no', FALSE)]), tags)
    fr = Frozen(A, tags)
    given = A.pick('tags', [('none', NONE), ('empty', A.dict()), ('some', A.dict([('a', 'b')])),
                            ('the same key', A.dict([('sampler.param', 'b')]))])
    s = A.call(tr, 'start_span', 'op', tags=given)
    A.call(s, 'set_tag', 'k', 'v')
    fr.unchanged('sampler', "the sampler's tags")
    before = sent(A, s)
    spoil(A, tags)
    still(A, before, sent(A, s), 'after', 'span')


# ---- carriers and contexts

def codec(A):
    n = A.pick('codec', ['text', 'http', 'b3', 'binary', 'zipkin'])
    kind = {'text': 'TextCodec', 'http': 'TextCodec', 'b3': 'B3Codec', 'binary': 'BinaryCodec',
            'zipkin': 'ZipkinCodec'}[n]
    return n, A.new('jaeger_client.codecs:' + kind, **({'url_encoding': True} if n == 'http' else {}))


def extract(A):
    n, codec_ = codec(A)
    if n in ('text', 'http'):
        carrier = A.dict(A.pick('carrier', [
            ('complete', [('uber-trace-id', '1:2:3:1'), ('uberctx-Key', 'a%20b'), ('other', 'x'),
                          ('jaeger-debug-id', 'd'), ('jaeger-baggage', 'a=b,c=d')]),
            ('array', [('Uber-Trace-Id', A.list(['1:2:0:1'])), ('UBERCTX-k', 'v')]),
            ('baggage', [('jaeger-baggage', 'a=b'), ('uberctx-k', 'v')]), ('none', [('x', 'y')]),
            ('corrupted', [('uberctx-k', 'v'), ('uber-trace-id', '1:2')])]))
    elif n == 'b3':
        carrier = A.dict(A.pick('carrier', [
            ('complete', [('X-B3-TraceId', 'ab'), ('x-b3-spanid', 'cd'), ('X-B3-ParentSpanId', 'ef'),
                          ('X-B3-Sampled', '1'), ('X-B3-Flags', '1'), ('other', 'x')]),
            ('corrupted', [('X-B3-TraceId', 'xyz'), ('X-B3-SpanId', 'cd')]), ('none', [('x', 'y')])]))
    elif n == 'zipkin':
        carrier = A.dict([('trace_id', 1), ('span_id', 2), ('parent_id', 3), ('traceflags', 1)])
    else:
        carrier = ByteArr(C(b''))
        A.call(A.new('jaeger_client.codecs:BinaryCodec'), 'inject',
               A.new(CTX, 1, 2, 3, 1, A.dict([('k', 'v')])), carrier)
        if A.pick('carrier', ['complete', 'truncated']) == 'truncated':
            carrier = ByteArr(C(carrier.val.v[:-1]))
    fr = Frozen(A, carrier)
    got, exc = A.catch(A.call, codec_, 'extract', carrier)
    A.require(exc is None or A.isinst(exc, CORRUPT), 'exception', 'extracting raises')
    fr.unchanged('carrier', 'the carrier of %s' % n)
    if exc is not None or got is NONE:
        return
    before = deep(A, got)
    spoil(A, carrier)
    still(A, before, deep(A, got), 'after', 'context from %s' % n)


def inject(A):
    """Entries of the application stay in the carrier; the context is as before."""
    n, codec_ = codec(A)
    ctx = A.new(CTX, 1, 2, 3, 1, A.dict([('k', 'v')]))
    fr = Frozen(A, ctx)
    if n == 'binary':
        carrier = ByteArr(C(b''))
        A.call(carrier, 'extend', C(b'before'))
        A.call(codec_, 'inject', ctx, carrier)
        A.require(A.truth(A.call(carrier, 'startswith', C(b'before'))), 'carrier',
                  'what the carrier held is gone')
    else:
        own = [('other', C('x')), ('Accept', A.list([1])), (C(5), NONE)]
        carrier = A.dict(own)
        A.call(codec_, 'inject', ctx, carrier)
        for k, v in own:
            got = next((x for y, x in carrier.entries if A.same(y, lift(k))), None)
            A.require(got is not None and (got is v or A.same(got, v)), 'carrier',
                      'the entry %s of the carrier is changed' % k)
        before = deep(A, carrier)
        A.call(A.attr(ctx, 'baggage'), '__setitem__', C('k2'), C('v2'))
        still(A, before, deep(A, carrier), 'after', 'carrier')
        A.call(A.attr(ctx, 'baggage'), 'pop', C('k2'))
    fr.unchanged('context', 'the context injected by %s' % n)


def contexts(A):
    """A context given as a parent, or a span's context taken before, does not change."""
    th, _ = throttler_stub(A, TRUE)
    tr, _ = make(A, throttler=th)
    parent = A.new(CTX, 1, 2, 3, A.pick('flags', [0, 1, 3]), A.dict([('k', 'v')]))
    fr = Frozen(A, parent)
    how = A.pick('used as', ['child_of', 'reference', 'baggage only'])
    if how == 'baggage only':
        parent = A.new(CTX, NONE, NONE, NONE, NONE, A.dict([('k', 'v')]))
        fr = Frozen(A, parent)
    kw = {'references': A.list([A.new(REF + 'child_of', parent)])} if how == 'reference' else {
        'child_of': parent}
    s = A.call(tr, 'start_span', 'op', **kw)
    mine = A.attr(s, 'context')
    bag = A.attr(mine, 'baggage')
    before = deep(A, bag)
    A.call(s, 'set_baggage_item', 'k', 'w')
    A.call(s, 'set_baggage_item', 'l', 'w')
    A.call(s, 'set_tag', 'sampling.priority', A.pick('priority', [0, 1]))
    still(A, before, deep(A, bag), 'baggage', 'baggage of a context taken before')
    A.call(s, 'finish')
    fr.unchanged('parent', 'the context of the parent')


# ---- samplers and metrics

def strategies(A):
    A.on('time.time', lambda ip, a, kw: C(1000.0))
    one = A.dict([('operation', 'a'), ('probabilisticSampling', A.dict([('samplingRate', 0.25)]))])
    d = A.dict([('defaultSamplingProbability', 0.5), ('defaultLowerBoundTracesPerSecond', 1.0),
                ('perOperationStrategies', A.list([one]))])
    fr = Frozen(A, d)
    s = A.new('jaeger_client.sampler:AdaptiveSampler', d, 5)
    fr.unchanged('strategies', 'the strategies')
    if A.pick('then', ['nothing', 'update']) == 'update':
        d = A.dict([('defaultSamplingProbability', 0.125), ('defaultLowerBoundTracesPerSecond', 2.0),
                    ('perOperationStrategies', A.list([A.dict([
                        ('operation', 'b'), ('probabilisticSampling', A.dict([(
                            'samplingRate', 0.75)]))])]))])
        fr2 = Frozen(A, d)
        A.call(s, 'update', d)
        fr2.unchanged('strategies', 'the strategies')
    fr.unchanged('strategies', 'the strategies')
    for op in A.pick('operations known before', [('none', ()), ('one', ('a',)), ('others', ('b', 'c'))]):
        A.call(s, 'is_sampled', 1, op)
    before = repr_of(A, s)
    spoil(A, d)
    still(A, str(before), str(repr_of(A, s)), 'after', 'sampler')


def repr_of(A, s):
    """What it decides for the lowest trace id."""
    return [deep(A, A.call(s, 'is_sampled', 1, op)) for op in ('a', 'b', 'c', 'new')]


FACTORIES = ['jaeger_client.metrics:MetricsFactory', 'jaeger_client.metrics:LegacyMetricsFactory']


def metric_tags(A):
    tags = A.dict(A.pick('tags', [('none', []), ('some', [('a', 'b'), ('c', 'd')])]))
    fr = Frozen(A, tags)
    which = A.pick('factory', FACTORIES)
    f = A.new(which, A.new('jaeger_client.metrics:Metrics', count=A.fn('count'), gauge=A.fn('gauge'))
              ) if 'Legacy' in which else A.new(which)
    m = A.call(f, A.pick('metric', ['create_counter', 'create_gauge', 'create_timer']), 'name', tags)
    fr.unchanged('metric', 'the tags of a metric')
    A.ip.call(m, [C(1)], {})
    fr.unchanged('metric', 'the tags of a metric')
    n = A.mark
    A.ip.call(m, [C(1)], {})
    before = [deep(A, Tup(e.args)) for e in A.calls(('count', 'gauge'), n)]
    n = A.mark
    spoil(A, tags)
    A.ip.call(m, [C(1)], {})
    after = [deep(A, Tup(e.args)) for e in A.calls(('count', 'gauge'), n)]
    still(A, str(before), str(after), 'after', 'metric')


def prometheus(A):
    tags = A.dict(A.pick('tags', [('none', []), ('some', [('a', 'b'), ('c', 'd')]),
                                  ('service', [('service', 'own')])]))
    label = A.pick('service label', [('given', C('svc')), ('absent', NONE)])

    def metric(ip, a, kw):
        return A.stub('metric', labels=lambda ip, a, kw: A.stub(
            'child', inc=lambda ip, a, kw: NONE, set=lambda ip, a, kw: NONE),
            inc=lambda ip, a, kw: NONE, set=lambda ip, a, kw: NONE)
    for n in ('Counter', 'Gauge'):
        A.on('prometheus_client.' + n, metric)
    fr = Frozen(A, tags)
    f = A.new('jaeger_client.metrics.prometheus:PrometheusMetricsFactory', 'ns', label)
    for kind in ('create_counter', 'create_gauge'):
        A.ip.call(A.call(f, kind, kind, tags), [C(1)], {})
        fr.unchanged('metric', 'the tags of a metric')
