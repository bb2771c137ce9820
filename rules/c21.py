"""Every number handed to the wire fits its field, whatever the application gave.

For spans with ids, flags, times, tag and log values of any type and range (given directly, taken from
a parent, or set later), each field of the reported span has the type its wire field needs and, for
integers, lies within the range the serialiser accepts: nothing the application does makes a batch
impossible to serialise.
"""
from .common import *
from .c18 import BATCH, PROCESS

I64 = (-2 ** 63, 2 ** 63 - 1)


def run(P):
    P.scenario('ids', identifiers)
    P.scenario('ids of references', refs)
    P.scenario('flags', flags)
    P.scenario('times', times)
    P.scenario('tag values', values)
    P.scenario('operation names', operations)
    P.scenario('process tags', process)
    P.scenario('boundary values', boundary)
    P.assumptions.append('times given by the application lie within 0..2^43 seconds')


def make(A, **kw):
    s, _, _ = sampler_stub(A, TRUE, A.dict())
    return tracer(A, sampler=s, **kw)


def convert(A, *spans):
    p = A.new(PROCESS, 's', A.dict(), 100)
    return A.attr(A.new(BATCH, A.list(list(spans)), p), 'spans').items


def whole(A, j, what=''):
    for n in ('traceIdLow', 'traceIdHigh', 'spanId', 'parentSpanId'):
        in_range(A, A.attr(j, n), *I64, key=n, what=what + n)
    in_range(A, A.attr(j, 'flags'), 0, 2 ** 31 - 1, 'flags', what + 'flags')
    for n in ('startTime', 'duration'):
        in_range(A, A.attr(j, n), *I64, key=n, what=what + n)
    text(A, A.attr(j, 'operationName'), 'operation name')
    r = A.attr(j, 'references')
    for ref in (r.items if r is not NONE else ()):
        for n in ('traceIdLow', 'traceIdHigh', 'spanId'):
            in_range(A, A.attr(ref, n), *I64, key='ref-' + n, what=what + 'reference ' + n)
        in_range(A, A.attr(ref, 'refType'), 0, 1, 'ref-type', what + 'reference type')
    for t in A.attr(j, 'tags').items:
        tag(A, t, what + 'tag')
    for log in A.attr(j, 'logs').items:
        in_range(A, A.attr(log, 'timestamp'), *I64, key='log-time', what=what + 'time of a log')
        for t in A.attr(log, 'fields').items:
            tag(A, t, what + 'log field')


PY = {'vStr': 'str', 'vDouble': 'float', 'vBool': 'bool', 'vLong': 'int', 'key': 'str'}


def tag(A, t, what):
    in_range(A, A.attr(t, 'vType'), 0, 4, 'tag-type', what + ' type')
    for f, ty in PY.items():
        v = A.attr(t, f)
        if f != 'key' and A.is_none(v):
            continue
        v = A.ip.norm(v) if isinstance(v, (C, T)) else v
        ts = A.ip.types(v) if isinstance(v, (C, T)) else frozenset([type(v).__name__])
        A.require(ts <= frozenset([ty]) or (False if not ts & frozenset([ty]) else None), 'type-' + f,
                  '%s holds %s in %s, of type %s' % (what, pretty(A, v), f, '/'.join(sorted(ts))))
        if f == 'vLong':
            in_range(A, v, *I64, key='vLong', what=what + ' number')


def text(A, v, what):
    v = A.ip.norm(v) if isinstance(v, (C, T)) else v
    ts = A.ip.types(v) if isinstance(v, (C, T)) else frozenset([type(v).__name__])
    A.require(ts <= frozenset(['str']) or (False if 'str' not in ts else None), 'text',
              'the %s is %s, of type %s' % (what, pretty(A, v), '/'.join(sorted(ts))))


def operations(A):
    """A span may be started without an operation name, and be given one later."""
    a = A.pick('name', [('absent', ()), ('None', (NONE,)), ('text', (A.str('op'),))])
    s = A.call(make(A), 'start_span', *a)
    if A.pick('later', [False, True]):
        A.call(s, 'set_operation_name', A.str('other'))
    js = convert(A, finished(A, s))
    if A.require(len(js) == 1, 'count', '%d spans' % len(js)):
        whole(A, js[0])


def finished(A, span):
    A.call(span, 'finish', 3.0)
    return span


def identifiers(A):
    kw = {}
    if A.pick('128 bit ids', [False, True]):
        kw['generate_128bit_trace_id'] = True
    tr = make(A, **kw)
    kind = A.pick('span', ['root', 'child', 'rpc server', 'debug'])
    if kind == 'root':
        span = A.call(tr, 'start_span', 'op', start_time=1.0)
    elif kind == 'debug':
        span = A.call(tr, 'start_span', 'op', start_time=1.0, child_of=A.new(
            CTX, NONE, NONE, NONE, NONE, NONE, 'id'))
    else:
        tags = A.dict([('span.kind', 'server')]) if kind == 'rpc server' else NONE
        p = A.new(CTX, *ids(A))
        A.assume(not A.cmp(A.attr(p, 'flags'), '==', 0))
        span = A.call(tr, 'start_span', 'op', child_of=p, tags=tags, start_time=1.0)
        if not A.truth(A.call(span, 'is_sampled')):
            A.stop()
    whole(A, convert(A, finished(A, span))[0])


def refs(A):
    tr = make(A)
    a, b = A.new(CTX, *ids(A, 'a')), A.new(CTX, A.int('t', 1, 2 ** 128 - 1),
                                           A.int('s', 1, 2 ** 64 - 1), NONE, 1)
    span = A.call(tr, 'start_span', 'op', start_time=1.0, references=A.list([
        A.new('opentracing:child_of', b), A.new('opentracing:follows_from', a)]))
    whole(A, convert(A, finished(A, span))[0])


def flags(A):
    tr = make(A)
    p = A.new(CTX, 1, 2, 3, A.int('flags', 0, 255))
    span = A.call(tr, 'start_span', 'op', child_of=p, start_time=1.0)
    for _ in range(2):
        v = A.pick('priority', [('none', NONE), ('0', C(0)), ('1', C(1)), ('2', C(2))])
        if v is not NONE:
            A.call(span, 'set_tag', 'sampling.priority', v)
    if A.pick('child', [False, True]):
        span = A.call(tr, 'start_span', 'c', child_of=span, start_time=1.0)
    in_range(A, A.attr(A.attr(span, 'context'), 'flags'), 0, 255, 'flags', 'flags')


def times(A):
    tr = make(A)
    ty = A.pick('type', ['float', 'int'])
    span = A.call(tr, 'start_span', 'op', start_time=A.sym('start', ty, 0, 2 ** 43))
    A.call(span, 'log_kv', A.dict([('e', 'f')]), A.sym('log', ty, 0, 2 ** 43))
    A.call(span, 'finish', A.sym('end', ty, 0, 2 ** 43))
    whole(A, convert(A, span)[0])


def values(A):
    tr = make(A)
    v = A.sym('value')
    where = A.pick('recorded as', ['tag', 'start tag', 'log'])
    kw = {'tags': A.dict([('k', v)])} if where == 'start tag' else {}
    span = A.call(tr, 'start_span', 'op', start_time=1.0, **kw)
    if where == 'tag':
        A.call(span, 'set_tag', A.pick('key', [('text', C('k')), ('unknown', A.str('key'))]), v)
    elif where == 'log':
        A.call(span, 'log_kv', A.dict([('k', v)]), 2.0)
    if not A.truth(A.call(span, 'is_sampled')):
        A.stop()
    whole(A, convert(A, finished(A, span))[0])


def process(A):
    p = A.new(PROCESS, A.str('service'), A.dict([('k', A.sym('value')), ('l', 5)]), 100)
    for t in A.attr(p, 'tags').items:
        tag(A, t, 'process tag')
    A.require(A.ip.types(A.attr(p, 'serviceName')) <= frozenset(['str']), 'service',
              'the service name is not a string')


def boundary(A):
    """The same with the numbers at the edges."""
    tr = make(A)
    t = A.pick('trace', [2 ** 128 - 1, 2 ** 64, 2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, 1, 2 ** 127])
    s = A.pick('span', [2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, 1])
    v = A.pick('value', [2 ** 63, 2 ** 63 - 1, -2 ** 63, -2 ** 63 - 1, 2 ** 200, True, 1.5, 0])
    p = A.new(CTX, t, s, s, 1)
    span = A.call(tr, 'start_span', 'op', child_of=p, start_time=1.0, references=A.list([
        A.new('opentracing:child_of', p)]), tags=A.dict([('k', v)]))
    A.call(span, 'log_kv', A.dict([('k', v)]), 2.0)
    whole(A, convert(A, finished(A, span))[0])
