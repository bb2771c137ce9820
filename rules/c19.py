"""The span on the wire says what the span object says.

A finished span with unknown name, times, flags, tags, logs, references and parent is converted: each
field of the reported span holds the corresponding value (times in microseconds), nothing is missing,
repeated or reordered, spans stay in their order, and the process is the reporter's.
"""
from .common import *
from .c18 import BATCH, PROCESS, binop


def run(P):
    P.scenario('fields', fields)
    P.scenario('times', times)
    P.scenario('tags and logs', contents)
    P.scenario('references', references)
    P.scenario('several spans', several)
    P.scenario('many tags and logs', crowd)


def make(A, **kw):
    s, _, _ = sampler_stub(A, TRUE, A.dict())
    return tracer(A, sampler=s, **kw)


def convert(A, *spans):
    p = A.new(PROCESS, 's', A.dict(), 100)
    b = A.new(BATCH, A.list(list(spans)), p)
    A.require(A.attr(b, 'process') is p, 'process', 'the process of the batch is another one')
    return A.attr(b, 'spans').items


def micros(A, t):
    return A.apply(BCls('int'), A.apply(Native('mul', lambda ip, a, kw: binop(
        ip, 'Mult', a[0], C(1000000))), t))


def fields(A):
    tr = make(A)
    flags = A.pick('flags', [1, 3, 5, 9, 255])
    name = A.str('operation', minlen=1)
    span = A.call(tr, 'start_span', name, child_of=A.new(CTX, 10, 11, 12, flags), start_time=1.0)
    if A.pick('renamed', [False, True]):
        name = A.str('new name')
        A.call(span, 'set_operation_name', name)
    at = A.pick('log', [('during', 1.75), ('before the start', 0.5), ('after the end', 4.5)])
    A.call(span, 'log_kv', A.dict([('e', 'f')]), at)
    A.call(span, 'finish', 3.25)
    j = convert(A, span)[0]
    A.require_same(A.attr(j, 'operationName'), name, 'name', 'operation name')
    A.require_same(A.attr(j, 'flags'), C(flags), 'flags', 'flags')
    A.require_same(A.attr(j, 'parentSpanId'), C(11), 'parent', 'parent id')
    A.require_same(A.attr(j, 'traceIdLow'), C(10), 'trace', 'trace id')
    A.require_same(A.attr(j, 'traceIdHigh'), C(0), 'trace', 'high half of the trace id')
    A.require_same(A.attr(j, 'startTime'), C(1000000), 'start', 'start time')
    A.require_same(A.attr(j, 'duration'), C(2250000), 'duration', 'duration')
    A.require_same(A.attr(A.attr(j, 'logs').items[0], 'timestamp'), C(int(at * 1000000)), 'log-time',
                   'time of a log')


def times(A):
    tr = make(A)
    t0 = A.sym('start', 'float', 1, 2 ** 33)
    span = A.call(tr, 'start_span', 'op', start_time=t0)
    t1 = A.sym('end', 'float', 1, 2 ** 33)
    if A.pick('times', ['any', 'the same']) == 'the same':
        t0 = t1 = C(1234.5)
        span = A.call(tr, 'start_span', 'op', start_time=t0)
    A.call(span, 'finish', t1)
    A.call(span, 'log_kv', A.dict([('e', 'f')]), A.pick('log time', [('same', t0), ('const', C(2.5))]))
    j = convert(A, span)[0]
    got = A.attr(j, 'startTime')
    A.soft(A.same(got, micros(A, t0)), 'start', 'start time %s' % pretty(A, got))
    got = A.attr(j, 'duration')
    diff = A.apply(Native('sub', lambda ip, a, kw: binop(ip, 'Sub', a[0], a[1])), t1, t0)
    A.soft(A.same(got, micros(A, diff)), 'duration', 'duration %s' % pretty(A, got))
    A.require(A.ip.types(got) <= frozenset(['int']) if isinstance(got, T) else True, 'int',
              'the duration is not an integer')
    log = A.attr(j, 'logs').items
    if A.require(len(log) == 1, 'logs', '%d logs' % len(log)):
        A.require(A.ip.types(A.attr(log[0], 'timestamp')) <= frozenset(['int']) if isinstance(
            A.attr(log[0], 'timestamp'), T) else True, 'int', 'the log time is not an integer')


def contents(A):
    tr = make(A)
    span = A.call(tr, 'start_span', 'op', start_time=1.0, tags=A.dict([('a', 'x')]))
    n = A.pick('tags', [0, 1, 2])
    for i in range(n):
        A.call(span, 'set_tag', 't%d' % i, i)
    k = A.pick('logs', [0, 1, 2])
    for i in range(k):
        A.call(span, 'log_kv', A.dict([('n', i)]), float(i + 1))
    A.call(span, 'finish', 3.0)
    j = convert(A, span)[0]
    tags = A.attr(j, 'tags').items
    want = [('a', C('x'))] + [('t%d' % i, C(i)) for i in range(n)]
    A.require(len(tags) == len(want), 'tags', '%d tags of %d' % (len(tags), len(want)))
    for t, (a, b) in zip(tags, want):
        A.require(A.same(A.attr(t, 'key'), C(a)) and A.same(tag_value(A, t), b), 'tags',
                  'tag %s is %s' % (a, pretty(A, tag_value(A, t))))
    logs = A.attr(j, 'logs').items
    A.require(len(logs) == k, 'logs', '%d logs of %d' % (len(logs), k))
    for i, l in enumerate(logs):
        A.require_same(A.attr(l, 'timestamp'), C((i + 1) * 1000000), 'logs', 'time of a log')
        f = A.attr(l, 'fields').items
        A.require(len(f) == 1 and A.same(tag_value(A, f[0]), C(i)) is True, 'logs',
                  'fields of a log')


def references(A):
    tr = make(A)
    cs = [A.new(CTX, 10 * i, 10 * i + 1, NONE, 1) for i in (1, 2)]
    bare = A.new(CTX, NONE, NONE, NONE, NONE, A.dict([('k', 'v')]))
    mk = {'child': 'opentracing:child_of', 'follows': 'opentracing:follows_from'}
    kinds = A.pick('references', ['', 'child', 'follows', 'child follows', 'follows child',
                                  'bare child', 'child bare', 'bare', 'child again', 'follows again']).split()
    refs, want, i = [], [], 0
    for k in kinds:
        if k == 'bare':
            refs.append(A.new('opentracing:child_of', bare))
            continue
        if k == 'again':        # the same context, otherwise
            refs.append(A.new(mk['child' if kinds[0] == 'follows' else 'follows'], cs[0]))
            want.append((1 - want[0][0], want[0][1]))
            continue
        refs.append(A.new(mk[k], cs[i]))
        want.append((0 if k == 'child' else 1, 10 * (i + 1)))
        i += 1
    span = A.call(tr, 'start_span', 'op', child_of=A.new(CTX, 5, 6, 7, 1), start_time=1.0,
                  references=A.list(refs))
    A.call(span, 'finish', 3.0)
    got = A.attr(convert(A, span)[0], 'references')
    items = got.items if isinstance(got, (ListV, Tup)) else []
    A.require(A.is_none(got) or isinstance(got, ListV), 'references', 'references %s' % pretty(
        A, got))
    A.require(len(items) == len(want), 'references', '%d references of %d' % (
        len(items), len(want)))
    for r, (kind, tid) in zip(items, want):
        A.require_same(A.attr(r, 'refType'), C(kind), 'ref-type', 'type of a reference')
        A.require_same(A.attr(r, 'traceIdLow'), C(tid), 'ref-ids', 'trace id of a reference')
        A.require_same(A.attr(r, 'traceIdHigh'), C(0), 'ref-ids', 'trace id of a reference')
        A.require_same(A.attr(r, 'spanId'), C(tid + 1), 'ref-ids', 'span id of a reference')


def several(A):
    tr = make(A)
    n = A.pick('spans', [0, 1, 2, 3])
    spans = []
    for i in range(n):
        s = A.call(tr, 'start_span', 'op%d' % i, child_of=A.new(CTX, 10 + i, 5, 6, 1),
                   start_time=float(i + 1), tags=A.dict([('i', i)]))
        A.call(s, 'finish', 9.0)
        spans.append(s)
    out = convert(A, *spans)
    A.require(len(out) == n, 'several', '%d spans of %d' % (len(out), n))
    for i, j in enumerate(out):
        A.require_same(A.attr(j, 'operationName'), C('op%d' % i), 'several', 'name')
        A.require_same(A.attr(j, 'traceIdLow'), C(10 + i), 'several', 'trace id')
        A.require_same(A.attr(j, 'startTime'), C((i + 1) * 1000000), 'several', 'start time')
        t = A.attr(j, 'tags').items
        A.require(len(t) == 1 and A.same(tag_value(A, t[0]), C(i)) is True, 'several', 'tags')


def crowd(A):
    n = 1100
    tr = make(A)
    span = A.call(tr, 'start_span', 'op', child_of=A.new(CTX, 10, 11, 12, 1), start_time=1.0)
    for i in range(n):
        A.call(span, 'set_tag', 't%d' % i, i)
    for i in range(200):
        A.call(span, 'log_kv', A.dict([('n', i)]), float(i + 1))
    A.call(span, 'finish', 3.0)
    j = convert(A, span)[0]
    tags, logs = A.attr(j, 'tags').items, A.attr(j, 'logs').items
    A.require(len(tags) == n and A.same(tag_value(A, tags[-1]), C(n - 1)) is True, 'tags',
              '%d tags of %d' % (len(tags), n))
    A.require(len(logs) == 200, 'logs', '%d logs of 200' % len(logs))
