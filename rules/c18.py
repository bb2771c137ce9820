"""Every id reaches the wire as the same bits, in signed 64-bit fields.

For every trace id of up to 128 bits and every span and parent id of up to 64: the low and high half
of the trace id, the span id, the parent id and the ids of references in the reported span are in
the signed 64-bit range and equal the original modulo 2**64; no parent is 0.
"""
from .common import *

BATCH = 'jaeger_client.thrift:make_jaeger_batch'
PROCESS = 'jaeger_client.thrift:make_process'


def run(P):
    P.scenario('ids of a span', span_ids)
    P.scenario('ids of references', ref_ids)
    P.scenario('conversion functions', functions)
    P.scenario('boundary ids', boundary)


def same_bits(A, got, bits, key, what):
    """got is `bits` (0 <= bits < 2**64) as a signed 64-bit number."""
    if not A.require(got is not NONE, key, '%s is missing' % what):
        return
    in_range(A, got, -2 ** 63, 2 ** 63 - 1, key, what)
    if A.cmp(bits, '<', 2 ** 63):
        A.soft(A.same(got, bits), key, '%s is %s, expected %s' % (
            what, pretty(A, got), pretty(A, bits)))
    else:
        A.soft(A.same(A.apply(plus, got, 2 ** 64), bits), key, '%s is %s, expected %s - 2**64' % (
            what, pretty(A, got), pretty(A, bits)))


plus = Native('plus', lambda ip, a, kw: terms.t_add(a[0], a[1]))
low = Native('low', lambda ip, a, kw: binop(ip, 'BitAnd', a[0], C(2 ** 64 - 1)))
high = Native('high', lambda ip, a, kw: binop(ip, 'RShift', a[0], C(64)))


def binop(ip, op, a, b):
    from sa import m_ops
    return m_ops.binop(ip, op, a, b)


def batch_of(A, *spans):
    return A.new(BATCH, A.list(list(spans)), A.new(PROCESS, 's', A.dict(), 100))


def finished(A, tr, **kw):
    span = A.call(tr, 'start_span', 'op', start_time=1.0, **kw)
    A.call(span, 'finish', 2.0)
    return span


def make(A):
    s, _, _ = sampler_stub(A, TRUE, A.dict())
    return tracer(A, sampler=s, one_span_per_rpc=TRUE)


def ranges(A):
    tid = A.pick('trace id', [('64 bits', A.int('trace_id', 1, 2 ** 64 - 1)),
                              ('128 bits', A.int('wide_trace_id', 2 ** 64, 2 ** 128 - 1))])
    return tid, A.int('span_id', 1, 2 ** 64 - 1)


def span_ids(A):
    tid, sid = ranges(A)
    pid = A.pick('parent id', [('none', NONE), ('some', A.int('parent_id', 1, 2 ** 64 - 1))])
    tr = make(A)
    ctx = A.new(CTX, tid, sid, pid, 1)
    span = finished(A, tr, child_of=ctx, tags=A.dict([('span.kind', 'server')]))
    out = A.attr(batch_of(A, span), 'spans').items
    if not A.require(len(out) == 1, 'count', '%d spans for one' % len(out)):
        return
    j = out[0]
    same_bits(A, A.attr(j, 'traceIdLow'), A.apply(low, tid), 'low', 'the low half')
    same_bits(A, A.attr(j, 'traceIdHigh'), A.apply(high, tid), 'high', 'the high half')
    same_bits(A, A.attr(j, 'spanId'), sid, 'span', 'the span id')
    if pid is NONE:
        A.require_same(A.attr(j, 'parentSpanId'), C(0), 'parent', 'parent id of a root')
    else:
        same_bits(A, A.attr(j, 'parentSpanId'), pid, 'parent', 'the parent id')


def ref_ids(A):
    tid, sid = ranges(A)
    tr = make(A)
    ctx = A.new(CTX, tid, sid, NONE, 1)
    r = A.new('opentracing:follows_from', ctx)
    span = finished(A, tr, child_of=A.new(CTX, 5, 6, 7, 1), references=A.list([r]))
    refs = A.attr(A.attr(batch_of(A, span), 'spans').items[0], 'references')
    if not A.require(isinstance(refs, ListV) and len(refs.items) == 1, 'count', 'references %s'
                     % pretty(A, refs)):
        return
    j = refs.items[0]
    same_bits(A, A.attr(j, 'traceIdLow'), A.apply(low, tid), 'ref-low', 'the low half')
    same_bits(A, A.attr(j, 'traceIdHigh'), A.apply(high, tid), 'ref-high', 'the high half')
    same_bits(A, A.attr(j, 'spanId'), sid, 'ref-span', 'the span id')


def functions(A):
    v = A.int('id', 0, 2 ** 64 - 1)
    same_bits(A, A.new('jaeger_client.thrift:id_to_int', v), v, 'id_to_int', 'id_to_int')
    A.require(A.is_none(A.new('jaeger_client.thrift:id_to_int', NONE)), 'id_to_int',
              'id_to_int(None)')


EDGES = [1, 2, 2 ** 31, 2 ** 32 - 1, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 2, 2 ** 64 - 1]


def boundary(A):
    """The same for constants around every boundary, where every comparison is decided."""
    tr = make(A)
    sid = A.pick('id', EDGES)
    hi = A.pick('high half', [0] + EDGES)
    ctx = A.new(CTX, hi << 64 | sid, sid, sid, 1)
    span = finished(A, tr, child_of=ctx, tags=A.dict([('span.kind', 'server')]),
                    references=A.list([A.new('opentracing:child_of', ctx)]))
    j = A.attr(batch_of(A, span), 'spans').items[0]
    r = A.attr(j, 'references').items[0]
    signed = lambda x: C(x if x < 2 ** 63 else x - 2 ** 64)
    for o, name, want in ((j, 'traceIdLow', sid), (j, 'traceIdHigh', hi), (j, 'spanId', sid),
                          (j, 'parentSpanId', sid), (r, 'traceIdLow', sid),
                          (r, 'traceIdHigh', hi), (r, 'spanId', sid)):
        A.require_same(A.attr(o, name), signed(want), 'boundary', name)
