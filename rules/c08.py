"""Propagation has no side effects beyond the carrier it writes.

inject leaves the context, its baggage, the span and every entry the carrier already had as they
were; extract leaves the carrier and everything in it as it was; the extracted context shares no
mutable state with the carrier or with an earlier extraction; and neither touches the sampler, the
reporter or the active span.
"""
from .common import *
from .c07 import formats


def run(P):
    P.scenario('inject leaves the context alone', inject)
    P.scenario('inject keeps other entries', keeps)
    P.scenario('extract leaves the carrier alone', extract)
    P.scenario('contexts are independent', independent)


def all_formats(A, tr=None):
    f = dict(formats(A), b3=C('b3'))
    n = A.pick('format', sorted(f))
    return n, f[n]


def make(A):
    s = A.stub('sampler', is_sampled=lambda ip, a, kw: Tup([TRUE, A.dict()]),
               close=lambda ip, a, kw: NONE)
    return tracer(A, sampler=s, extra_codecs=A.dict([
        ('b3', A.new('jaeger_client.codecs:B3Codec'))]))


def inject(A):
    tr = make(A)
    n, f = all_formats(A)
    bag = A.dict([(short(A, 'key'), short(A, 'value')), ('fixed', 'x')])
    A.assume(not A.eq(bag.entries[0][0], C('fixed')))
    as_span = A.pick('argument', ['context', 'span'])
    ctx = context(A, (A.int('trace_id', 1, 2 ** 64 - 1), A.int('span_id', 1, 2 ** 64 - 1), NONE,
                      A.int('flags', 0, 255)), bag)
    x = ctx
    if as_span == 'span':
        x = A.new('jaeger_client.span:Span', context=ctx, tracer=tr, operation_name='op')
    fr = Frozen(A, ctx, bag)
    m = A.mark
    A.call(tr, 'inject', x, f, ByteArr(C(b'')) if n == 'BINARY' else A.dict())
    A.call(tr, 'inject', x, f, ByteArr(C(b'')) if n == 'BINARY' else A.dict())
    fr.unchanged('context', 'the injected context')
    quiet(A, m)
    if as_span == 'span':
        A.require(A.attr(x, 'context') is ctx, 'span', 'the span has another context')
        A.require(len(A.attr(x, 'tags').items) == 0 and len(A.attr(x, 'logs').items) == 0, 'span',
                  'inject records something in the span')


def quiet(A, m):
    ev = A.events('call', ('*.is_sampled', '*.report_span'), m)
    A.require(not ev, 'side-effect', 'propagation calls %s' % [e.name for e in ev])
    A.require(not A.events('rng', None, m), 'side-effect', 'propagation makes random numbers')


def keeps(A):
    tr = make(A)
    n, f = all_formats(A)
    if n == 'BINARY':
        carrier = ByteArr(C(b'xyz'))
        A.call(tr, 'inject', A.new(CTX, 1, 2, 3, 1), f, carrier)
        A.require(A.ip.norm(carrier.val).v[:3] == b'xyz', 'kept', 'earlier bytes are overwritten')
        A.stop()
    other = A.str('other')
    inner = A.list([other])
    carrier = A.dict([('Accept', other), ('list', inner), ('uberctx-zzz', other)])
    A.call(tr, 'inject', A.new(CTX, 1, 2, 3, 1, A.dict([('k', 'v')])), f, carrier)
    for k, v in (('Accept', other), ('list', inner), ('uberctx-zzz', other)):
        A.require(lookup(A, carrier, k) is v, 'kept', 'the entry %r is lost or changed' % k)


def extract(A):
    tr = make(A)
    n, f = all_formats(A)
    lst = A.list(['1:2:3:1'])
    if n == 'BINARY':
        carrier = ByteArr(C(b''))
        A.call(tr, 'inject', A.new(CTX, 1, 2, 3, 1, A.dict([('k', 'v')])), f, carrier)
    elif n == 'b3':
        carrier = A.dict([('X-B3-TraceId', A.str('t')), ('x-b3-spanid', '2'), ('Accept', lst)])
    elif n == 'zipkin':
        carrier = A.dict([('trace_id', 1), ('span_id', 2), ('parent_id', NONE),
                          ('traceflags', 1), ('Accept', lst)])
    else:
        carrier = A.pick('carrier', [
            ('list header', A.dict([('uber-trace-id', lst), ('uberctx-A', 'v'), ('Accept', lst)])),
            ('any header', A.dict([('uber-trace-id', A.str('header')), ('uberctx-A', A.str('b')),
                                   ('jaeger-debug-id', A.str('d'))])),
            ('ad-hoc', A.dict([('jaeger-baggage', 'a=b, c=d'), ('uberctx-a', 'x')]))])
    fr = Frozen(A, carrier)
    m = A.mark
    A.catch(A.call, tr, 'extract', f, carrier)
    A.catch(A.call, tr, 'extract', f, carrier)
    fr.unchanged('carrier', 'the carrier')
    quiet(A, m)


def independent(A):
    tr = make(A)
    n, f = all_formats(A)
    carrier = ByteArr(C(b'')) if n == 'BINARY' else A.dict()
    A.call(tr, 'inject', A.new(CTX, 1, 2, 3, 1, A.dict([('k', 'v')])), f, carrier)
    a = A.call(tr, 'extract', f, carrier)
    b = A.call(tr, 'extract', f, carrier)
    if not A.require(A.isa(a, CTX) and A.isa(b, CTX), 'lost', 'nothing extracted'):
        return
    A.require(a is not b, 'shared', 'two extractions share one context')
    if n not in ('zipkin', 'b3'):
        x, y = A.attr(a, 'baggage'), A.attr(b, 'baggage')
        A.require(x is not y, 'shared', 'two extractions share one baggage dict')
        fr = Frozen(A, carrier, b)
        ms.dict_set(A.ip, x, C('new'), C('value')) if hasattr(ms, 'dict_set') else None
        fr.unchanged('shared', 'another context or the carrier')
    fr = Frozen(A, carrier, a)
    span = A.call(tr, 'start_span', 'op', child_of=a)
    A.call(span, 'set_baggage_item', 'k2', 'v2')
    A.call(span, 'set_baggage_item', 'k', NONE)
    fr.unchanged('span-shared', 'the extracted context')
