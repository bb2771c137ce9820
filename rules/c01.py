"""Text trace header: what is injected is what is extracted.

For each text format, header name and every (trace id, span id, parent id, flags) in range, the
context built, injected and extracted through the public tracer is followed symbolically; the
header must be the four lower-case hexadecimal numbers joined by ':' and every id must come back
equal.  Repeats it with the header name in another case, with the value in a list of one, with
percent-encoding, with unrelated headers around it, and with a carrier that is used again.
"""
from .common import *


def run(P):
    for f in ('TEXT_MAP', 'HTTP_HEADERS'):
        for name in ('uber-trace-id', 'Other_Trace-ID'):
            P.scenario('%s round trip, header %s' % (f, name),
                       lambda A, f=f, name=name: roundtrip(A, f, name))
        P.scenario('%s presentation of the header' % f, lambda A, f=f: presentation(A, f))
        P.scenario('%s headers of others' % f, lambda A, f=f: unrelated(A, f))
        P.scenario('%s constant headers' % f, lambda A, f=f: table(A, f))
        P.scenario('%s span as argument, carrier used twice' % f, lambda A, f=f: twice(A, f))


def make(A, name):
    return tracer(A, trace_id_header=None if name == 'uber-trace-id' else name)


def roundtrip(A, f, name):
    tr = make(A, name)
    i = ids(A)
    ctx = context(A, i)
    carrier = A.dict()
    A.call(tr, 'inject', ctx, fmt(A, f), carrier)
    header = name.lower().replace('_', '-')
    A.require(keys_of(carrier) == [header], 'header-name',
              'inject writes %s, expected only %r' % (keys_of(carrier), header))
    tid, sid, pid, flags = i
    want = cat(hexs(A, tid), ':', hexs(A, sid), ':', '0' if pid is NONE else hexs(A, pid), ':',
               hexs(A, flags))
    if carrier.entries:
        A.require_same(carrier.entries[0][1], want, 'header-value', 'the trace header')
    extracted(A, A.call(tr, 'extract', fmt(A, f), carrier), i, 'round trip')


def presentation(A, f):
    tr = make(A, 'uber-trace-id')
    i = ids(A)
    carrier = A.dict()
    A.call(tr, 'inject', context(A, i), fmt(A, f), carrier)
    value = lookup(A, carrier, 'uber-trace-id')
    if not A.require(value is not None, 'header-name', 'no trace header was written'):
        A.stop()
    name = A.pick('header name', ['uber-trace-id', 'Uber-Trace-Id', 'UBER-TRACE-ID'])
    how = A.pick('value', ['plain', 'list of one'] + (['quoted'] if f != 'TEXT_MAP' else []))
    if how == 'list of one':
        value = A.list([value])
    elif how == 'quoted':
        value = A.apply(Ext('urllib.parse.quote'), value)
    where = A.pick('other headers', ['none', 'before', 'after'])
    other = A.str('other')
    e = [(name, value)]
    if where == 'before':
        e = [('Accept', other), ('X-Id', other)] + e
    elif where == 'after':
        e = e + [('Accept', other), ('uber-trace', other)]
    back = A.call(tr, 'extract', fmt(A, f), A.dict(e))
    extracted(A, back, i, 'header presented as %s' % how)


def unrelated(A, f):
    """Headers with a similar name that hold what could be a trace play no part."""
    tr = make(A, 'uber-trace-id')
    name = A.pick('name', ['Accept', 'trace-id', 'x-uber-trace-id', 'uber-trace-id2', 'uber-trace', 'uber_trace_id',
                           'jaeger-debug', 'x-jaeger-debug-id', 'jaeger-baggages', 'uberctx', 'x-uberctx-a', 'X-B3-TraceId',
                           ' uber-trace-id', ''])
    value = A.pick('value', [('a trace', '7:8:9:3'), ('any', A.str('other')), ('pair', 'k=v')])
    e = [('uber-trace-id', '1:2:3:1')]
    e.insert(A.pick('at', [0, 1]), (name, value))
    back = A.call(tr, 'extract', fmt(A, f), A.dict(e))
    extracted(A, back, [C(1), C(2), C(3), C(1)], 'with the header %r' % name)
    if A.isa(back, CTX):
        A.require(not A.truth(A.attr(back, 'baggage')), 'baggage', 'the header %r becomes baggage' % name)
        A.require(A.is_none(A.attr(back, 'debug_id')), 'debug-id', 'the header %r becomes a debug id' % name)


TABLE = [
    ('1:2:3:4', 1, 2, 3, 4), ('1:2:0:1', 1, 2, None, 1), ('ff:a0:B:fF', 255, 160, 11, 255),
    ('0001:0002:0:00', 1, 2, None, 0),
    ('f' * 32 + ':' + 'f' * 16 + ':' + 'f' * 16 + ':0', 2 ** 128 - 1, 2 ** 64 - 1, 2 ** 64 - 1, 0),
    ('1' + '0' * 16 + ':1:1:3', 2 ** 64, 1, 1, 3),
    ('8000000000000000:8000000000000000:7fffffffffffffff:2', 2 ** 63, 2 ** 63, 2 ** 63 - 1, 2),
]


def table(A, f):
    tr = make(A, 'uber-trace-id')
    row = A.pick('header', [(r[0], r) for r in TABLE])
    back = A.call(tr, 'extract', fmt(A, f), A.dict([('uber-trace-id', row[0])]))
    extracted(A, back, [C(x) for x in row[1:]], 'header %s' % row[0])


def twice(A, f):
    tr = make(A, 'uber-trace-id')
    carrier = A.dict()
    i, k = ids(A), ids(A, '2')
    A.call(tr, 'inject', context(A, i), fmt(A, f), carrier)
    extracted(A, A.call(tr, 'extract', fmt(A, f), carrier), i, 'first use')
    span = A.new('jaeger_client.span:Span', context=context(A, k), tracer=tr,
                 operation_name='op')
    A.call(tr, 'inject', span, fmt(A, f), carrier)
    extracted(A, A.call(tr, 'extract', fmt(A, f), carrier), k, 'carrier used again')
    c2 = A.dict()
    A.call(tr, 'inject', context(A, i), fmt(A, f), c2)
    extracted(A, A.call(tr, 'extract', fmt(A, f), c2), i, 'another carrier')
