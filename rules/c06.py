"""Zipkin-format carrier: ids are written and read back unchanged, from dicts and from objects.

inject must write exactly the four entries; extract of them, and of an object carrying the same
attributes, must give the same context for every id; a missing attribute is an invalid carrier and
a carrier without a trace id gives no context.
"""
from .common import *

Z = 'jaeger_client.codecs:ZipkinSpanFormat'


def run(P):
    P.scenario('dict round trip', roundtrip)
    P.scenario('object carrier', from_object)
    P.scenario('object with a missing attribute', missing)
    P.scenario('no trace', none)


def roundtrip(A):
    tr = tracer(A)
    z = A.load(Z)
    i = ids(A)
    bag = A.pick('baggage', [None, A.dict([('k', 'v')])])
    carrier = A.dict([('other', 'x')])
    A.call(tr, 'inject', context(A, i, bag), z, carrier)
    A.require_same(carrier, A.dict([('other', 'x'), ('trace_id', i[0]), ('span_id', i[1]),
                                    ('parent_id', i[2]), ('traceflags', i[3])]), 'carrier',
                   'the carrier')
    back = A.call(tr, 'extract', z, carrier)
    extracted(A, back, i, 'round trip')
    A.require(not A.truth(A.attr(back, 'baggage')), 'baggage', 'baggage appears')


def from_object(A):
    tr = tracer(A)
    i = ids(A)
    o = A.stub('carrier', trace_id=i[0], span_id=i[1], parent_id=i[2], traceflags=i[3])
    extracted(A, A.call(tr, 'extract', A.load(Z), o), i, 'object carrier')


def missing(A):
    tr = tracer(A)
    e = dict(trace_id=1, span_id=2, parent_id=3, traceflags=1)
    which = A.pick('missing', sorted(e))
    del e[which]
    v, exc = A.catch(A.call, tr, 'extract', A.load(Z), A.stub('carrier', **e))
    A.require(exc is not None and A.isinst(exc, INVALID), 'missing',
              'a carrier without %s gives %s' % (which, exc.cls.name if exc else pretty(A, v)))


def none(A):
    tr = tracer(A)
    c = A.pick('carrier', [('empty', A.dict()), ('zero', A.dict([('trace_id', 0), ('span_id', 1)])),
                           ('None', A.dict([('trace_id', NONE)])),
                           ('object', A.stub('carrier', trace_id=0, span_id=1, parent_id=0,
                                             traceflags=0))])
    A.require_same(A.call(tr, 'extract', A.load(Z), c), NONE, 'no-trace', 'no trace id')
