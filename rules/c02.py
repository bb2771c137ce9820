"""An untrusted text trace header gives ids in range or is reported as corrupted.

The header value ranges over every value of every type (a string of any content, bytes, numbers,
None, lists, containers); each path of extract must end in a context whose ids are proved to be in
range, or in SpanContextCorruptedException, and in nothing else.  A table of constant malformed
headers must be refused.
"""
from .common import *


def run(P):
    for f in ('TEXT_MAP', 'HTTP_HEADERS'):
        P.scenario('%s any header value' % f, lambda A, f=f: anything(A, f))
        P.scenario('%s any header value among others' % f, lambda A, f=f: anything(A, f, True))
        P.scenario('%s malformed constants' % f, lambda A, f=f: table(A, f))


def anything(A, f, others=False):
    tr = tracer(A)
    e = [('uber-trace-id', A.sym('header', 'any'))]
    if others:
        e = [('uberctx-k', A.str('baggage value')), ('jaeger-debug-id', A.str('debug id'))] + e
    v, exc = A.catch(A.call, tr, 'extract', fmt(A, f), A.dict(e))
    if exc is not None:
        only_corrupted(A, exc, 'untrusted header')
        return
    if A.require(A.isa(v, CTX), 'lost', 'extract gives %s for a trace header' % pretty(A, v)):
        id_bounds(A, v, 'untrusted header')


BAD = ['', ' ', ':', ':::', '1', '1:2:3', '1:2:3:4:5', '1:2:3:4:', '0:1:1:1', '1:0:1:1',
       '-1:1:1:1', '1:-1:1:1', '1:1:-1:1', '1:1:1:-1', 'x:1:1:1', '1:x:1:1', '1:1:x:1', '1:1:1:x',
       '1::1:1', '1:1::1', '1:1:1:', '1:1:1:100', '1' + '0' * 32 + ':1:1:1',
       '1:1' + '0' * 16 + ':0:1', '1:1:1' + '0' * 16 + ':1', '1.0:1:1:1', '1;2;3;4', '00:00:0:0',
       'bad value', '1 1:2:3:4', b'1:2:3', b'', 1, 0, -5, 1.5, True, None, [], ['1:2'], [''],
       ['1:2:3:4', '1:2:3:4'], ['1:2:3:4', 'x'], [1], [None], [[]], [['1:2:3:4']], (), ('1:2:3:4',),
       {}, {'a': 1}]


def table(A, f):
    tr = tracer(A)
    bad = A.pick('header', [(repr(b), b) for b in BAD])
    v, exc = A.catch(A.call, tr, 'extract', fmt(A, f), A.dict([("uber-trace-id", bad)]))
    if A.require(exc is not None, 'accepted', 'the malformed header %r is accepted and gives %s' % (
            bad, pretty(A, v) if v is not None else '')):
        only_corrupted(A, exc, 'header %r' % (bad,))
