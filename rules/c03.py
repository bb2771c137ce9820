"""Baggage, correlation id and ad-hoc baggage survive the text carriers.

Baggage of unknown content (bounded number of items, any strings) is injected and extracted
symbolically: each item must come back under its lower-cased key with an equal value, and nothing
else may be added.  The correlation header and the ad-hoc baggage header are followed with unknown
values, alone, together with a trace and with prefixed baggage, before and after it.
"""
from .common import *

NAMES = [('default names', 'uberctx-', 'jaeger-debug-id', {}),
         ('custom names', 'my-bag-', 'my-debug',
          dict(baggage_header_prefix='My_Bag-', debug_id_header='My_Debug'))]


def run(P):
    for f in ('TEXT_MAP', 'HTTP_HEADERS'):
        P.scenario('%s baggage round trip' % f, lambda A, f=f: roundtrip(A, f))
        P.scenario('%s much baggage' % f, lambda A, f=f: much(A, f))
        P.scenario('%s items given as bytes' % f, lambda A, f=f: encoded(A, f))
        P.scenario('%s correlation id' % f, lambda A, f=f: debug_id(A, f))
        P.scenario('%s baggage without a trace' % f, lambda A, f=f: alone(A, f))
        P.scenario('%s ad-hoc baggage' % f, lambda A, f=f: adhoc(A, f))
        P.scenario('%s all headers in any order' % f, lambda A, f=f: everything(A, f))
        P.scenario('%s nothing to extract' % f, lambda A, f=f: nothing(A, f))
        P.scenario('%s independence of extractions' % f, lambda A, f=f: twice(A, f))


def roundtrip(A, f):
    _, prefix, _, kw = A.pick('names', [(n[0], n) for n in NAMES])
    tr = tracer(A, **kw)
    i = (A.int('trace_id', 1, 2 ** 128 - 1), A.int('span_id', 1, 2 ** 64 - 1), NONE, C(1))
    n = A.pick('items', [0, 1, 2])
    ks = [A.str('key%d' % j) for j in range(n)]
    vs = [A.str('value%d' % j) for j in range(n)]
    low = [A.call(k, 'lower') for k in ks]
    if n == 2:
        A.assume(not A.eq(low[0], low[1]))
        A.assume(not A.eq(ks[0], ks[1]))
    bag = A.dict(list(zip(ks, vs)))
    ctx = context(A, i, bag)
    carrier = A.dict()
    A.call(tr, 'inject', ctx, fmt(A, f), carrier)
    A.require(len(carrier.entries) == n + 1, 'carrier-size', '%d baggage items give the headers %s'
              % (n, keys_of(carrier)))
    for k in ks:
        A.require(any(A.same(h, cat(prefix, k)) for h, _ in carrier.entries), 'carrier-key',
                  'no header %r + key, only %s' % (prefix, keys_of(carrier)))
    back = A.call(tr, 'extract', fmt(A, f), carrier)
    extracted(A, back, i, 'with baggage')
    A.require_same(A.attr(back, 'baggage'), A.dict(list(zip(low, vs))), 'baggage',
                   'extracted baggage')


def much(A, f):
    """No item is one too many, no value too long."""
    tr = tracer(A)
    n, size = A.pick('baggage', [('300 items', (300, 1)), ('long values', (2, 70000)), ('none', (0, 1))])
    bag = A.dict([('k%d' % i, 'v' * size) for i in range(n)])
    i = (C(2 ** 127), C(2 ** 63), C(5), C(1))
    carrier = A.dict()
    A.call(tr, 'inject', context(A, i, bag), fmt(A, f), carrier)
    back = A.call(tr, 'extract', fmt(A, f), carrier)
    extracted(A, back, i, 'with much baggage')
    got = A.attr(back, 'baggage')
    A.require(isinstance(got, DictV) and len(got.entries) == n and
              all(A.same(v, C('v' * size)) for _, v in got.entries), 'baggage',
              '%d items of %d characters are extracted as %d' % (n, size, len(getattr(got, 'entries', ()))))


def encoded(A, f):
    """Items that are encoded already reach the carrier as text."""
    tr = tracer(A)
    k, v = A.pick('item', [(x, (x, y)) for x, y in (('key', 'value'), ('a-b', 'x y%'), ('k\u00e9', '\u20ac/='))])
    bag = A.dict([(C(k.encode('utf-8')), C(v.encode('utf-8')))])
    carrier = A.dict()
    A.call(tr, 'inject', context(A, (C(1), C(2), NONE, C(1)), bag), fmt(A, f), carrier)
    A.require(all(isinstance(x, C) and isinstance(x.v, str) for e in carrier.entries for x in e), 'text',
              'the carrier holds what is no text: %s' % pretty(A, carrier))
    back = A.call(tr, 'extract', fmt(A, f), carrier)
    if A.require(A.isa(back, CTX), 'lost', 'extract gives %s' % pretty(A, back)):
        A.require_same(A.attr(back, 'baggage'), A.dict([(k, v)]), 'baggage', 'extracted baggage of an item given as bytes')


def debug_id(A, f):
    _, prefix, name, kw = A.pick('names', [(n[0], n) for n in NAMES])
    tr = tracer(A, **kw)
    value = A.str('debug id')
    A.assume(A.truth(value))
    name = A.pick('header name', [name, name.upper(), name.title()])
    v = A.apply(Ext('urllib.parse.quote'), value) if f != 'TEXT_MAP' else value
    raw = A.pick('value', ['any, encoded as injected', 'a+b', 'some-id', 'a/b:c=d;e', 'x y'])
    if raw[0:3] != 'any':
        # typed in by hand
        value = v = C(raw)
    with_trace = A.pick('trace header', [False, True])
    e = [(name, v)]
    if with_trace:
        e = A.pick('order', [('first', [('uber-trace-id', '1:2:0:1')] + e),
                             ('last', e + [('uber-trace-id', '1:2:0:1')])])
    back = A.call(tr, 'extract', fmt(A, f), A.dict(e))
    if not A.require(A.isa(back, CTX), 'debug-id', 'extract gives %s' % pretty(A, back)):
        return
    A.require_same(A.attr(back, 'debug_id'), value, 'debug-id', 'the correlation id')
    A.require(A.truth(A.attr(back, 'has_trace')) is with_trace, 'has-trace',
              'has_trace is not %s' % with_trace)
    if with_trace:
        same_ids(A, back, C(1), C(2), NONE, C(1), 'with a correlation id')
    A.require(not A.truth(A.attr(back, 'baggage')), 'no-baggage', 'baggage appears')


def alone(A, f):
    _, prefix, _, kw = A.pick('names', [(n[0], n) for n in NAMES])
    tr = tracer(A, **kw)
    value = A.str('value')
    h = A.pick('header', [prefix + 'some-key', (prefix + 'Some-Key').title(),
                          (prefix + 'some-key').upper()])
    v = A.apply(Ext('urllib.parse.quote'), value) if f != 'TEXT_MAP' else value
    back = A.call(tr, 'extract', fmt(A, f), A.dict([('Accept', 'x'), (h, v), ('Host', 'y')]))
    if A.require(A.isa(back, CTX), 'baggage-only', 'extract gives %s' % pretty(A, back)):
        A.require_same(A.attr(back, 'baggage'), A.dict([('some-key', value)]), 'baggage',
                       'baggage of a carrier without a trace')
        A.require(not A.truth(A.attr(back, 'has_trace')), 'has-trace', 'it has a trace')
        A.require(A.is_none(A.attr(back, 'debug_id')), 'debug-id', 'it has a correlation id')


ADHOC = [('k1=v1', {'k1': 'v1'}), ('k1=v1, k2=v2', {'k1': 'v1', 'k2': 'v2'}),
         ('k1=v1,k2=v2,k3=v3', {'k1': 'v1', 'k2': 'v2', 'k3': 'v3'}),
         (' k1=v1 ,  k2=v2 ', {'k1': 'v1', 'k2': 'v2'}), ('bad,k1=v1', {'k1': 'v1'}),
         ('k1=v1,bad', {'k1': 'v1'}), ('a=b=c,k1=v1', {'k1': 'v1'}), (',,k1=v1', {'k1': 'v1'}),
         ('K1=V1', {'K1': 'V1'})]


def adhoc(A, f):
    tr = tracer(A)
    text, want = A.pick('header', [(a[0], a) for a in ADHOC])
    value = A.str('value')
    name = A.pick('name', ['jaeger-baggage', 'Jaeger-Baggage', 'JAEGER-BAGGAGE'])
    others = A.pick('prefixed baggage', ['none', 'before', 'after'])
    want = [(k, C(v)) for k, v in want.items()]
    e = [(name, text)]
    if others != 'none':
        v = A.apply(Ext('urllib.parse.quote'), value) if f != 'TEXT_MAP' else value
        p = [('uberctx-key', v)]
        e = p + e if others == 'before' else e + p
        want = want + [('key', value)]
    trace = A.pick('trace header', [False, True])
    if trace:
        e = [('uber-trace-id', '1:2:0:1')] + e
    back = A.call(tr, 'extract', fmt(A, f), A.dict(e))
    if A.require(A.isa(back, CTX), 'adhoc-lost', 'extract gives %s' % pretty(A, back)):
        A.require_same(A.attr(back, 'baggage'), A.dict(want), 'adhoc-baggage', 'ad-hoc baggage %r'
                       % text)
        A.require(A.truth(A.attr(back, 'has_trace')) is trace, 'has-trace', 'has_trace')


def everything(A, f):
    """Trace, correlation id and baggage of both kinds are read wherever they stand among the headers."""
    tr = tracer(A)
    es = [('uber-trace-id', '1:2:3:1'), ('jaeger-debug-id', 'corr'), ('uberctx-a', 'x'), ('Accept', '*/*'),
          ('Uberctx-B', 'y'), ('jaeger-baggage', 'k=v')]
    order = []
    while es:
        i = A.pick('header %d' % len(order), list(range(len(es)))) if len(order) < 3 else \
            A.pick('the rest', [0, -1]) if len(order) == 3 else 0
        order.append(es.pop(i))
    back = A.call(tr, 'extract', fmt(A, f), A.dict(order))
    what = ', '.join(k for k, _ in order)
    if A.require(A.isa(back, CTX), 'all', 'extract gives %s of %s' % (pretty(A, back), what)):
        same_ids(A, back, C(1), C(2), C(3), C(1), what)
        A.require_same(A.attr(back, 'debug_id'), C('corr'), 'all', 'the correlation id of ' + what)
        bag = A.attr(back, 'baggage')
        got = {k.v: pretty(A, v) for k, v in bag.entries}
        A.require(got == {'a': "'x'", 'b': "'y'", 'k': "'v'"}, 'all', 'the baggage %s of %s' % (got, what))


def nothing(A, f):
    tr = tracer(A)
    e = A.pick('carrier', [('empty', []), ('unrelated', [('accept', A.str('x'))]),
                           ('similar names', [('uber-trace-id2', A.str('x')),
                                              ('x-uber-trace-id', A.str('x')),
                                              ('xuberctx-a', A.str('x')),
                                              ('jaeger-debug-id2', A.str('x')),
                                              ('jaeger-baggages', A.str('x'))])])
    back = A.call(tr, 'extract', fmt(A, f), A.dict(e))
    A.require_same(back, NONE, 'nothing', 'a carrier without any of the headers')


def twice(A, f):
    """What one extraction found must not appear in a later one."""
    tr = tracer(A)
    A.call(tr, 'extract', fmt(A, f), A.dict([('uber-trace-id', '5:6:7:1'), ('uberctx-a', '1'),
                                             ('jaeger-debug-id', 'd'),
                                             ('jaeger-baggage', 'x=y')]))
    back = A.call(tr, 'extract', fmt(A, f), A.dict([('uber-trace-id', '1:2:0:0'),
                                                    ('uberctx-b', '2')]))
    extracted(A, back, [C(1), C(2), NONE, C(0)], 'second carrier')
    A.require_same(A.attr(back, 'baggage'), A.dict([('b', '2')]), 'leak', 'second baggage')
    A.require(A.is_none(A.attr(back, 'debug_id')), 'leak', 'the first debug id leaks')
    third = A.call(tr, 'extract', fmt(A, f), A.dict([('uber-trace-id', '3:4:0:0')]))
    A.require(not A.truth(A.attr(third, 'baggage')), 'leak', 'earlier baggage leaks')
    c1, c2 = A.dict(), A.dict()
    A.call(tr, 'inject', back, fmt(A, f), c1)
    A.call(tr, 'inject', third, fmt(A, f), c2)
    A.require(keys_of(c2) == ['uber-trace-id'], 'leak', 'second inject writes %s' % keys_of(c2))
