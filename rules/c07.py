"""Formats are dispatched to their codec and unusable carriers are refused before any write.

For every registered format the codec the tracer uses is the one registered (a caller's codec
replaces the built-in one and gets the context and carrier as they are); a format nobody registered
is refused; and a carrier the codec cannot use raises InvalidCarrierException with nothing written.
"""
from .common import *

UNSUPPORTED = 'opentracing:UnsupportedFormatException'
Z = 'jaeger_client.codecs:ZipkinSpanFormat'


def run(P):
    P.scenario('unknown format', unknown)
    P.scenario('codecs of the caller', extra)
    P.scenario('unusable carriers', carriers)
    P.scenario('not a context', not_context)
    P.scenario('url encoding only for HTTP headers', encoding)
    P.scenario('span in place of its context', span_arg)
    P.scenario('carrier of a dict subclass or mapping', mapping)


def sample(A):
    return A.new(CTX, 1, 2, 3, 1, A.dict([('k', 'v')]))


def formats(A):
    return {'TEXT_MAP': fmt(A, 'TEXT_MAP'), 'HTTP_HEADERS': fmt(A, 'HTTP_HEADERS'),
            'BINARY': fmt(A, 'BINARY'), 'zipkin': A.load(Z)}


def unknown(A):
    tr = tracer(A)
    f = A.pick('format', [('other string', C('no-such-format')), ('empty', C('')),
                          ('None', NONE), ('any other', A.str('format'))])
    if isinstance(f, T):
        for k in formats(A).values():
            A.assume(not A.eq(f, k))
    for carrier in (A.dict(), ByteArr(C(b''))):
        fr = Frozen(A, carrier)
        for meth, args in (('inject', (sample(A), f, carrier)), ('extract', (f, carrier))):
            v, exc = A.catch(A.call, tr, meth, *args)
            A.require(exc is not None and A.isinst(exc, UNSUPPORTED), meth + '-unknown',
                      '%s of an unknown format %s' % (
                          meth, 'raises ' + exc.cls.name if exc else 'is accepted'))
        fr.unchanged('unknown-write', 'the carrier')


def extra(A):
    which = A.pick('format', [('its own', C('mine')), ('text', fmt(A, 'TEXT_MAP')),
                              ('http', fmt(A, 'HTTP_HEADERS')), ('binary', fmt(A, 'BINARY')),
                              ('zipkin', A.load(Z))])
    result = A.new(CTX, 9, 9, 9, 1)
    codec = A.stub('codec', inject=lambda ip, a, kw: NONE, extract=lambda ip, a, kw: result)
    given = A.dict([(which, codec)])
    fr = Frozen(A, given)
    tr = tracer(A, extra_codecs=given)
    ctx, carrier = sample(A), A.dict()
    A.call(tr, 'inject', ctx, which, carrier)
    ev = A.calls('codec.inject')
    A.require(len(ev) == 1 and argsof(ev[0], ('span_context', 'carrier')) == [ctx, carrier],
              'extra-inject', 'the registered codec is not called with the context and carrier')
    back = A.call(tr, 'extract', which, carrier)
    ev = A.calls('codec.extract')
    A.require(len(ev) == 1 and argsof(ev[0], ('carrier',)) == [carrier], 'extra-extract',
              'the registered codec is not called with the carrier')
    A.require(back is result, 'extra-result', 'its result is not returned')
    fr.unchanged('extra-mutated', 'the dict of codecs')
    # the others still work
    for n, f in formats(A).items():
        if A.same(f, which) is not True and n != 'BINARY':
            c = A.dict()
            A.call(tr, 'inject', ctx, f, c)
            b = A.call(tr, 'extract', f, c)
            if A.require(A.isa(b, CTX), 'others', 'format %s does not work' % n):
                same_ids(A, b, C(1), C(2), C(3), C(1), 'format %s' % n)
    t2 = tracer(A)
    n = len(A.calls('codec.inject'))
    if not A.same(which, C('mine')):
        A.call(t2, 'inject', ctx, which, ByteArr(C(b'')) if A.same(which, fmt(A, 'BINARY'))
               else A.dict())
        A.require(len(A.calls('codec.inject')) == n, 'leak', 'another tracer uses the codec')


def carriers(A):
    tr = tracer(A, extra_codecs=A.dict([('b3', A.new('jaeger_client.codecs:B3Codec'))]))
    f = dict(formats(A), b3=C('b3'))
    n = A.pick('format', sorted(f))
    op = A.pick('operation', ['inject', 'extract'])
    opts = [('None', NONE), ('string', C('carrier')), ('number', C(5)), ('bytes', C(b'xy')),
            ('list', A.list(['a', 'b'])), ('tuple', Tup([C('a')])), ('object', A.stub('thing')),
            ('bool', TRUE), ('set', SetV([C('a')]))]
    if n == 'BINARY':
        opts.append(('dict', A.dict([('a', 'b')])))
    else:
        opts.append(('bytearray', ByteArr(C(b'xy'))))
    carrier = A.pick('carrier', opts)
    fr = Frozen(A, carrier)
    args = (sample(A), f[n], carrier) if op == 'inject' else (f[n], carrier)
    v, exc = A.catch(A.call, tr, op, *args)
    A.require(exc is not None and A.isinst(exc, INVALID), '%s-%s' % (n, op),
              '%s: an unusable carrier %s' % (
                  op, 'raises ' + exc.cls.name if exc else 'is accepted'))
    fr.unchanged('write', 'the unusable carrier')


def not_context(A):
    tr = tracer(A)
    n = A.pick('format', ['TEXT_MAP', 'HTTP_HEADERS', 'BINARY', 'zipkin'])
    x = A.pick('argument', [('None', NONE), ('string', C('1:2:3:1')), ('dict', A.dict()),
                            ('foreign context', A.stub('other', trace_id=1, span_id=2,
                                                       baggage=A.dict()))])
    carrier = ByteArr(C(b'')) if n == 'BINARY' else A.dict()
    fr = Frozen(A, carrier)
    v, exc = A.catch(A.call, tr, 'inject', x, formats(A)[n], carrier)
    A.require(exc is not None and A.isinst(exc, 'ValueError', 'TypeError'), 'not-context',
              'injecting something that is no context %s' % (
                  'raises ' + exc.cls.name if exc else 'is accepted'))
    fr.unchanged('not-context-write', 'the carrier')


def encoding(A):
    tr = tracer(A)
    text = 'a b%/\u20ac:='
    ctx = A.new(CTX, 1, 2, 3, 1, A.dict([('k', text)]))
    c1, c2 = A.dict(), A.dict()
    A.call(tr, 'inject', ctx, fmt(A, 'TEXT_MAP'), c1)
    A.call(tr, 'inject', ctx, fmt(A, 'HTTP_HEADERS'), c2)
    import urllib.parse
    A.require_same(lookup(A, c1, 'uberctx-k') or NONE, C(text), 'text-plain', 'text map baggage')
    v = lookup(A, c2, 'uberctx-k')
    q = v.v if isinstance(v, C) and isinstance(v.v, str) else None
    A.require(q is not None and all(33 <= ord(c) < 127 for c in q) and
              urllib.parse.unquote(q) == text, 'http-quoted', 'HTTP baggage %r is written as %s' % (
                  text, pretty(A, v) if v is not None else None))
    A.require_same(lookup(A, c2, 'uber-trace-id') or NONE, C('1:2:3:1'), 'http-trace',
                   'HTTP trace header')
    v = A.call(tr, 'extract', fmt(A, 'TEXT_MAP'), A.dict([('uber-trace-id', '1:2:3:1'),
                                                          ('uberctx-k', 'a%20b')]))
    A.require_same(A.attr(v, 'baggage'), A.dict([('k', 'a%20b')]), 'text-plain', 'text baggage')
    v = A.call(tr, 'extract', fmt(A, 'HTTP_HEADERS'), A.dict([('uber-trace-id', '1%3A2%3A3%3A1'),
                                                              ('uberctx-k', 'a%20b')]))
    A.require_same(A.attr(v, 'baggage'), A.dict([('k', 'a b')]), 'http-quoted', 'HTTP baggage')


def span_arg(A):
    tr = tracer(A)
    n = A.pick('format', ['TEXT_MAP', 'HTTP_HEADERS', 'BINARY', 'zipkin'])
    f = formats(A)[n]
    i = ids(A)
    ctx = context(A, i, A.dict([('k', short(A, 'value'))]))
    span = A.new('jaeger_client.span:Span', context=ctx, tracer=tr, operation_name='op')
    c1, c2 = [ByteArr(C(b'')) if n == 'BINARY' else A.dict() for _ in range(2)]
    A.call(tr, 'inject', ctx, f, c1)
    A.call(tr, 'inject', span, f, c2)
    A.require_same(c2, c1, 'span-arg', 'injecting a span')


def mapping(A):
    """Any object with items() is usable for extracting from text."""
    tr = tracer(A)
    o = A.stub('headers', items=lambda ip, a, kw: A.list([('Uber-Trace-Id', '1:2:3:1')]))
    n = A.pick('format', ['TEXT_MAP', 'HTTP_HEADERS'])
    extracted(A, A.call(tr, 'extract', fmt(A, n), o), (C(1), C(2), C(3), C(1)), 'mapping')
