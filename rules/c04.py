"""Binary carrier: exact layout, lossless round trip, malformed data reported as corrupted.

inject is followed for every context (ids over their whole ranges, baggage of unknown strings) and
the bytes appended to the carrier must be the big-endian record the format prescribes; extract of
them must give the same context.  extract of a carrier of unknown bytes and of every truncation of
a valid carrier must end in a context whose ids fit, or in SpanContextCorruptedException only.
"""
from .common import *


def run(P):
    P.scenario('round trip and layout', roundtrip)
    P.scenario('items given as bytes', encoded)
    P.scenario('appends to what the carrier holds', appends)
    P.scenario('unknown bytes', anything, loop=2)
    P.scenario('truncated carriers', truncated)
    P.scenario('malformed constants', table)
    P.scenario('reference carriers', reference)
    P.scenario('one extraction after another', twice)


def setup(A, n):
    tr = tracer(A)
    i = ids(A)
    ks = [A.str('key%d' % j) for j in range(n)]
    vs = [A.str('value%d' % j) for j in range(n)]
    if n == 2:
        A.assume(not A.eq(ks[0], ks[1]))
    for x in ks + vs:       # longer ones do not fit in memory, let alone in the format
        A.assume(A.cmp(mt.seq_len(A.call(x, 'encode', 'utf-8')), '<', 2 ** 32))
    return tr, i, ks, vs


def layout(A, i, ks, vs):
    tid, sid, pid, flags = i
    be = terms.be
    hi = terms.t_and_const(terms.t_shr(tid, 64), 2 ** 64 - 1, A.ip.rng)
    lo = terms.t_and_const(tid, 2 ** 64 - 1, A.ip.rng)
    parts = [be(8, hi), be(8, lo), be(8, sid), be(8, C(0) if pid is NONE else pid), be(1, flags),
             be(4, C(len(ks)))]
    for k, v in zip(ks, vs):
        for x in (k, v):
            u = A.call(x, 'encode', 'utf-8')
            parts += [be(4, mt.seq_len(u)), u]
    return terms.b_cat(parts)


def roundtrip(A):
    n = A.pick('baggage items', [0, 1, 2])
    tr, i, ks, vs = setup(A, n)
    A.truth(lift(A.cmp(i[0], '>', 2 ** 64 - 1)))
    carrier = ByteArr(C(b''))
    bag = A.dict(list(zip(ks, vs)))
    A.call(tr, 'inject', context(A, i, bag), fmt(A, 'BINARY'), carrier)
    A.require_same(carrier.val, layout(A, i, ks, vs), 'layout', 'the carrier')
    back = A.call(tr, 'extract', fmt(A, 'BINARY'), carrier)
    extracted(A, back, i, 'binary round trip')
    A.require_same(A.attr(back, 'baggage'), bag, 'baggage', 'baggage')


def encoded(A):
    """Items that are encoded already are written as they are."""
    tr, i, ks, vs = setup(A, 1)
    which = A.pick('bytes', ['key', 'value', 'both'])
    k, v = ks[0], vs[0]
    if which != 'value':
        k = A.call(k, 'encode', 'utf-8')
    if which != 'key':
        v = A.call(v, 'encode', 'utf-8')
    carrier = ByteArr(C(b''))
    A.call(tr, 'inject', context(A, i, A.dict([(k, v)])), fmt(A, 'BINARY'), carrier)
    A.require_same(carrier.val, layout(A, i, ks, vs), 'layout', 'the carrier, %s given as bytes' % which)


def appends(A):
    tr, i, ks, vs = setup(A, 1)
    A.truth(lift(A.cmp(i[0], '>', 2 ** 64 - 1)))
    carrier = ByteArr(C(b'before'))
    A.call(tr, 'inject', context(A, i, A.dict([(ks[0], vs[0])])), fmt(A, 'BINARY'), carrier)
    A.require_same(carrier.val, terms.b_cat([C(b'before'), layout(A, i, ks, vs)]), 'layout',
                   'a carrier that was not empty')


def anything(A):
    tr = tracer(A)
    carrier = ByteArr(A.sym('carrier', 'bytes'))
    v, exc = A.catch(A.call, tr, 'extract', fmt(A, 'BINARY'), carrier)
    if exc is not None:
        only_corrupted(A, exc, 'unknown bytes')
        return
    if v is NONE:
        return
    if A.require(A.isa(v, CTX), 'lost', 'extract gives %s' % pretty(A, v)):
        for name, hi in (('trace_id', 2 ** 128 - 1), ('span_id', 2 ** 64 - 1), ('flags', 255)):
            x = A.attr(v, name)
            A.require(within(A, x, 0, hi), 'range-' + name, '%s is %s' % (name, pretty(A, x)))
        p = A.attr(v, 'parent_id')
        A.require(p is NONE or within(A, p, 0, 2 ** 64 - 1), 'range-parent_id',
                  'parent id is %s' % pretty(A, p))


def good():
    import struct
    out = struct.pack('>QQQQBI', 1, 2, 3, 4, 1, 2)
    for x in ('k1', 'v', 'key', 'value-2'):
        b = x.encode()
        out += struct.pack('>I', len(b)) + b
    return out


def truncated(A):
    tr = tracer(A)
    g = good()
    n = A.choose(len(g), 'length')
    v, exc = A.catch(A.call, tr, 'extract', fmt(A, 'BINARY'), ByteArr(C(g[:n])))
    if A.require(exc is not None, 'truncated', 'the first %d of %d bytes of a carrier are accepted'
                 % (n, len(g))):
        only_corrupted(A, exc, 'truncated carrier')


def table(A):
    import struct
    tr = tracer(A)
    head = struct.pack('>QQQQB', 0, 2, 3, 0, 1)
    one = struct.pack('>I', 1)
    bad = A.pick('carrier', [
        ('not utf-8 key', head + one + one + b'\xff' + one + b'v'),
        ('not utf-8 value', head + one + one + b'k' + one + b'\xff'),
        ('huge count', head + b'\xff\xff\xff\xff'),
        ('count 65536', head + b'\0\1\0\0'), ('count 256', head + b'\0\0\1\0'),
        ('count 2^31', head + b'\x80\0\0\0'), ('length 65536', head + one + b'\0\1\0\0'),
        ('huge length', head + one + b'\xff\xff\xff\xff' + b'k'),
        ('one item missing', head + struct.pack('>I', 2) + one + b'k' + one + b'v')])
    v, exc = A.catch(A.call, tr, 'extract', fmt(A, 'BINARY'), ByteArr(C(bad)))
    if A.require(exc is not None, 'accepted', 'the malformed carrier %r is accepted' % bad):
        only_corrupted(A, exc, 'malformed carrier')


def reference(A):
    """Carriers as another Jaeger client writes them."""
    import struct
    tr = tracer(A)
    hi, lo, sid, pid, fl, bag = A.pick('carrier', [
        ('64 bit', (0, 1, 2, 0, 1, [])), ('128 bit', (1, 0, 2, 3, 0, [])),
        ('large', (2 ** 63, 2 ** 64 - 1, 2 ** 64 - 1, 2 ** 63, 255, [('k', 'v')])),
        ('many items', (0, 5, 6, 7, 3, [('k%d' % i, 'v%d' % i) for i in range(300)])),
        ('long items', (0, 5, 6, 7, 3, [('k' * 300, 'v' * 70000), ('l', 'w')])),
        ('empty strings', (0, 5, 6, 7, 3, [('', ''), ('k', ''), ('\u00e9', '\u20ac\U0001f600')])),
    ])
    data = struct.pack('>QQQQBI', hi, lo, sid, pid, fl, len(bag))
    for kv in bag:
        for x in kv:
            b = x.encode('utf-8')
            data += struct.pack('>I', len(b)) + b
    back = A.call(tr, 'extract', fmt(A, 'BINARY'), ByteArr(C(data)))
    extracted(A, back, [C(hi << 64 | lo), C(sid), C(pid) if pid else NONE, C(fl)], 'reference')
    A.require_same(A.attr(back, 'baggage'), A.dict(bag), 'baggage', 'baggage')


def twice(A):
    tr, i, ks, vs = setup(A, 1)
    c1, c2 = ByteArr(C(b'')), ByteArr(C(b''))
    A.call(tr, 'inject', context(A, i, A.dict([(ks[0], vs[0])])), fmt(A, 'BINARY'), c1)
    j = (C(7), C(8), NONE, C(0))
    A.call(tr, 'inject', context(A, j), fmt(A, 'BINARY'), c2)
    b1 = A.call(tr, 'extract', fmt(A, 'BINARY'), c1)
    b2 = A.call(tr, 'extract', fmt(A, 'BINARY'), c2)
    extracted(A, b2, j, 'second')
    extracted(A, b1, i, 'first')
    A.require(not A.truth(A.attr(b2, 'baggage')), 'leak', 'baggage of the first appears')
