"""B3 headers: lossless ids, the sampling state kept, untrusted headers refused.

inject with the B3 codec is followed for every context: the headers must be the zero-padded hex
numbers, the parent header present exactly when there is a parent; extracting them (in any letter
case) must give the same ids and keep the sampled and debug decisions.  Headers of any value and
type must give a context in range, no context, or SpanContextCorruptedException.
"""
from .common import *

B3 = 'jaeger_client.codecs:B3Codec'
H = {'trace': 'X-B3-TraceId', 'span': 'X-B3-SpanId', 'parent': 'X-B3-ParentSpanId',
     'sampled': 'X-B3-Sampled', 'flags': 'X-B3-Flags'}


def run(P):
    for wide in (False, True):
        P.scenario('round trip, 128 bit ids %s' % wide, lambda A, w=wide: roundtrip(A, w))
    P.scenario('sampling state', state)
    P.scenario('headers as others write them', reference)
    P.scenario('any header values', anything)
    P.scenario('headers of others', unrelated)
    P.scenario('malformed constants', table)
    P.scenario('one carrier after another', twice)


def b3_tracer(A, wide=False):
    f = fmt(A, 'HTTP_HEADERS')
    return tracer(A, extra_codecs=A.dict([(f, A.new(B3, generate_128bit_trace_id=wide))])), f


def find(A, d, name):
    for k, v in d.entries:
        if isinstance(k, C) and k.v.lower() == name.lower():
            return v
    return None


def roundtrip(A, wide):
    tr, f = b3_tracer(A, wide)
    tid = A.int('trace_id', 1, 2 ** 128 - 1)    # ids of other services can be wider than own ones
    sid = A.int('span_id', 1, 2 ** 64 - 1)
    pid = A.pick('parent', [('none', NONE), ('some', A.int('parent_id', 1, 2 ** 64 - 1))])
    flags = A.pick('flags', [('0', C(0)), ('sampled', C(1))])
    carrier = A.dict()
    A.call(tr, 'inject', context(A, (tid, sid, pid, flags)), f, carrier)

    def padded(v, n):
        return A.call(hexs(A, v), 'zfill', n)
    for name, v, n in (('trace', tid, 32 if wide else 16), ('span', sid, 16),
                       ('parent', pid, 16)):
        got = find(A, carrier, H[name])
        if v is NONE:
            A.require(got is None, 'parent-header', 'a parent header without a parent')
        elif A.require(got is not None, name + '-header', 'no header %s' % H[name]):
            A.require_same(got, padded(v, n), name + '-header', H[name])
    got = find(A, carrier, H['sampled'])
    if flags.v:
        A.require_same(got if got is not None else NONE, C('1'), 'sampled-header', 'X-B3-Sampled')
    else:
        A.require(got is None or A.same(got, C('0')) is True, 'sampled-header',
                  'an unsampled context is written as sampled')
    A.require(find(A, carrier, H['flags']) is None, 'flags-header', 'X-B3-Flags without debug')
    case = A.pick('letter case', ['same', 'lower', 'upper'])
    if case != 'same':
        carrier = A.dict([(A.call(k, case), v) for k, v in carrier.entries])
    extracted(A, A.call(tr, 'extract', f, carrier), (tid, sid, pid, flags), 'B3 round trip')


def state(A):
    """The sampled and debug decisions reach the next service."""
    tr, f = b3_tracer(A)
    n = A.choose(4, 'flags')
    carrier = A.dict()
    A.call(tr, 'inject', context(A, (C(1), C(2), C(3), C(n))), f, carrier)
    back = A.call(tr, 'extract', f, carrier)
    if not A.require(A.isa(back, CTX), 'lost', 'extract gives %s' % pretty(A, back)):
        return
    fl = A.attr(back, 'flags')
    if not A.require(isinstance(fl, C), 'state', 'flags are %s' % pretty(A, fl)):
        return
    if n & 2:
        A.require(fl.v & 2 == 2, 'debug-lost', 'the debug decision is lost')
        if n & 1:
            A.require(fl.v & 1 == 1, 'debug-sampled-lost',
                      'a sampled debug trace is not sampled any more after extract')
    else:
        A.require(fl.v & 3 == n & 3, 'state', 'flags %d become %d' % (n, fl.v))


def reference(A):
    tr, f = b3_tracer(A, A.pick('128 bit', [False, True]))
    s = A.pick('sampled', [('1', '1'), ('0', '0'), ('None', NONE), ('absent', 'absent')])
    g = A.pick('flags', [('1', '1'), ('0', '0'), ('None', NONE), ('absent', 'absent')])
    p = A.pick('parent', [('1f', '1f'), ('padded', '000000000000001f'), ('None', NONE),
                          ('absent', 'absent')])
    t = A.pick('trace', [('short', 'ab'), ('64 bit', '463ac35c9f6413ad'),
                         ('128 bit', '463ac35c9f6413ad48485a3953bb6124'),
                         ('upper', '463AC35C9F6413AD')])
    e = [('x-b3-traceid', t), ('X-B3-SPANID', 'a2fb4a1d1a96d312'), ('Accept', 'x')]
    for n, v in (('X-B3-ParentSpanId', p), ('x-b3-sampled', s), ('X-B3-Flags', g)):
        if v != 'absent':
            e.append((n, v))
    if A.pick('order', ['as is', 'reversed']) == 'reversed':
        e.reverse()
    back = A.call(tr, 'extract', f, A.dict(e))
    want = (1 if s == '1' else 0) | (2 if g == '1' else 0)
    if A.require(A.isa(back, CTX), 'lost', 'extract gives %s' % pretty(A, back)):
        same_ids(A, back, C(int(t, 16)), C(0xa2fb4a1d1a96d312),
                 C(0x1f) if p in ('1f', '000000000000001f') else NONE, A.attr(back, 'flags'),
                 'reference')
        fl = A.attr(back, 'flags')
        A.require(isinstance(fl, C) and (fl.v == want or want == 2 and fl.v == 3), 'flags',
                  'X-B3-Sampled %s and X-B3-Flags %s give flags %s' % (s, g, pretty(A, fl)))


def anything(A):
    tr, f = b3_tracer(A)
    which = A.pick('unknown header', ['trace', 'span', 'parent', 'sampled', 'flags'])
    e = {'trace': '1', 'span': '2', 'parent': '3', 'sampled': '1', 'flags': '0'}
    e[which] = A.sym('header', 'any')
    v, exc = A.catch(A.call, tr, 'extract', f, A.dict([(H[k], x) for k, x in e.items()]))
    if exc is not None:
        only_corrupted(A, exc, 'untrusted %s header' % which)
        A.require(which not in ('sampled', 'flags'), 'exception',
                  'a sampling header makes extract fail')
    elif A.require(v is NONE or A.isa(v, CTX), 'lost', 'extract gives %s' % pretty(A, v)):
        if v is not NONE:
            id_bounds(A, v, 'untrusted headers', 3)


def unrelated(A):
    """What other headers hold plays no part."""
    tr, f = b3_tracer(A)
    name = A.pick('name', ['Accept', 'X-B3', 'B3', 'X-B3-Flags-', 'X-B3-TraceId2', 'X-Flags', 'flags', 'sampled',
                           'traceid', 'X-B3-Sample', 'X-B3-', 'X-B3-Parent', 'uber-trace-id', 'jaeger-debug-id', ''])
    own = A.pick('own', ['complete', 'minimal', 'none'])
    e = [(H[k], v) for k, v in (('trace', 'a'), ('span', 'b'), ('parent', 'c'), ('sampled', '0'), ('flags', '0'))]
    e = {'complete': e, 'minimal': e[:2], 'none': []}[own]
    at = A.pick('at', [0, len(e)] if e else [0])
    e.insert(at, (name, A.pick('value', [('1', '1'), ('true', 'true'), ('any', A.str('value')), ('None', NONE)])))
    back, exc = A.catch(A.call, tr, 'extract', f, A.dict(e))
    if A.require(exc is None, 'unrelated', 'the header %s makes extract fail' % name):
        if own == 'none':
            A.require_same(back, NONE, 'unrelated', 'a carrier with the header %s only' % name)
        else:
            extracted(A, back, (C(10), C(11), C(12) if own == 'complete' else NONE, C(0)), 'with the header %s' % name)


def table(A):
    tr, f = b3_tracer(A)
    which = A.pick('header', ['trace', 'span', 'parent'])
    bad = A.pick('value', ['', 'x', '-1', 'f' * 33 if which == 'trace' else 'f' * 17,
                           '1' + '0' * (32 if which == 'trace' else 16), '1.5', 7, b'1', '1:2'])
    e = {'trace': '1', 'span': '2', 'parent': '3', 'sampled': '1'}
    e[which] = bad
    v, exc = A.catch(A.call, tr, 'extract', f, A.dict([(H[k], x) for k, x in e.items()]))
    if A.require(exc is not None, 'accepted', 'the malformed %s header %r is accepted' % (
            which, bad)):
        only_corrupted(A, exc, '%s header %r' % (which, bad))


def twice(A):
    tr, f = b3_tracer(A)
    A.call(tr, 'extract', f, A.dict([(H['trace'], 'a'), (H['span'], 'b'), (H['parent'], 'c'),
                                     (H['sampled'], '1'), (H['flags'], '1')]))
    back = A.call(tr, 'extract', f, A.dict([(H['trace'], '1'), (H['span'], '2')]))
    extracted(A, back, (C(1), C(2), NONE, C(0)), 'second carrier')
    for missing in ('trace', 'span'):
        e = {'trace': '1', 'span': '2', 'sampled': '1'}
        del e[missing]
        v = A.call(tr, 'extract', f, A.dict([(H[k], x) for k, x in e.items()]))
        A.require_same(v, NONE, 'incomplete', 'a carrier without the %s header' % missing)
