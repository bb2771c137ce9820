"""A debug id (correlation id) forces one debug trace, subject to the throttler.

For a parent that carries a debug id and no trace, whatever the sampler would say: the throttler is
asked exactly once (with the operation), the sampler is not asked; when the throttler agrees (or there
is none) the new root has the sampled and debug flags and records the debug id as a tag; when it
refuses, nothing is sampled.  A parent with a trace keeps its own decision.
"""
from .common import *

HEADERS = [('default header', 'jaeger-debug-id', {}),
           ('custom header', 'my-debug', {'debug_id_header': 'my-debug'})]


def run(P):
    P.scenario('debug id', forced)
    P.scenario('debug id from headers', headers)
    P.scenario('debug id and a trace', with_trace)
    P.scenario('next root', after)


def make(A, th, **kw):
    s, _, _ = sampler_stub(A)
    return tracer(A, sampler=s, throttler=th, **kw)


def throttler(A):
    return A.pick('throttler', [('none', (NONE, True)), ('allows', (throttler_stub(A, TRUE)[0], True)),
                                ('denies', (throttler_stub(A, FALSE)[0], False))])


def judged(A, span, m, th, allowed, header, value, op, bits=64):
    c = A.attr(span, 'context')
    ev = A.calls('throttler.is_allowed', m)
    if th is not NONE:
        if A.require(len(ev) == 1, 'throttler', 'the throttler is consulted %d times' % len(ev)):
            A.require(len(argsof(ev[0], ())) + len(ev[0].kwargs) == 1, 'throttler-args',
                      'the throttler is given %d arguments' % len(ev[0].args))
            A.require_same(argsof(ev[0], ('operation',))[0], op, 'throttler-args',
                           'operation given to the throttler')
    A.require(not A.calls('sampler.is_sampled', m), 'sampler',
              'the sampler is consulted for a debug id')
    A.require_same(A.attr(c, 'flags'), C(3 if allowed else 0), 'flags', 'flags')
    got = A.call(tag_map(A, span), 'get', header)
    if allowed:
        A.require_same(got, value, 'tag', 'the debug id tag')
    else:
        A.require(not tags_of(A, span), 'tag', 'tags are recorded in a refused debug trace')
    fresh_id(A, A.attr(c, 'trace_id'), m, bits, 'trace_id', 'trace id')
    fresh_id(A, A.attr(c, 'span_id'), m, 64, 'span_id', 'span id')
    A.require(A.is_none(A.attr(c, 'parent_id')), 'parent_id', 'a debug trace has a parent id')
    A.require(A.is_none(A.attr(c, 'debug_id')), 'debug_id', 'the debug id stays in the new context')


def forced(A):
    what, header, kw = A.pick('header', [(x[0], x) for x in HEADERS])
    th, allowed = throttler(A)
    bits = A.pick('ids', [('64 bits', 64), ('128 bits', 128)])
    if bits == 128:
        kw = dict(kw, generate_128bit_trace_id=TRUE)
    tr = make(A, th, **kw)
    value = A.str('debug id', minlen=1, maxlen=200)
    bag = A.pick('baggage', [('none', NONE), ('some', A.open_dict('baggage', 'str', 'str'))])
    parent = A.new(CTX, NONE, NONE, NONE, NONE, bag, value)
    fr = Frozen(A, parent)
    tags = A.pick('tags', [('none', NONE), ('one', A.dict([('u', 'v')])),
                           ('server', A.dict([('span.kind', 'server')])),
                           ('another id', A.dict([(header, 'another')]))])
    same = tags is not NONE and lookup(A, tags, header) is not None
    op = A.str('op', minlen=1)
    m = A.mark
    how = A.pick('given as', ['child_of', 'child_of, no active span', 'reference'])
    kw = {'ignore_active_span': TRUE} if 'active' in how else {}
    if how == 'reference':
        kw['references'] = A.new('opentracing:follows_from', parent)
    else:
        kw['child_of'] = parent
    span = A.call(tr, 'start_span', op, tags=tags, **kw)
    judged(A, span, m, th, allowed, header, value, op, bits)
    if allowed and tags is not NONE and not same:
        A.require(len(tags_of(A, span)) == 2, 'user-tags', 'the tags are not recorded')
    got = A.attr(A.attr(span, 'context'), 'baggage')
    if bag is NONE:
        A.require(not A.truth(got), 'baggage', 'baggage out of nothing')
    else:
        A.require_same(got, A.attr(parent, 'baggage'), 'baggage', 'the baggage')
    fr.unchanged('parent', "the parent's context")


def headers(A):
    what, header, kw = A.pick('header', [(x[0], x) for x in HEADERS])
    th, allowed = throttler(A)
    tr = make(A, th, **kw)
    value = A.str('debug id', minlen=1, maxlen=200, without='%')
    more = A.pick('more', [('nothing', []), ('baggage', [('uberctx-k', 'v')])])
    back = A.call(tr, 'extract', fmt(A, 'HTTP_HEADERS'), A.dict(more + [(header, value)]))
    m = A.mark
    span = A.call(tr, 'start_span', 'op', child_of=back)
    judged(A, span, m, th, allowed, header, value, C('op'))


def with_trace(A):
    th, allowed = throttler(A)
    tr = make(A, th)
    i = ids(A)
    parent = A.new(CTX, *i, baggage=NONE, debug_id=A.str('debug id', minlen=1, maxlen=200))
    m = A.mark
    span = A.call(tr, 'start_span', 'op', child_of=parent)
    c = A.attr(span, 'context')
    A.require(not A.calls(('throttler.is_allowed', 'sampler.is_sampled'), m), 'with-trace',
              'a span that continues a trace asks again')
    A.require_same(A.attr(c, 'flags'), i[3], 'with-trace', 'the flags of the trace')
    A.require_same(A.attr(c, 'trace_id'), i[0], 'with-trace', 'the trace id')


def after(A):
    """One debug trace does not make the next one a debug trace."""
    th, allowed = throttler(A)
    s, sampled, st = sampler_stub(A)
    tr = tracer(A, sampler=s, throttler=th)
    value = A.str('debug id', minlen=1, maxlen=200)
    parent = A.new(CTX, NONE, NONE, NONE, NONE, NONE, value)
    A.call(tr, 'start_span', 'first', child_of=parent)
    m = A.mark
    span = A.call(tr, 'start_span', 'op')
    A.require(len(A.calls('sampler.is_sampled', m)) == 1, 'next', 'the sampler is not consulted')
    A.require(not A.calls('throttler.is_allowed', m), 'next', 'the throttler is consulted')
    A.require_same(A.attr(A.attr(span, 'context'), 'flags'), C(1 if sampled is TRUE else 0),
                   'next', 'the flags of the next root')
    A.require(A.is_none(A.call(tag_map(A, span), 'get', 'jaeger-debug-id')), 'next',
              'the next root has the debug id')
    m = A.mark
    span = A.call(tr, 'start_span', 'op2', child_of=parent)
    judged(A, span, m, th, allowed, 'jaeger-debug-id', value, C('op2'))
