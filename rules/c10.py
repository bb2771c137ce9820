"""A root span starts a new trace with fresh ids and exactly one sampling decision.

For a span without a parent (none at all, a context carrying only baggage, references without
context): the trace id is a newly drawn random number of 64 or 128 bits as configured, the span id
one of 64 bits, there is no parent id, the sampler is asked exactly once with that trace id and the
operation name, its verdict decides the flags, and its tags are recorded exactly when it says yes.
"""
from .common import *

REF = 'opentracing:'


def run(P):
    P.scenario('root span', root)
    P.scenario('baggage-only parent', carrier)
    P.scenario('two roots', two)
    P.scenario('root of start_active_span', active)
    P.scenario('references without context', noref)


def make(A, **kw):
    s, d, t = sampler_stub(A)
    th = A.pick('throttler given', [('yes', throttler_stub(A, FALSE)[0]), ('no', NONE)])
    wide = A.pick('ids', [('64 bits', 64), ('128 bits', 128)])
    if wide == 128:
        kw['generate_128bit_trace_id'] = TRUE
    return tracer(A, sampler=s, throttler=th, **kw), d is TRUE, t, wide


def is_root(A, span, m, op, sampled, stags, bits, what):
    c = A.attr(span, 'context')
    tid = A.attr(c, 'trace_id')
    fresh_id(A, tid, m, bits, 'trace_id', '%s: trace id' % what)
    fresh_id(A, A.attr(c, 'span_id'), m, 64, 'span_id', '%s: span id' % what)
    A.require(not (randoms(tid) & randoms(A.attr(c, 'span_id'))), 'span_id',
              '%s: span id and trace id share random bits' % what)
    A.require(A.is_none(A.attr(c, 'parent_id')), 'parent_id', '%s: it has a parent id' % what)
    ev = A.calls('sampler.is_sampled', m)
    if A.require(len(ev) == 1, 'once', '%s: the sampler is consulted %d times' % (what, len(ev))):
        a = argsof(ev[0], ('trace_id', 'operation'))
        A.require_same(a[0], tid, 'args', '%s: trace id given to the sampler' % what)
        A.require_same(a[1], op, 'args', '%s: operation given to the sampler' % what)
    A.require(not A.calls('throttler.is_allowed', m), 'throttler',
              '%s: the throttler is consulted without a debug id' % what)
    A.require_same(A.attr(c, 'flags'), C(1 if sampled else 0), 'flags', '%s: flags' % what)
    for k, v in stags.entries:
        got = has_tag(A, span, k, v)
        A.require(got is sampled, 'tags', '%s: the sampler tag %s is %s' % (
            what, pretty(A, k), 'missing' if sampled else 'recorded though not sampled'))


def operations(A):
    return A.pick('operation', [('given', (A.str('op', minlen=1),) * 2), ('None', (NONE, C(''))),
                                ('empty', (C(''), C('')))])


def user_tags(A):
    return A.pick('tags', [('none', NONE), ('empty', A.dict()), ('one', A.dict([('u', 'v')])),
                           ('client', A.dict([('span.kind', 'client')])),
                           ('server', A.dict([('span.kind', 'server')])),
                           ('as the sampler', A.dict([('sampler.type', 'mine'), ('sampler.param', 'mine')]))])


def own(tags):
    """The tags of the caller, without those the sampler sets."""
    return [] if tags is NONE else [(k, v) for k, v in tags.entries if not k.v.startswith('sampler.')]


def root(A):
    tr, sampled, st, bits = make(A, one_span_per_rpc=A.pick('rpc', [TRUE, FALSE]))
    op, told = operations(A)
    tags = user_tags(A)
    mine = own(tags)
    m = A.mark
    span = A.call(tr, 'start_span', op, tags=tags)
    is_root(A, span, m, told, sampled, st, bits, 'root')
    A.require(not A.truth(A.attr(A.attr(span, 'context'), 'baggage')), 'baggage',
              'a root span has baggage')
    for k, v in mine:
        A.require(has_tag(A, span, k, v) is sampled, 'user-tags', 'user tag %s' % k.v)


def carrier(A):
    tr, sampled, st, bits = make(A)
    bag = A.open_dict('baggage', 'str', 'str')
    parent = A.new(CTX, NONE, NONE, NONE, NONE, bag)
    fr = Frozen(A, parent)
    m = A.mark
    span = A.call(tr, 'start_span', 'op', child_of=parent)
    is_root(A, span, m, C('op'), sampled, st, bits, 'baggage-only parent')
    A.require_same(A.attr(A.attr(span, 'context'), 'baggage'), A.attr(parent, 'baggage'), 'baggage',
                   'the baggage of the parent')
    fr.unchanged('parent', "the parent's context")


def two(A):
    tr, sampled, st, bits = make(A)
    parent = A.pick('first', [('root', NONE), ('child', parent_context(A))])
    first = A.call(tr, 'start_span', 'first', child_of=parent)
    A.call(first, 'set_baggage_item', 'k', 'v')
    A.call(first, 'finish')
    m = A.mark
    span = A.call(tr, 'start_span', 'op')
    is_root(A, span, m, C('op'), sampled, st, bits, 'second root')
    A.require(not A.truth(A.attr(A.attr(span, 'context'), 'baggage')), 'baggage',
              'a root span has baggage of another span')


def active(A):
    tr, sampled, st, bits = make(A)
    how = A.pick('active', ['none', 'ignored'])
    kw = {}
    if how == 'ignored':
        outer = A.call(tr, 'start_span', 'outer', child_of=parent_context(A))
        A.call(A.attr(tr, 'scope_manager'), 'activate', outer, TRUE)
        kw['ignore_active_span'] = True
    m = A.mark
    tags = user_tags(A)
    mine = own(tags)
    start = A.pick('start time', [('given', A.sym('start_time', 'int|float', 1)), ('left out', None)])
    if start is not None:
        kw['start_time'] = start
    scope = A.call(tr, 'start_active_span', 'op', tags=tags, **kw)
    span = A.attr(scope, 'span')
    is_root(A, span, m, C('op'), sampled, st, bits, 'start_active_span')
    for k, v in mine:
        A.require(has_tag(A, span, k, v) is sampled, 'user-tags', 'start_active_span: tag %s' % k.v)
    if start is not None:
        A.require_same(A.attr(span, 'start_time'), start, 'start_time', 'start time')
    if how == 'none':
        A.call(scope, 'close')
        m = A.mark
        span = A.call(tr, 'start_span', 'op')
        is_root(A, span, m, C('op'), sampled, st, bits, 'after the scope is closed')


def noref(A):
    tr, sampled, st, bits = make(A)
    none = A.new(REF + 'Reference', A.load(REF + 'ReferenceType.CHILD_OF'), NONE)
    refs = A.pick('references', [('empty', A.list([])), ('no context', A.list([none])),
                                 ('not a list', none), ('None', NONE)])
    m = A.mark
    span = A.call(tr, 'start_span', 'op', references=refs)
    is_root(A, span, m, C('op'), sampled, st, bits, 'references without context')
