"""sampling.priority changes the sampling of a span exactly as documented.

For every flags value and every tag value: a positive or negative number turns sampling and debug on
when the throttler agrees (asked once, and not again for a span that already is a debug span), zero
turns both off, anything else is ignored; no other tag, log, baggage or operation name changes flags.
"""
from .common import *

KEY = 'sampling.priority'


def run(P):
    P.scenario('numeric priority', numeric)
    P.scenario('other values', other)
    P.scenario('priority of a debug span', again)
    P.scenario('priority 0 of a debug span', stopped)
    P.scenario('priority as a start tag', at_start)
    P.scenario('recording after the change', effect)
    P.scenario('everything else', else_)


def throttler(A):
    return A.pick('throttler', [('none', (NONE, True)), ('allows', (throttler_stub(A, TRUE)[0], True)),
                                ('denies', (throttler_stub(A, FALSE)[0], False))])


def span_of(A, th, flags, op='op', **kw):
    s, _, _ = sampler_stub(A, FALSE)
    tr = tracer(A, sampler=s, throttler=th)
    return A.call(tr, 'start_span', op, child_of=parent_context(A, flags=flags), **kw)


def flags_of(A, span):
    return A.attr(A.attr(span, 'context'), 'flags')



def numeric(A):
    th, allowed = throttler(A)
    before = A.pick('flags', [(str(f), f) for f in (0, 1, 4, 5, 8)])
    span = span_of(A, th, before)
    value = A.pick('value', [('integer', A.int('priority')), ('one', C(1)), ('zero', C(0)),
                             ('true', TRUE), ('false', FALSE), ('numeral', C('3')),
                             ('zero numeral', C('0')), ('float', C(2.0))])
    zero = value in (FALSE, C(0), C('0')) or isinstance(value, T) and A.cmp(value, '==', 0)
    m = A.mark
    A.call(span, 'set_tag', KEY, value)
    ev = A.calls('throttler.is_allowed', m)
    after = flags_of(A, span)
    if zero:
        A.require_same(after, C(before & ~3), 'off', 'the flags after priority 0')
        A.require(not has_key(A, span), 'off-tag', 'priority 0 is recorded')
        return
    if th is not NONE:
        A.require(len(ev) == 1, 'throttler', 'the throttler is consulted %d times' % len(ev))
        if ev:
            A.require_same(argsof(ev[0], ('operation',))[0], C('op'), 'throttler-args',
                           'operation given to the throttler')
    A.require_same(after, C(before | 3 if allowed else before), 'on', 'flags after the priority')
    A.require(has_key(A, span) is allowed, 'on-tag', 'the tag is %s' % (
        'missing' if allowed else 'recorded though refused'))


def has_key(A, span):
    return any(A.same(k, C(KEY)) for k, _ in tags_of(A, span))


def other(A):
    th, allowed = throttler(A)
    before = A.pick('flags', [0, 1, 2, 3])
    span = span_of(A, th, before)
    value = A.pick('value', [('None', NONE), ('word', C('high')), ('empty', C('')), ('list', A.list([])),
                             ('dict', A.dict()), ('infinity', C(float('inf')))])
    m = A.mark
    back = A.call(span, 'set_tag', KEY, value)
    A.require(back is span, 'chain', 'set_tag does not return the span')
    A.require_same(flags_of(A, span), C(before), 'other-value', 'flags after a non-number')
    A.require(not A.calls('throttler.is_allowed', m), 'other-value', 'the throttler is consulted')


def again(A):
    th, allowed = throttler(A)
    before = A.pick('flags', [2, 3, 7])
    span = span_of(A, th, before)
    m = A.mark
    A.call(span, 'set_tag', KEY, A.pick('value', [('one', C(1)), ('two', C(2)), ('numeral', C('1'))]))
    A.require_same(flags_of(A, span), C(before), 'again', 'flags of a debug span')
    A.require(not A.calls('throttler.is_allowed', m), 'again',
              'the throttler is charged again for a debug span')


def stopped(A):
    """A debug span is switched off like any other, and can be switched on again."""
    th, allowed = throttler(A)
    before = A.pick('flags', [2, 3, 7])
    span = span_of(A, th, before)
    if before == 3 and A.pick('tagged', [False, True]):
        A.call(span, 'set_tag', 'k', 'v')
    m = A.mark
    A.call(span, 'set_tag', KEY, A.pick('value', [('zero', C(0)), ('false', FALSE), ('float', C(0.0))]))
    A.require_same(flags_of(A, span), C(before & ~3), 'off', 'flags of a debug span after priority 0')
    A.require(not has_key(A, span), 'off-tag', 'priority 0 is recorded')
    A.require(not A.calls('throttler.is_allowed', m), 'throttler', 'the throttler is consulted for priority 0')
    A.call(span, 'set_tag', KEY, 1)
    A.require_same(flags_of(A, span), C(before & ~3 | (3 if allowed else 0)), 'on', 'flags when switched on again')
    A.require(len(A.calls('throttler.is_allowed', m)) == int(th is not NONE), 'throttler',
              'the throttler is consulted %d times' % len(A.calls('throttler.is_allowed', m)))


def at_start(A):
    th, allowed = throttler(A)
    value = A.pick('value', [('one', 1), ('zero', 0)])
    tags = A.dict([(KEY, value), ('t', 'v')])
    how = A.pick('kind', ['root', 'child'])
    s, sampled, _ = sampler_stub(A)
    tr = tracer(A, sampler=s, throttler=th)
    kw = {'child_of': parent_context(A, flags=1)} if how == 'child' else {}
    base = 1 if how == 'child' or sampled is TRUE else 0
    span = A.call(tr, 'start_span', 'op', tags=tags, **kw)
    want = 0 if value == 0 else base | 3 if allowed else base
    A.require_same(flags_of(A, span), C(want), 'start', 'flags of a span started with a priority')
    A.require(has_tag(A, span, 't', 'v') is bool(want & 1), 'start-tags', 'the other tag')


def effect(A):
    th, allowed = throttler(A)
    before = A.pick('flags', [0, 1, 3])
    reporter = reporter_stub(A)
    s, _, _ = sampler_stub(A, FALSE)
    tr = tracer(A, sampler=s, throttler=th, reporter=reporter)
    span = nonzero(A, A.call(tr, 'start_span', 'op', child_of=parent_context(A, flags=before)))
    value = A.pick('value', [1, 0])
    A.call(span, 'set_tag', KEY, value)
    on = value == 1 and allowed or before & 1 and value != 0
    A.call(span, 'set_tag', 'k', 'v')
    A.require(has_tag(A, span, 'k', 'v') is bool(on), 'effect', 'a tag set afterwards is %s' % (
        'missing' if on else 'recorded'))
    A.call(span, 'log_kv', A.dict([('event', 'e')]))
    A.require(len(A.attr(span, 'logs').items) == int(bool(on)), 'effect', 'a log written afterwards')
    child = A.call(tr, 'start_span', 'c', child_of=span)
    A.require_same(flags_of(A, child), flags_of(A, span), 'effect', 'flags of a later child')
    m = A.mark
    A.call(span, 'finish')
    A.require(len(A.calls('reporter.report_span', m)) == int(bool(on)), 'effect',
              'the span is %sreported' % ('not ' if on else ''))


def else_(A):
    th, _ = throttler(A)
    fl = A.int('flags', 0, 255)
    span = span_of(A, th, fl)
    m = A.mark
    what = A.pick('operation', ['tag', 'log', 'baggage', 'name', 'finish', 'error'])
    if what == 'tag':
        k = A.pick('key', [('unknown', A.str('key')), ('prefix', C('sampling')),
                           ('case', C('Sampling.Priority')), ('error', C('error'))])
        A.assume(not A.eq(k, C(KEY)))
        A.call(span, 'set_tag', k, A.sym('value'))
    elif what == 'log':
        A.call(span, 'log_kv', A.dict([(KEY, 0)]))
    elif what == 'baggage':
        A.call(span, 'set_baggage_item', KEY, '0')
    elif what == 'name':
        A.call(span, 'set_operation_name', KEY)
    elif what == 'finish':
        A.call(span, 'finish')
    else:
        A.call(span, 'error', KEY, NONE)
    A.require_same(flags_of(A, span), fl, 'else', 'the flags after %s' % what)
    A.require(not A.calls('throttler.is_allowed', m), 'else', 'the throttler is consulted')
