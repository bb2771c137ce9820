"""Questions about a span tell its current state and change nothing.

A span with any ids and flags is asked, before and after each thing that can happen to it, whether it
is sampled, a debug span or part of an RPC, for its ids, flags, baggage and text form.  The answers are
compared with what was done to it so far; afterwards the span is as before, and no part was asked.
"""
from sa.m_types import compare

from .c18 import binop
from .common import *

QUESTIONS = ('is_sampled', 'is_debug', 'is_rpc', 'is_rpc_client')


def run(P):
    P.scenario('flags', flags)
    P.scenario('ids', identifiers)
    P.scenario('kind', kind)
    P.scenario('baggage', baggage)
    P.scenario('text form', text)
    P.scenario('after changes', changes)


def make(A, fl, **kw):
    s, _, _ = sampler_stub(A, TRUE, A.dict())
    tr = tracer(A, sampler=s)
    ctx = A.new(CTX, *(ids(A)[:3] + (lift(fl),)))
    return A.new('jaeger_client.span:Span', context=ctx, tracer=tr, operation_name='op', start_time=1.0, **kw)


def answers(A, span, what, **want):
    """The answers are these, and the span is the same afterwards."""
    still = Frozen(A, span, A.attr(span, 'context'))
    n = A.mark
    for q, w in want.items():
        got = A.call(span, q) if q in QUESTIONS else A.attr(span, q)
        if q in QUESTIONS:
            A.require(A.truth(got) is w, q, '%s: %s says %s, expected %s' % (what, q, pretty(A, got), w))
        else:
            A.require_same(got, w, q, '%s: %s' % (what, q))
    still.unchanged('still', what + ', asked')
    A.require(not A.calls(('sampler.is_sampled', 'reporter.report_span'), n), 'asks', '%s: a part is asked' % what)


def flags(A):
    f = A.int('flags', 0, 255)
    span = make(A, f)
    b = [bit(A, f, i) for i in (1, 2)]
    answers(A, span, 'flags', is_sampled=b[0], is_debug=b[1], flags=f)


def bit(A, f, i):
    return A.truth(compare(A.ip, 'Eq', binop(A.ip, 'BitAnd', f, C(i)), C(i)))


def identifiers(A):
    span = make(A, 1)
    c = A.attr(span, 'context')
    answers(A, span, 'ids', trace_id=A.attr(c, 'trace_id'), span_id=A.attr(c, 'span_id'),
            parent_id=A.attr(c, 'parent_id'))
    child = A.call(A.attr(span, 'tracer'), 'start_span', 'child', child_of=span)
    answers(A, child, 'ids of a child', trace_id=A.attr(c, 'trace_id'), parent_id=A.attr(c, 'span_id'), flags=C(1))


def kind(A):
    """Part of an RPC by the span kind, wherever it stands among the tags; only a sampled span has tags."""
    k = A.pick('kind', ['client', 'server', 'producer', 'consumer', 'none'])
    at = A.pick('set', ['at start', 'later'])
    others = A.pick('others', ['none', 'before', 'after', 'number before', 'many before', 'similar before'])
    fl = A.pick('flags', [0, 1, 3])
    tags = [] if k == 'none' else [('span.kind', k)]
    o = {'none': [], 'before': [('a', 'client')], 'after': [('a', 'server')], 'number before': [('a', 5)],
         'many before': [('k%d' % i, i) for i in range(9)],
         'similar before': [('span.kind.x', 'server'), ('my.span.kind', 'client'), ('Span.Kind', 'server'), ('kind', 'client'),
                            ('span.kin', 'client'), ('span_kind', 'server')]}[others]
    tags = o + tags if 'before' in others else tags + o
    if at == 'at start':
        span = make(A, fl, tags=A.dict(tags))
    else:
        span = make(A, fl)
        for x in tags:
            A.call(span, 'set_tag', *x)
    answers(A, span, 'kind %s, flags %d' % (k, fl), is_rpc=bool(fl) and k in ('client', 'server'),
            is_rpc_client=bool(fl) and k == 'client')


def baggage(A):
    span = make(A, A.pick('flags', [0, 1]))
    v = A.str('value')
    A.require(A.call(span, 'get_baggage_item', 'k') is NONE, 'baggage', 'an item that is not set has a value')
    A.call(span, 'set_baggage_item', 'k', v)
    still = Frozen(A, span, A.attr(A.attr(span, 'context'), 'baggage'))
    A.require_same(A.call(span, 'get_baggage_item', 'k'), v, 'baggage', 'the item')
    A.require(A.call(span, 'get_baggage_item', 'other') is NONE, 'baggage', 'another item has a value')
    still.unchanged('still', 'reading items')
    A.require_same(A.call(span, 'get_baggage_item', 'k'), v, 'baggage', 'the item, read again')
    A.call(span, 'set_baggage_item', 'k', 'w')
    A.require_same(A.call(span, 'get_baggage_item', 'k'), C('w'), 'baggage', 'the item, set again')
    A.call(span, 'set_baggage_item', 'k', NONE)
    A.require(A.call(span, 'get_baggage_item', 'k') is NONE, 'baggage', 'an item that is removed has a value')


def text(A):
    """The text form, as the logging reporter writes it."""
    span = make(A, A.int('flags', 0, 255))
    if A.pick('name', ['kept', 'changed']) == 'changed':
        A.call(span, 'set_operation_name', 'other')
        name = 'other'
    else:
        name = 'op'
    c = A.attr(span, 'context')
    p = A.attr(c, 'parent_id')
    want = cat(*[x for f in ('trace_id', 'span_id') for x in (hexs(A, A.attr(c, f)), ':')] + [
        C('0') if p is NONE else hexs(A, p), ':', hexs(A, A.attr(c, 'flags')), ' service.' + name])
    still = Frozen(A, span, c)
    got, exc = A.catch(A.call, span, '__repr__')
    if A.require(exc is None, 'raises', 'the text form raises'):
        A.require_same(got, want, 'text', 'the text form')
    still.unchanged('still', 'writing it')


def changes(A):
    span = make(A, 1)
    state = dict(is_sampled=True, is_debug=False, flags=C(1), is_rpc=False)
    answers(A, span, 'at start', **state)
    for i in range(2):
        what = A.pick('step%d' % i, ['finish', 'priority 1', 'priority 0', 'kind', 'log', 'name'])
        if what == 'finish':
            A.call(span, 'finish', 2.0)
        elif what == 'priority 1':
            A.call(span, 'set_tag', 'sampling.priority', 1)
            state.update(is_sampled=True, is_debug=True, flags=C(3))
        elif what == 'priority 0':
            A.call(span, 'set_tag', 'sampling.priority', 0)
            state.update(is_sampled=False, is_debug=False, flags=C(0))
        elif what == 'kind':
            A.call(span, 'set_tag', 'span.kind', 'client')
            state['is_rpc'] = state['is_rpc'] or state['is_sampled']
        elif what == 'log':
            A.call(span, 'log_kv', A.dict([('event', 'x')]))
        else:
            A.call(span, 'set_operation_name', 'other')
        answers(A, span, 'after %s' % what, **state)
