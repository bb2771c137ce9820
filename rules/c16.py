"""An unsampled span costs and reports nothing.

For every flags value without the sampled bit and any operation on the span (tags of any value,
logs, baggage, finish, error, leaving a block, through a scope): no tag and no log is recorded, the
values are not converted, the reporter never hears of the span; a sampled span records each of them.
"""
from .common import *


def run(P):
    P.scenario('tags at the start', started)
    P.scenario('unsampled span', unsampled)
    P.scenario('unsampled root', root)
    P.scenario('sampled span records', sampled)
    P.scenario('children', children)


def operations(A, span):
    v = A.sym('value')
    return A.pick('operation', [
        ('set_tag', lambda: A.call(span, 'set_tag', 'k', v)),
        ('set_tag error', lambda: A.call(span, 'set_tag', 'error', TRUE)),
        ('log_kv', lambda: A.call(span, 'log_kv', A.dict([('k', v)]))),
        ('log_kv timestamp', lambda: A.call(span, 'log_kv', A.dict([('k', v)]), 5.0)),
        ('log_event', lambda: A.call(span, 'log_event', 'e')),
        ('log', lambda: A.call(span, 'log', event='e', payload=v)),
        ('info', lambda: A.call(span, 'info', 'm', v)),
        ('error', lambda: A.call(span, 'error', 'm', v)),
        ('baggage', lambda: A.call(span, 'set_baggage_item', 'k', A.str('item')))])


def base(A, fl):
    rep = reporter_stub(A)
    s, _, _ = sampler_stub(A, TRUE)
    tr = tracer(A, sampler=s, reporter=rep)
    bag = A.dict([('old', '1')])
    return tr, A.call(tr, 'start_span', 'op', child_of=A.new(CTX, 1, 2, 3, fl, bag),
                      tags=A.dict([('t', 1), ('u', A.str('u'))]))


def nothing(A, span, m, what):
    A.require(not A.attr(span, 'tags').items, 'tags', '%s: a tag is recorded' % what)
    A.require(not A.attr(span, 'logs').items, 'logs', '%s: a log is recorded' % what)
    A.require(not A.calls('reporter.report_span', m), 'report', '%s: it is reported' % what)


def unsampled(A):
    fl = A.int('flags', 0, 255)
    A.assume(A.eq(A.apply(bits, fl), C(0)))
    tr, span = base(A, fl)
    m = A.mark
    nothing(A, span, m, 'at the start')
    back = operations(A, span)()
    A.require(back is span or A.is_none(back), 'chain', 'it returns %s' % pretty(A, back))
    nothing(A, span, m, 'after the operation')
    conv = [e for e in A.ip.events[m:] if e.kind == 'call' and e.name in ('str', 'format_tb')]
    A.require(not conv, 'convert', 'the value is converted')
    how = A.pick('end', ['finish', 'exit', 'exception', 'finish twice'])
    if how in ('finish', 'finish twice'):
        A.call(span, 'finish')
        if how == 'finish twice':
            A.call(span, 'finish', 9.0)
    else:
        x = A.ip.exc('ValueError', 'boom').value
        A.call(span, '__exit__', *([x.cls, x, A.sym('tb', 'traceback')] if how == 'exception'
                                   else [NONE, NONE, NONE]))
    nothing(A, span, m, 'after the end')


bits = Native('bits', lambda ip, a, kw: m_ops_and(ip, a[0]))


def m_ops_and(ip, v):
    from sa import m_ops
    return m_ops.binop(ip, 'BitAnd', v, C(1))


def root(A):
    rep = reporter_stub(A)
    s, _, st = sampler_stub(A, FALSE)
    tr = tracer(A, sampler=s, reporter=rep)
    m = A.mark
    sc = A.call(tr, 'start_active_span', 'op', tags=A.dict([('t', 1)]))
    span = A.attr(sc, 'span')
    operations(A, span)()
    A.call(sc, 'close')
    nothing(A, span, m, 'unsampled root')


def started(A):
    """The tags given at the start, however a sampled span is started."""
    s, _, st = sampler_stub(A, TRUE)
    tr = tracer(A, sampler=s, reporter=reporter_stub(A))
    kw = A.pick('parent', [('none', {}), ('sampled', {'child_of': A.new(CTX, 1, 2, 3, 1)}),
                           ('debug', {'child_of': A.new(CTX, 1, 2, 3, 3)})])
    v = A.sym('value')
    how = A.pick('by', ['start_span', 'start_active_span'])
    got = A.call(tr, how, 'op', tags=A.dict([('a', v), ('b', 2)]), **kw)
    span = A.attr(got, 'span') if how == 'start_active_span' else got
    keys = [A.attr(t, 'key').v for t in A.attr(span, 'tags').items]
    A.require([k for k in keys if k in 'ab'] == ['a', 'b'], 'start-tags',
              'the tags recorded at the start: %s' % ', '.join(keys))


def sampled(A):
    fl = A.int('flags', 0, 255)
    A.assume(A.eq(A.apply(bits, fl), C(1)))
    tr, span = base(A, fl)
    A.require(len(A.attr(span, 'tags').items) == 2, 'start-tags', 'the start tags are lost')
    A.call(span, 'set_tag', 'k', 'v')
    A.call(span, 'log_kv', A.dict([('event', 'e')]))
    A.require(has_tag(A, span, 'k', 'v') and len(A.attr(span, 'logs').items) == 1, 'records',
              'a sampled span does not record')
    A.call(span, 'set_baggage_item', 'old', '2')
    A.require(len(A.attr(span, 'logs').items) == 2, 'baggage-log', 'no log for the baggage item')
    A.call(span, 'error', 'm', NONE)
    A.require(has_tag(A, span, 'error', TRUE) and len(A.attr(span, 'logs').items) == 3, 'records',
              'the error is not recorded')
    m = A.mark
    A.call(span, 'finish')
    A.require(len(A.calls('reporter.report_span', m)) == 1, 'reports', 'it is not reported')


def children(A):
    fl = A.pick('flags', [0, 2, 4])
    tr, span = base(A, fl)
    nonzero(A, span)
    m = A.mark
    child = A.call(tr, 'start_span', 'c', child_of=span, tags=A.dict([('t', 1)]))
    A.call(child, 'set_tag', 'k', 'v')
    A.call(child, 'finish')
    nothing(A, child, m, 'child of an unsampled span')
