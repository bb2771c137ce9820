"""A child span belongs to its parent's trace.

For every parent (context or span, given as child_of, as the active span or as a reference) with
unknown ids, flags and baggage: the child's trace id, flags and baggage are the parent's, its parent
id is the parent's span id and its own id is freshly drawn; with one-span-per-RPC a server span
takes over the ids.  No sampler and no throttler is consulted, and every reference is kept.
"""
from .common import *

REF = 'opentracing:'


def run(P):
    P.scenario('child_of', child)
    P.scenario('one span per RPC', rpc)
    P.scenario('active span', active)
    P.scenario('ignored active span', ignored)
    P.scenario('references', references)
    P.scenario('child_of and references', both)
    P.scenario('child_of without a trace and references', traceless)
    P.scenario('grandchildren', chain)
    P.scenario('start_active_span', start_active)


def make(A, **kw):
    s, _, _ = sampler_stub(A, FALSE)
    th, _ = throttler_stub(A, FALSE)
    return tracer(A, sampler=s, throttler=th, **kw)


def is_child(A, span, parent, m, what):
    c = A.attr(span, 'context')
    A.require_same(A.attr(c, 'trace_id'), A.attr(parent, 'trace_id'), 'trace_id',
                   '%s: trace id' % what)
    A.require_same(A.attr(c, 'parent_id'), A.attr(parent, 'span_id'), 'parent_id',
                   '%s: parent id' % what)
    A.require_same(A.attr(c, 'flags'), A.attr(parent, 'flags'), 'flags', '%s: flags' % what)
    fresh_id(A, A.attr(c, 'span_id'), m, 64, 'span_id', '%s: span id' % what)
    inherits_baggage(A, c, parent, what)
    no_decision(A, m, what)


def inherits_baggage(A, c, parent, what):
    A.require_same(A.attr(c, 'baggage'), A.attr(parent, 'baggage'), 'baggage',
                   '%s: baggage' % what)


def no_decision(A, m, what):
    ev = A.calls(('sampler.is_sampled', 'throttler.is_allowed'), m)
    A.require(not ev, 'decision', '%s: %s is consulted for a child' % (
        what, ev[0].name if ev else ''))


def some_tags(A):
    return A.pick('tags', [('none', NONE), ('empty', A.dict()),
                           ('client', A.dict([('span.kind', 'client')])),
                           ('server', A.dict([('span.kind', 'server')]))])


def child(A):
    tr = make(A)
    parent = parent_context(A, root=A.pick('parent', [('has a parent', False), ('is a root', True)]))
    arg = parent
    if A.pick('child_of', ['context', 'span']) == 'span':
        arg = A.new('jaeger_client.span:Span', context=parent, tracer=tr, operation_name='p')
    fr = Frozen(A, parent)
    m = A.mark
    op = A.pick('operation', [('given', C('op')), ('None', NONE)])
    span = A.call(tr, 'start_span', op, child_of=arg, tags=some_tags(A))
    is_child(A, span, parent, m, 'child_of')
    fr.unchanged('parent', "the parent's context")
    A.require(A.attr(span, 'context') is not parent, 'parent', 'the child uses the same context')


def rpc(A):
    on = A.pick('one_span_per_rpc', [False, True])
    tr = make(A, one_span_per_rpc=on)
    tags = some_tags(A)
    server = isinstance(tags, DictV) and A.same(tags, A.dict([('span.kind', 'server')])) is True
    parent = parent_context(A, root=A.pick('parent', [('has a parent', False), ('is a root', True)]))
    m = A.mark
    span = A.call(tr, 'start_span', 'op', child_of=parent, tags=tags)
    if not (on and server):
        is_child(A, span, parent, m, 'one_span_per_rpc')
        return
    c = A.attr(span, 'context')
    for n in ('trace_id', 'span_id', 'parent_id', 'flags'):
        A.require_same(A.attr(c, n), A.attr(parent, n), 'rpc-' + n, 'server span: ' + n)
    inherits_baggage(A, c, parent, 'server span')
    no_decision(A, m, 'server span')


def active(A):
    tr = make(A)
    outer = A.call(tr, 'start_span', 'outer', child_of=parent_context(A))
    nonzero(A, outer)
    scope = A.call(A.attr(tr, 'scope_manager'), 'activate', outer, FALSE)
    m = A.mark
    inner = A.call(tr, 'start_span', 'inner')
    is_child(A, inner, A.attr(outer, 'context'), m, 'active span')
    other = parent_context(A, '2')
    m = A.mark
    explicit = A.call(tr, 'start_span', 'explicit', child_of=other)
    is_child(A, explicit, other, m, 'explicit parent and an active span')
    A.call(scope, 'close')
    A.require(A.is_none(A.attr(tr, 'active_span')), 'active', 'still active after close')


def ignored(A):
    tr = make(A)
    outer = A.call(tr, 'start_span', 'outer', child_of=parent_context(A))
    nonzero(A, outer)
    A.call(A.attr(tr, 'scope_manager'), 'activate', outer, FALSE)
    how = A.pick('then', ['nothing', 'child_of', 'reference'])
    other = parent_context(A, '2')
    kw = {'child_of': {'child_of': other},
          'reference': {'references': A.list([A.new(REF + 'child_of', other)])}}.get(how, {})
    m = A.mark
    if A.pick('started with', ['start_span', 'start_active_span']) == 'start_span':
        span = A.call(tr, 'start_span', 'op', ignore_active_span=True, **kw)
    else:
        span = A.attr(A.call(tr, 'start_active_span', 'op', ignore_active_span=True, **kw), 'span')
    if how == 'nothing':
        c = A.attr(span, 'context')
        A.require(A.is_none(A.attr(c, 'parent_id')), 'ignored', 'the active span is not ignored')
        fresh_id(A, A.attr(c, 'trace_id'), m, 64, 'ignored-trace', 'the trace id')
        A.require(not A.truth(A.attr(c, 'baggage')), 'ignored', 'it has baggage')
    else:
        is_child(A, span, other, m, 'ignored active span')


def references(A):
    tr = make(A)
    p1, p2 = parent_context(A, '1'), parent_context(A, '2')
    none = A.new(REF + 'Reference', A.load(REF + 'ReferenceType.CHILD_OF'), NONE)
    mk = A.pick('type', [('child of', REF + 'child_of'), ('follows from', REF + 'follows_from')])
    r1, r2 = A.new(mk, p1), A.new(REF + 'follows_from', p2)
    r3 = A.new(REF + 'follows_from', p1)
    refs, want, parent = A.pick('references', [
        ('one', (r1, [r1], p1)), ('list', (A.list([r1]), [r1], p1)),
        ('two', (A.list([r1, r2]), [r1, r2], p1)), ('two, reversed', (A.list([r2, r1]),
                                                                      [r2, r1], p2)),
        ('same context twice', (A.list([r1, r3]), [r1, r3], p1)),
        ('same one twice', (A.list([r1, r1]), [r1, r1], p1)),
        ('first empty', (A.list([none, r2, r1]), [r2, r1], p2)),
        ('last empty', (A.list([r1, none]), [r1], p1))])
    fr = Frozen(A, *([refs] if isinstance(refs, ListV) else []))
    m = A.mark
    span = A.call(tr, 'start_span', 'op', references=refs, tags=some_tags(A))
    is_child(A, span, parent, m, 'reference')
    got = A.attr(span, 'references')
    A.require(isinstance(got, (ListV, Tup)) and len(got.items) == len(want) and
              all(x is y for x, y in zip(got.items, want)), 'references',
              'the span keeps the references %s' % pretty(A, got))
    fr.unchanged('references-changed', 'the list of references')


def both(A):
    tr = make(A)
    p1, p2 = parent_context(A, '1'), parent_context(A, '2')
    r = A.new(REF + 'follows_from', p2)
    m = A.mark
    span = A.call(tr, 'start_span', 'op', child_of=p1, references=A.list([r]))
    is_child(A, span, p1, m, 'child_of and a reference')
    A.require(len(A.attr(span, 'references').items) == 1 and
              A.attr(span, 'references').items[0] is r, 'references', 'the reference is lost')


def traceless(A):
    """A context that carries no trace is no parent: the first reference is."""
    tr = make(A)
    bag = A.dict([('a', 'b')])
    carrier = A.pick('child_of', [
        ('baggage only', A.new(CTX, NONE, NONE, NONE, NONE, bag)),
        ('correlation id only', A.new(CTX, NONE, NONE, NONE, NONE, NONE, 'id')),
        ('nothing', A.new(CTX, NONE, NONE, NONE, NONE)),
        ('zero ids', A.new(CTX, 0, 0, 0, 0))])
    p1, p2 = parent_context(A, '1'), parent_context(A, '2')
    how = A.pick('references', ['one', 'two', 'not a list'])
    r1, r2 = A.new(REF + 'child_of', p1), A.new(REF + 'follows_from', p2)
    refs = {'one': A.list([r1]), 'two': A.list([r1, r2]), 'not a list': r1}[how]
    m = A.mark
    span = A.call(tr, 'start_span', 'op', child_of=carrier, references=refs)
    is_child(A, span, p1, m, 'child_of without a trace and a reference')


def chain(A):
    tr = make(A)
    parent = parent_context(A)
    a = nonzero(A, A.call(tr, 'start_span', 'a', child_of=parent))
    m = A.mark
    b = A.call(tr, 'start_span', 'b', child_of=a)
    is_child(A, b, A.attr(a, 'context'), m, 'grandchild')
    m = A.mark
    c = A.call(tr, 'start_span', 'c', child_of=a)
    is_child(A, c, A.attr(a, 'context'), m, 'second child')
    nonzero(A, b)
    A.call(b, 'set_baggage_item', 'k', 'v')
    m = A.mark
    d = A.call(tr, 'start_span', 'd', child_of=b)
    is_child(A, d, A.attr(b, 'context'), m, 'child of a span with new baggage')
    A.require_same(A.call(d, 'get_baggage_item', 'k'), C('v'), 'baggage', 'inherited item')


def start_active(A):
    tr = make(A)
    parent = parent_context(A)
    how = A.pick('parent', ['child_of', 'reference', 'active'])
    kw = {}
    if how == 'child_of':
        kw['child_of'] = parent
    elif how == 'reference':
        kw['references'] = A.list([A.new(REF + 'child_of', parent)])
    else:
        outer = nonzero(A, A.call(tr, 'start_span', 'outer', child_of=parent))
        A.call(A.attr(tr, 'scope_manager'), 'activate', outer, FALSE)
        parent = A.attr(outer, 'context')
    m = A.mark
    start = A.sym('start_time', 'float', 1)
    scope = A.call(tr, 'start_active_span', 'op', start_time=start,
                   tags=A.dict([('t', 'v')]), **kw)
    span = nonzero(A, A.attr(scope, 'span'))
    is_child(A, span, parent, m, 'start_active_span')
    A.require(A.attr(tr, 'active_span') is span, 'active', 'the new span is not active')
    A.require_same(A.attr(span, 'start_time'), start, 'start_time', 'start time')
    on = A.truth(A.call(span, 'is_sampled'))
    A.require(has_tag(A, span, C('t'), C('v')) is on, 'start-tags', 'the tags given at the start')
    m = A.mark
    inner = A.call(tr, 'start_span', 'inner')
    is_child(A, inner, A.attr(span, 'context'), m, 'child of the active span')
