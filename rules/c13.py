"""Baggage is immutable in every context and isolated between spans.

Setting an item gives the span a new context: contexts taken earlier, the parent, siblings and
children made before are not changed, later children inherit it, None removes the item, the other
items and the ids stay.  The dictionary given by a caller is not aliased into what is written later.
"""
from .common import *


def run(P):
    P.scenario('setting an item', setting)
    P.scenario('removing an item', removing)
    P.scenario('ids', identity)
    P.scenario('family of spans', family)
    P.scenario('contexts', contexts)
    P.scenario('unsampled spans', unsampled)


def make(A, flags=None, root=False):
    s, _, _ = sampler_stub(A, FALSE)
    tr = tracer(A, sampler=s)
    parent = parent_context(A, flags=flags, root=root)
    return tr, parent, nonzero(A, A.call(tr, 'start_span', 'op', child_of=parent))


def bag(A, x):
    return A.attr(x, 'baggage')


def setting(A):
    tr, parent, span = make(A)
    old = A.attr(span, 'context')
    ids_ = [A.attr(old, n) for n in ('trace_id', 'span_id', 'parent_id', 'flags')]
    fr = Frozen(A, parent, old, bag(A, parent), bag(A, old))
    k, v = A.str('key'), A.str('value', minlen=1)
    other = A.str('other key')
    A.assume(not A.eq(k, other))
    before = A.call(span, 'get_baggage_item', other)
    back = A.call(span, 'set_baggage_item', k, v)
    A.require(back is span, 'chain', 'set_baggage_item does not return the span')
    A.require_same(A.call(span, 'get_baggage_item', k), v, 'set', 'the item')
    A.require_same(A.call(span, 'get_baggage_item', other), before, 'others', 'another item')
    new = A.attr(span, 'context')
    for n, w in zip(('trace_id', 'span_id', 'parent_id', 'flags'), ids_):
        A.require_same(A.attr(new, n), w, 'ids', '%s after a baggage item' % n)
    fr.unchanged('immutable', 'a context made before')
    v2 = A.pick('again', [('equal', v), ('other', A.str('value2', minlen=1)), ('empty', C(''))])
    fr2 = Frozen(A, new, bag(A, new))
    A.call(span, 'set_baggage_item', k, v2)
    A.require_same(A.call(span, 'get_baggage_item', k), v2, 'set-again', 'the item set again')
    fr2.unchanged('immutable', 'the context made by the first call')


def identity(A):
    """Baggage has nothing to do with which span it is."""
    tr, parent, span = make(A, root=True)
    kind = A.pick('span', ['root', 'child', 'given context', 'joined root'])
    if kind == 'root':
        span = nonzero(A, A.call(tr, 'start_span', 'root'))
    elif kind == 'given context':
        span = A.new('jaeger_client.span:Span', context=parent, tracer=tr, operation_name='p')
    elif kind == 'joined root':
        s, _, _ = sampler_stub(A, FALSE)
        tr = tracer(A, sampler=s, one_span_per_rpc=True)
        span = A.call(tr, 'start_span', 'op', child_of=parent, tags=A.dict([('span.kind', 'server')]))
    names = ('trace_id', 'span_id', 'parent_id', 'flags')
    want = [A.attr(A.attr(span, 'context'), n) for n in names]
    for k, v in A.pick('items', [('set', [('k', 'v')]), ('set and removed', [('k', 'v'), ('k', NONE)]),
                                 ('removed', [('k', NONE)]), ('two', [('k', 'v'), ('l', 'w')])]):
        A.call(span, 'set_baggage_item', k, v)
    for n, w in zip(names, want):
        A.require_same(A.attr(A.attr(span, 'context'), n), w, 'ids', '%s after a baggage item' % n)
        A.require_same(A.attr(span, n), w, 'ids', '%s of the span' % n)


def removing(A):
    tr, parent, span = make(A)
    k = A.str('key')
    first = A.pick('first', ['set', 'inherited or missing'])
    if first == 'set':
        A.call(span, 'set_baggage_item', k, 'v')
    other = A.str('other key')
    A.assume(not A.eq(k, other))
    before = A.call(span, 'get_baggage_item', other)
    old = A.attr(span, 'context')
    fr = Frozen(A, parent, old, bag(A, old))
    A.call(span, 'set_baggage_item', k, NONE)
    A.require(A.is_none(A.call(span, 'get_baggage_item', k)), 'remove', 'the item is still there')
    A.require(A.truth(A.apply(lift_contains, bag(A, A.attr(span, 'context')), k)) is False,
              'remove', 'the key is still there')
    A.require_same(A.call(span, 'get_baggage_item', other), before, 'others', 'another item')
    fr.unchanged('immutable', 'the context made before')


lift_contains = Native('in', lambda ip, a, kw: C(ms.contains(ip, a[0], a[1])))


def family(A):
    tr, parent, span = make(A)
    early = nonzero(A, A.call(tr, 'start_span', 'early', child_of=span))
    sib = nonzero(A, A.call(tr, 'start_span', 'sibling', child_of=parent))
    fr = Frozen(A, parent, bag(A, parent), A.attr(early, 'context'), A.attr(sib, 'context'))
    A.call(span, 'set_baggage_item', 'k', 'v')
    fr.unchanged('isolated', 'the context of another span')
    late = nonzero(A, A.call(tr, 'start_span', 'late', child_of=span))
    A.require_same(A.call(late, 'get_baggage_item', 'k'), C('v'), 'inherit', 'in a later child')
    fr = Frozen(A, A.attr(span, 'context'), A.attr(early, 'context'), A.attr(sib, 'context'))
    A.call(late, 'set_baggage_item', 'k', 'w')
    A.call(late, 'set_baggage_item', 'l', 'x')
    fr.unchanged('isolated', 'the context of another span')
    A.require_same(A.call(span, 'get_baggage_item', 'k'), C('v'), 'isolated',
                   "the item after the child's change")
    A.require_same(A.call(late, 'get_baggage_item', 'k'), C('w'), 'set', "the child's item")
    a = A.call(tr, 'start_span', 'a', child_of=parent)
    A.require_same(bag(A, A.attr(a, 'context')), bag(A, parent), 'isolated', 'a new child')
    root = A.call(tr, 'start_span', 'root')
    A.require(not A.truth(bag(A, A.attr(root, 'context'))), 'leak', 'a new root has baggage')


def contexts(A):
    given = A.dict([('a', '1')])
    c = A.new(CTX, 1, 2, 3, 1, given)
    fr = Frozen(A, given, c)
    d = A.call(c, 'with_baggage_item', 'k', 'v')
    fr.unchanged('immutable', 'the context or the dictionary')
    A.require(d is not c and bag(A, d) is not bag(A, c), 'immutable', 'the new context is the old')
    A.require_same(bag(A, d), A.dict([('a', '1'), ('k', 'v')]), 'with', 'the new baggage')
    empty = A.new(CTX, 1, 2, 3, 1)
    e2 = A.call(empty, 'with_baggage_item', 'k', 'v')
    A.require(not A.truth(bag(A, empty)), 'immutable', 'the empty context got an item')
    A.require(not A.truth(bag(A, A.new(CTX, 5, 6, 7, 1))), 'leak', 'a new context has baggage')
    A.require_same(bag(A, e2), A.dict([('k', 'v')]), 'with', 'the new baggage')
    gone = A.call(A.call(d, 'with_baggage_item', 'k', NONE), 'with_baggage_item', 'nope', NONE)
    A.require_same(bag(A, gone), A.dict([('a', '1')]), 'remove', 'baggage after the removal')


def unsampled(A):
    fl = A.pick('flags', [0, 1])
    tr, parent, span = make(A, fl)
    k, v = A.str('key'), A.str('value', minlen=1)
    A.call(span, 'set_baggage_item', k, v)
    A.require_same(A.call(span, 'get_baggage_item', k), v, 'set', 'the item')
    A.call(span, 'finish')
    child = A.call(tr, 'start_span', 'c', child_of=span)
    A.require_same(A.call(child, 'get_baggage_item', k), v, 'inherit', 'of a finished span')
    A.call(span, 'set_baggage_item', 'late', v)
    A.require_same(A.call(span, 'get_baggage_item', 'late'), v, 'set', 'item set after finish')
