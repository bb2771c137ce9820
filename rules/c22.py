"""A reported span is one consistent snapshot, however late another thread touches it.

While a batch is built from spans, another thread runs a complete span operation at any access the
conversion makes to the span: what is reported is the span before or after that operation, never a
mixture, and nobody raises.  Operations after the conversion change nothing in the batch, and the
conversion changes nothing in the span.
"""
from .common import *
from .c18 import BATCH, PROCESS


def run(P):
    P.scenario('concurrent operation', concurrent)
    P.scenario('two spans', two)
    P.scenario('later operation', later)
    P.scenario('the span is only read', pure)


def make(A):
    s, _, _ = sampler_stub(A, TRUE, A.dict())
    tr = tracer(A, sampler=s)
    span = A.call(tr, 'start_span', 'before', child_of=A.new(CTX, 5, 6, 7, 1), start_time=1.0,
                  tags=A.dict([('t0', 'x')]), references=A.list([
                      A.new('opentracing:follows_from', A.new(CTX, 8, 9, 10, 1))]))
    A.call(span, 'log_kv', A.dict([('l0', 'x')]), 2.0)
    return tr, span


def process(A):
    return A.new(PROCESS, 's', A.dict(), 100)


OPS = {
    'tag': lambda A, s: A.call(s, 'set_tag', 't1', 'y'),
    'log': lambda A, s: A.call(s, 'log_kv', A.dict([('l1', 'y')]), 3.0),
    'name': lambda A, s: A.call(s, 'set_operation_name', 'after'),
    'baggage': lambda A, s: A.call(s, 'set_baggage_item', 'k', 'v'),
    'debug': lambda A, s: A.call(s, 'set_tag', 'sampling.priority', 1),
    'unsample': lambda A, s: A.call(s, 'set_tag', 'sampling.priority', 0),
    'finish': lambda A, s: A.call(s, 'finish', 9.0),
}


def view(A, j):
    """What a converted span says."""
    return A.list([A.attr(j, n) for n in ('operationName', 'flags', 'spanId', 'startTime',
                                          'duration')]
                  + [ListV([A.attr(t, 'key') for t in A.attr(j, 'tags').items]),
                     ListV([ListV([A.attr(f, 'key') for f in A.attr(l, 'fields').items])
                            for l in A.attr(j, 'logs').items]),
                     ListV([A.attr(r, 'spanId') for r in A.attr(j, 'references').items])])


def seen(A, span, names=('operation_name',)):
    """The same of the span object."""
    return A.list([A.attr(span, 'operation_name'), A.attr(A.attr(span, 'context'), 'flags'),
                   ListV([A.attr(t, 'key') for t in A.attr(span, 'tags').items]),
                   ListV([ListV([A.attr(f, 'key') for f in A.attr(l, 'fields').items])
                          for l in A.attr(span, 'logs').items])])


def comparable(v):
    return ListV(v.items[:2] + v.items[5:7])


def concurrent(A):
    tr, span = make(A)
    A.call(span, 'finish', 4.0)
    p = process(A)
    op = A.pick('other thread', sorted(OPS))
    before, out = seen(A, span), []
    at = A.race(lambda: out.append(A.new(BATCH, A.list([span]), p)),
                lambda: OPS[op](A, span), span)
    after = seen(A, span)
    got = A.attr(out[0], 'spans').items
    if not A.require(len(got) == 1, 'count', '%d spans' % len(got), at):
        return
    v = comparable(view(A, got[0]))
    if op == 'baggage':
        # the item and its log are two steps
        A.require(len(v.items[3].items) in (1, 2), 'torn', 'logs %r' % v, at)
        return
    A.require(A.same(v, before) or A.same(v, after), 'torn',
              'the reported span is neither the span before nor after %s: %r' % (op, v), at)
    A.require_same(A.attr(got[0], 'duration'), C(3000000), 'duration', 'duration')


def two(A):
    tr, a = make(A)
    _, b = make(A)
    A.call(a, 'finish', 4.0)
    A.call(b, 'finish', 4.0)
    p, out = process(A), []
    at = A.race(lambda: out.append(A.new(BATCH, A.list([a, b]), p)),
                lambda: (OPS['tag'](A, a), OPS['tag'](A, b)), a, b)
    for j in A.attr(out[0], 'spans').items:
        n = len(A.attr(j, 'tags').items)
        A.require(n in (1, 2), 'torn', '%d tags' % n, at)
    for s in (a, b):
        A.require(len(A.attr(s, 'tags').items) == 2, 'lost', 'a tag is lost', at)


def later(A):
    """What happens to the span after it has been converted does not reach the batch."""
    tr, span = make(A)
    A.call(span, 'finish', 4.0)
    batch = A.new(BATCH, A.list([span]), process(A))
    old = Frozen(A, batch)
    for op in A.pick('operations', ['tag log name', 'baggage unsample', 'debug tag',
                                    'finish log']).split():
        OPS[op](A, span)
    old.unchanged('aliased', 'the batch that was built before')


def pure(A):
    tr, span = make(A)
    A.call(span, 'finish', 4.0)
    p = process(A)
    old = Frozen(A, span, p)
    for _ in range(A.pick('times', [1, 2])):
        b = A.new(BATCH, A.list([span]), p)
    old.unchanged('changed', 'the span')
    A.require(len(A.attr(b, 'spans').items) == 1, 'count', 'one span in, %d out' % len(
        A.attr(b, 'spans').items))
