"""A span's state is updated atomically: no update of another thread is lost or torn.

For every pair of span operations (tags, logs, baggage, name, sampling priority, finish), the second
runs completely, as another thread would, at any one access the first makes to the shared span as far
as the locks held allow it.  Both updates must be there afterwards and neither may raise.
"""
from .common import *


def run(P):
    P.scenario('baggage against baggage', baggage)
    P.scenario('tags and logs', tags)
    P.scenario('priority against the rest', priority)
    P.scenario('name', name)
    P.scenario('readers', readers)


def make(A, flags=1, **kw):
    s, _, _ = sampler_stub(A, FALSE)
    tr = tracer(A, sampler=s, **kw)
    parent = A.new(CTX, 1, 2, 3, flags, A.dict([('old', '0')]))
    return tr, A.call(tr, 'start_span', 'op', child_of=parent)


def sides(A, f, g):
    """Either operation can be the interrupted one."""
    return (f, g) if A.pick('interrupted', ['first', 'second']) == 'first' else (g, f)


def both(A, span, f, g):
    a, b = sides(A, f, g)
    return A.race(a, b, span)


def item(A, span, k):
    return A.call(span, 'get_baggage_item', k)


def setter(A, span, k, v):
    return lambda: A.call(span, 'set_baggage_item', k, v)


def baggage(A):
    tr, span = make(A, A.pick('flags', [1, 0]))
    kind = A.pick('keys', ['different', 'same', 'removal'])
    v1, v2 = A.str('v1', minlen=1), A.str('v2', minlen=1)
    f = setter(A, span, 'k1', v1)
    g = {'different': setter(A, span, 'k2', v2), 'same': setter(A, span, 'k1', v2),
         'removal': setter(A, span, 'old', NONE)}[kind]
    at = both(A, span, f, g)
    got = item(A, span, 'k1')
    A.require(A.same(got, v1) or kind == 'same' and A.same(got, v2), 'lost-baggage',
              'an item is lost when another thread sets one', at)
    if kind == 'different':
        A.require_same(item(A, span, 'k2'), v2, 'lost-baggage', 'the item of the other thread')
    old = item(A, span, 'old')
    A.require(A.is_none(old) if kind == 'removal' else A.same(old, C('0')), 'lost-baggage',
              'the item that was there is %s' % pretty(A, old), at)


def tags(A):
    tr, span = make(A)
    ops = {'tag1': lambda: A.call(span, 'set_tag', 't1', A.pick('v1', [('s', C('x')), ('i', C(1))])),
           'tag2': lambda: A.call(span, 'set_tag', 't2', 'y'),
           'log': lambda: A.call(span, 'log_kv', A.dict([('event', 'e')])),
           'log2': lambda: A.call(span, 'log_kv', A.dict([('event', 'f')]), 5.0),
           'baggage': setter(A, span, 'k', 'v')}
    f, g = A.pick('operations', [(a + ' ' + b, (a, b)) for a, b in (
        ('tag1', 'tag2'), ('log', 'log2'), ('tag1', 'log'), ('baggage', 'log'),
        ('baggage', 'tag1'))])
    at = both(A, span, ops[f], ops[g])
    keys = [k.v for k, _ in tags_of(A, span) if isinstance(k, C)]
    for o, k in (('tag1', 't1'), ('tag2', 't2')):
        A.require(keys.count(k) == int(o in (f, g)), 'lost-tag', '%d tags %s' % (
            keys.count(k), k), at)
    want = sum(1 for o in (f, g) if o in ('log', 'log2', 'baggage'))
    logs = A.attr(span, 'logs').items
    A.require(len(logs) == want, 'lost-log', '%d logs of %d' % (len(logs), want), at)
    if 'baggage' in (f, g):
        A.require_same(item(A, span, 'k'), C('v'), 'lost-baggage', 'the item')


def priority(A):
    th = A.pick('throttler', [('none', NONE), ('allows', throttler_stub(A, TRUE)[0])])
    start = A.pick('flags', [0, 1])
    tr, span = make(A, start, throttler=th)
    value = A.pick('priority', [1, 0])
    g = A.pick('other', [('baggage', setter(A, span, 'k', 'v')),
                         ('name', lambda: A.call(span, 'set_operation_name', 'n')),
                         ('tag', lambda: A.call(span, 'set_tag', 't', 1)),
                         ('priority', lambda: A.call(span, 'set_tag', 'sampling.priority', value))])
    at = both(A, span, lambda: A.call(span, 'set_tag', 'sampling.priority', value), g)
    flags = A.attr(A.attr(span, 'context'), 'flags')
    A.require_same(flags, C(start | 3 if value else 0), 'lost-flags',
                   'flags after a priority of %d, interrupted at %s' % (value, at))
    if th is not NONE and value == 1:
        n = len(A.calls('throttler.is_allowed'))
        A.require(n == 1, 'charged', 'the throttler is charged %d times for one debug span' % n, at)


def name(A):
    tr, span = make(A)
    at = both(A, span, lambda: A.call(span, 'set_operation_name', 'a'),
              A.pick('other', [('name', lambda: A.call(span, 'set_operation_name', 'b')),
                               ('finish', lambda: A.call(span, 'finish')),
                               ('baggage', setter(A, span, 'k', 'v'))]))
    got = A.attr(span, 'operation_name')
    A.require(isinstance(got, C) and got.v in ('a', 'b'), 'lost-name', 'the name is %s' % pretty(
        A, got), at)


def readers(A):
    """Child spans, injects and reads see a whole context while another thread writes."""
    tr, span = make(A)
    nonzero(A, span)
    got = []
    carrier = A.dict()
    what = A.pick('reader', ['child', 'inject', 'get', 'string'])

    def read():
        if what == 'child':
            got.append(A.call(tr, 'start_span', 'c', child_of=span))
        elif what == 'inject':
            A.call(tr, 'inject', span, fmt(A, 'TEXT_MAP'), carrier)
        elif what == 'get':
            got.append(A.call(span, 'get_baggage_item', 'old'))
        else:
            A.apply(lift_repr, span)

    def write():
        A.call(span, 'set_baggage_item', 'k1', 'v1')
        A.call(span, 'set_baggage_item', 'old', NONE)
    at = A.race(read, write, span)
    seen = None
    if what == 'child':
        seen = A.attr(A.attr(got[0], 'context'), 'baggage')
    elif what == 'inject':
        seen = A.dict([(C(k.v[8:]), v) for k, v in carrier.entries
                       if isinstance(k, C) and k.v.startswith('uberctx-')])
    if seen is not None:
        before = A.dict([('old', '0')])
        mid = A.dict([('old', '0'), ('k1', 'v1')])
        after = A.dict([('k1', 'v1')])
        A.require(any(A.same(seen, x) for x in (before, mid, after)), 'torn',
                  'the reader sees %s' % pretty(A, seen), at)
    elif what == 'get':
        A.require(A.same(got[0], C('0')) or A.is_none(got[0]), 'torn', 'it reads %s' % pretty(
            A, got[0]), at)
    A.require_same(item(A, span, 'k1'), C('v1'), 'lost-baggage', 'the item of the writer')


lift_repr = Native('repr', lambda ip, a, kw: m_str.to_repr(ip, a[0]))
