"""Every tag and log value is recorded under the right wire type, truncated, and never raises.

For a value of each type and of unknown type, as a span tag, a log field and a process tag: booleans,
integers of the wire's range, floats keep type and value; anything else is its string form cut to the
configured length (tracebacks to their own); one value field is set, the one the type says; a failing
string conversion does not reach the caller.
"""
from .common import *

TYPES = {'STRING': (0, 'vStr'), 'DOUBLE': (1, 'vDouble'), 'BOOL': (2, 'vBool'), 'LONG': (3, 'vLong')}
TAGTYPE = 'jaeger_client.thrift_gen.jaeger.ttypes:TagType'


def run(P):
    P.scenario('value of each type', typed)
    P.scenario('value of unknown type', unknown, elem=1)
    P.scenario('truncation', truncation)
    P.scenario('tracebacks', tracebacks)
    P.scenario('keys', keys)
    P.scenario('failing conversions', failing)
    P.scenario('several fields', several)
    P.scenario('messages', messages)


def make(A, **kw):
    s, _, _ = sampler_stub(A, TRUE)
    tr = tracer(A, sampler=s, **kw)
    return A.call(tr, 'start_span', 'op')


def record(A, k, v, limit, tb=None):
    """The thrift tags that one pair gives at each place."""
    where = A.pick('recorded as', ['span tag', 'start tag', 'log field', 'process tag'])
    A.where = where
    if where == 'process tag':
        p = A.new('jaeger_client.thrift:make_process', 's', A.dict([(k, v)]), limit)
        return A.attr(p, 'tags').items
    kw = {'max_tag_value_length': limit}
    if tb is not None:
        kw['max_traceback_length'] = tb
    if where == 'start tag':
        s, _, _ = sampler_stub(A, TRUE, A.dict())
        tr = tracer(A, sampler=s, **kw)
        return A.attr(A.call(tr, 'start_span', 'op', tags=A.dict([(k, v)])), 'tags').items
    span = make(A, **kw)
    n = len(A.attr(span, 'tags').items)
    if where == 'span tag':
        A.call(span, 'set_tag', k, v)
        return A.attr(span, 'tags').items[n:]
    A.call(span, 'log_kv', A.dict([(k, v)]), 5.0)
    return A.attr(A.attr(span, 'logs').items[0], 'fields').items


def is_tag(A, got, key, kind, value, what):
    if not A.require(len(got) == 1, 'one', '%s gives %d tags' % (what, len(got))):
        return
    t = got[0]
    A.require_same(A.attr(t, 'key'), key, 'key', '%s: key' % what)
    A.require_same(A.attr(t, 'vType'), C(TYPES[kind][0]), 'type', '%s: wire type' % what)
    for f in FIELDS:
        v = A.attr(t, f)
        if f == TYPES[kind][1] and isinstance(value, C) and value.v != value.v:
            A.require(isinstance(v, C) and v.v != v.v, 'value', '%s: value' % what)
        elif f == TYPES[kind][1]:
            A.require_same(v, value, 'value', '%s: value' % what)
        else:
            A.require(A.is_none(v), 'fields', '%s: %s is set too' % (what, f))


def typed(A):
    limit = A.pick('limit', [16, 1024])
    kind, v = A.pick('type', [
        ('bool', ('BOOL', A.sym('flag', 'bool'))), ('true', ('BOOL', TRUE)),
        ('int64', ('LONG', A.int('number', -2 ** 63, 2 ** 63 - 1))),
        ('zero', ('LONG', C(0))), ('minimum', ('LONG', C(-2 ** 63))),
        ('float', ('DOUBLE', A.sym('real', 'float'))),
        ('not a number', ('DOUBLE', C(float('nan')))), ('infinite', ('DOUBLE', C(float('-inf')))),
        ('negative zero', ('DOUBLE', C(-0.0))), ('whole', ('DOUBLE', C(2.0))),
        ('short string', ('STRING', C('some text'))), ('empty', ('STRING', C(''))),
        ('None', ('STRING', NONE)), ('big', ('STRING', C(2 ** 63))),
        ('negative big', ('STRING', C(-2 ** 63 - 1))),
        ('bytes', ('STRING', C(b'ab'))), ('bytes that are no text', ('STRING', C(b'\xff'))),
        ('list', ('STRING', A.list([1, 'x']))), ('dict', ('STRING', A.dict([('x', 1)]))),
        ('tuple', ('STRING', Tup([C(1), C(2)])))])
    want = v
    if kind == 'STRING' and not (isinstance(v, C) and isinstance(v.v, str)):
        want = C((str(v.v) if isinstance(v, C) else {'list': "[1, 'x']", 'dict': "{'x': 1}", 'tuple': '(1, 2)'}[
            'tuple' if isinstance(v, Tup) else 'list' if isinstance(v, ListV) else 'dict'])[:limit])
    is_tag(A, record(A, 'k', v, limit), C('k'), kind, want, 'a value')


def unknown(A):
    v = A.sym('value')
    got = record(A, 'k', v, 64)
    if not A.require(len(got) == 1, 'one', 'one value gives %d tags' % len(got)):
        return
    t = got[0]
    ty = A.attr(t, 'vType')
    names = [n for n, (i, f) in TYPES.items() if A.same(ty, C(i))]
    if not A.require(len(names) == 1, 'type', 'wire type %s' % pretty(A, ty)):
        return
    field = TYPES[names[0]][1]
    for f in FIELDS:
        if f != field:
            A.require(A.is_none(A.attr(t, f)), 'fields', '%s is set for %s' % (f, names[0]))
    got = A.attr(t, field)
    have = A.ip.types(v) if isinstance(v, T) else frozenset()
    allowed = {'BOOL': {'bool'}, 'LONG': {'int'}, 'DOUBLE': {'float'}}
    if names[0] in allowed:
        A.require(have <= allowed[names[0]], 'type-of', '%s for a value of type %s' % (
            names[0], '/'.join(sorted(have))))
        A.require_same(got, v, 'value', 'the value')
        if names[0] == 'LONG':
            in_range(A, got, -2 ** 63, 2 ** 63 - 1, 'range', 'an integer on the wire')
    else:
        A.require(not (have & frozenset(['bool', 'float'])), 'type-of',
                  'a string for a value of type %s' % '/'.join(sorted(have)))
        if have <= frozenset(['int']):
            A.require(A.cmp(v, '>', 2 ** 63 - 1) or A.cmp(v, '<', -2 ** 63), 'type-of',
                      'a string for an integer that fits')
        lim = 4096 if 'traceback' in have else 64
        A.require(A.cmp(mt.seq_len(got), '<=', lim), 'limit', 'a string longer than the limit')


def truncation(A):
    limit = A.int('limit', 0, 10 ** 6)
    v = A.str('text')
    got = record(A, 'k', v, limit)
    if A.require(len(got) == 1, 'one', '%d tags' % len(got)):
        s = A.attr(got[0], 'vStr')
        n = mt.seq_len(s)
        A.require(A.cmp(n, '<=', limit), 'limit', 'a value longer than the limit: %s' % pretty(A, s))
        if A.cmp(mt.seq_len(v), '<=', limit):
            A.require_same(s, v, 'whole', 'a value that fits is changed')
        else:
            A.require(A.cmp(n, '==', limit), 'cut', 'a long value is cut to %s' % pretty(A, n))
            A.require(v in terms.sub_terms(s) if isinstance(s, T) else A.cmp(limit, '==', 0), 'cut',
                      'the value is %s' % pretty(A, s))


def tracebacks(A):
    limit, tb = A.pick('limits', [('value shorter', (8, 4096)), ('traceback shorter', (1024, 16))])
    v = A.sym('tb', 'traceback')
    got = record(A, 'k', v, limit, tb)
    if not A.require(len(got) == 1, 'one', '%d tags' % len(got)):
        return
    s = A.attr(got[0], 'vStr')
    A.require_same(A.attr(got[0], 'vType'), C(0), 'type', 'wire type')
    if A.require(not A.is_none(s), 'value', 'no value for a traceback'):
        most = 4096 if A.where == 'process tag' else tb
        A.require(A.cmp(mt.seq_len(s), '<=', most), 'limit', 'a traceback longer than its limit')


def keys(A):
    k, want = A.pick('key', [('text', (A.str('key'),) * 2), ('int', (C(5), C('5'))),
                             ('None', (NONE, C('None')))])
    if isinstance(k, T):
        A.assume(not A.eq(k, C('sampling.priority')))
    v, kind = A.pick('value', [('bool', (TRUE, 'BOOL')), ('int', (C(1), 'LONG')),
                               ('float', (C(1.5), 'DOUBLE')), ('str', (C('v'), 'STRING'))])
    is_tag(A, record(A, k, v, 100), want, kind, v, 'a key')


def failing(A):
    A.ip.str_raises = True
    what = A.pick('failing', ['value', 'key'])
    o = A.sym('object', 'object')
    k, v = ('k', o) if what == 'value' else (o, C(1))
    got = record(A, k, v, 50)
    if A.require(len(got) == 1, 'one', 'a failing conversion gives %d tags' % len(got)):
        x = A.attr(got[0], 'vStr' if what == 'value' else 'key')
        A.require(not A.is_none(x), 'value', 'no text for an object whose conversion fails')
        if what == 'value':
            A.require(A.cmp(mt.seq_len(x), '<=', 50), 'limit', 'longer than the limit')


def several(A):
    span = make(A)
    n = len(A.attr(span, 'tags').items)
    A.call(span, 'set_tag', 'a', 1)
    A.call(span, 'set_tag', 'b', 'x')
    A.call(span, 'set_tag', 'a', TRUE)
    got = tags_of(A, span)[n:]
    A.require(len(got) == 3, 'several', '%d tags of 3' % len(got))
    for (k, v), (gk, gv) in zip([('a', C(1)), ('b', C('x')), ('a', TRUE)], got):
        A.require(A.same(gk, C(k)) and A.same(gv, v), 'several', 'tag %s is %s' % (
            pretty(A, gk), pretty(A, gv)))
    A.call(span, 'log_kv', A.dict([('event', 'e'), ('n', 2), ('f', 1.5)]))
    log = A.attr(span, 'logs').items[0]
    fs = [(A.attr(t, 'key'), tag_value(A, t)) for t in A.attr(log, 'fields').items]
    A.require_same(A.list([k for k, _ in fs]),
                   A.list([C('event'), C('n'), C('f')]), 'several', 'order of the fields of a log')
    A.require_same(A.dict(fs), A.dict([('event', 'e'), ('n', 2), ('f', 1.5)]), 'several',
                   'fields of a log')


def messages(A):
    """info() and error() log the message with its payload, error() marks the span."""
    span = make(A)
    n = len(A.attr(span, 'tags').items)
    how = A.pick('how', ['info', 'error'])
    msg = A.pick('message', [('text', C('m')), ('unknown', A.str('message', 0, 50))])
    pay = A.pick('payload', [('none', NONE), ('text', C('p')), ('number', C(7))])
    args = [] if pay is NONE else [pay]
    A.require(A.call(span, how, msg, *args) is span, 'chain', '%s does not return the span' % how)
    tags = A.attr(span, 'tags').items[n:]
    if how == 'error':
        is_tag(A, tags, C('error'), 'BOOL', TRUE, 'the error mark')
    else:
        A.require(not tags, 'tags', 'info() sets a tag')
    logs = A.attr(span, 'logs').items
    if not A.require(len(logs) == 1, 'log', '%s() gives %d logs' % (how, len(logs))):
        return
    f = A.attr(logs[0], 'fields').items
    A.require(len(f) == 1 + len(args), 'log', '%s() logs %d fields' % (how, len(f)))
    is_tag(A, f[:1], C('event'), 'STRING', msg, 'the message')
    if args:
        is_tag(A, f[1:], C('payload'), 'LONG' if pay.v == 7 else 'STRING', pay, 'the payload')
