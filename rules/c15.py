"""A sampled span is reported exactly once, when it is finished first, however it is finished.

finish, leaving a with block (with or without an exception), closing a scope that finishes its span
and a second thread finishing at any point: exactly one report for a sampled span, with the end time
of the first finish; repeated calls report nothing and change nothing; starting never reports.
"""
from .common import *


def run(P):
    P.scenario('finish', finish)
    P.scenario('context manager', manager)
    P.scenario('scope', scope)
    P.scenario('two threads', threads)
    P.scenario('many spans', many)
    P.scenario('sampled late', late)


def make(A, flags=1, op='op', **kw):
    rep = reporter_stub(A)
    s, _, _ = sampler_stub(A, TRUE)
    tr = tracer(A, sampler=s, reporter=rep)
    parent = A.new(CTX, 1, 2, 3, flags, A.dict([('old', '0')]))
    m = A.mark
    span = A.call(tr, 'start_span', op, child_of=parent, **kw)
    A.require(not A.calls('reporter.report_span', m), 'early', 'a span is reported at its start')
    return tr, span


def reported(A, span, m, n=1, at=None):
    ev = A.calls('reporter.report_span', m)
    A.require(len(ev) == n, 'once', 'the span is reported %d times, expected %d' % (len(ev), n), at)
    for e in ev:
        A.require(argsof(e, ('span',))[0] is span, 'which', 'another span is reported')


def finish(A):
    fl = A.pick('flags', [1, 3, 5])
    tr, span = make(A, fl)
    given = A.pick('finish time', [('given', A.sym('finish_time', 'float', 1)), ('None', NONE),
                                   ('positional', A.sym('finish_time', 'int', 1))])
    m = A.mark
    A.call(span, 'finish', *([] if given is NONE else [given]))
    reported(A, span, m)
    end = A.attr(span, 'end_time')
    if given is NONE:
        A.require(isinstance(end, T) and end.op == 'now', 'end', 'end time %s' % pretty(A, end))
    else:
        A.require_same(end, given, 'end', 'end time')
    A.require(A.truth(A.attr(span, 'finished')), 'finished', 'not marked as finished')
    tags, logs = len(A.attr(span, 'tags').items), len(A.attr(span, 'logs').items)
    m = A.mark
    A.call(span, 'finish', *A.pick('again', [('None', []), ('other time', [C(99.0)])]))
    reported(A, span, m, 0)
    A.require_same(A.attr(span, 'end_time'), end, 'end-again', 'end time after a second finish')
    A.call(span, 'finish')
    reported(A, span, m, 0)
    A.require(len(A.attr(span, 'tags').items) == tags and len(A.attr(span, 'logs').items) == logs,
              'end-again', 'a second finish changes the span')


def manager(A):
    tr, span = make(A)
    m = A.mark
    got = A.call(span, '__enter__')
    A.require(got is span, 'enter', '__enter__ does not return the span')
    how = A.pick('left', ['normally', 'by an exception', 'after finish'])
    if how == 'after finish':
        A.call(span, 'finish', 5.0)
    if how == 'by an exception':
        exc = A.ip.exc('ValueError', 'boom').value
        back = A.call(span, '__exit__', exc.cls, exc, A.sym('tb', 'traceback'))
        A.require(not A.truth(back), 'swallow', 'the exception is swallowed')
        A.require(has_tag(A, span, 'error', TRUE), 'error', 'the error is not recorded')
    else:
        A.call(span, '__exit__', NONE, NONE, NONE)
        A.require(not has_tag(A, span, 'error', TRUE), 'error', 'an error is recorded')
    reported(A, span, m)
    if how == 'after finish':
        A.require_same(A.attr(span, 'end_time'), C(5.0), 'end', 'end time')


def scope(A):
    rep = reporter_stub(A)
    s, _, _ = sampler_stub(A, TRUE)
    tr = tracer(A, sampler=s, reporter=rep)
    kw = A.pick('finish_on_close', [('default', {}), ('true', {'finish_on_close': TRUE}),
                                    ('false', {'finish_on_close': FALSE})])
    fin = kw.get('finish_on_close') is not FALSE
    m = A.mark
    sc = A.call(tr, 'start_active_span', 'op', **kw)
    span = A.attr(sc, 'span')
    reported(A, span, m, 0)
    how = A.pick('closed', ['close', 'with', 'exception'])
    if how == 'close':
        A.call(sc, 'close')
    elif how == 'with':
        A.call(sc, '__exit__', NONE, NONE, NONE)
    else:
        exc = A.ip.exc('ValueError', 'boom').value
        A.call(sc, '__exit__', exc.cls, exc, A.sym('tb', 'traceback'))
    reported(A, span, m, int(fin))
    A.call(sc, 'close')
    reported(A, span, m, int(fin))
    A.call(span, 'finish')
    reported(A, span, m, 1)


def threads(A):
    tr, span = make(A)
    m = A.mark
    t1, t2 = A.sym('t1', 'float', 1), A.sym('t2', 'float', 1)
    other = A.pick('other', [('finish', lambda: A.call(span, 'finish', t2)),
                             ('exit', lambda: A.call(span, '__exit__', NONE, NONE, NONE)),
                             ('tag', lambda: A.call(span, 'set_tag', 'k', 'v')),
                             ('log', lambda: A.call(span, 'log_kv', A.dict([('e', 'f')]))),
                             ('name', lambda: A.call(span, 'set_operation_name', 'n'))])
    at = A.race(lambda: A.call(span, 'finish', t1), other, span)
    reported(A, span, m, 1, at)
    end = A.attr(span, 'end_time')
    A.require(not A.is_none(end), 'end', 'no end time')
    ev = A.calls('reporter.report_span', m)
    sets = [e for e in A.ip.events[m:] if e.kind == 'set' and e.target is span and
            e.name == 'end_time']
    A.require(all(e.seq < ev[0].seq for e in sets) if ev else True, 'end',
              'the end time changes after the report', at)


def many(A):
    rep = reporter_stub(A)
    s, _, _ = sampler_stub(A, TRUE)
    tr = tracer(A, sampler=s, reporter=rep)
    a = nonzero(A, A.call(tr, 'start_span', 'a'))
    b = nonzero(A, A.call(tr, 'start_span', 'b', child_of=a))
    m = A.mark
    first, second = (a, b) if A.pick('order', ['parent first', 'child first']) == 'parent first' \
        else (b, a)
    A.call(first, 'finish')
    reported(A, first, m)
    m = A.mark
    A.call(second, 'finish')
    reported(A, second, m)
    m = A.mark
    c = A.call(tr, 'start_span', 'c', child_of=a)
    A.call(c, 'finish')
    reported(A, c, m)
    A.call(a, 'finish')
    A.require(len(A.calls('reporter.report_span', m)) == 1, 'once', 'a finished span is reported')


def late(A):
    """A span that becomes sampled after a finish that reported nothing is reported by the next one."""
    tr, span = make(A, 0)
    m = A.mark
    before = A.pick('finished before', [('yes', True), ('no', False)])
    if before:
        A.call(span, 'finish', 3.0)
        reported(A, span, m, 0)
    A.call(span, 'set_tag', 'sampling.priority', 1)
    m = A.mark
    A.call(span, 'finish', 5.0)
    reported(A, span, m)
    A.require_same(A.attr(span, 'end_time'), C(5.0), 'end', 'end time')
    A.call(span, 'finish', 6.0)
    reported(A, span, m)
    A.require_same(A.attr(span, 'end_time'), C(5.0), 'end-again', 'end time after a second finish')
