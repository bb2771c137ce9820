"""A composite reporter gives every reporter every span, and closes when all of them have closed.

Each reporter gets each span and the process description once and in order.  The future of closing is
settled exactly once, when the last of the reporters has closed, in whatever order and on whatever
threads they do so, whether they close at once, later, or fail.
"""
from .common import *

COMPOSITE = 'jaeger_client.reporter:CompositeReporter'


def run(P):
    P.scenario('delegates', delegates)
    P.scenario('closes', closes)
    P.scenario('threads', threads)
    P.scenario('of real reporters', real, loop=20)
    P.scenario('nested', nested)


def parts(A, n):
    fs = [FutV('part %d' % i) for i in range(n)]

    def stub(i):
        return A.stub('part%d' % i, report_span=lambda ip, a, kw: NONE,
                      set_process=lambda ip, a, kw: NONE, close=lambda ip, a, kw: fs[i])
    return [stub(i) for i in range(n)], fs


def delegates(A):
    n = A.pick('reporters', [1, 2, 3])
    ps, _ = parts(A, n)
    r = A.new(COMPOSITE, *ps)
    spans = [A.stub('span a'), A.stub('span b')]
    tags = A.dict([('k', 'v')])
    before = Frozen(A, tags)
    A.call(r, 'set_process', 'svc', tags, 77)
    for s in spans:
        A.call(r, 'report_span', s)
    for i in range(n):
        es = A.calls('part%d.report_span' % i)
        got = [argsof(e, ['span'])[0] for e in es]
        A.require(len(got) == 2 and got[0] is spans[0] and got[1] is spans[1], 'spans',
                  'reporter %d of %d gets %s' % (i + 1, n, got))
        es = A.calls('part%d.set_process' % i)
        A.require(len(es) == 1, 'process', 'reporter %d of %d is told the process %d times' % (
            i + 1, n, len(es)))
        for e in es:
            a = argsof(e, ['service_name', 'tags', 'max_length'])
            A.require(A.same(a[0], C('svc')) and (a[1] is tags or A.same(a[1], tags))
                      and A.same(a[2], C(77)), 'process', 'reporter %d is told %s' % (i + 1, a))
    before.unchanged('tags', 'the tags')


def finish(A, f, how):
    if how == 'fails':
        settle(A, f, exc=failure(A))
    else:
        settle(A, f, TRUE)


def closes(A):
    """Every order in which two or three reporters close, before or after close() returns."""
    n = A.pick('reporters', [0, 1, 2, 3])
    ps, fs = parts(A, n)
    at_once = [A.pick('reporter %d closes' % (i + 1), [('at once', 1), ('later', 0)])
               for i in range(n)]
    how = A.pick('outcome', ['closed', 'fails'])
    for i in range(n):
        if at_once[i]:
            finish(A, fs[i], how if i == 0 else 'closed')
    r = A.new(COMPOSITE, *ps)
    loop = Loop(A)
    f = A.call(r, 'close')
    for i in range(n):
        k = len(A.calls('part%d.close' % i))
        A.require(k == 1, 'close', 'reporter %d of %d is closed %d times' % (i + 1, n, k))
    left = [i for i in range(n) if not at_once[i]]
    while left:
        loop.run()
        A.require(f.state == 'pending', 'early', 'settled with %d reporters open' % len(left))
        i = left.pop(A.pick('next', list(range(len(left)))))
        finish(A, fs[i], how if i == 0 else 'closed')
    loop.run()
    if how == 'closed':
        A.require(f.state == 'done', 'hangs', 'all have closed, the future is %s' % f.state)
    else:
        A.require(f.state != 'pending', 'hangs', 'all have ended, the future is %s' % f.state)
    A.require(f.sets <= 1, 'once', 'settled %d times' % f.sets)


def threads(A):
    """Two reporters close on two threads."""
    from .c28 import reach
    ps, fs = parts(A, 2)
    r = A.new(COMPOSITE, *ps)
    loop = Loop(A)
    f = A.call(r, 'close')
    cells = []
    for x in fs:
        for cb in x.callbacks:
            cells += cell_objects(cb)
    at = A.race(lambda: finish(A, fs[0], 'closed'), lambda: finish(A, fs[1], 'closed'), *cells)
    loop.run()
    A.require(f.state == 'done' and f.sets == 1, 'threads', 'closing on two threads: the future is '
              '%s, settled %d times' % (f.state, f.sets), at)


def cell_objects(cb):
    """The variables a callback closes over."""
    while isinstance(cb, Bound):
        cb = cb.fn
    out = []
    s = cb.scope if isinstance(cb, Func) else None
    while s is not None:
        if s.func is not None:
            out.append(s)
        s = s.parent
    return out


def real(A):
    """With a reporter that sends to the agent and one that keeps the spans."""
    from .c29 import Rep, span
    r = Rep(A, capacity=4, batch=2)
    m = A.new('jaeger_client.reporter:InMemoryReporter')
    c = A.new(COMPOSITE, *([r.r, m] if A.pick('order', ['a', 'b']) == 'a' else [m, r.r]))
    k = A.pick('spans', [0, 1, 3])
    for i in range(k):
        s = span(A, 's%d' % (i + 1))
        r.n += 1
        A.call(c, 'report_span', s)
    if A.pick('loop', ['ran', 'new']) == 'ran':
        r.loop.run()
    f = A.call(c, 'close')
    A.require(f.state == 'pending', 'early', 'closing ends before the loop runs')
    r.loop.run()
    A.require(f.state == 'done', 'hangs', 'the future is %s' % f.state)
    A.require(r.counts() == [k, 0, 0], 'sent', 'of %d spans %s are sent' % (k, r.counts()))
    A.require(len(A.call(m, 'get_spans').items) == k, 'kept', 'spans are not kept')


def nested(A):
    ps, fs = parts(A, 3)
    c = A.new(COMPOSITE, A.new(COMPOSITE, ps[0], ps[1]), ps[2])
    loop = Loop(A)
    s = A.stub('span')
    A.call(c, 'report_span', s)
    for i in range(3):
        A.require(len(A.calls('part%d.report_span' % i)) == 1, 'spans', 'reporter %d' % i)
    f = A.call(c, 'close')
    order = A.pick('order', [('012', (0, 1, 2)), ('210', (2, 1, 0)), ('021', (0, 2, 1))])
    for i in order:
        loop.run()
        A.require(f.state == 'pending', 'early', 'settled too early')
        finish(A, fs[i], 'closed')
    loop.run()
    A.require(f.state == 'done' and f.sets == 1, 'hangs', 'the future is %s' % f.state)
