"""The error reporter logs at most one error per interval.

The times of the errors are arbitrary numbers (the clock can also be set back): an error is logged
exactly when more than the interval has passed since the construction or the last logged one (at
exactly the interval either is right).  Its message and arguments are passed on unchanged.  The same is
followed through the client, whose polls and sends fail again and again.
"""
from .client import *
from .c18 import binop

ER = 'jaeger_client.utils:ErrorReporter'


def run(P):
    P.scenario('one error', one)
    P.scenario('a second error', second)
    P.scenario('histories', histories)
    P.scenario('errors all the time', continuous, loop=200)
    P.scenario('no logger', silent)
    P.scenario('the client', client, loop=40)
    P.scenario('the client without logging', no_logging, loop=40)


def plus(A, a, b):
    return binop(A.ip, 'Add', lift(a), lift(b))


def clock(A, start):
    c = [start]
    A.on('time.time', lambda ip, a, kw: lift(c[0]))
    A.on('time.monotonic', lambda ip, a, kw: lift(c[0]))
    return c


def setup(A, minutes, t0, **kw):
    c = clock(A, t0)
    log = A.stub('log', **{m: lambda ip, a, kw: NONE for m in ('error', 'warning', 'info', 'debug',
                                                            'exception', 'critical', 'log')})
    e = A.new(ER, A.sym('metrics'), log, *([] if minutes is None else [minutes]))
    return e, c


def logged(A, since=0):
    return [e for e in A.events('call', since=since) if str(e.name).startswith('log.')]


def report(A, e, *args):
    """The log calls one error makes."""
    m = A.mark
    r, exc = A.catch(A.call, e, 'error', *args)
    A.require(exc is None, 'raises', 'reporting an error raises %s' % (exc and exc.cls.name),
              exc and exc.attrs.get('__loc__'))
    return logged(A, m)


def decided(A, got, want, args, what):
    A.require(len(got) == (1 if want else 0), 'missing' if want else 'too-often',
              '%s: the error is logged %d times, expected %d' % (what, len(got), want))
    if got and want:
        e = got[0]
        A.require(e.name == 'log.error', 'level', '%s: logged with %s' % (what, e.name))
        A.require(len(e.args) == len(args) and all(A.same(x, y) for x, y in zip(e.args, args))
                  and not e.kwargs, 'arguments', '%s: the log gets %s, not the message and arguments '
                  'given' % (what, ', '.join(pretty(A, x) for x in e.args)))


def interval(A):
    return A.pick('interval', [('unknown', A.sym('minutes', 'int', 0, 10 ** 6)),
                               ('a fraction', A.sym('minutes', 'float', 0, 10 ** 6)),
                               ('default', NONE)])


def seconds(A, m):
    return C(900) if m is NONE else binop(A.ip, 'Mult', m, C(60))


def message(A):
    n = A.pick('arguments', [0, 1, 3])
    return [A.str('message')] + [A.sym('arg%d' % i) for i in range(n)]


def one(A):
    m = interval(A)
    t0 = A.sym('t0', 'float', 1, 2 ** 33)
    e, c = setup(A, None if m is NONE else m, t0)
    c[0] = A.sym('t1', 'float', 1, 2 ** 33)
    due = plus(A, t0, seconds(A, m))
    A.assume(A.cmp(c[0], '!=', due))
    args = message(A)
    want = A.cmp(c[0], '>', due)
    decided(A, report(A, e, *args), want, args, 'an error %s the interval' % (
        'after' if want else 'within'))


def second(A):
    """After a logged error the interval starts again; after one that is not logged it goes on."""
    m = A.sym('minutes', 'int', 0, 10 ** 6)
    t = [A.sym('t%d' % i, 'float', 1, 2 ** 33) for i in range(3)]
    e, c = setup(A, m, t[0])
    last = t[0]
    for i in (1, 2):
        c[0] = t[i]
        due = plus(A, last, seconds(A, m))
        A.assume(A.cmp(c[0], '!=', due))
        want = A.cmp(c[0], '>', due)
        args = [A.str('message%d' % i), A.sym('arg%d' % i)]
        decided(A, report(A, e, *args), want, args, 'error %d' % i)
        if want:
            last = t[i]


def histories(A):
    """Every sequence of four delays."""
    e, c = setup(A, 10, 1000.0)
    last = 1000.0
    for i in range(4):
        c[0] += A.pick('delay%d' % i, [1.0, 599.0, 601.0, -700.0])
        want = c[0] > last + 600
        decided(A, report(A, e, 'failed %s', i), want, [C('failed %s'), C(i)],
                'error %d at %s, last logged %s' % (i, c[0], last))
        if want:
            last = c[0]


def continuous(A):
    gap = A.pick('seconds', [7.0, 59.0, 61.0, 1000.0])
    e, c = setup(A, 1, 1000.0)
    last = 1000.0
    for i in range(12):
        c[0] += gap
        want = c[0] > last + 60
        decided(A, report(A, e, 'x'), want, [C('x')], 'an error every %s s' % gap)
        if want:
            last = c[0]


def silent(A):
    c = clock(A, A.sym('t0', 'float', 1, 2 ** 33))
    how = A.pick('logger', ['absent', 'None'])
    m = A.mark
    e = A.new(ER, A.sym('metrics'), *([NONE] if how == 'None' else []))
    for i in range(2):
        c[0] = A.sym('t%d' % (i + 1), 'float', 1, 2 ** 33)
        r, exc = A.catch(A.call, e, 'error', *message(A))
        A.require(exc is None, 'raises', 'reporting an error without a logger raises %s'
                  % (exc and exc.cls.name))
    A.require(not A.events('log', since=m), 'logs', 'an error is logged without a logger')


def failing(A, logging):
    """A client of the configuration, every poll of which fails; the number of errors it logs."""
    k = Client(A, {'logging': logging, 'local_agent': {'enabled': True},
                   'throttler': {'port': 5778} if A.pick('throttler', [True, False]) else NONE})
    lines = []
    A.ip.on_log = lambda meth, a: lines.append(meth) if meth == 'error' else None
    k.tracer()
    k.first_polls()
    k.answer('{', 0)
    return k, lines


def again(A, k):
    """Polls again and fails."""
    n = len(k.answers)
    for cb, _ in k.periodics:
        A.apply(cb)
        k.loop.run()
    for i in range(n, len(k.answers)):
        if A.pick('answer%d' % i, ['fails', 'garbage']) == 'fails':
            settle(A, k.answers[i], exc=failure(A))
            k.loop.run()
        else:
            k.answer(C(b'['), i)


def client(A):
    k, lines = failing(A, A.pick('logging', [True]))
    A.require(not lines, 'start', 'an error is logged within the first 15 minutes')
    k.now += 901.0
    again(A, k)
    A.require(len(lines) == 1, 'after', 'errors after 15 minutes are logged %d times' % len(lines))
    k.now += 100.0
    again(A, k)
    A.require(len(lines) == 1, 'again', 'errors 100 s after a logged one are logged')
    k.now += 801.0
    again(A, k)
    A.require(len(lines) == 2, 'later', 'errors 15 minutes after a logged one are logged %d times'
              % (len(lines) - 1))


def no_logging(A):
    k, lines = failing(A, False)
    k.now += 10000.0
    again(A, k)
    A.require(not lines, 'disabled', 'an error is logged although logging is switched off')
