"""The parts of the client work without the helpers they can do without, and tell those they are given.

Reporter, remotely controlled sampler, throttler, tracer and logging reporter are made with each
combination of metrics factory, legacy metrics, error reporter and logger given, None, or left out, and go
through events that are counted, reported or logged.  Nothing escapes, what happens to the spans is the
same with and without helpers, and each helper that is given is told.
"""
import re

from .common import *
from .c26 import Remote
from .c29 import Rep
from .c34 import Thr, credits

PLACE = re.compile(r'%(\(\w+\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?[diouxXeEfFgGcrsa]')
LOGS = ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log')
METRICS = 'jaeger_client.metrics:Metrics'


def run(P):
    P.scenario('reporter', reporter, loop=40)
    P.scenario('sampler', sampler, loop=40)
    P.scenario('throttler', throttler, loop=40)
    P.scenario('tracer', tracers, loop=40)
    P.scenario('logging reporter', logging)
    P.scenario('without an event loop', silent)


def log(A):
    return A.stub('log', isEnabledFor=lambda ip, a, k: TRUE, **{n: lambda ip, a, k: NONE for n in LOGS})


class Helpers(object):
    """Some of the helpers of a part, and what they are told."""

    def __init__(self, A, can, none=True):
        self.A, self.kw = A, {}
        h = A.pick('helpers', ['left out'] + (['None'] if none else []) + ['all'] + list(can))
        self.given = set(can) if h == 'all' else {h} & set(can)
        if h == 'all' and 'metrics' in can:
            self.given.discard('metrics')       # the factory is the one that counts
        make = {'metrics_factory': lambda: metrics_factory(A), 'error_reporter': lambda: error_reporter_stub(A),
                'metrics': lambda: A.new(METRICS, count=A.fn('count'), gauge=A.fn('gauge')),
                'logger': lambda: log(A)}
        for n in can:
            if n in self.given:
                self.kw[n] = make[n]()
            elif h == 'None' and n != 'logger':
                self.kw[n] = NONE
        if h == 'all' and 'metrics' in can:
            self.kw['metrics'] = make['metrics']()
        self.since = A.mark

    def counted(self, name, tag, n, what):
        """The counter of this name was increased by n, as far as someone counts."""
        A = self.A
        if 'metrics_factory' in self.given:
            got = count_of(A, 'm.%s%s' % (name, ''.join('.' + v for _, v in tag)), self.since)
        elif 'metrics' in self.given:
            key = name + ''.join('.%s_%s' % kv for kv in tag)
            got = 0
            for e in A.calls('count', self.since):
                k = A.ip.norm(e.args[0])
                v = A.ip.norm(e.args[1])
                if not isinstance(k, C) or not isinstance(v, C):
                    return A.soft(None, 'count', 'counters')
                got += v.v if k.v == key else 0
        else:
            return
        A.require(None if got is None else got == n, 'count', '%s: %s %s counts %s, expected %d' % (
            what, name, dict(tag), got, n))

    def told(self, n, what):
        """The error reporter was told of n failures."""
        if 'error_reporter' in self.given:
            got = len(self.A.calls('errors.error', self.since))
            self.A.require(got == n, 'report', '%s: %d failures are reported, expected %d' % (what, got, n))

    def formed(self, what):
        """Each message goes with the arguments it has places for."""
        A = self.A
        for e in A.calls('errors.error', self.since) + A.calls(
                lambda x: x.split('.')[0] == 'log' and x.split('.')[-1] in LOGS[:-1], self.since) + [
                e for e in A.events('log', since=self.since) if not str(e.target).endswith('.log')]:
            if not e.args:
                continue
            m, n = A.ip.norm(e.args[0]), len(e.args) - 1
            if isinstance(m, C) and isinstance(m.v, str):
                if n == 1 and isinstance(e.args[1], DictV):
                    continue
                places = len(PLACE.findall(m.v.replace('%%', '')))
                A.require(places == n, 'message', '%s: the message %r goes with %d arguments' % (what, m.v, n))
            elif n:
                A.require(isinstance(m, T), 'message', '%s: %s is used as a message with %d arguments' % (
                    what, pretty(A, m), n))

    def logged(self, what):
        """What is logged goes to the logger that is given."""
        self.formed(what)
        if 'logger' in self.given:
            got = self.A.events('log', since=self.since)
            self.A.require(not got, 'logger', '%s: logs to %s instead of the logger it was given' % (
                what, got and pretty(self.A, got[0].target)))


def reporter(A):
    h = Helpers(A, ('metrics_factory', 'metrics', 'error_reporter', 'logger'))
    r = Rep(A, capacity=2, batch=1, only=h.kw)
    what = 'a reporter with %s' % sorted(h.kw)
    r.fail = [failure(A, A.pick('failure', ['OSError', 'ValueError'])), None, None, None]
    r.report(5)
    r.settle()
    f = A.call(r.r, 'close')
    r.settle()
    r.report()
    r.settle()
    sent = [n for b in r.sent if b for n in b]
    failed = sum(b is None for b in r.sent)
    dropped = 6 - len(sent) - failed
    A.require(isinstance(f, FutV) and f.state == 'done', 'closed', '%s: closing does not complete' % what)
    A.require(len(sent) >= 1 and len(sent) + failed + dropped == 6, 'sent', '%s: sent %s' % (what, sent))
    A.require(failed == 1, 'sent', '%s: %d sends fail' % (what, failed))
    for res, n in (('ok', len(sent)), ('err', failed), ('dropped', dropped)):
        h.counted('jaeger:reporter_spans', [('result', res)], n, what)
    h.told(failed, what)
    h.logged(what)


ANSWERS = [('failed', None), ('no JSON', '{'), ('unknown', '{"strategyType": "NONE"}'),
           ('good', '{"strategyType": "PROBABILISTIC", "probabilisticSampling": {"samplingRate": 1.0}}'),
           ('operations', '{"operationSampling": {"defaultSamplingProbability": 1.0, '
                          '"defaultLowerBoundTracesPerSecond": 1.0, "perOperationStrategies": []}}')]


def sampler(A):
    A.on('random.random', lambda ip, a, kw: C(0.5))
    h = Helpers(A, ('metrics_factory', 'metrics', 'error_reporter', 'logger'))
    r = Remote(A, only=h.kw)
    what = 'a sampler with %s' % sorted(h.kw)
    kind, body = A.pick('answer', [(k, (k, b)) for k, b in ANSWERS])
    d = A.call(r.s, 'is_sampled', 2 ** 64 - 1, 'op')
    A.require_same(d.items[0], FALSE, 'decision', '%s: the decision at first' % what)
    f = r.poll()
    if body is None:
        settle(A, f, exc=failure(A, 'OSError'))
        r.loop.run()
    else:
        r.answer(body, f)
    good = kind in ('good', 'operations')
    d = A.call(r.s, 'is_sampled', 2 ** 64 - 1, 'op')
    A.require_same(d.items[0], C(good), 'decision', '%s: the decision after the answer %s' % (what, kind))
    query = kind in ('failed', 'no JSON')
    for n, res, k in (('queries', 'ok', not query), ('queries', 'err', query), ('updates', 'ok', good),
                      ('updates', 'err', not query and not good)):
        h.counted('jaeger:sampler_' + n, [('result', res)], int(k), '%s, answer %s' % (what, kind))
    h.told(int(not good), what)
    r.again()
    A.call(r.s, 'close')
    h.logged(what)


def throttler(A):
    A.on('random.random', lambda ip, a, kw: C(0.5))
    h = Helpers(A, ('metrics_factory', 'error_reporter', 'logger'), none=False)
    r = Thr(A, only=h.kw)
    what = 'a throttler with %s' % sorted(h.kw)
    kind, body = A.pick('answer', [('failed', ('failed', None)), ('no JSON', ('no JSON', '{')),
                                   ('good', ('good', credits(op=1)))])
    A.require_same(r.allowed('op'), FALSE, 'decision', '%s: the decision at first' % what)
    r.start()
    f = r.made()[0]
    if body is None:
        settle(A, f, exc=failure(A, 'OSError'))
        r.loop.run()
    else:
        r.give(body, f)
    good = kind == 'good'
    A.require_same(r.allowed('op'), C(good), 'decision', '%s: the decision after the answer %s' % (what, kind))
    h.counted('jaeger:throttled_debug_spans', [], 2 - good, '%s, answer %s' % (what, kind))
    for res, k in (('ok', good), ('err', not good)):
        h.counted('jaeger:throttler_update', [('result', res)], int(k), '%s, answer %s' % (what, kind))
    h.told(int(not good), what)
    r.poll()
    A.call(r.t, 'close')
    h.logged(what)


def tracers(A):
    h = Helpers(A, ('metrics_factory', 'metrics'))
    s, _, _ = sampler_stub(A, TRUE, A.dict([('sampler.type', 'x')]))
    rep, drawn = reporter_stub(A), []
    A.ip.draw = lambda what, lo, hi: drawn.append(1) or (0.5 if what == 'random' else len(drawn))
    A.on('socket.gethostbyname', lambda ip, a, k: C('192.0.2.1'))
    A.on('socket.gethostname', lambda ip, a, k: C('host'))
    other = A.pick('others', ['left out', 'None'])
    kw = {} if other == 'left out' else {n: NONE for n in ('extra_codecs', 'tags', 'throttler', 'scope_manager')}
    kw.update(h.kw)
    tr = A.new('jaeger_client.tracer:Tracer', service_name='service', reporter=rep, sampler=s, **kw)
    what = 'a tracer with %s' % sorted(h.kw)
    h.since = A.mark
    scope = A.call(tr, 'start_active_span', 'op')
    span = A.attr(scope, 'span')
    A.require(A.attr(tr, 'active_span') is span, 'active', '%s: the span is not active' % what)
    child = A.call(tr, 'start_span', 'child')
    A.require_same(A.attr(child, 'trace_id'), A.attr(span, 'trace_id'), 'parent', '%s: the trace' % what)
    A.call(child, 'set_tag', 'sampling.priority', 1)
    A.require(A.truth(A.call(child, 'is_debug')), 'debug', '%s: a debug span is refused without a throttler' % what)
    A.call(child, 'finish')
    A.call(scope, 'close')
    A.require(len(A.calls('reporter.report_span', h.since)) == 2, 'reported', '%s: not both spans are reported' % what)
    h.counted('jaeger:traces', [('sampled', 'y'), ('state', 'started')], 1, what)
    h.counted('jaeger:started_spans', [('sampled', 'y')], 2, what)
    h.counted('jaeger:finished_spans', [], 2, what)
    A.call(tr, 'close')
    A.require(len(A.calls('reporter.close', h.since)) == 1, 'closed', '%s: the reporter is not closed' % what)


def logging(A):
    """Each span is logged once, to the logger that is given."""
    how = A.pick('logger', ['left out', 'None', 'given'])
    r = A.new('jaeger_client.reporter:LoggingReporter', *{'left out': (), 'None': (NONE,), 'given': (log(A),)}[how])
    spans = [A.obj('s%d' % i) for i in range(2)]
    for s in spans:
        n = A.mark
        A.call(r, 'report_span', s)
        own = A.calls(lambda x: x.split('.')[-1] in LOGS, n)
        got = own + A.events('log', since=n)
        if A.require(len(got) == 1, 'logged', 'logger %s: a span is logged %d times' % (how, len(got))):
            A.require((how == 'given') == bool(own), 'logger', 'logger %s: logs to another' % how)
            A.require(any(x is s for x in got[0].args), 'span', 'logger %s: the span is not part of what is logged' % how)


def silent(A):
    """A part that cannot poll says so."""
    which = A.pick('part', ['RemoteControlledSampler', 'RemoteThrottler'])
    h = Helpers(A, ('logger', 'error_reporter'), none=False)
    ch = A.stub('channel', io_loop=NONE)
    mod = 'sampler' if 'Sampler' in which else 'throttler'
    x = A.new('jaeger_client.%s:%s' % (mod, which), ch, 'service', **h.kw)
    if 'logger' in h.given:
        got = A.calls(lambda n: n in ('log.error', 'log.warning', 'log.critical', 'log.exception'), h.since)
        A.require(len(got) == 1, 'said', '%s: having no event loop is logged %d times' % (which, len(got)))
    h.logged(which)
    if mod == 'sampler':
        A.require_same(A.call(x, 'is_sampled', 0, 'op').items[0], TRUE, 'decision', 'the decision')
    else:
        A.require_same(A.call(x, 'is_allowed', 'op'), FALSE, 'decision', 'the decision')
    A.call(x, 'close')
