"""A batch that cannot be sent affects no other batch.

With the agent transport of the repository and a failure at any step of building, writing or sending a
batch, each datagram is exactly one complete message with the spans of one batch and the description of
the process: nothing written for a failed batch is sent later, and the batches after it are sent.
"""
from .common import *
from .c20 import OPS
from .c29 import Rep, span, tracer_of

SENDER = 'jaeger_client.local_agent_net:LocalAgentSender'


def run(P):
    P.scenario('failing write', failing_write, loop=40)
    P.scenario('failing datagram', failing_send, loop=40)
    P.scenario('span that cannot be written', failing_span, loop=40)
    P.scenario('two failures', two_failures, loop=40)
    P.scenario('one message each', one_each, loop=40)
    P.scenario('process', process, loop=40)


class Wire(Rep):
    """A reporter with the repository's own transport; what reaches the socket is in `packets`."""

    def __init__(self, A, **kw):
        self.packets, self.failsend, self.failop, self.ops = [], [], None, 0
        A.on('socket.getaddrinfo', lambda ip, a, k: ListV([]))
        A.on('socket.socket', lambda ip, a, k: A.stub(
            'udp', sendto=self._sendto, setblocking=lambda ip, a, k: NONE))
        for n in ('TCompactProtocol', 'TCompactProtocolAccelerated'):
            A.on('thrift.protocol.TCompactProtocol.' + n, lambda ip, a, k: self._protocol(a[0]))
        Rep.__init__(self, A, channel=lambda loop: A.new(SENDER, 'agent', 1, 2, loop.obj), **kw)

    def _sendto(self, ip, a, kw):
        exc = self.failsend.pop(0) if self.failsend else None
        if exc is not None:
            raise PyExc(exc, ip.where())
        self.packets.append(a[0])
        return C(1)

    def _protocol(self, trans):
        """Writes '(' for a message, ')' at its end, and the strings of the message as '<s>'."""
        A = self.A
        begun = [False]

        def write(mark):
            def op(ip, a, kw):
                self.ops += 1
                m = mark(a)
                if m == b'(':
                    if begun[0]:        # as the compact protocol does
                        raise PyExc(failure(A, 'AssertionError'), ip.where())
                    begun[0] = True
                if self.failop == self.ops:
                    raise PyExc(failure(A, self.failure), ip.where())
                if m == b')':
                    begun[0] = False
                A.call(trans, 'write', C(m))
                return NONE
            return op
        text = lambda a: b'<' + (a[0].v if isinstance(a[0], C) and isinstance(a[0].v, str)
                                 else '?').encode() + b'>'
        ops = {o: write(lambda a: b'.') for o in OPS}
        ops['writeMessageBegin'] = write(lambda a: b'(')
        ops['writeMessageEnd'] = write(lambda a: b')')
        ops['writeString'] = write(text)
        return A.stub('protocol', trans=trans, **ops)

    failure = 'ValueError'

    def messages(self, what, process='service'):
        """Each datagram is one whole message; the span names of each."""
        A, out = self.A, []
        for b in self.packets:
            b = A.ip.norm(b) if isinstance(b, (C, T)) else b
            if not A.require(isinstance(b, C) and isinstance(b.v, bytes), 'datagram',
                             '%s: sends %s' % (what, pretty(A, b))):
                raise Stop()
            t = b.v.decode()
            A.require(t.count('(') == 1 and t.startswith('(') and t.count(')') == 1
                      and t.endswith(')'), 'whole', '%s: a datagram of %d messages begun and %d '
                      'ended, %s' % (what, t.count('('), t.count(')'),
                                     'and more' if not t.endswith(')') else ''))
            A.require('<%s>' % process in t, 'process', '%s: the message does not describe the '
                      'process' % what)
            out.append([x.split('>')[0] for x in t.split('<')[1:] if x[0] == 's' and
                        x[1:].split('>')[0].isdigit()])
        return out


def names(*ns):
    return ['s%d' % n for n in ns]


def length(A):
    """How many writes a batch of two takes."""
    w = Wire(A, capacity=6, batch=2)
    w.report(2)
    w.loop.run()
    A.ip.sched.kill()
    return w.ops


def failing_write(A):
    """The batch fails at any of the writes its message consists of."""
    n = length(A)
    A.require(n > 10, 'writes', 'a batch is written in %d steps' % n)
    w = Wire(A, capacity=6, batch=2)
    w.failop = A.pick('failing write', list(range(1, n + 1)))
    w.failure = ['ValueError', 'OSError'][w.failop % 2]
    w.report(4)
    w.settle()
    got = w.messages('after a failed write')
    A.require(got == [names(3, 4)], 'others', 'after a failed write the datagrams hold %s' % got)
    w.report(1)
    w.settle()
    got = w.messages('later')
    A.require(got == [names(3, 4), names(5)], 'others', 'later the datagrams hold %s' % got)
    A.require(w.counts() == [3, 2, 0], 'count', 'counted as %s' % w.counts())


def failing_send(A):
    w = Wire(A, capacity=6, batch=2)
    bad = []
    for i in range(3):
        f = A.pick('datagram %d' % i, [('ok', 0), ('too long', 'OSError'), ('other', 'ValueError'),
                                        ('would block', 'BlockingIOError')])
        w.failsend.append(failure(A, f) if f else None)
        bad.append(bool(f))
    w.report(6)
    w.settle()
    want = [names(2 * i + 1, 2 * i + 2) for i in range(3) if not bad[i]]
    got = w.messages('with failing datagrams')
    A.require(got == want, 'others', 'the datagrams hold %s, expected %s' % (got, want))
    A.require(w.counts() == [6 - 2 * sum(bad), 2 * sum(bad), 0], 'count',
              'counted as %s' % w.counts())


def failing_span(A):
    """Converting a span of the batch raises."""
    w = Wire(A, capacity=6, batch=2)
    w.report(1)
    bad = span(A, 's2')
    at = A.pick('attribute', ['operation_name', 'start_time', 'end_time'])
    A.ip.setattr(bad, at, A.stub('broken'))
    w.n += 1
    A.call(w.r, 'report_span', bad)
    w.report(2)
    w.settle()
    got = w.messages('after a span that cannot be written')
    A.require(names(3, 4) in got, 'others', 'the datagrams hold %s' % got)
    A.require(sum(w.counts()) == 4, 'count', 'counted as %s' % w.counts())


def two_failures(A):
    n = length(A)
    w = Wire(A, capacity=8, batch=2)
    w.failop = A.pick('failing write', [2, n // 2, n - 1, n])
    w.failsend = [failure(A)]
    w.report(6)
    w.settle()
    got = w.messages('after two failures')
    A.require(got == [names(5, 6)], 'others', 'the datagrams hold %s' % got)
    A.require(w.counts() == [2, 4, 0], 'count', 'counted as %s' % w.counts())


def one_each(A):
    size = A.pick('batch', [1, 2, 3])
    w = Wire(A, capacity=6, batch=size)
    k = A.pick('spans', [1, 3, 5])
    w.report(k)
    w.settle()
    got = w.messages('sending')
    want = [names(*range(i, min(i + size, k + 1))) for i in range(1, k + 1, size)]
    A.require(got == want, 'others', 'the datagrams hold %s, expected %s' % (got, want))
    es = A.calls('udp.sendto')
    A.require(all(len(e.args) == 2 and isinstance(e.args[1], Tup) and
                  A.same(e.args[1].items[0], C('agent')) and A.same(e.args[1].items[1], C(2))
                  for e in es), 'address', 'datagrams go to %s' % [e.args[1:] for e in es])


def process(A):
    """A new description of the process is used from the next batch on."""
    w = Wire(A, capacity=6, batch=1)
    w.report(1)
    w.loop.run()
    A.call(w.r, 'set_process', 'renamed', A.dict([('tag', 'value')]), 100)
    w.report(1)
    w.loop.run()
    t = [A.ip.norm(p).v for p in w.packets]
    A.require(len(t) == 2 and b'<renamed>' not in t[0] and b'<renamed>' in t[1] and
              b'<service>' not in t[1] and b'<tag>' in t[1] and b'<value>' in t[1], 'process',
              'the datagrams hold %s' % t)
