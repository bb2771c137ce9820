"""Requests and datagrams go to the configured agent.

The transport is made for any host and ports, with name resolution giving nothing, addresses of any
family, or failing in any way it can: the socket is a datagram socket of the resolved family that never
blocks, each flush sends what was written, once, to the reporting port, and each poll asks the right port
and path, with the service, the client and each operation encoded in the query, for no longer than the caller allows.
"""
import re

from .client import *
from .c33 import SENDER
from sa import m_ext as mx
from .c18 import binop

UDP = 'jaeger_client.TUDPTransport:TUDPTransport'


def run(P):
    P.scenario('socket', socket)
    P.scenario('datagrams', datagrams)
    P.scenario('long datagrams', long_ones)
    P.scenario('sampling polls', sampling)
    P.scenario('throttling polls', throttling)
    P.scenario('IPv6 addresses', ipv6)
    P.scenario('three ports', ports)
    P.scenario('time limits', limits)
    P.scenario('resolution fails for the client', resolution, loop=40)
    P.scenario('names in the client', names, loop=40)
    P.scenario('closing', closing)


STREAM, DGRAM = C(1), C(2)


class Net(object):
    """The socket module: sockets (family, type, proto, blocking, datagrams) and what is resolved."""

    def __init__(self, A):
        self.A, self.sockets, self.asked = A, [], []
        self.result = A.pick('resolved', ['nothing', 'one', 'two', 'error', 'unknown name',
                                          'no host name', 'bad name'])
        n = {'one': 1, 'two': 2}.get(self.result, 0)
        self.entries = [(A.sym('family%d' % i, 'int', 1, 40), t, A.sym('proto%d' % i, 'int', 0, 255))
                        for i in range(n) for t in (STREAM, DGRAM)]
        A.on('socket.getaddrinfo', self._resolve)
        A.on('socket.socket', self._socket)
        A.on('socket.gethostbyname', self._byname)

    def _fails(self, ip):
        e = {'error': 'OSError', 'unknown name': 'socket.gaierror', 'no host name': 'socket.gaierror',
             'bad name': 'UnicodeError'}.get(self.result)
        if e:
            raise ip.exc(e, 'resolution')

    def _byname(self, ip, a, kw):
        return C('192.0.2.1')

    def _resolve(self, ip, a, kw):
        host, port, fam, typ, proto, flags = argsof_(
            a, kw, ('host', 'port', 'family', 'type', 'proto', 'flags'))
        self.asked.append((host, port))
        self._fails(ip)
        zero = typ is NONE or self.A.same(typ, C(0))
        return ListV([Tup([f, t, p, C(''), Tup([C('::1'), port])]) for f, t, p in self.entries
                      if zero or self.A.eq(typ, t)])

    def _socket(self, ip, a, kw):
        s = dict(zip(('family', 'type', 'proto'), argsof_(a, kw, ('family', 'type', 'proto'))),
                 blocking=True, sent=[], closed=0)
        self.sockets.append(s)

        def blocking(ip, a, kw):
            s['blocking'] = self.A.truth(argsof_(a, kw, ('flag',))[0])
            return NONE

        def timeout(ip, a, kw):
            t = argsof_(a, kw, ('value',))[0]
            s['blocking'] = t is NONE or not self.A.eq(t, 0)
            return NONE

        def sendto(ip, a, kw):
            a = list(a)
            s['sent'].append((a[0], a[-1]))
            return mt.seq_len(a[0])

        def close(ip, a, kw):
            s['closed'] += 1
            return NONE
        return self.A.stub('socket', setblocking=blocking, settimeout=timeout, sendto=sendto, close=close)

    def usable(self, what):
        """The one socket there is sends datagrams to the resolved address and does not block."""
        A = self.A
        if not A.require(len(self.sockets) == 1, 'socket', '%s: %d sockets are opened' % (
                what, len(self.sockets))):
            raise Stop()
        s = self.sockets[0]
        A.require(s['blocking'] is False, 'blocks', '%s: the socket blocks' % what)
        A.require(A.eq(s['type'], DGRAM), 'type', '%s: the socket is of type %s' % (
            what, pretty(A, s['type'])))
        fits = [e for e in self.entries if e[1] is DGRAM]
        if fits:
            A.require(any(A.same(s['family'], f) and (A.same(s['proto'], p) or A.same(s['proto'], C(0)))
                          for f, t, p in fits), 'family', '%s: the socket is made with family %s and '
                      'protocol %s, not those of a resolved address' % (
                          what, pretty(A, s['family']), pretty(A, s['proto'])))
        else:
            A.require(A.eq(s['family'], 2), 'family', '%s: the family is %s' % (
                what, pretty(A, s['family'])))
            A.require(A.eq(s['proto'], 17) or A.eq(s['proto'], 0), 'protocol',
                      '%s: the protocol is %s' % (what, pretty(A, s['proto'])))
        return s


def start(A, cls, *a, **kw):
    o, exc = A.catch(A.new, cls, *a, **kw)
    if not A.require(exc is None, 'start-up', 'the transport cannot be made: %s' % (
            exc and exc.cls.name), exc and exc.attrs.get('__loc__')):
        raise Stop()
    return o


def host_port(A, p='port'):
    return A.str('host', minlen=1), A.int(p, 1, 65535)


def socket(A):
    n = Net(A)
    h, p = host_port(A)
    u = start(A, UDP, h, p)
    s = n.usable('the datagram transport')
    A.require(A.truth(A.call(u, 'isOpen')), 'open', 'the transport is not open')
    data = A.sym('data', 'bytes')
    for i in range(2):
        A.call(u, 'write', data)
    A.require(len(s['sent']) == 2, 'sent', '%d datagrams are sent for 2 writes' % len(s['sent']))
    for d, to in s['sent']:
        A.require_same(d, data, 'data', 'the datagram')
        A.require_same(to, Tup([h, p]), 'address', 'the datagram goes to')


def sender(A, h='agent', sp=1, rp=2, **kw):
    return start(A, SENDER, h, sp, rp, Loop(A).obj, **kw)


def datagrams(A):
    """Each flush sends what was written since the last one, in one datagram."""
    n = Net(A)
    h, rp = host_port(A)
    t = sender(A, h, A.int('sampling_port', 1, 65535), rp)
    s = n.usable('the agent transport')
    want = []
    for i in range(2):
        parts = [A.sym('data%d%d' % (i, j), 'bytes') for j in range(A.pick('writes%d' % i, [1, 2, 3]))]
        for x in parts:
            A.call(t, 'write', x)
        A.require(len(s['sent']) == i, 'early', 'something is sent before the flush')
        A.call(t, 'flush')
        x = C(b'')
        for p in parts:
            x = binop(A.ip, 'Add', x, p)
        want.append(x)
        if not A.require(len(s['sent']) == i + 1, 'sent', 'flush %d: %d datagrams in all' % (
                i + 1, len(s['sent']))):
            return
        A.require_same(s['sent'][i][0], want[i], 'data', 'flush %d: the datagram' % (i + 1))
        A.require_same(s['sent'][i][1], Tup([h, rp]), 'address', 'flush %d: it goes to' % (i + 1))


def long_ones(A):
    """Whatever its length, what was written is one datagram: the network decides whether it is too long."""
    n = Net(A)
    k = A.pick('length', [1, 65000, 65507, 65508, 70000, 140000])
    data = C(b'x' * k)
    if A.pick('sent by', ['transport', 'sender']) == 'transport':
        u = start(A, UDP, 'h', 1)
        A.call(u, 'write', data)
    else:
        t = sender(A, 'h', 2, 1)
        A.call(t, 'write', data)
        A.call(t, 'flush')
    s = n.usable('the transport')
    if A.require(len(s['sent']) == 1, 'sent', '%d datagrams are sent for one of %d bytes' % (len(s['sent']), k)):
        A.require(A.same(s['sent'][0][0], data), 'data', 'the datagram of %d bytes is changed' % k)


def http(A, timeouts=None):
    """The urls that are fetched."""
    urls = []

    def fetched(url):
        urls.append(url)
        return FutV('response')
    fetching(A, fetched, timeouts)
    A.on('socket.getaddrinfo', lambda ip, a, k: ListV([]))
    A.on('socket.socket', lambda ip, a, k: A.stub('socket', setblocking=lambda ip, a, k: NONE))
    return urls


def quoted(A, v):
    return mx.x_quote_plus(A.ip, [lift(v)], {})


def pieces(A, url):
    """The url up to the '?', and the settings of the query (their order has no meaning)."""
    url = A.ip.norm(url) if isinstance(url, (C, T)) else url
    if not isinstance(url, (C, T)):
        return url, []
    out = [[]]
    for p in terms.s_parts(url):
        for i, c in enumerate(re.split('([?&])', p.v) if isinstance(p, C) else [p]):
            if c in ('?', '&') and (c == '&' if len(out) > 1 else c == '?'):
                out.append([])
            elif c != '':
                out[-1].append(lift(c))
    out = [terms.s_cat(x) for x in out]
    return out[0], out[1:]


def asks(A, urls, want, what):
    if A.require(len(urls) == 1, 'once', '%s: %d requests are made' % (what, len(urls))):
        got, gq = pieces(A, urls[0])
        want, wq = pieces(A, want)
        left = list(gq)
        for w in wq:
            hit = [g for g in left if A.same(g, w)]
            if hit:
                left.remove(hit[0])
        A.require(A.same(got, want) and len(gq) == len(wq) and not left, 'url',
                  '%s: the url is %s, expected %s?%s' % (what, pretty(A, urls[0]), pretty(A, want),
                                                         '&'.join(pretty(A, w) for w in wq)))


NAMES = ['s', 'a b&c=d', 'ü/?#%', 'x+y', '1;2']


def name(A, what):
    i = A.pick(what, ['any'] + NAMES)
    return A.str(what, minlen=1) if i == 'any' else i


def text(A, v):
    return m_str.to_str(A.ip, lift(v))


def sampling(A):
    urls = http(A)
    h = A.pick('host', [('any', host_port(A)[0]), ('name', C('agent.example')),
                        ('address', C('192.0.2.7'))])
    if isinstance(h, T):        # an IPv6 address is written in brackets
        A.assume(not A.truth(ms.contains(A.ip, h, C(':'))))
    p = A.pick('port', [('number', A.int('port', 1, 65535)), ('text', C('5778'))])
    t = sender(A, h, p, A.int('reporting_port', 1, 65535))
    sv = name(A, 'service')
    r = A.call(t, 'request_sampling_strategy', sv)
    A.require(isinstance(r, FutV), 'future', 'the request gives %s' % pretty(A, r))
    asks(A, urls, cat('http://', h, ':', '5778' if isinstance(p, C) else text(A, p),
                      '/sampling?service=', quoted(A, sv)), 'a sampling poll')


def throttling(A):
    urls = http(A)
    p = A.int('port', 1, 65535)
    t = sender(A, 'agent', A.int('other', 1, 65535), 6831, throttling_port=p)
    sv, ident = name(A, 'service'), A.pick('client', [('any', A.int('client', 0, 2 ** 63 - 1)), ('7', C(7))])
    ops = [A.str('op%d' % i) for i in range(A.pick('operations', [0, 1, 2, 3]))]
    if A.pick('given', ['names', 'others']) == 'others':
        ops = NAMES[:len(ops)] if len(ops) != 2 else ['same', 'same']
    r = A.call(t, 'request_throttling_credits', sv, ident, A.list(ops))
    A.require(isinstance(r, FutV), 'future', 'the request gives %s' % pretty(A, r))
    want = cat('http://agent:', text(A, p), '/credits?service=', quoted(A, sv), '&uuid=', text(A, ident),
               *[x for o in ops for x in ('&operations=', quoted(A, o))])
    asks(A, urls, want, 'a throttling poll')


def ipv6(A):
    """An IPv6 address is in brackets in a url, and only there."""
    n = Net(A)
    urls = http(A)
    A.on('socket.getaddrinfo', n._resolve)
    A.on('socket.socket', n._socket)
    h = A.pick('address', ['::1', '2001:db8::7', 'fe80::1', '[::1]'])
    u = '[%s]' % h.strip('[]')
    t = sender(A, h, 10, 20, throttling_port=30)
    A.call(t, 'request_sampling_strategy', 's')
    asks(A, urls, C('http://%s:10/sampling?service=s' % u), 'a sampling poll')
    del urls[:]
    A.call(t, 'request_throttling_credits', 's', 1, A.list(['o']))
    asks(A, urls, C('http://%s:30/credits?service=s&uuid=1&operations=o' % u), 'a throttling poll')
    if h != u:
        A.call(t, 'write', C(b'x'))
        A.call(t, 'flush')
        A.require_same(n.usable('IPv6')['sent'][0][1], Tup([C(h), C(20)]), 'address', 'the datagram goes to')


def ports(A):
    """Each request to its own port, in any order, also with two transports."""
    urls = http(A)
    t = [sender(A, h, 10 + i, 20 + i, throttling_port=30 + i) for i, h in enumerate('ab')]
    for i in range(3):
        w = A.pick('transport%d' % i, [0, 1])
        k = A.pick('request%d' % i, ['sampling', 'credits'])
        del urls[:]
        if k == 'sampling':
            A.call(t[w], 'request_sampling_strategy', 's')
            want = 'http://%s:%d/sampling?service=s' % ('ab'[w], 10 + w)
        else:
            A.call(t[w], 'request_throttling_credits', 's', 1, A.list(['o']))
            want = 'http://%s:%d/credits?service=s&uuid=1&operations=o' % ('ab'[w], 30 + w)
        asks(A, urls, C(want), k)


def limits(A):
    """A request takes no longer than the caller allows."""
    ts = []
    http(A, ts)
    t = sender(A, 'a', 1, 2, throttling_port=3)
    own = A.pick('limit', [('given', A.sym('timeout', 'int|float')), ('not given', None)])
    kw = {} if own is None else {'timeout': own}
    if A.pick('request', ['sampling', 'credits']) == 'sampling':
        A.call(t, 'request_sampling_strategy', 's', **kw)
    else:
        A.call(t, 'request_throttling_credits', 's', 1, A.list(['o']), **kw)
    if A.require(len(ts) == 1, 'once', '%d requests are made' % len(ts)) and own is not None:
        A.require_same(ts[0], own, 'limit', 'the time the request may take')


def resolution(A):
    n = Net(A)
    sock = n._socket
    k = Client(A, {'local_agent': {'reporting_host': 'nowhere', 'reporting_port': 7},
                   'sampler': {'type': 'const', 'param': 1}}, addrinfo=n._resolve, emit=False)
    A.on('socket.socket', sock)
    tr, exc = A.catch(k.tracer)
    if not A.require(exc is None, 'start-up', 'the client does not start when the host name cannot be '
                     'resolved (%s): %s' % (n.result, exc and exc.cls.name), exc and exc.attrs.get('__loc__')):
        return
    s = n.usable('the client')
    k.spans(1)
    k.run()
    if A.require(len(s['sent']) == 1, 'sent', '%d datagrams are sent for a span' % len(s['sent'])):
        A.require_same(s['sent'][0][1], Tup([C('nowhere'), C(7)]), 'address', 'the datagram goes to')


def names(A):
    """The service, and the operations of debug spans, as the application names them."""
    sv, op = A.pick('service', NAMES), A.pick('operation', NAMES)
    k = Client(A, {'throttler': {'port': 9}, 'local_agent': {'reporting_host': 'h', 'sampling_port': 8}},
               service_name=sv)
    tr = k.tracer()
    ctx = A.call(tr, 'extract', fmt(A, 'TEXT_MAP'), A.dict([('jaeger-debug-id', 'x')]))
    A.call(tr, 'start_span', op, child_of=ctx)
    k.first_polls()
    q = __import__('urllib.parse').parse.quote_plus
    got = [u.v if isinstance(u, C) else show(u) for u in k.urls]
    if not A.require(len(got) == 2, 'polls', 'asks %s' % got):
        return
    sam = [u for u in got if u.startswith('http://h:8/')]
    thr = [u for u in got if u.startswith('http://h:9/')]
    A.require(sam == ['http://h:8/sampling?service=' + q(sv)], 'url', 'asks %s for the strategy' % sam)
    pairs = __import__('urllib.parse').parse.parse_qsl(thr[0].partition('?')[2], True) if thr else []
    A.require(len(thr) == 1 and thr[0].startswith('http://h:9/credits?') and len(pairs) == 3 and
              ('service', sv) in pairs and ('operations', op) in pairs and 'uuid' in dict(pairs), 'url',
              'asks %s for the credits' % thr)


def closing(A):
    n = Net(A)
    u = start(A, UDP, 'h', 1)
    A.call(u, 'close')
    A.require(n.sockets[0]['closed'] == 1, 'close', 'the socket is not closed')
    A.require(not A.truth(A.call(u, 'isOpen')), 'open', 'a closed transport is open')
