"""The address and the name of the host are found when they can be, and never keep the client from starting.

Each step of finding them (the host name, its address, the addresses of the interfaces, the address of
the route to other hosts) gives any answer it can or fails in any way it can: the address recorded is that of
the host name unless that is a loopback address, else that of the first interface that has one, else that
of the route; finding none is no error, and neither is a missing host name.
"""
from .common import *
from .client import Client

FIND = 'jaeger_client.utils:local_ip'
ORDER = [b'eth0', b'eth1', b'eth2', b'en0', b'en1', b'en2', b'wlan0', b'wlan1', b'wlan2']


def run(P):
    P.scenario('the host name', hostname)
    P.scenario('the interfaces', interfaces, loop=40)
    P.scenario('the route', route, loop=40)
    P.scenario('no sockets', no_sockets, loop=40)
    P.scenario('the process description', process, loop=40)
    P.scenario('given by the application', given)
    P.scenario('no host name', no_name)


def A_same(A, v, n):
    return A.same(v, C(n)) is True


class Host(object):
    """What the operating system answers.

    name, byname: a text or an exception name; up: interfaces with an address; routed: address or failing
    step; nosocket: sockets cannot be opened
    """

    def __init__(self, A, name='host', byname='127.0.0.1', up=(), routed='10.9.8.7', nosocket=False):
        self.A, self.up, self.routed, self.nosocket = A, up, routed, nosocket
        self.open, self.asked, self.stray = 0, [], []
        A.on('socket.gethostname', self._give(name))
        A.on('socket.gethostbyname', lambda ip, a, kw: self._give(
            '127.0.0.1' if isinstance(a[0], C) and a[0].v == 'localhost' and byname not in ERRORS else byname)(
                ip, a, kw))
        A.on('socket.socket', self._socket)
        A.on('fcntl.ioctl', self._ioctl)
        A.on('socket.inet_ntoa', self._ntoa)

    def _give(self, v):
        def f(ip, a, kw):
            if isinstance(v, str) and v in ERRORS:
                raise ip.exc(v, 'failed')
            return lift(v)
        return f

    def _socket(self, ip, a, kw):
        if self.nosocket:
            raise ip.exc('OSError', 'too many open files')
        self.open += 1
        connected = []

        def connect(ip, a, kw):
            if self.routed == 'connect':
                raise ip.exc('OSError', 'unreachable')
            connected.append(1)
            return NONE

        def name(ip, a, kw):
            if self.routed == 'getsockname':
                raise ip.exc('OSError', 'failed')
            # before it has a peer a socket has no address of its own
            return Tup([lift(self.routed), C(4000)]) if connected else Tup([C('0.0.0.0'), C(0)])

        def close(ip, a, kw):
            self.open -= 1
            return NONE
        s = self.A.stub('socket', connect=connect, getsockname=name, close=close,
                        fileno=lambda ip, a, kw: C(3),
                        __enter__=lambda ip, a, kw: s, __exit__=close,
                        setblocking=lambda ip, a, kw: NONE, sendto=lambda ip, a, kw: C(1))
        return s

    def _ioctl(self, ip, a, kw):
        req = a[2].v if len(a) > 2 and isinstance(a[2], C) else None
        if not isinstance(req, bytes) or len(req) != 256:
            raise Undecided('request to an interface %s' % (a,))
        if not A_same(self.A, a[0], 3) or not A_same(self.A, a[1], 0x8915):
            raise ip.exc('OSError', 'not a request for the address of an interface on a socket')
        n = req.rstrip(b'\0')
        self.asked.append(n)
        if n not in self.up:
            raise ip.exc('OSError', 'no such device')
        i = ORDER.index(n)
        return C(req[:20] + bytes([10, 0, 0, i]) + req[24:])

    def _ntoa(self, ip, a, kw):
        v = ip.norm(a[0]) if isinstance(a[0], (C, T)) else a[0]
        if not isinstance(v, C) or len(v.v) != 4:
            raise Undecided('inet_ntoa')
        return C('.'.join(str(b) for b in v.v))

    def find(self, what):
        A = self.A
        got, exc = A.catch(A.apply, A.load(FIND))
        if not A.require(exc is None, 'raises', '%s: finding the local address raises %s' % (
                what, exc and exc.cls.name), exc and exc.attrs.get('__loc__')):
            raise Stop()
        return got


ERRORS = ('OSError', 'socket.gaierror', 'UnicodeError')
LOOP = [('127.0.0.1', '127.0.0.1'), ('127.0.1.1', '127.0.1.1')] + [(e, e) for e in ERRORS]


def hostname(A):
    by = A.pick('host name gives', [('any', A.str('address', minlen=7))] + LOOP + [
        ('10.0.0.1', '10.0.0.1'), ('12.7.0.1', '12.7.0.1'), ('1.127.0.1', '1.127.0.1')])
    name = A.pick('host name', ['host', 'OSError', 'UnicodeError'])
    h = Host(A, name, by)
    got = h.find('host name gives %s' % by)
    if isinstance(by, str):
        loopback = by in ERRORS or by.startswith('127.')
    else:
        loopback = A.truth(A.call(by, 'startswith', '127.'))
    if loopback or name in ERRORS:
        A.require_same(got, C('10.9.8.7'), 'route', 'no address of the host name')
    else:
        A.require_same(got, lift(by), 'host-name', 'the address of the host name')


def some_up(A):
    return A.pick('up', [('eth0', [b'eth0']), ('eth1', [b'eth1']), ('en0', [b'en0']), ('wlan0', [b'wlan0']),
                         ('wlan2', [b'wlan2']), ('eth2 and en1', [b'en1', b'eth2']),
                         ('en0 and wlan0', [b'wlan0', b'en0']), ('all', list(ORDER))])


def interfaces(A):
    up = some_up(A)
    h = Host(A, byname=A.pick('host name gives', LOOP), up=up,
             routed=A.pick('route', ['10.9.8.7', 'connect']))
    first = min(ORDER.index(u) for u in up)
    A.require_same(h.find('interfaces'), C('10.0.0.%d' % first), 'interface',
                   'the address of the first interface that has one')


def route(A):
    r = A.pick('route', [('an address', A.str('address', minlen=7)), ('connect fails', 'connect'),
                         ('getsockname fails', 'getsockname')])
    h = Host(A, byname=A.pick('host name gives', LOOP), routed=r)
    got = h.find('the route')
    if isinstance(r, str):
        A.require(got is NONE, 'invented', 'no address can be found, and it is %s' % pretty(A, got))
    else:
        A.require_same(got, r, 'route', 'the address of the route')


def no_sockets(A):
    h = Host(A, byname=A.pick('host name gives', LOOP + [('10.0.0.1', '10.0.0.1')]), nosocket=True)
    got = h.find('no sockets')
    A.require(got is NONE or isinstance(got, C) and got.v == '10.0.0.1', 'invented',
              'without sockets the address is %s' % pretty(A, got))


def started(A, h, tags=None):
    """The tags of the process description of a tracer."""
    seen = []

    def process(ip, a, kw):
        seen.append(argsof_(a, kw, ('service_name', 'tags', 'max_length'))[1])
        return NONE
    rep = A.stub('reporter', report_span=lambda ip, a, kw: NONE, set_process=process,
                 close=lambda ip, a, kw: NONE)
    m = A.mark
    tr, exc = A.catch(A.new, TRACER, 'service', rep, const_sampler(A), **({} if tags is None else {
        'tags': tags}))
    if not A.require(exc is None, 'start-up', 'the tracer is not started: %s' % (exc and exc.cls.name),
                     exc and exc.attrs.get('__loc__')):
        raise Stop()
    A.require(len(seen) == 1, 'process', 'the process is described %d times' % len(seen))
    return seen[0]


def process(A):
    by = A.pick('host name gives', LOOP + [('10.0.0.1', '10.0.0.1')])
    up = A.pick('up', [('none', []), ('en1', [b'en1'])])
    h = Host(A, 'myhost', by, up, A.pick('route', ['10.9.8.7', 'connect']))
    tags = started(A, h)
    want = by if by[:3] == '10.' else '10.0.0.4' if up else None if h.routed == 'connect' else h.routed
    got = lookup(A, tags, 'ip')
    if want is None:
        A.require(got is None or got is NONE, 'invented', 'the address of the process is %s' % pretty(A, got))
    elif A.require(got is not None, 'ip', 'no address in the description of the process'):
        A.require_same(got, C(want), 'ip', 'the address of the process')
    got = lookup(A, tags, 'hostname')
    A.require_same(got if got is not None else NONE, C('myhost'), 'hostname', 'the host name')


def given(A):
    """What the application gives is used as it is."""
    ip_, name = A.pick('ip', [('given', A.str('ip')), ('absent', None)]), A.pick(
        'hostname', [('given', A.str('name')), ('absent', None)])
    h = Host(A, 'myhost', '10.0.0.1')
    es = [(k, v) for k, v in (('ip', ip_), ('hostname', name), ('other', C(1))) if v is not None]
    tags = started(A, h, A.dict(es))
    for k, v, d in (('ip', ip_, '10.0.0.1'), ('hostname', name, 'myhost'), ('other', C(1), None)):
        got = lookup(A, tags, k)
        A.require_same(got if got is not None else NONE, v if v is not None else C(d), k, 'the tag %s' % k)


def no_name(A):
    h = Host(A, 'OSError', '10.0.0.1')
    tags = started(A, h)
    got = lookup(A, tags, 'hostname')
    A.require(got is None or got is NONE, 'invented', 'the host name is %s' % (got and pretty(A, got)))
