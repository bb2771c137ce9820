"""The client as a configuration builds it, with what it does to the outside recorded."""
from .common import *
from .c20 import OPS
from .c26 import PERIODIC

CONFIG = 'jaeger_client.config:Config'
SUPPORTED = ('logging', 'metrics', 'local_agent', 'sampler', 'tags', 'enabled', 'reporter_batch_size',
             'reporter_queue_size', 'propagation', 'max_tag_value_length', 'max_traceback_length',
             'reporter_flush_interval', 'sampling_refresh_interval', 'max_operations',
             'trace_id_header', 'debug_id_header', 'generate_128bit_trace_id',
             'baggage_header_prefix', 'service_name', 'throttler')


def conv(A, v):
    """A value of Python as a value of the analysis."""
    if isinstance(v, dict):
        return A.dict([(k, conv(A, x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return A.list([conv(A, x) for x in v])
    return lift(v)


class Client(object):
    """Config(config, ...) and the tracer it makes.

    sockets: [family, type, proto, blocking], packets: (data, address), urls: of the HTTP requests,
    periodics: (callback, milliseconds), batches: the spans of each batch (thrift objects)
    """

    def __init__(self, A, config=None, env=None, addrinfo=None, emit=True, random=True, **kw):
        self.A, self.loop = A, Loop(A)
        self.sockets, self.packets, self.urls, self.answers = [], [], [], []
        self.periodics, self.batches, self.processes = [], [], []
        A.ip.env = conv(A, env or {})
        A.on('socket.gethostbyname', lambda ip, a, k: C('192.0.2.1'))
        A.on('socket.gethostname', lambda ip, a, k: C('host'))
        A.on('socket.getaddrinfo', addrinfo or (lambda ip, a, k: ListV([])))
        A.on('socket.socket', self._socket)
        fetching(A, self._fetch)
        A.on(PERIODIC, self._periodic)
        self.now = 1000.0
        A.on('time.time', lambda ip, a, k: C(self.now))
        self.drawn = 0
        if random:
            A.ip.draw = self._draw
        if emit:
            A.ip.func_hooks = {'Client.emitBatch': self._emit}
        else:
            for n in ('TCompactProtocol', 'TCompactProtocolAccelerated'):
                A.on('thrift.protocol.TCompactProtocol.' + n, self._protocol)
        self.cfg = kw.pop('made', None)
        if self.cfg is None:
            kw.setdefault('service_name', 'service')
            kw.setdefault('metrics_factory', metrics_factory(A))
            self.cfg = A.new(CONFIG, conv(A, config or {}), **kw)

    def tracer(self):
        self.tr = self.A.call(self.cfg, 'new_tracer', self.loop.obj)
        return self.tr

    def _socket(self, ip, a, kw):
        s = argsof_(a, kw, ('family', 'type', 'proto')) + [None]
        self.sockets.append(s)

        def blocking(ip, a, kw):
            s[3] = argsof_(a, kw, ('flag',))[0]
            return NONE

        def sendto(ip, a, kw):
            self.packets.append(tuple(argsof_(a, kw, ('data', 'address'))))
            return C(1)
        return self.A.stub('socket', setblocking=blocking, sendto=sendto,
                           close=lambda ip, a, kw: NONE,
                           settimeout=lambda ip, a, kw: blocking(
                               ip, [C(not A_same0(self.A, a[0]))], {}))

    def _fetch(self, url):
        f = FutV('response')
        self.urls.append(url)
        self.answers.append(f)
        return f

    def _periodic(self, ip, a, kw):
        cb, ms_ = argsof_(a, kw, ('callback', 'callback_time'))[:2]
        self.periodics.append((cb, ms_))
        return self.A.stub('periodic', start=lambda ip, a, kw: NONE, stop=lambda ip, a, kw: NONE)

    def _protocol(self, ip, a, kw):
        """A protocol that writes 'x' for a message."""
        trans = take(ip, list(a), dict(kw), 'trans')
        ops = {o: lambda ip, a, kw: NONE for o in OPS}

        def end(ip, a, kw):
            self.A.call(trans, 'write', C(b'x'))
            return NONE
        ops['writeMessageEnd'] = end
        return self.A.stub('protocol', trans=trans, **ops)

    def _emit(self, ip, a, kw):
        batch = take(ip, list(a[1:]), dict(kw), 'batch')
        self.batches.append(list(ip.getattr(batch, 'spans').items))
        self.processes.append(ip.getattr(batch, 'process'))
        return NONE

    def _draw(self, what, lo, hi):
        """Random numbers that differ; fractions are one half."""
        self.drawn += 1
        return 0.5 if what == 'random' else self.drawn

    # ---- driving it

    def spans(self, n, **kw):
        out = []
        for _ in range(n):
            s = self.A.call(self.tr, 'start_span', 'op', **kw)
            self.A.call(s, 'finish')
            out.append(s)
        return out

    def run(self):
        """The loop runs until it has nothing to do."""
        for _ in range(30):
            self.loop.run(400)
            if not self.loop.timeouts():
                return
            self.loop.expire()

    def first_polls(self):
        """The timers of the first polls expire; their delays."""
        self.loop.run()
        ds = [t[0] for t in self.loop.timers]
        for _ in ds:
            self.loop.fire()
        self.loop.run()
        return ds

    def answer(self, body, which=-1):
        settle(self.A, self.answers[which], response(self.A, lift(body)))
        self.loop.run()


def A_same0(A, v):
    return A.same(v, C(0)) or A.same(v, C(0.0))


def thrift_tags(A, span):
    """{key: (value, type fields)} of a thrift span or process."""
    out = {}
    tags = A.attr(span, 'tags')
    for t in ([] if tags is NONE else tags.items):
        k = A.attr(t, 'key')
        for f in ('vStr', 'vDouble', 'vBool', 'vLong', 'vBinary'):
            v = A.attr(t, f)
            if v is not NONE:
                out[k.v if isinstance(k, C) else show(k)] = v
    return out
