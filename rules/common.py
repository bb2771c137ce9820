"""Shared scenario pieces."""
from sa.objs import *  # noqa
from sa.objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, LockV, FutV, Tup, Func, Wrapped,  # noqa
                     Bound, Native, Cls, BCls, Mod, Ext, PyExc, PathCut, Infeasible, Undecided,
                     AnchorLost)
from sa.terms import C, T, V, NONE, TRUE, FALSE, SPECS, show, set_spec  # noqa
from sa import terms, m_types as mt, m_seq as ms, m_str, m_builtin as mb  # noqa
from sa.explore import lift, pretty, Stop  # noqa
from sa.sched import Sched

J = 'jaeger_client.'
CTX = 'jaeger_client.span_context:SpanContext'
TRACER = 'jaeger_client.tracer:Tracer'
CORRUPT = 'opentracing:SpanContextCorruptedException'
INVALID = 'opentracing:InvalidCarrierException'


def const_sampler(A, sampled=True):
    return A.new('jaeger_client.sampler:ConstSampler', sampled)


def reporter_stub(A, name='reporter'):
    return A.stub(name, report_span=lambda ip, a, kw: NONE,
                  set_process=lambda ip, a, kw: NONE,
                  close=lambda ip, a, kw: NONE)


def tracer(A, sampler=None, reporter=None, **kw):
    kw = {k: v for k, v in kw.items() if v is not None}
    A.on('socket.gethostbyname', lambda ip, a, k: C('192.0.2.1'))
    return A.new(TRACER, 'service', reporter if reporter is not None else reporter_stub(A),
                 sampler if sampler is not None else const_sampler(A), **kw)


def fmt(A, name):
    return A.load('opentracing.propagation:Format.' + name)


def same_ids(A, ctx, tid, sid, pid, flags, what):
    for name, want in (('trace_id', tid), ('span_id', sid), ('parent_id', pid),
                       ('flags', flags)):
        A.require_same(A.attr(ctx, name), want, name, '%s: %s' % (what, name))



def hexs(A, v):
    """The value written in lower-case hexadecimal, as format(v, 'x') does."""
    return m_str.hexfmt(A.ip, lift(v))


def cat(*parts):
    return terms.s_cat([lift(p) for p in parts])


def ids(A, tag='', debug=True):
    """(trace id, span id, parent id or None, flags), each over its whole range."""
    tid = A.int('trace_id' + tag, 1, 2 ** 128 - 1)
    sid = A.int('span_id' + tag, 1, 2 ** 64 - 1)
    pid = A.pick('parent' + tag, [('none', NONE),
                                  ('some', A.int('parent_id' + tag, 1, 2 ** 64 - 1))])
    return tid, sid, pid, A.int('flags' + tag, 0, 255)


def context(A, i, baggage=None):
    kw = {} if baggage is None else {'baggage': baggage}
    return A.new(CTX, *i, **kw)


def lookup(A, d, key):
    """The value a dict holds under the constant string key, or None when it surely has none."""
    for k, v in d.entries:
        if isinstance(k, C) and k.v == key:
            return v
    return None


def keys_of(d):
    return [k.v if isinstance(k, C) else show(k) for k, _ in d.entries]


def extracted(A, back, i, what):
    if A.require(A.isa(back, CTX), 'lost', '%s: extracting gives %s, not the context' % (
            what, pretty(A, back))):
        same_ids(A, back, *i, what=what)


def within(A, v, lo, hi):
    """v is an integer in [lo, hi] on every input of this path."""
    ip = A.ip
    v = ip.norm(v) if isinstance(v, (C, T)) else v
    ts = ip.types(v) if isinstance(v, (C, T)) else frozenset(['object'])
    if not ts <= frozenset(['int', 'bool']):
        return False if not ts & frozenset(['int', 'bool']) else None
    if isinstance(v, C):
        return lo <= v.v <= hi
    a, b = ip.known_cmp(v, '>=', C(lo)), ip.known_cmp(v, '<=', C(hi))
    if a and b:
        return True
    return False if a is False or b is False else None


def id_bounds(A, ctx, what, flags_hi=255):
    """A context taken from the wire has ids within the ranges the wire has room for."""
    A.require(within(A, A.attr(ctx, 'trace_id'), 1, 2 ** 128 - 1), 'range-trace_id',
              '%s: trace id %s is not within 1..2^128-1' % (what, pretty(A, A.attr(ctx, 'trace_id'))))
    A.require(within(A, A.attr(ctx, 'span_id'), 1, 2 ** 64 - 1), 'range-span_id',
              '%s: span id %s is not within 1..2^64-1' % (what, pretty(A, A.attr(ctx, 'span_id'))))
    p = A.attr(ctx, 'parent_id')
    A.require(p is NONE or within(A, p, 1, 2 ** 64 - 1), 'range-parent_id',
              '%s: parent id %s is neither absent nor within 1..2^64-1' % (what, pretty(A, p)))
    A.require(within(A, A.attr(ctx, 'flags'), 0, flags_hi), 'range-flags',
              '%s: flags %s are not within 0..%d' % (what, pretty(A, A.attr(ctx, 'flags')), flags_hi))


def only_corrupted(A, exc, what):
    return A.require(A.isinst(exc, CORRUPT), 'exception',
                     '%s: raises %s instead of reporting a corrupted context'
                     % (what, exc.cls.name), exc.attrs.get('__loc__'))


class Frozen(object):
    """What some objects (and everything they reach) hold at one moment."""

    def __init__(self, A, *objs):
        self.A, self.since, self.content = A, A.mark, {}
        self.names, self.unread = {}, set()
        todo = [(o, n) for n, o in enumerate(objs)]
        while todo:
            o, n = todo.pop()
            if not isinstance(o, (DictV, ListV, SetV, ByteArr, Tup, Inst)) or id(o) in self.names:
                continue
            if isinstance(o, Inst) and not o.attrs:
                continue
            self.names[id(o)] = o
            if isinstance(o, DictV):
                c = list(o.entries)
                kids = [x for e in c for x in e]
            elif isinstance(o, (ListV, Tup, SetV)):
                c = list(o.items)
                kids = c
            elif isinstance(o, ByteArr):
                c, kids = [o.val], []
            else:
                c = list(o.attrs.items())
                kids = [v for _, v in c]
            self.content[id(o)] = c
            if getattr(o, 'open', False):
                self.unread.add(id(o))
            todo += [(k, n) for k in kids if isinstance(k, Obj)]

    def unchanged(self, key, what):
        """One obligation per object: it holds now what it held then."""
        A = self.A
        for i, c in self.content.items():
            o = self.names[i]
            bad = None
            if i in self.unread:
                # entries become known as they are read
                ev = [e for e in A.ip.events[self.since:] if e.kind == 'mut' and e.target is o]
                bad = ev and '%s at %s' % (ev[0].name, ev[0].loc)
            elif isinstance(o, DictV):
                if len(o.entries) != len(c) or not all(
                        A.same(k, k2) and (v is v2 or A.same(v, v2))
                        for (k, v), (k2, v2) in zip(c, o.entries)):
                    if A.same(o, DictV(list(c))) is not True:
                        bad = 'now %r' % o
            elif isinstance(o, (ListV, SetV)):
                if len(o.items) != len(c) or not all(x is y or A.same(x, y)
                                                     for x, y in zip(c, o.items)):
                    bad = 'now %r' % o
            elif isinstance(o, ByteArr):
                if o.val is not c[0] and not A.same(o.val, c[0]):
                    bad = 'now %s' % pretty(A, o.val)
            elif isinstance(o, Inst):
                for n, v in c:
                    w = o.attrs.get(n)
                    if w is not v and (w is None or not A.same(v, w)):
                        bad = '%s.%s' % (o.label, n)
                        break
            ev = [e for e in A.ip.events[self.since:]
                  if e.kind in ('mut', 'set', 'del') and e.target is o]
            A.require(not bad, key, '%s is changed: %s' % (what, bad),
                      ev[0].loc if ev else None)


def short(A, name, **kw):
    """A string that fits the four length bytes of the binary format."""
    v = A.str(name, **kw)
    A.assume(A.cmp(mt.seq_len(A.call(v, 'encode', 'utf-8')), '<', 2 ** 32))
    return v


def randoms(v):
    """The random numbers a value is made of."""
    return set(t for t in terms.sub_terms(v) if t.op in ('rnd', 'rndf')) \
        if isinstance(v, T) else set()


def in_range(A, v, lo, hi, key, what):
    got = within(A, v, lo, hi)
    a, b = A.ip.rng(v) if isinstance(v, (C, T)) else (None, None)
    return A.soft(got, key, '%s is %s, which ranges over %s..%s, expected an integer '
                     'in %s..%s' % (what, pretty(A, v), a, b, lo, hi))


def fresh_id(A, v, since, bits, key, what):
    """v is a random number of `bits` bits drawn after event `since`."""
    drawn = set(e.result for e in A.events('rng', since=since))
    used = randoms(v)
    if not A.require(bool(used) and used <= drawn, key,
                     '%s is %s, not a random number drawn for it' % (what, pretty(A, v))):
        return
    lo, hi = A.ip.rng(v)
    A.require(lo is not None and lo >= 0 and hi == 2 ** bits - 1, key + '-bits',
              '%s ranges over %s..%s, expected %d bits' % (what, lo, hi, bits))


def nonzero(A, span):
    """The random span id of this span is not 0 (0 stands for "no trace")."""
    A.assume(not A.cmp(A.attr(A.attr(span, 'context'), 'span_id'), '==', 0))
    return span


def tags_of(A, span):
    """[(key, value)] of the tags recorded in a span (thrift Tag objects)."""
    out = []
    for t in A.attr(span, 'tags').items:
        out.append((A.attr(t, 'key'), tag_value(A, t)))
    return out


FIELDS = ('vStr', 'vDouble', 'vBool', 'vLong', 'vBinary')


def tag_value(A, t):
    vs = [A.attr(t, f) for f in FIELDS]
    vs = [v for v in vs if v is not NONE]
    return vs[0] if len(vs) == 1 else Tup(vs)


def tag_map(A, span):
    return A.dict(tags_of(A, span))


def has_tag(A, span, key, value):
    return any(A.same(k, lift(key)) and A.same(v, lift(value)) for k, v in tags_of(A, span))


def parent_context(A, tag='', baggage=True, flags=None, root=False):
    """A context with a trace, every field unknown."""
    bag = A.open_dict('baggage' + tag, 'str', 'str') if baggage else None
    tid = A.int('trace_id' + tag, 1, 2 ** 128 - 1)
    sid = A.int('span_id' + tag, 1, 2 ** 64 - 1)
    pid = NONE if root else A.int('parent_id' + tag, 1, 2 ** 64 - 1)
    fl = A.int('flags' + tag, 0, 255) if flags is None else lift(flags)
    return A.new(CTX, tid, sid, pid, fl, bag)


def sampler_stub(A, sampled=None, tags=None):
    t = tags if tags is not None else A.dict([('sampler.type', 'stub'), ('sampler.param', 7)])
    d = sampled if sampled is not None else A.pick('sampled', [('yes', TRUE), ('no', FALSE)])
    s = A.stub('sampler', is_sampled=lambda ip, a, kw: Tup([lift(d), t]),
               close=lambda ip, a, kw: NONE)
    return s, d, t


def throttler_stub(A, allowed=None):
    d = allowed if allowed is not None else A.pick('throttler', [('allows', TRUE),
                                                                 ('denies', FALSE)])
    return A.stub('throttler', is_allowed=lambda ip, a, kw: lift(d),
                  set_client_id=lambda ip, a, kw: NONE, close=lambda ip, a, kw: NONE), d


def argsof(e, names):
    """The arguments of a call event, positional or by name."""
    out = list(e.args)
    for n in names[len(out):]:
        out.append(e.kwargs.get(n))
    return out


def take(ip, a, kw, name):
    """Takes the next argument of a call, given by place or by name."""
    if a:
        return a.pop(0)
    if name not in kw:
        raise ip.exc('TypeError', 'missing required argument %r' % name)
    return kw.pop(name)


HTTP_TIMEOUT = C(20.0)      # what tornado uses when none is given


def fetching(A, fetched, timeouts=None):
    """Requests over HTTP go to fetched(url), which gives their future; timeouts gets how long each may take."""
    def request(ip, a, kw):
        url = take(ip, list(a), dict(kw), 'url')
        m = a[1] if len(a) > 1 else kw.get('method')
        return A.stub('request', url=url, method=m if m is not None else C('GET'),
                      request_timeout=kw.get('request_timeout', NONE), headers=kw.get('headers', NONE),
                      connect_timeout=kw.get('connect_timeout', NONE))

    def client(ip, a, kw):
        defaults = kw.get('defaults', NONE)

        def fetch(ip, a, kw):
            a, kw = list(a), dict(kw)
            r = take(ip, a, kw, 'request')
            t, m = kw.get('request_timeout', NONE), kw.get('method', C('GET'))
            if isinstance(r, Inst) and r.name == 'request':
                t, m, r = r.attrs['request_timeout'], r.attrs['method'], r.attrs['url']
            if t is NONE and isinstance(defaults, DictV):
                t = lookup(A, defaults, 'request_timeout') or NONE
            A.require_same(m, C('GET'), 'method', 'the request method')
            A.require(A.truth(kw.get('raise_error', TRUE)) is True, 'status',
                      'an answer with an error status is taken for a good one')
            if timeouts is not None:
                timeouts.append(HTTP_TIMEOUT if t is NONE else t)
            return fetched(r)
        return A.stub('http', fetch=fetch, defaults=defaults)
    A.on('tornado.httpclient.AsyncHTTPClient', client)
    A.on('tornado.httpclient.HTTPRequest', request)


class Loop(object):
    """An event loop of the scenario: callbacks wait until the scenario runs them."""

    def __init__(self, A, name='io_loop'):
        self.A, self.callbacks, self.timers, self.now = A, [], [], C(5000.0)
        self.started = 0
        A.ip.sched = Sched(A.ip, lambda f: self.callbacks.append((f, None, None)))
        self.obj = A.stub(
            name, add_callback=self._add, spawn_callback=self._add, call_later=self._later,
            add_callback_from_signal=self._add, call_soon_threadsafe=self._add,
            time=lambda ip, a, kw: self.now, close=lambda ip, a, kw: NONE)

    def _add(self, ip, a, kw):
        a, kw = list(a), dict(kw)
        f = take(ip, a, kw, 'callback')
        self.callbacks.append((f, a, dict(kw)))
        return NONE

    def _later(self, ip, a, kw):
        a, kw = list(a), dict(kw)
        d = take(ip, a, kw, 'delay')
        f = take(ip, a, kw, 'callback')
        self.timers.append((d, f, a, kw))
        self.started += 1
        return T('timer', len(self.timers))

    def step(self):
        """Runs the oldest callback."""
        if not self.callbacks:
            return None
        f, a, kw = self.callbacks.pop(0)
        return f() if a is None else self.A.ip.loop_call(f, a, kw)

    def timeouts(self):
        """The futures whose time can be up."""
        return [e.target for e in self.A.events('timeout') if e.target.state == 'pending']

    def expire(self):
        """The time of the oldest of them is up."""
        f = self.timeouts()[0]
        settle(self.A, f, exc=failure(self.A, 'tornado.util.TimeoutError', 'timeout'))

    def suspended(self):
        return self.A.ip.sched.suspended()

    def run(self, most=50):
        """Runs the callbacks until none waits."""
        n = 0
        while self.callbacks:
            self.step()
            n += 1
            if n > most:
                raise Undecided('callbacks that add callbacks without end')
        return n

    def fire(self):
        """Lets the time of the oldest timer come."""
        d, f, a, kw = self.timers.pop(0)
        self.A.ip.loop_call(f, a, kw)


def metrics_factory(A, name='m'):
    """A metrics factory whose metrics are events '<name>.<metric>[.<result>]'."""
    def create(ip, a, kw):
        n, tags = argsof_(a, kw, ('name', 'tags'))
        out = '%s.%s' % (name, n.v if isinstance(n, C) else show(n))
        if isinstance(tags, DictV):
            for k, v in sorted(tags.entries, key=lambda e: str(e[0])):
                out += '.%s' % (v.v if isinstance(v, C) else show(v))
        return A.fn(out)
    return A.stub(name, create_counter=create, create_gauge=create, create_timer=create)


def helpers(A, errors, kw):
    """The arguments of a part of the client: recorded metrics and errors, or exactly those in kw['only']."""
    kw = dict(kw)
    out = kw.pop('only', None)
    if out is None:
        out = {'metrics_factory': metrics_factory(A), 'error_reporter': errors}
    out.update(kw)
    return out


def argsof_(a, kw, names):
    out = list(a)
    for n in names[len(out):]:
        out.append(kw.get(n, NONE))
    return out


def count_of(A, name, since=0):
    """The sum a counter was increased by, or None when unknown."""
    n = 0
    for e in A.calls(name, since):
        v = e.args[0] if e.args else C(1)
        v = A.ip.norm(v) if isinstance(v, (C, T)) else v
        if not isinstance(v, C):
            return None
        n += v.v
    return n


def error_reporter_stub(A, name='errors'):
    return A.stub(name, error=lambda ip, a, kw: NONE)


def response(A, body):
    return A.stub('response', body=body)


def settled(A, value=None, exc=None):
    """A future that has a result or failed."""
    f = FutV('answer')
    if exc is not None:
        f.state, f.value = 'error', exc
    else:
        f.state, f.value = 'done', value
    return f


def settle(A, f, value=None, exc=None):
    if exc is not None:
        mb.fut_settle(A.ip, f, 'error', exc)
    else:
        mb.fut_settle(A.ip, f, 'done', value)


def failure(A, name='OSError', msg='failed'):
    """An exception object."""
    return A.ip.exc(name, msg).value
