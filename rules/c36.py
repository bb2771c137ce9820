"""Configuration validation refuses unknown keys and accepts every known one.

The configuration is made from a dictionary with any key at all, with unknown keys at any place among
known ones, with all known ones, and with none; each key that is looked up while the client is built
and while the properties of the configuration are read is one of the known ones.
"""
from .client import *


def run(P):
    P.scenario('any key', any_key)
    P.scenario('unknown among known', among)
    P.scenario('every known key', every)
    P.scenario('without validation', unvalidated)
    P.scenario('keys read', read, loop=40)
    P.scenario('service name', name)


FULL = {'logging': True, 'metrics': True, 'local_agent': {'enabled': True, 'reporting_host': 'h',
        'reporting_port': 1, 'sampling_port': 2}, 'sampler': {'type': 'const', 'param': 1},
        'tags': {'a': 'b'}, 'enabled': True, 'reporter_batch_size': 2, 'reporter_queue_size': 5,
        'propagation': 'b3', 'max_tag_value_length': 10, 'max_traceback_length': 10,
        'reporter_flush_interval': 2, 'sampling_refresh_interval': 3, 'max_operations': 4,
        'trace_id_header': 't', 'debug_id_header': 'd', 'generate_128bit_trace_id': True,
        'baggage_header_prefix': 'p-', 'service_name': 'named', 'throttler': {
            'port': 3, 'refresh_interval': 4}}
UNKNOWN = ['samplr', 'Sampler', 'sampler ', '', 'reporter_batch', 'sampler_type', 'JAEGER_TAGS',
           'local_agent_enabled']


def make(A, cfg, **kw):
    kw.setdefault('service_name', 'service')
    return A.catch(A.new, CONFIG, cfg, metrics_factory=metrics_factory(A), **kw)


def refused(A, exc, what):
    A.require(exc is not None, 'accepted', '%s is accepted' % what)
    if exc is not None:
        A.require(A.isinst(exc, 'ValueError'), 'exception', '%s gives %s' % (what, exc.cls.name))


def accepted(A, exc, what):
    A.require(exc is None, 'refused', '%s is refused: %s' % (what, exc and exc.cls.name))


def any_key(A):
    k = A.str('key')
    v = A.pick('value', [('text', 'x'), ('True', True), ('None', NONE), ('number', 1)])
    o, exc = make(A, A.dict([(k, v)]), validate=True)
    for s in SUPPORTED:
        if A.eq(k, s):
            if s == 'service_name' and v is NONE:
                return refused(A, exc, 'no service name')
            return accepted(A, exc, 'the key %r' % s)
    refused(A, exc, 'an unknown key')


def among(A):
    u = A.pick('unknown', UNKNOWN)
    at = A.pick('at', ['first', 'last', 'between', 'alone', 'twice'])
    off = A.pick('others', [('on', True), ('off', False), ("'0'", '0'), ('None', NONE)])
    known = [(k, v if off is True or v is not True else off) for k, v in FULL.items()]
    es = {'first': [(u, 1)] + known, 'last': known + [(u, 1)], 'alone': [(u, 1)],
          'between': known[:7] + [(u, NONE)] + known[7:], 'twice': [(u, 1), ('other', 2)]}[at]
    o, exc = make(A, A.dict([(k, conv(A, v)) for k, v in es]), validate=True)
    refused(A, exc, 'the unknown key %r' % u)


def every(A):
    k = A.pick('keys', ['all', 'none'] + ['all but ' + s for s in SUPPORTED])
    d = {} if k == 'none' else {x: v for x, v in FULL.items() if k != 'all but ' + x}
    v = A.pick('validation', [True, False])
    o, exc = make(A, conv(A, d), validate=v)
    accepted(A, exc, 'a configuration of known keys')


def unvalidated(A):
    """Without validation the others have no effect."""
    d = dict(FULL)
    d.update((u, 1) for u in UNKNOWN)
    v = A.pick('validate', ['absent', 'off'])
    o, exc = make(A, conv(A, d), **({} if v == 'absent' else {'validate': False}))
    accepted(A, exc, 'without validation, an unknown key')


def read(A):
    d = conv(A, dict(FULL, sampler=A.pick('sampler', [('remote', {}), ('constant', FULL['sampler'])])))
    d.asked = set()
    o, exc = make(A, d)
    accepted(A, exc, 'a configuration of known keys')
    if exc is not None:
        return
    c = Client(A, made=o)
    c.tracer()
    for p in ('service_name', 'metrics', 'error_reporter', 'enabled', 'reporter_batch_size',
              'reporter_queue_size', 'logging', 'trace_id_header', 'generate_128bit_trace_id',
              'baggage_header_prefix', 'debug_id_header', 'max_tag_value_length',
              'max_traceback_length', 'sampler', 'sampling_refresh_interval',
              'reporter_flush_interval', 'local_agent_enabled', 'local_agent_sampling_port',
              'local_agent_reporting_port', 'local_agent_reporting_host', 'max_operations', 'tags',
              'propagation', 'throttler_port', 'throttler_refresh_interval'):
        A.attr(o, p)
    extra = sorted(set(d.asked) - set(SUPPORTED))
    A.require(not extra, 'read', 'the configuration reads %s, which validation refuses' % extra)
    dead = sorted(set(SUPPORTED) - set(d.asked))
    A.require(not dead, 'unread', 'the keys %s are accepted and never read' % dead)


def name(A):
    """It comes from the dictionary or else the parameter, and has to be there."""
    own = A.pick('in the dictionary', [('absent', 0), ('given', 'own'), ('empty', ''), ('None', NONE)])
    par = A.pick('parameter', [('absent', NONE), ('given', 'par'), ('empty', '')])
    o, exc = make(A, A.dict([] if own == 0 else [('service_name', own)]), service_name=par)
    want = par if own == 0 else own
    if want in ('', NONE):
        return refused(A, exc, 'no service name')
    accepted(A, exc, 'a service name')
    if exc is None:
        A.require_same(A.attr(o, 'service_name'), C(want), 'service', 'the name of the service')
        c = Client(A, made=o)
        c.tracer()
        A.require_same(A.attr(c.tr, 'service_name'), C(want), 'service', 'the service of the tracer')
