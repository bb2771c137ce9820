"""The generated serialisers speak the Jaeger wire schema.

For every struct of the reported batch and of the sampling and Zipkin interfaces, the calls its writer makes to a protocol, with unknown values,
are compared field by field (id, type, order inside lists, presence of optional fields) with the
schema of the Jaeger IDL, which is embedded here; its reader is fed the same fields in any order; the
agent call is a one-way message named emitBatch with the batch as field 1, flushed at its end.
"""
from .common import *

GEN = 'jaeger_client.thrift_gen.'
STRING, I16, I32, I64, DOUBLE, BOOL, STRUCT, LIST, STOP = 11, 6, 8, 10, 4, 2, 12, 15, 0
WRITERS = {STRING: 'writeString', I16: 'writeI16', I32: 'writeI32', I64: 'writeI64', DOUBLE: 'writeDouble',
           BOOL: 'writeBool'}

# struct -> [(id, name, type, element struct, required)]
SCHEMA = {
    'Tag': [(1, 'key', STRING, None, True), (2, 'vType', I32, None, True),
            (3, 'vStr', STRING, None, False), (4, 'vDouble', DOUBLE, None, False),
            (5, 'vBool', BOOL, None, False), (6, 'vLong', I64, None, False),
            (7, 'vBinary', STRING, None, False)],
    'Log': [(1, 'timestamp', I64, None, True), (2, 'fields', LIST, 'Tag', True)],
    'SpanRef': [(1, 'refType', I32, None, True), (2, 'traceIdLow', I64, None, True),
                (3, 'traceIdHigh', I64, None, True), (4, 'spanId', I64, None, True)],
    'Span': [(1, 'traceIdLow', I64, None, True), (2, 'traceIdHigh', I64, None, True),
             (3, 'spanId', I64, None, True), (4, 'parentSpanId', I64, None, True),
             (5, 'operationName', STRING, None, True), (6, 'references', LIST, 'SpanRef', False),
             (7, 'flags', I32, None, True), (8, 'startTime', I64, None, True),
             (9, 'duration', I64, None, True), (10, 'tags', LIST, 'Tag', False),
             (11, 'logs', LIST, 'Log', False)],
    'Process': [(1, 'serviceName', STRING, None, True), (2, 'tags', LIST, 'Tag', False)],
    'Batch': [(1, 'process', STRUCT, 'Process', True), (2, 'spans', LIST, 'Span', True)],
    # the other interfaces that are part of the package
    'sampling.ProbabilisticSamplingStrategy': [(1, 'samplingRate', DOUBLE, None, True)],
    'sampling.RateLimitingSamplingStrategy': [(1, 'maxTracesPerSecond', I16, None, True)],
    'sampling.OperationSamplingStrategy': [
        (1, 'operation', STRING, None, True),
        (2, 'probabilisticSampling', STRUCT, 'sampling.ProbabilisticSamplingStrategy', True)],
    'sampling.PerOperationSamplingStrategies': [
        (1, 'defaultSamplingProbability', DOUBLE, None, True),
        (2, 'defaultLowerBoundTracesPerSecond', DOUBLE, None, True),
        (3, 'perOperationStrategies', LIST, 'sampling.OperationSamplingStrategy', True),
        (4, 'defaultUpperBoundTracesPerSecond', DOUBLE, None, False)],
    'sampling.SamplingStrategyResponse': [
        (1, 'strategyType', I32, None, True),
        (2, 'probabilisticSampling', STRUCT, 'sampling.ProbabilisticSamplingStrategy', False),
        (3, 'rateLimitingSampling', STRUCT, 'sampling.RateLimitingSamplingStrategy', False),
        (4, 'operationSampling', STRUCT, 'sampling.PerOperationSamplingStrategies', False)],
    'zipkincore.Endpoint': [(1, 'ipv4', I32, None, False), (2, 'port', I16, None, False),
                            (3, 'service_name', STRING, None, False), (4, 'ipv6', STRING, None, False)],
    'zipkincore.Annotation': [(1, 'timestamp', I64, None, False), (2, 'value', STRING, None, False),
                              (3, 'host', STRUCT, 'zipkincore.Endpoint', False)],
    'zipkincore.BinaryAnnotation': [
        (1, 'key', STRING, None, False), (2, 'value', STRING, None, False),
        (3, 'annotation_type', I32, None, False), (4, 'host', STRUCT, 'zipkincore.Endpoint', False)],
    'zipkincore.Span': [
        (1, 'trace_id', I64, None, False), (3, 'name', STRING, None, False), (4, 'id', I64, None, False),
        (5, 'parent_id', I64, None, False), (6, 'annotations', LIST, 'zipkincore.Annotation', False),
        (8, 'binary_annotations', LIST, 'zipkincore.BinaryAnnotation', False),
        (10, 'timestamp', I64, None, False), (11, 'duration', I64, None, False),
        (12, 'trace_id_high', I64, None, False), (9, 'debug', BOOL, None, 'default')],
    'zipkincore.Response': [(1, 'ok', BOOL, None, True)],
}
PY = {STRING: 'str', I16: 'int', I32: 'int', I64: 'int', DOUBLE: 'float', BOOL: 'bool'}


def run(P):
    for n in sorted(SCHEMA):
        P.scenario('%s is written' % n, lambda A, n=n: written(A, n))
        P.scenario('%s is read' % n, lambda A, n=n: readback(A, n))
        P.scenario('%s required fields' % n, lambda A, n=n: required(A, n))
    P.scenario('the agent call', emit)
    P.scenario('constants', constants)


def struct_of(n):
    mod, _, n = n.rpartition('.')
    return GEN + (mod or 'jaeger') + '.ttypes:' + n


def make(A, n, tag='', depth=0, drop=()):
    """An instance with unknown values and what must be written for it."""
    kw, want = {}, []
    for fid, name, ty, elem, req in SCHEMA[n]:
        if name in drop:
            continue
        label = '%s%s.%s' % (tag, n, name)
        if ty == LIST:
            items = [make(A, elem, label + str(i), depth + 1) for i in range(2 if depth == 0 else 1)]
            kw[name] = A.list([x[0] for x in items])
            want.append((fid, name, ty, [x[1] for x in items]))
        elif ty == STRUCT:
            o, w = make(A, elem, label, depth + 1)
            kw[name] = o
            want.append((fid, name, ty, w))
        else:
            kw[name] = A.sym(label, PY[ty])
            want.append((fid, name, ty, kw[name]))
    return A.new(struct_of(n), **kw), want


OPS = ['writeMessageBegin', 'writeMessageEnd', 'writeStructBegin', 'writeStructEnd',
       'writeFieldBegin', 'writeFieldEnd', 'writeFieldStop', 'writeListBegin', 'writeListEnd',
       'writeString', 'writeI32', 'writeI64', 'writeDouble', 'writeBool', 'writeByte', 'writeI16',
       'writeMapBegin', 'writeSetBegin', 'writeBinary']


def protocol(A):
    none = lambda ip, a, kw: NONE
    trans = A.stub('trans', flush=none, write=none)
    return A.stub('p', trans=trans, **{o: none for o in OPS})


def script(A, since):
    """The protocol calls as (operation, arguments)."""
    return [(e.name[2:], e.args) for e in A.events('call', None, since)
            if e.name.startswith('p.') or e.name.startswith('trans.')]


def expect(A, calls, want, what):
    """Consumes one struct from the calls."""
    def take(op):
        if not calls or calls[0][0] != op:
            A.require(False, 'order', '%s: expected %s, the writer does %s' % (
                what, op, calls[0][0] if calls else 'nothing more'))
            raise Stop()
        return calls.pop(0)[1]
    take('writeStructBegin')
    seen = {}
    byid = {w[0]: w for w in want}
    while calls and calls[0][0] == 'writeFieldBegin':
        _, ty, fid = take('writeFieldBegin')
        fid = fid.v if isinstance(fid, C) else None
        w = byid.get(fid)
        if not A.require(w is not None and fid not in seen, 'field', '%s: field %s is %s' % (
                what, fid, 'written twice' if fid in seen else 'not in the schema or not set')):
            raise Stop()
        seen[fid] = True
        A.require_same(ty, C(w[2]), 'type', '%s.%s: type' % (what, w[1]))
        if w[2] == LIST:
            et, n = take('writeListBegin')
            A.require_same(et, C(STRUCT), 'type', '%s.%s: element type' % (what, w[1]))
            A.require_same(n, C(len(w[3])), 'length', '%s.%s: length' % (what, w[1]))
            for x in w[3]:
                expect(A, calls, x, '%s.%s' % (what, w[1]))
            take('writeListEnd')
        elif w[2] == STRUCT:
            expect(A, calls, w[3], '%s.%s' % (what, w[1]))
        else:
            v = take(WRITERS[w[2]])
            A.require(len(v) == 1 and A.same(v[0], w[3]), 'value', '%s.%s is written as %s' % (
                what, w[1], pretty(A, v[0]) if v else 'nothing'))
        take('writeFieldEnd')
    take('writeFieldStop')
    take('writeStructEnd')
    A.require(len(seen) == len(want), 'missing', '%s: fields %s are not written' % (
        what, sorted(set(byid) - set(seen))))


def written(A, n):
    opt = [f[1] for f in SCHEMA[n] if not f[4]]
    drop = A.pick('absent', [('nothing', ())] + [(f, (f,)) for f in opt] +
                  ([('all', tuple(opt))] if opt else []))
    o, want = make(A, n, drop=drop)
    p = protocol(A)
    m = A.mark
    A.call(o, 'write', p)
    calls = script(A, m)
    expect(A, calls, want, n)
    A.require(not calls, 'order', 'more is written after the struct')


def reader(A, n, fields, extra):
    """A protocol that delivers these fields."""
    state = {'i': 0, 'stack': []}
    steps = []

    def struct(want):
        for fid, name, ty, v in want:
            steps.append(('readFieldBegin', Tup([C(name), C(ty), C(fid)])))
            value(ty, v)
        steps.append(('readFieldBegin', Tup([NONE, C(STOP), C(0)])))

    def value(ty, v):
        if ty == LIST:
            steps.append(('readListBegin', Tup([C(STRUCT), C(len(v))])))
            for x in v:
                struct(x)
            steps.append(('readListEnd', NONE))
        elif ty == STRUCT:
            struct(v)
        else:
            steps.append((WRITERS[ty].replace('write', 'read'), v))

    def unknown(fid, ty):
        steps.append(('readFieldBegin', Tup([C('x'), C(ty), C(fid)])))
        steps.append(('skip', NONE))
    if extra:
        unknown(77, I64)
    for f in fields:
        steps.append(('readFieldBegin', Tup([C(f[1]), C(f[2]), C(f[0])])))
        value(f[2], f[3])
    if extra:
        unknown(fields[0][0], I32 if fields[0][2] != I32 else I64)
    steps.append(('readFieldBegin', Tup([NONE, C(STOP), C(0)])))

    def step(op):
        def f(ip, a, kw):
            if state['i'] >= len(steps) or steps[state['i']][0] != op:
                got = steps[state['i']] if state['i'] < len(steps) else ('the end',)
                A.require(False, 'read-order', '%s: the reader does %s, the data has %s' % (
                    n, op, got[0]))
                raise Stop()
            state['i'] += 1
            return steps[state['i'] - 1][1]
        return f
    none = lambda ip, a, kw: NONE
    ops = {o: step(o) for o in ['readFieldBegin', 'readListBegin', 'readListEnd', 'skip'] +
           [w.replace('write', 'read') for w in WRITERS.values()]}
    for o in ('readStructBegin', 'readStructEnd', 'readFieldEnd'):
        ops[o] = none
    return A.stub('r', **ops), state, steps


def readback(A, n):
    o, want = make(A, n)
    order = A.pick('order', ['as written', 'reversed', 'with unknown fields'])
    fields = list(reversed(want)) if order == 'reversed' else want
    r, state, steps = reader(A, n, fields, order == 'with unknown fields')
    back = A.new(struct_of(n))
    A.call(back, 'read', r)
    A.require(state['i'] == len(steps), 'read-order', 'the reader stops before the end')
    check(A, back, want, n)


def check(A, o, want, what):
    for fid, name, ty, v in want:
        got = A.attr(o, name)
        if ty == LIST:
            items = got.items if isinstance(got, ListV) else []
            if A.require(len(items) == len(v), 'read-value', '%s.%s has %d elements of %d' % (
                    what, name, len(items), len(v))):
                for x, w in zip(items, v):
                    check(A, x, w, '%s.%s' % (what, name))
        elif ty == STRUCT:
            check(A, got, v, '%s.%s' % (what, name))
        else:
            A.require_same(got, v, 'read-value', '%s.%s read back' % (what, name))


def required(A, n):
    req = [f[1] for f in SCHEMA[n] if f[4] is True]
    lost = A.pick('absent', ['nothing'] + req)
    o, _ = make(A, n, drop=(lost,))
    r, e = A.catch(lambda: A.call(o, 'validate'))
    A.require((e is None) is (lost == 'nothing'), 'required', '%s without %s is %s' % (
        n, lost, 'accepted' if e is None else 'refused'))


def emit(A):
    o, want = make(A, 'Batch')
    p = protocol(A)
    none = lambda ip, a, kw: NONE
    loop = A.stub('loop', spawn_callback=none, add_callback=none)
    channel = A.stub('channel', io_loop=loop, readFrame=none)
    factory = A.stub('factory', getProtocol=lambda ip, a, kw: p)
    client = A.new(GEN + 'agent.Agent:Client', channel, factory)
    again = A.pick('call', ['first', 'second'])
    if again == 'second':
        A.call(client, 'emitBatch', o)
    m = A.mark
    A.call(client, 'emitBatch', o)
    calls = script(A, m)
    if not A.require(calls and calls[0][0] == 'writeMessageBegin', 'message', 'no message is begun'):
        return
    name, ty, _ = calls.pop(0)[1]
    A.require_same(name, C('emitBatch'), 'message', 'name of the call')
    A.require_same(ty, C(4), 'message', 'type of the message (one-way)')
    expect(A, calls, [(1, 'batch', STRUCT, want)], 'emitBatch_args')
    rest = [c[0] for c in calls]
    A.require(rest == ['writeMessageEnd', 'ans.flush'], 'message', 'the message ends with %s' % rest)
    got = A.calls('factory.getProtocol')
    A.require(got and all(len(e.args) == 1 and e.args[0] is channel for e in got), 'message',
              'the protocol is made for another transport')


def constants(A):
    for cls, names in (('TagType', ['STRING', 'DOUBLE', 'BOOL', 'LONG', 'BINARY']),
                       ('SpanRefType', ['CHILD_OF', 'FOLLOWS_FROM'])):
        c = A.load(GEN + 'jaeger.ttypes:' + cls)
        for i, n in enumerate(names):
            A.require_same(A.attr(c, n), C(i), 'constants', '%s.%s' % (cls, n))
    c = A.load(GEN + 'sampling.ttypes:SamplingStrategyType')
    for i, n in enumerate(['PROBABILISTIC', 'RATE_LIMITING']):
        A.require_same(A.attr(c, n), C(i), 'constants', n)
