"""External (standard library and third party) names the analysed code uses."""
import string as _string
import re as _re
import sys as _sys

from . import terms
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, LockV, FutV, ViewV, IterV, Tup, Func,
                   Wrapped, Bound, Native, Cls, BCls, Mod, Ext, SuperV, SliceV, CMGen, PyExc,
                   PathCut, Infeasible, Undecided, AnchorLost)
from .terms import (C, T, V, NONE, TRUE, FALSE, SPECS, ANY_TYPES, NUM, show, set_spec, s_cat,
                    s_parts)
from . import m_types as mt
from . import m_seq as ms
from . import m_str
from . import m_ops
from . import m_builtin as mb
from .m_types import INT, STR, BYTES, OBJECT, JSON, bcls, exc_class
from .m_seq import N

_EXC_NAMES = {
    'socket.error': 'OSError', 'socket.gaierror': 'socket.gaierror',
    'socket.herror': 'socket.herror', 'socket.timeout': 'TimeoutError',
    'struct.error': 'struct.error', 're.error': 're.error', 'binascii.Error': 'binascii.Error',
    'dataclasses.FrozenInstanceError': 'dataclasses.FrozenInstanceError', 'tornado.queues.QueueFull': 'tornado.queues.QueueFull',
    'tornado.queues.QueueEmpty': 'tornado.queues.QueueEmpty',
    'tornado.gen.TimeoutError': 'tornado.util.TimeoutError',
    'tornado.util.TimeoutError': 'tornado.util.TimeoutError',
    'tornado.ioloop.TimeoutError': 'tornado.util.TimeoutError',
    'tornado.gen.Return': 'tornado.gen.Return',
    'tornado.iostream.StreamClosedError': 'tornado.iostream.StreamClosedError',
    'tornado.httpclient.HTTPError': 'tornado.httpclient.HTTPError',
    'tornado.httpclient.HTTPClientError': 'tornado.httpclient.HTTPError',
    'asyncio.InvalidStateError': 'asyncio.InvalidStateError',
    'asyncio.CancelledError': 'asyncio.CancelledError',
    'concurrent.futures.CancelledError': 'asyncio.CancelledError',
    'asyncio.TimeoutError': 'TimeoutError',
    'json.JSONDecodeError': 'json.JSONDecodeError',
    'json.decoder.JSONDecodeError': 'json.JSONDecodeError',
    'queue.Full': 'queue.Full', 'queue.Empty': 'queue.Empty',
    'thrift.protocol.TProtocol.TProtocolException':
        'thrift.protocol.TProtocol.TProtocolException',
    'select.error': 'OSError', 'os.error': 'OSError',
}

# what sa/pylib/library.py gives as source
LIBRARY = {
    'types.SimpleNamespace': 'SimpleNamespace', 'collections.ChainMap': 'ChainMap',
    'contextlib.ExitStack': 'ExitStack', 'contextlib.closing': 'closing',
    'contextlib.nullcontext': 'nullcontext', 'functools.singledispatch': 'singledispatch',
    'functools.singledispatchmethod': 'singledispatchmethod',
    'functools.partialmethod': 'partialmethod', 'functools.total_ordering': 'total_ordering',
    'functools.cmp_to_key': 'cmp_to_key', 'bisect.bisect': 'bisect_right',
    'bisect.bisect_right': 'bisect_right', 'bisect.bisect_left': 'bisect_left',
    'bisect.insort': 'insort_right', 'bisect.insort_right': 'insort_right',
    'bisect.insort_left': 'insort_left', 'heapq.heapify': 'heapify', 'heapq.heappush': 'heappush',
    'heapq.heappop': 'heappop', 'struct.iter_unpack': 'iter_unpack', 'threading.Event': 'Event',
    'collections.UserDict': 'UserDict', 'types.MappingProxyType': 'MappingProxyType', 'collections.Counter': 'Counter',
}

_CONSTS = {
    'socket.AF_INET': 2, 'socket.AF_INET6': 10, 'socket.AF_UNSPEC': 0, 'socket.SOCK_STREAM': 1,
    'socket.SOCK_DGRAM': 2, 'socket.IPPROTO_UDP': 17, 'socket.IPPROTO_IP': 0, 'socket.SOL_UDP': 17,
    'sys.maxsize': _sys.maxsize, 'typing.TYPE_CHECKING': False, 'sys.byteorder': 'little',
    'sys.platform': 'linux', 'os.name': 'posix', 'os.sep': '/', 'sys.version': '3.12.3',
    'math.pi': 3.141592653589793, 'math.inf': float('inf'), 'sys.hexversion': 0x030c03f0,
    **{'string.' + n: getattr(_string, n) for n in (
        'hexdigits', 'digits', 'octdigits', 'ascii_letters', 'ascii_lowercase', 'ascii_uppercase',
        'punctuation', 'whitespace', 'printable')},
    **{'re.' + n: int(getattr(_re, n)) for n in (
        'I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U')},
    'tornado.version': '6.6',
    'logging.DEBUG': 10, 'logging.INFO': 20, 'logging.WARNING': 30, 'logging.ERROR': 40,
    'errno.EINTR': 4, 'errno.EAGAIN': 11,
}

_SELF_TYPED = {
    'builtins.object': 'object', 'typing.Dict': 'dict', 'typing.List': 'list',
    'typing.Tuple': 'tuple', 'typing.Set': 'set',
}


def ext(ip, name):
    if name in _EXC_NAMES:
        return exc_class(_EXC_NAMES[name])
    if name in _CONSTS:
        return C(_CONSTS[name])
    if name == 'sys.version_info':
        return Tup([C(3), C(12), C(3), C('final'), C(0)])
    if name in ('os.environ',):
        return environ(ip)
    if name.startswith('builtins.'):
        v = mb.builtin(ip, name.split('.', 1)[1])
        if v is not None:
            return v
    if name == 'six.moves.xrange':
        return mb.builtin(ip, 'range')
    if name in ('six.string_types',):
        return Tup([bcls('str')])
    if name in ('six.text_type',):
        return bcls('str')
    if name in ('six.binary_type',):
        return bcls('bytes')
    if name in ('six.integer_types',):
        return Tup([bcls('int')])
    if name in ('six.PY2',):
        return FALSE
    if name in ('six.PY3',):
        return TRUE
    if name in LIBRARY:
        return ip.loader.get('library').ns[LIBRARY[name]]
    if name == 'types.TracebackType':
        return bcls('traceback')
    if name in ('types.FunctionType', 'types.LambdaType'):
        return bcls('function')
    if name == 'types.NoneType':
        return bcls('NoneType')
    if name == 'collections.namedtuple':
        return Native('namedtuple', _namedtuple)
    if name == 'typing.TypedDict':
        return Native('TypedDict', lambda ip, a, kw: bcls('dict'))
    if name == 'typing.NamedTuple':
        return Native('NamedTuple', _namedtuple)
    if name in ('io.BytesIO', 'six.BytesIO', 'six.moves.cStringIO', 'cStringIO.StringIO'):
        return _BYTESIO
    if name == 'tornado.gen.moment':
        f = FutV('moment')
        f.state, f.value = 'done', NONE
        return f
    return Ext(name)


def environ(ip):
    if ip.env is None:
        ip.env = DictV(open=True, label=T('environ'), keytypes=STR, valtypes=STR)
    return ip.env


_BYTESIO = Native('BytesIO', lambda ip, a, kw: ByteArr(m_str.as_bytes(ip, a[0]) if a else C(b''),
                                                       io=True))


def _namedtuple(ip, a, kw):
    """collections.namedtuple(name, fields): a tuple class with named fields."""
    name = a[0].v
    spec = a[1]
    if isinstance(spec, C):
        fields = spec.v.replace(',', ' ').split()
    else:
        fields = []
        for x in ms.iterate(ip, spec, None):
            fields.append(x.v if isinstance(x, C) else x.items[0].v)
    c = Cls(name, [bcls('tuple')], ip.stack[-1].module if ip.stack else None, name)
    defaults = kw.get('defaults')
    dl = list(ms.iterate(ip, defaults, None)) if defaults is not None else []

    def new(ip, a, kw):
        cls, vals = a[0], list(a[1:])
        if len(vals) > len(fields):
            raise ip.exc('TypeError', 'too many arguments')
        for i, f in enumerate(fields[len(vals):], len(vals)):
            if f in kw:
                vals.append(kw[f])
            else:
                j = i - (len(fields) - len(dl))
                if j < 0:
                    raise ip.exc('TypeError', 'missing argument %r' % f)
                vals.append(dl[j])
        bad = set(kw) - set(fields)
        if bad:
            raise ip.exc('TypeError', 'unexpected argument %r' % sorted(bad)[0])
        return Tup(vals, nt=cls)
    c.ns['__new__'] = Wrapped('staticmethod', Native('%s.__new__' % name, new))
    c.ns['_fields'] = Tup([C(f) for f in fields])
    c.ns['_make'] = Wrapped('classmethod', Native('_make', lambda ip, a, kw: ip.call(
        a[0], ms.iterate(ip, a[1], None))))
    c.ns['_field_defaults'] = DictV([(C(f), v) for f, v in zip(fields[len(fields) - len(dl):], dl)])
    return c


# ------------------------------------------------------------------------ random and time

def rnd_int(ip, what, lo, hi, args=()):
    n = ip.fresh('rnd')
    if ip.draw is not None:
        t = C(ip.draw(what, lo, hi))
    else:
        t = T('rnd', what, lo, hi, n)
        set_spec(t, 'int', lo=lo, hi=hi)
    e = ip.event('rng', what, None, args)
    e.result = t
    return t


def rnd_float(ip, what, lo, hi):
    n = ip.fresh('rndf')
    if ip.draw is not None:
        t = C(ip.draw(what, lo, hi))
    else:
        t = T('rndf', what, lo, hi, n)
        set_spec(t, 'float', lo=lo, hi=hi)
    e = ip.event('rng', what, None, ())
    e.result = t
    return t


def x_getrandbits(ip, a, kw):
    k = ip.norm(a[0]) if isinstance(a[0], T) else a[0]
    if not isinstance(k, C):
        k = ip.resolve(k)
    if not isinstance(k, C):
        raise Undecided('getrandbits(%s)' % show(k))
    return rnd_int(ip, 'getrandbits', 0, (1 << k.v) - 1, [k])


def x_randint(ip, a, kw):
    lo, hi = [ip.rng(x) for x in a[:2]]
    return rnd_int(ip, 'randint', lo[0], hi[1], a)


def x_randrange(ip, a, kw):
    if len(a) == 1:
        hi = ip.rng(a[0])[1]
        return rnd_int(ip, 'randrange', 0, None if hi is None else hi - 1, a)
    hi = ip.rng(a[1])[1]
    return rnd_int(ip, 'randrange', ip.rng(a[0])[0], None if hi is None else hi - 1, a)


def x_random(ip, a, kw):
    return rnd_float(ip, 'random', 0, 1)


def x_uniform(ip, a, kw):
    return m_ops.binop(ip, 'Add', a[0], m_ops.binop(
        ip, 'Mult', m_ops.binop(ip, 'Sub', a[1], a[0]), rnd_float(ip, 'random', 0, 1)))


RANDOM = {'getrandbits': x_getrandbits, 'randint': x_randint, 'randrange': x_randrange,
          'random': x_random, 'uniform': x_uniform,
          'seed': lambda ip, a, kw: NONE}


def random_attr(ip, o, name):
    f = RANDOM.get(name)
    return N('Random.' + name, f) if f else None


mb.INST_ATTR['random.Random'] = random_attr


def x_time(ip, a, kw):
    n = ip.fresh('now')
    t = T('now', n)
    lo = 1
    set_spec(t, 'float', lo=lo, hi=2 ** 43)
    if ip.monotonic and n > 1:
        if not ip.cmp_num(t, '>=', T('now', n - 1)):
            raise Infeasible()
    e = ip.event('call', 'time.time', None, ())
    e.result = t
    return t


# ------------------------------------------------------------------------ json, urllib, struct

def x_json_loads(ip, a, kw):
    s = a[0]
    if isinstance(s, T):
        s = ip.resolve(s)
    if isinstance(s, C) and isinstance(s.v, (str, bytes)):
        import json
        try:
            return m_str.from_py(json.loads(s.v))
        except ValueError:
            raise ip.exc('json.JSONDecodeError', 'json')
    if isinstance(s, ByteArr):
        s = s.val
    if not isinstance(s, (C, T)):
        raise ip.exc('TypeError', 'the JSON object must be str, bytes or bytearray')
    ts = ip.types(s)
    ok = STR | BYTES
    if not ts & ok or (ts != ts & ok and not ip.decide_type(s, ok)):
        raise ip.exc('TypeError', 'the JSON object must be str, bytes or bytearray')
    if ip.types(s) & BYTES and not ip.atom(('utf8', s), '%s is valid utf-8' % show(s)):
        raise ip.exc('UnicodeDecodeError', 'utf-8')
    if not ip.atom(('json', s), '%s is valid JSON' % show(s)):
        raise ip.exc('json.JSONDecodeError', T('msg', 'json'))
    t = T('json', s)
    set_spec(t, JSON, valtypes='json', keytypes=STR)
    e = ip.event('call', 'json.loads', None, [s])
    e.result = t
    return t


def x_json_dumps(ip, a, kw):
    ok, v = m_str.plain(a[0])
    opts = {k: m_str.plain(x) for k, x in kw.items()}
    if ok and all(x[0] for x in opts.values()):
        import json
        try:
            return C(json.dumps(v, **{k: x[1] for k, x in opts.items()}))
        except (TypeError, ValueError) as e:
            raise ip.exc(type(e).__name__, str(e))
    t = T('jsondump', a[0] if isinstance(a[0], (C, T)) else T('obj', a[0]))
    set_spec(t, 'str')
    return t


def _quoting(ip, fn, names, defaults, a, kw):
    """The text and the options that differ from the defaults; None for options not known."""
    args = dict(zip(names, a))
    args.update(kw)
    text = args.pop('string', args.pop('', None))
    opts = []
    for n, d in zip(names[1:], defaults):
        v = args.get(n)
        if isinstance(v, T):
            v = ip.norm(ip.resolve(v))
        if v is None or isinstance(v, C) and (v.v in d if isinstance(v.v, str) or v.v is None
                                              else False):
            opts.append(None)
        elif isinstance(v, C) and isinstance(v.v, (str, bytes)):
            opts.append(v.v if isinstance(v.v, str) else v.v.decode('latin-1'))
        else:
            raise Undecided('%s() with options not known' % fn)
    if isinstance(text, T):
        text = ip.resolve(text)
    if not isinstance(text, (C, T)) or isinstance(text, C) and not isinstance(text.v, (str, bytes)) \
            or isinstance(text, T) and not ip.decide_type(text, STR | BYTES):
        raise ip.exc('TypeError', '%s() wants a string' % fn)
    return text, opts


def _quote(fn):
    import urllib.parse as up

    def run(ip, a, kw):
        safe = '/' if fn == 'quote' else ''
        v, opts = _quoting(ip, fn, ('string', 'safe', 'encoding', 'errors'),
                           ((), (None, 'utf-8', 'UTF-8', 'utf8'), (None, 'strict')), a, kw)
        if opts[0] is not None:
            safe = ''.join(sorted(set(c for c in opts[0] if ord(c) < 128 and not c.isalnum()
                                      and c not in '_.-~')))
        if isinstance(v, C):
            if isinstance(v.v, bytes) and opts[1:] != [None, None]:
                raise ip.exc('TypeError', 'quote() does not support encoding for bytes')
            try:
                return C(getattr(up, fn)(v.v, safe, *[o for o in opts[1:]]))
            except UnicodeEncodeError:
                raise ip.exc('UnicodeEncodeError', T('msg', fn))
        if isinstance(v, T) and v.op in ('fmt', 'zfill', 'hex') and _digits(v):
            return v
        extra = [o or '' for o in opts[1:]] if any(opts[1:]) else []
        if safe != ('/' if fn == 'quote' else '') or extra:
            extra = [safe] + extra
        t = T(fn, v, *[C(x) for x in extra])
        set_spec(t, 'str', stripped=not set(safe) & set(' \t\r\n'),
                 without=''.join(c for c in ' ,=:' if c not in safe))
        return t
    return run


x_quote, x_quote_plus = _quote('quote'), _quote('quote_plus')


def _unquote(fn):
    import urllib.parse as up

    def run(ip, a, kw):
        v, opts = _quoting(ip, fn, ('string', 'encoding', 'errors'),
                           (('utf-8', 'UTF-8', 'utf8'), ('replace',)), a, kw)
        if isinstance(v, C):
            if isinstance(v.v, bytes) and fn == 'unquote_plus':
                raise ip.exc('TypeError', "a bytes-like object is required, not 'str'")
            return C(getattr(up, fn)(v.v, opts[0] or 'utf-8', opts[1] or 'replace'))
        if v.op in ('quote', 'quote_plus') and not any(opts) and len(v.args) <= 2:
            safe = v.args[1].v if len(v.args) > 1 else '/' if v.op == 'quote' else ''
            plus = v.op == 'quote_plus'
            if '%' not in safe and not (plus and fn == 'unquote') and not (
                    fn == 'unquote_plus' and '+' in safe) and ip.decide_type(v.args[0], STR):
                return v.args[0]
        # text without a '%' is left alone
        if ip.types(v) <= STR and all(_plain(p, '+' * (fn != 'unquote')) for p in s_parts(v)):
            return v
        t = T(fn, v, *[C(o or '') for o in opts] if any(opts) else [])
        set_spec(t, 'str')
        return t
    return run


x_unquote, x_unquote_plus = _unquote('unquote'), _unquote('unquote_plus')


def _digits(t):
    """Text of a number that quoting leaves as it is."""
    if t.op == 'zfill':
        return isinstance(t.args[0], T) and t.args[0].op in ('fmt', 'zfill', 'hex') and _digits(t.args[0])
    return t.op == 'hex' or t.args[0] in ('d', 'x')


def _plain(p, also=''):
    if isinstance(p, C):
        return isinstance(p.v, str) and not any(c in p.v for c in '%' + also)
    if isinstance(p, T) and p.op in ('fmt', 'zfill', 'hex'):
        return True
    sp = SPECS.get(p)
    return sp is not None and all(c in sp.extra.get('without', '') for c in '%' + also)


def x_struct_pack(ip, a, kw):
    return m_str.struct_pack(ip, _fmt(ip, a[0]), a[1:])


def x_struct_unpack(ip, a, kw):
    return m_str.struct_unpack(ip, _fmt(ip, a[0]), m_str.as_bytes(ip, a[1]))


def x_struct_unpack_from(ip, a, kw):
    off = a[2] if len(a) > 2 else kw.get('offset', C(0))
    buf = a[1] if len(a) > 1 else kw['buffer']
    return m_str.struct_unpack(ip, _fmt(ip, a[0]), m_str.as_bytes(ip, buf), off, exact=False)


def x_struct_pack_into(ip, a, kw):
    raise Undecided('struct.pack_into')


def _fmt(ip, f):
    f = ip.resolve(f) if isinstance(f, T) else f
    if not isinstance(f, C):
        raise Undecided('struct format is not constant')
    return f


def struct_attr(ip, o, name):
    fmt = o.attrs.get('format')
    if name == 'pack':
        return N('Struct.pack', lambda ip, a, kw: m_str.struct_pack(ip, _fmt(ip, fmt), a))
    if name == 'unpack':
        return N('Struct.unpack', lambda ip, a, kw: m_str.struct_unpack(
            ip, _fmt(ip, fmt), m_str.as_bytes(ip, a[0])))
    if name == 'unpack_from':
        return N('Struct.unpack_from', lambda ip, a, kw: x_struct_unpack_from(
            ip, [fmt] + list(a), kw))
    if name == 'size':
        return C(m_str.struct_size(ip, _fmt(ip, fmt)))
    return None


mb.INST_ATTR['struct.Struct'] = struct_attr


def x_struct_struct(ip, a, kw):
    i = Inst(bcls('struct.Struct'))
    i.attrs['format'] = a[0]
    return i


def x_format_tb(ip, a, kw):
    t = T('format_tb', a[0] if isinstance(a[0], (C, T)) else T('obj', a[0]), *[
        x for x in a[1:] if isinstance(x, (C, T))])
    return ListV(open=True, label=t, valtypes=STR)
