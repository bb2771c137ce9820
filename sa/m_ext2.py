"""Calls of external functions, opaque objects, decorators and the tornado queue."""
from . import terms
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, LockV, FutV, CoroV, StarKey, kwkey, ViewV, IterV, Tup, Func,
                   Endless, Wrapped, Bound, Native, Cls, BCls, Mod, Ext, SuperV, SliceV, CMGen, PyExc,
                   PathCut, Infeasible, Undecided, AnchorLost)
from .terms import C, T, V, NONE, TRUE, FALSE, SPECS, show, set_spec
from . import m_types as mt
from . import m_seq as ms
from . import m_str
from . import m_ops
from . import m_builtin as mb
from . import m_ext as mx
from . import m_class
from . import m_re
from .m_types import INT, STR, BYTES, OBJECT, bcls, exc_class
from .m_seq import N


def new_ext(ip, name, a, kw):
    """An instance of an external class."""
    e = ip.event('call', name, None, a, kw)
    ip.maybe_fail(name, e)
    t = T('new', name, ip.fresh('new:' + name))
    set_spec(t, OBJECT, cls=Ext(name))
    e.result = t
    return t


def x_lock(re):
    def f(ip, a, kw):
        l = LockV(re)
        l.site = ip.where()
        return l
    return f


def x_is_future(ip, a, kw):
    v = ip.resolve(a[0]) if isinstance(a[0], T) else a[0]
    if isinstance(v, T):
        return C(ip.atom(('is future', v), '%s is a future' % show(v)))
    return C(isinstance(v, FutV))


def x_awaitable(ip, a, kw):
    if isinstance(a[0], (FutV, CoroV)):
        return TRUE
    return x_is_future(ip, a, kw)


def x_task(ip, a, kw):
    v = a[0]
    if isinstance(v, FutV):
        return v
    if not isinstance(v, CoroV):
        raise ip.exc('TypeError', 'An asyncio.Future, a coroutine or an awaitable is required')
    if ip.sched is None:
        return ip.start(v)
    f = FutV(v.label)
    ip.sched.push(lambda: _chain(ip, ip.start(v), f))
    return f


def _chain(ip, a, b):
    def done(ip, args, kw):
        mb.fut_settle(ip, b, a.state, a.value)
        return NONE
    if a.state == 'pending':
        ip.call(ip.getattr(a, 'add_done_callback'), [Native('chain', done)])
    else:
        done(ip, [], {})


def x_convert(ip, a, kw):
    v = a[0]
    if isinstance(v, CoroV):
        return x_task(ip, [v], {})
    if isinstance(v, FutV):
        return v
    if isinstance(v, (ListV, Tup, DictV)):
        raise Undecided('convert_yielded of a container')
    if ip.is_none(v):
        return mb.maybe_future(ip, NONE)
    raise ip.exc('tornado.gen.BadYieldError', 'yielded unknown object')


def x_future(ip, a, kw):
    return FutV('future made at %s' % ip.where())


def x_getlogger(ip, a, kw):
    n = a[0] if a else C('root')
    t = T('logger', n if isinstance(n, (C, T)) else C('?'))
    return set_spec(t, OBJECT)


def x_getenv(ip, a, kw):
    d = mx.environ(ip)
    got = ms.dict_find(ip, d, a[0])
    if got is None:
        return a[1] if len(a) > 1 else kw.get('default', NONE)
    return got


def x_urlencode(ip, a, kw):
    """k=v&k=v of a dict or of pairs, quoted."""
    q = a[0] if a else kw['query']
    if isinstance(q, T):
        q = mb._objview(ip, q)
    if isinstance(q, DictV):
        if q.open:
            raise Undecided('urlencode of an unknown dict')
        pairs = [tuple(e) for e in q.entries]
    else:
        pairs = []
        for e in list(ms.iterate(ip, q, None)):
            e = list(ms.iterate(ip, e, None))
            if len(e) != 2:
                raise ip.exc('ValueError', 'not enough values to unpack')
            pairs.append(tuple(e))
    out = []
    for i, kv in enumerate(pairs):
        for j, x in enumerate(kv):
            if isinstance(x, T):
                x = ip.norm(x)
            if not (isinstance(x, (C, T)) and ip.types(x) <= frozenset(['str', 'bytes'])):
                x = m_str.to_str(ip, x)
            out += ['' if not out else '&' if j == 0 else '=', mx.x_quote_plus(ip, [x], {})]
    return terms.s_cat([C(x) if isinstance(x, str) else x for x in out]) if out else C('')


def x_url_concat(ip, a, kw):
    url = a[0] if a else kw['url']
    q = a[1] if len(a) > 1 else kw['args']
    if q is NONE:
        return url
    if isinstance(url, C):
        import urllib.parse as up
        try:
            u = up.urlparse(url.v)
        except ValueError as e:
            raise ip.exc('ValueError', str(e))
        if u.query or u.fragment or up.urlunparse(u) != url.v:
            raise Undecided('url_concat with a url that has a query')
    elif any(isinstance(x, C) and set(str(x.v)) & set('?#;') for x in (
            url.args[0] if url.op == 'scat' else ())):
        raise Undecided('url_concat of this url')
    q = x_urlencode(ip, [q], {})
    if isinstance(q, C) and not q.v:
        return url
    return terms.s_cat([url, C('?'), q])


def x_copy(ip, a, kw):
    v = a[0]
    if isinstance(v, T):
        v = mb._objview(ip, v)
    if isinstance(v, DictV):
        ip.event('iter', 'copy', v)
        return ms.copy_dict(ip, v)
    if isinstance(v, ListV):
        ip.event('iter', 'copy', v)
        return ms.copy_list(ip, v)
    if isinstance(v, SetV):
        return SetV(v.items)
    if isinstance(v, ByteArr):
        return ByteArr(v.val)
    if isinstance(v, Inst):
        got = ip.class_lookup(v.cls, '__copy__') if isinstance(v.cls, Cls) else None
        if got is not None:
            return ip.call(ip.bind(got[0], v, v.cls), [])
        i = Inst(v.cls, v.label)
        i.attrs = dict(v.attrs)
        return i
    if isinstance(v, (C, Tup, Func, Cls, BCls)):
        return v
    if isinstance(v, T):
        if not ip.types(v) & OBJECT:
            return v
        t = T('copyof', v, ip.fresh('copyof'))
        set_spec(t, ip.types(v))
        return t
    raise Undecided('copy of %r' % (v,))


def x_deepcopy(ip, a, kw, memo=None):
    memo = {} if memo is None else memo
    v = a[0]
    if isinstance(v, T):
        v = mb._objview(ip, v)
    if id(v) in memo:
        return memo[id(v)]
    n = x_copy(ip, [v], kw)
    memo[id(v)] = n
    if isinstance(n, DictV) and n is not v:
        n.entries = [[k, x_deepcopy(ip, [x], kw, memo)] for k, x in n.entries]
    elif isinstance(n, ListV) and n is not v:
        n.items = [x_deepcopy(ip, [x], kw, memo) for x in n.items]
    elif isinstance(n, Inst) and n is not v:
        n.attrs = {k: x_deepcopy(ip, [x], kw, memo) for k, x in n.attrs.items()}
    return n


def x_partial(ip, a, kw):
    f, pre = a[0], list(a[1:])
    pk = dict(kw)

    def run(ip, a, kw):
        k = dict(pk)
        k.update(kw)
        return ip.call(f, pre + list(a), k)
    return Native('partial', run)


def x_suppress(ip, a, kw):
    i = Inst(bcls('contextlib.suppress'))
    i.attrs['excs'] = Tup(a)
    return i


def x_defaultdict(ip, a, kw):
    d = mb.call_bcls(ip, bcls('dict'), list(a[1:]), kw)
    if a and not (isinstance(a[0], C) and a[0].v is None):
        d.default = a[0]
    return d


def x_deque(ip, a, kw):
    m = a[1] if len(a) > 1 else kw.get('maxlen', NONE)
    if m is not NONE:
        lib = ip.loader.get('library').ns['deque']
        return ip.call(lib, list(a[:1]), {'maxlen': m})
    return mb.call_bcls(ip, bcls('list'), list(a[:1]), {})


def x_local(ip, a, kw):
    return Inst(bcls('threading.local'))


def x_hostname(ip, a, kw):
    e = ip.event('call', 'socket.gethostname', None, a)
    ip.maybe_fail('socket.gethostname', e)
    return set_spec(T('hostname'), STR)


def x_randcls(ip, a, kw):
    i = Inst(bcls('random.Random'), 'rng made at %s' % ip.where())
    ip.event('call', 'random.Random', None, a)
    return i


def x_itemgetter(ip, a, kw):
    keys = list(a)
    if len(keys) == 1:
        return Native('itemgetter', lambda ip, b, kw: ms.getitem(ip, b[0], keys[0]))
    return Native('itemgetter', lambda ip, b, kw: Tup([ms.getitem(ip, b[0], k) for k in keys]))


def x_attrgetter(ip, a, kw):
    names = list(a)

    def one(ip, v, path):
        for n in path.v.split('.'):
            v = ip.getattr(v, n)
        return v
    if len(names) == 1:
        return Native('attrgetter', lambda ip, b, kw: one(ip, b[0], names[0]))
    return Native('attrgetter', lambda ip, b, kw: Tup([one(ip, b[0], n) for n in names]))


def x_methodcaller(ip, a, kw):
    name, rest, k = a[0].v, list(a[1:]), {n: kw[n] for n in list(kw)}
    return Native('methodcaller', lambda ip, b, kw: ip.call(ip.getattr(b[0], name), rest, k))


def x_hexlify(ip, a, kw):
    v = m_str.as_bytes(ip, a[0])
    if not isinstance(v, C):
        t = T('hexlify', v)
        return set_spec(t, 'bytes')
    import binascii
    return C(binascii.hexlify(v.v))


def x_unhexlify(ip, a, kw):
    v = a[0] if isinstance(a[0], C) else m_str.as_bytes(ip, a[0])
    if not isinstance(v, C):
        raise Undecided('unhexlify')
    import binascii
    try:
        return C(binascii.unhexlify(v.v))
    except (ValueError, TypeError) as e:
        raise ip.exc('binascii.Error', str(e))


def lazy(f):
    """An itertools function from a Python generator over the values."""
    return lambda ip, a, kw: IterV(gen=f(ip, list(a), dict(kw)))


def i_chain(ip, a, kw):
    for s in a:
        for x in ip.live(s, None):
            yield x


def i_chain_from(ip, a, kw):
    for s in ip.live(a[0], None):
        for x in ip.live(s, None):
            yield x


def i_islice(ip, a, kw):
    lo, hi, step = C(0), a[1], C(1)
    if len(a) > 2:
        lo, hi = a[1:3]
    if len(a) > 3:
        step = a[3]
    lo = C(0) if ip.is_none(lo) else lo
    step = C(1) if ip.is_none(step) else step
    if not isinstance(lo, C) or not isinstance(step, C):
        raise Undecided('islice')
    it = ip.live(a[0], None)
    i = 0
    while ip.is_none(hi) or ip.cmp_num(hi, '>', C(i)):
        x = next(it, None)
        if x is None:
            return
        if i >= lo.v and (i - lo.v) % step.v == 0:
            yield x
        i += 1


def x_count(ip, a, kw):
    start = a[0] if a else kw.get('start', C(0))
    step = a[1] if len(a) > 1 else kw.get('step', C(1))
    return IterV(Endless(lambda i: m_ops.binop(ip, 'Add', start, m_ops.binop(ip, 'Mult', step, C(i)))))


def x_repeat(ip, a, kw):
    v = a[0] if a else kw['object']
    n = a[1] if len(a) > 1 else kw.get('times')
    if n is None:
        return IterV(Endless(lambda i: v))
    return IterV(gen=(v for _ in ip.live(mb.f_range(ip, [n], {}), None)))


def x_cycle(ip, a, kw):
    items = ms.iterate(ip, a[0], None)
    return IterV(Endless(lambda i: items[i % len(items)]) if items else [])


def i_takewhile(ip, a, kw):
    for x in ip.live(a[1], None):
        if not ip.truth(ip.call(a[0], [x])):
            return
        yield x


def i_dropwhile(ip, a, kw):
    on = False
    for x in ip.live(a[1], None):
        on = on or not ip.truth(ip.call(a[0], [x]))
        if on:
            yield x


def i_filterfalse(ip, a, kw):
    for x in ip.live(a[1], None):
        if not ip.truth(x if (isinstance(a[0], C) and a[0].v is None) else ip.call(a[0], [x])):
            yield x


def i_starmap(ip, a, kw):
    for x in ip.live(a[1], None):
        yield ip.call(a[0], ms.iterate(ip, x, None))


def i_compress(ip, a, kw):
    for x, on in mb.together(ip, a):
        if ip.truth(on):
            yield x


def i_zip_longest(ip, a, kw):
    its = [ip.live(x, None) for x in a]
    fill = kw.get('fillvalue', NONE)
    while True:
        row = [next(i, None) for i in its]
        if all(x is None for x in row):
            return
        yield Tup([fill if x is None else x for x in row])


def i_accumulate(ip, a, kw):
    f = a[1] if len(a) > 1 else kw.get('func', NONE)
    acc = kw.get('initial')
    if acc is not None:
        yield acc
    for x in ip.live(a[0], None):
        if acc is None:
            acc = x
        else:
            acc = m_ops.binop(ip, 'Add', acc, x) if f is NONE else ip.call(f, [acc, x])
        yield acc


def i_pairwise(ip, a, kw):
    last = None
    for x in ip.live(a[0], None):
        if last is not None:
            yield Tup([last, x])
        last = x


def i_batched(ip, a, kw):
    n = a[1] if len(a) > 1 else kw['n']
    row = []
    for x in ip.live(a[0], None):
        row.append(x)
        if ip.cmp_num(n, '<=', C(len(row))):
            yield Tup(row)
            row = []
    if row:
        yield Tup(row)


def i_product(ip, a, kw):
    import itertools
    if kw:
        raise Undecided('product')
    for x in itertools.product(*[ms.iterate(ip, y, None) for y in a]):
        yield Tup(x)


def i_groupby(ip, a, kw):
    f = a[1] if len(a) > 1 else kw.get('key', NONE)
    key, row = None, []
    for x in ip.live(a[0], None):
        k = x if f is NONE else ip.call(f, [x])
        if key is not None and not mt.eq(ip, k, key):
            yield Tup([key, IterV(row)])
            row = []
        key = k
        row.append(x)
    if key is not None:
        yield Tup([key, IterV(row)])


def x_tee(ip, a, kw):
    items = ms.iterate(ip, a[0], None)
    n = a[1].v if len(a) > 1 else 2
    return Tup([IterV(items) for _ in range(n)])


ITERTOOLS = {
    'count': x_count, 'repeat': x_repeat, 'cycle': x_cycle, 'tee': x_tee,
    'chain': lazy(i_chain), 'chain.from_iterable': lazy(i_chain_from), 'islice': lazy(i_islice),
    'takewhile': lazy(i_takewhile), 'dropwhile': lazy(i_dropwhile),
    'filterfalse': lazy(i_filterfalse), 'starmap': lazy(i_starmap), 'compress': lazy(i_compress),
    'zip_longest': lazy(i_zip_longest), 'accumulate': lazy(i_accumulate),
    'pairwise': lazy(i_pairwise), 'batched': lazy(i_batched), 'product': lazy(i_product),
    'groupby': lazy(i_groupby),
}


def x_reduce(ip, a, kw):
    it = ip.live(a[1], None)
    acc = a[2] if len(a) > 2 else next(it, None)
    if acc is None:
        raise ip.exc('TypeError', 'reduce() of empty iterable with no initial value')
    for x in it:
        acc = ip.call(a[0], [acc, x])
    return acc


def x_exc_info(ip, a, kw):
    cur = ip.excstack[-1] if ip.excstack else None
    if cur is None:
        return Tup([NONE, NONE, NONE])
    return Tup([cur.cls, cur, set_spec(T('tb', cur), 'traceback')])


def x_cache(ip, a, kw):
    if a and not isinstance(a[0], (C, T)):
        return Wrapped('lru_cache', a[0])
    return N('lru_cache', lambda ip, b, k: Wrapped('lru_cache', b[0]))


def x_wraps(ip, a, kw):
    orig = a[0]

    def wraps(ip, b, kw):
        f = b[0]
        if isinstance(f, Func):
            for n in ('__name__', '__qualname__', '__module__'):
                try:
                    f.attrs[n] = ip.getattr(orig, n)
                except PyExc:
                    pass
            f.attrs['__wrapped__'] = orig
        return f
    return Native('wraps', wraps)


def x_ident(ip, a, kw):
    return a[-1]


def x_wall_ns(ip, a, kw):
    t = mx.x_time(ip, [], {})
    r = T('int', terms.t_mul(t, C(10 ** 9)))
    return set_spec(r, 'int')


def _mono(ip, a, kw):
    t = T('mono', ip.fresh('mono'))
    set_spec(t, 'float', lo=0)
    return t


def x_floor(ip, a, kw):
    v = mt.as_num(ip, a[0], 'floor')
    return m_ops.binop(ip, 'FloorDiv', v, C(1)) if isinstance(v, T) else C(int(v.v // 1))


def x_isnan(ip, a, kw):
    v = mt.as_num(ip, a[0], 'isnan')
    if isinstance(v, C):
        return C(v.v != v.v)
    return FALSE


def x_set_global_tracer(ip, a, kw):
    return None


TABLE = {
    'threading.Lock': x_lock(False), 'threading.RLock': x_lock(True),
    '_thread.allocate_lock': x_lock(False), 'multiprocessing.Lock': x_lock(False),
    'threading.local': x_local,
    'tornado.concurrent.Future': x_future, 'asyncio.Future': x_future,
    'concurrent.futures.Future': x_future,
    'tornado.gen.is_future': x_is_future, 'tornado.concurrent.is_future': x_is_future,
    'asyncio.isfuture': x_is_future, 'inspect.isawaitable': x_awaitable,
    'asyncio.iscoroutine': lambda ip, a, kw: C(isinstance(a[0], CoroV)),
    'inspect.iscoroutine': lambda ip, a, kw: C(isinstance(a[0], CoroV)),
    'asyncio.ensure_future': x_task, 'asyncio.create_task': x_task,
    'tornado.gen.maybe_future': lambda ip, a, kw: mb.maybe_future(ip, a[0]),
    'tornado.gen.convert_yielded': x_convert,
    'random.Random': x_randcls, 'random.SystemRandom': x_randcls,
    'time.time': mx.x_time, 'time.monotonic': _mono, 'time.perf_counter': _mono,
    'time.time_ns': x_wall_ns,
    'json.loads': mx.x_json_loads, 'json.dumps': mx.x_json_dumps,
    'os.getenv': x_getenv, 'os.environ.get': x_getenv,
    'os.getpid': lambda ip, a, kw: set_spec(T('pid'), 'int', lo=1),
    'logging.getLogger': x_getlogger,
    'urllib.parse.quote': mx.x_quote, 'urllib.parse.unquote': mx.x_unquote,
    'urllib.parse.quote_plus': mx.x_quote_plus, 'urllib.parse.unquote_plus': mx.x_unquote_plus,
    'struct.pack': mx.x_struct_pack, 'struct.unpack': mx.x_struct_unpack,
    'struct.unpack_from': mx.x_struct_unpack_from, 'struct.pack_into': mx.x_struct_pack_into,
    'struct.calcsize': lambda ip, a, kw: C(m_str.struct_size(ip, mx._fmt(ip, a[0]))),
    'struct.Struct': mx.x_struct_struct,
    'traceback.format_tb': mx.x_format_tb,
    'copy.copy': x_copy, 'copy.deepcopy': x_deepcopy,
    'functools.lru_cache': x_cache, 'functools.cache': x_cache,
    'functools.partial': x_partial, 'functools.wraps': x_wraps, 'functools.reduce': x_reduce,
    'six.wraps': x_wraps,
    'contextlib.suppress': x_suppress,
    'collections.defaultdict': x_defaultdict,
    'collections.OrderedDict': lambda ip, a, kw: mb.call_bcls(ip, bcls('dict'), a, kw),
    'collections.deque': x_deque,
    'typing.cast': x_ident, 'typing.TypeVar': lambda ip, a, kw: Ext('typing.Any'),
    'socket.gethostname': x_hostname,
    'operator.methodcaller': x_methodcaller, 'binascii.hexlify': x_hexlify,
    'binascii.b2a_hex': x_hexlify, 'binascii.unhexlify': x_unhexlify,
    'dataclasses.dataclass': m_class.x_dataclass, 'dataclasses.field': m_class.x_field,
    'dataclasses.replace': m_class.x_replace, 'dataclasses.asdict': m_class.x_asdict,
    'dataclasses.astuple': m_class.x_astuple, 'dataclasses.fields': m_class.x_fields,
    'operator.itemgetter': x_itemgetter, 'operator.attrgetter': x_attrgetter,
    'sys.exc_info': x_exc_info,
    'math.floor': x_floor, 'math.isnan': x_isnan, 'math.isinf': x_isnan,
    'sys.intern': x_ident, 'six.text_type': lambda ip, a, kw: m_str.to_str(ip, a[0]),
    'six.iteritems': lambda ip, a, kw: ip.call(ip.getattr(a[0], 'items'), []),
    'tornado.queues.Queue': None,
    'urllib.parse.urlencode': x_urlencode, 'tornado.httputil.url_concat': x_url_concat,
}

TABLE.update(m_re.TABLE)
for _n, _f in ITERTOOLS.items():
    TABLE['itertools.' + _n] = _f

# modules whose functions depend on nothing but their arguments
PURE = ('itertools', 'functools', 'collections', 'operator', 're', 'string', 'math', 'cmath',
        'binascii', 'base64', 'textwrap', 'heapq', 'bisect', 'ipaddress', 'codecs', 'contextlib',
        'types', 'abc', 'weakref', 'copy', 'numbers', 'decimal', 'fractions', 'array', 'hashlib',
        'zlib', 'enum', 'dataclasses', 'typing', 'inspect', 'struct', 'json', 'unicodedata',
        'urllib', 'html', 'ast', 'operator', 'statistics', 'keyword', 'string', 'zoneinfo',
        'datetime', 'calendar', 'six', 'future', 'colorsys', 'difflib', 'pprint', 'reprlib')


# computed by the library itself when every argument is known
FOLD = {'math': '*', 'binascii': '*', 'base64': '*', 'zlib': ('crc32', 'adler32'),
        'urllib.parse': '*', 'posixpath': '*', 'textwrap': '*', 'string': ('capwords',),
        'html': '*', 'unicodedata': '*', 'statistics': '*', 'keyword': ('iskeyword',)}


def _fold(ip, name, a, kw):
    mod, _, fn = name.rpartition('.')
    if mod == 'os.path':
        if fn not in ('join', 'basename', 'dirname', 'split', 'splitext', 'normpath'):
            return None
        mod = 'posixpath'
    ok = FOLD.get(mod)
    if ok is None or ok != '*' and fn not in ok:
        return None
    import importlib
    f = getattr(importlib.import_module(mod), fn, None)
    if not callable(f) or isinstance(f, type):
        return None
    vals = [m_str.plain(ip.resolve(x) if isinstance(x, T) else x) for x in a]
    kws = {k: m_str.plain(ip.resolve(kw[k]) if isinstance(kw[k], T) else kw[k]) for k in list(kw)}
    if not all(v[0] for v in vals) or not all(v[0] for v in kws.values()):
        return None
    try:
        r = f(*[v[1] for v in vals], **{k: v[1] for k, v in kws.items()})
    except Exception as e:
        raise ip.exc(type(e).__name__, str(e))
    if not isinstance(r, (str, bytes, int, float, bool, tuple, list, dict, type(None))) or \
            type(r) not in (str, bytes, int, float, bool, tuple, list, dict, type(None)):
        return None
    return m_str.from_py(r)


def call_ext(ip, name, a, kw):
    for pat, h in reversed(ip.hooks):
        if pat == name or (callable(pat) and pat(name)):
            e = ip.event('call', name, None, a, kw)
            e.result = h(ip, a, kw)
            return e.result
    f = TABLE.get(name)
    if f is not None:
        return f(ip, a, kw)
    if name == 'tornado.queues.Queue':
        return make_queue(ip, a, kw)
    if name.startswith('random.') and name.split('.', 1)[1] in mx.RANDOM:
        return mx.RANDOM[name.split('.', 1)[1]](ip, a, kw)
    if name.startswith('operator.'):
        r = _operator(ip, name.split('.', 1)[1], a)
        if r is not None:
            return r
    if name.startswith('typing.') or name == 'Ellipsis':
        return Ext(name)
    if name.startswith(('tornado.gen.', 'asyncio.', 'concurrent.')) and name not in PLAIN:
        raise Undecided('no model of %s' % name)
    folded = _fold(ip, name, a, kw)
    if folded is not None:
        return folded
    last = name.rsplit('.', 1)[-1]
    pure = name.split('.', 1)[0] in PURE
    if pure and (last[:1].isupper() or last in ('array', 'deque', 'defaultdict')):
        raise Undecided('no model of %s' % name)
    if last[:1].isupper() or name in ('socket.socket',):
        return new_ext(ip, name, a, kw)
    e = ip.event('call', name, None, a, kw)
    ip.maybe_fail(name, e)
    t = T('res', name, ip.fresh('res:' + name))
    ts = RESULT_TYPES.get(name)
    if ts is not None:
        set_spec(t, ts)
    elif name not in PLAIN:
        ip.imprecise.append('result of %s' % name)
        if pure:
            ip.guesses.append(show(t))
    e.result = t
    return t


PLAIN = ('atexit.register', 'warnings.warn', 'time.sleep', 'tornado.gen.sleep')

RESULT_TYPES = {
    'socket.gethostbyname': STR, 'socket.inet_ntoa': STR,
    'os.path.join': STR, 'traceback.format_exc': STR, 'socket.getaddrinfo': frozenset(['list']),
    'binascii.hexlify': frozenset(['bytes']), 'fcntl.ioctl': frozenset(['bytes']),
    'threading.current_thread': OBJECT, 'threading.get_ident': INT,
    'tornado.ioloop.IOLoop.current': OBJECT, 'tornado.ioloop.IOLoop.instance': OBJECT,
    'uuid.uuid4': OBJECT, 'id': INT,
}

_OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'or_': 'BitOr', 'and_': 'BitAnd',
        'xor': 'BitXor', 'mod': 'Mod', 'floordiv': 'FloorDiv', 'truediv': 'Div',
        'lshift': 'LShift', 'rshift': 'RShift'}
_CMPS = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}


def _operator(ip, n, a):
    if n in _OPS:
        return m_ops.binop(ip, _OPS[n], a[0], a[1])
    if n in _CMPS:
        return mt.compare(ip, _CMPS[n], a[0], a[1])
    if n == 'not_':
        return C(not ip.truth(a[0]))
    if n == 'getitem':
        return ms.getitem(ip, a[0], a[1])
    if n == 'truth':
        return C(ip.truth(a[0]))
    if n == 'contains':
        return C(ms.contains(ip, a[0], a[1]))
    if n in ('is_', 'is_not'):
        return mt.compare(ip, 'Is' if n == 'is_' else 'IsNot', a[0], a[1])
    if n in ('neg', 'invert', 'pos', 'abs', 'inv'):
        if n == 'abs':
            return mb.f_abs(ip, [a[0]], {})
        return m_ops.unary(ip, {'neg': 'USub', 'pos': 'UAdd'}.get(n, 'Invert'), a[0])
    if n == 'concat':
        return m_ops.binop(ip, 'Add', a[0], a[1])
    if n == 'setitem':
        ms.setitem(ip, a[0], a[1], a[2])
        return NONE
    if n == 'delitem':
        ms.delitem(ip, a[0], a[1])
        return NONE
    if n == 'countOf':
        return C(sum(1 for x in ms.iterate(ip, a[0], None) if mt.eq(ip, x, a[1])))
    if n == 'length_hint':
        return ms.length(ip, a[0])
    if n == 'call':
        return ip.call(a[0], list(a[1:]))
    if n in ('iadd', 'ior', 'iand', 'isub', 'imul', 'ixor', 'ilshift', 'irshift'):
        return m_ops.iop(ip, {'iadd': 'Add', 'ior': 'BitOr', 'iand': 'BitAnd', 'isub': 'Sub',
                              'imul': 'Mult', 'ixor': 'BitXor', 'ilshift': 'LShift',
                              'irshift': 'RShift'}[n], a[0], a[1])
    return None


# ------------------------------------------------------------------------ opaque objects

LOG_METHODS = ('debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log')


def is_logger(t):
    if not isinstance(t, T):
        return False
    if t.op == 'logger':
        return True
    sp = SPECS.get(t)
    return sp is not None and bool(sp.extra.get('logger'))


def opaque_call(ip, f, base, meth, name, a, kw):
    if meth in LOG_METHODS and is_logger(base):
        e = ip.event('log', meth, base, a, kw)
        ip.maybe_fail('log', e)
        if ip.on_log is not None:
            ip.on_log(meth, a)
        e.result = NONE
        return NONE
    if is_logger(base) and meth in ('isEnabledFor',):
        return C(ip.choose(2, 'log level enabled') == 0)
    if isinstance(base, T):
        sp = SPECS.get(base)
        ms_ = sp.extra.get('methods') if sp is not None else None
        if ms_ and meth in ms_:
            e = ip.event('call', name, f, a, kw)
            e.result = ms_[meth](ip, a, kw)
            return e.result
    sp = SPECS.get(f) if isinstance(f, T) else None
    if sp is not None and 'impl' in sp.extra:
        e = ip.event('call', name, f, a, kw)
        e.result = sp.extra['impl'](ip, a, kw)
        return e.result
    return None


# ------------------------------------------------------------------------ tornado.queues.Queue

def make_queue(ip, a, kw):
    q = Inst(bcls('tornado.queues.Queue'), 'queue made at %s' % ip.where())
    q.attrs['maxsize'] = a[0] if a else kw.get('maxsize', C(0))
    e = ip.event('call', 'tornado.queues.Queue', None, a, kw)
    e.result = q
    return q


def _qfut(value=NONE):
    f = FutV('queue')
    f.state, f.value = 'done', value
    return f


def _full(ip, q):
    m = q.attrs['maxsize']
    if isinstance(m, C) and (not m.v or m.v <= 0):
        return False
    if isinstance(m, T) and not ip.cmp_num(m, '>', C(0)):
        return False
    return ip.cmp_num(C(len(q.attrs['__items__'].items)), '>=', m)


def _qset(ip, q, **kw):
    ip.touch(q)
    q.attrs.update(('__%s__' % k, v) for k, v in kw.items())


def _qlist(q, name):
    return q.attrs['__%s__' % name].items


def _qput(ip, q, v):
    """put_nowait of tornado."""
    getters = [f for f in _qlist(q, 'getters') if f.state == 'pending']
    if getters:
        _qset(ip, q, getters=ListV(getters[1:]),
              unfinished=C(q.attrs['__unfinished__'].v + 1))
        mb.fut_settle(ip, getters[0], 'done', v)
        return True
    if _full(ip, q):
        return False
    _qset(ip, q, items=ListV(_qlist(q, 'items') + [v]),
          unfinished=C(q.attrs['__unfinished__'].v + 1))
    return True


def _qget(ip, q):
    """get_nowait of tornado: None when empty."""
    putters = [f for f in _qlist(q, 'putters') if f.items[1].state == 'pending']
    items = _qlist(q, 'items')
    if putters:
        _qset(ip, q, putters=ListV(putters[1:]), items=ListV(items + [putters[0].items[0]]),
              unfinished=C(q.attrs['__unfinished__'].v + 1))
        mb.fut_settle(ip, putters[0].items[1], 'done', NONE)
        items = _qlist(q, 'items')
    if not items:
        return None
    _qset(ip, q, items=ListV(items[1:]))
    return items[0]


def queue_attr(ip, q, name):
    if '__items__' not in q.attrs:
        q.attrs.update(__items__=ListV([]), __getters__=ListV([]), __putters__=ListV([]),
                       __joins__=ListV([]), __unfinished__=C(0))
    if name == 'maxsize':
        return q.attrs['maxsize']
    if name in ('put_nowait', 'put'):
        def put(ip, a, kw):
            e = ip.event('call', 'queue.' + name, q, a, kw)
            v = a[0] if a else kw['item']
            ok = _qput(ip, q, v)
            if name == 'put_nowait':
                if not ok:
                    x = ip.exc('tornado.queues.QueueFull')
                    e.raised = x.value
                    raise x
                return NONE
            if ok:
                return _qfut()
            f = FutV('queue.put')
            _qset(ip, q, putters=ListV(_qlist(q, 'putters') + [Tup([v, f])]))
            _qtimeout(ip, f, a[1] if len(a) > 1 else kw.get('timeout', NONE))
            return f
        return N('Queue.' + name, put)
    if name in ('get', 'get_nowait'):
        def get(ip, a, kw):
            e = ip.event('call', 'queue.' + name, q, a, kw)
            v = _qget(ip, q)
            e.result = v
            if name == 'get_nowait':
                if v is None:
                    x = ip.exc('tornado.queues.QueueEmpty')
                    e.raised = x.value
                    raise x
                return v
            if v is not None:
                return _qfut(v)
            f = FutV('queue.get')
            _qset(ip, q, getters=ListV(_qlist(q, 'getters') + [f]))
            _qtimeout(ip, f, a[0] if a else kw.get('timeout', NONE))
            return f
        return N('Queue.' + name, get)
    if name == 'task_done':
        def td(ip, a, kw):
            ip.event('call', 'queue.task_done', q, a)
            n = q.attrs['__unfinished__'].v
            if n <= 0:
                raise ip.exc('ValueError', 'task_done() called too many times')
            _qset(ip, q, unfinished=C(n - 1))
            if n == 1:
                js = _qlist(q, 'joins')
                _qset(ip, q, joins=ListV([]))
                for f in js:
                    mb.fut_settle(ip, f, 'done', NONE)
            return NONE
        return N('Queue.task_done', td)
    if name == 'join':
        def join(ip, a, kw):
            ip.event('call', 'queue.join', q, a)
            if q.attrs['__unfinished__'].v == 0:
                return _qfut()
            f = FutV('queue.join')
            _qset(ip, q, joins=ListV(_qlist(q, 'joins') + [f]))
            _qtimeout(ip, f, a[0] if a else kw.get('timeout', NONE))
            return f
        return N('Queue.join', join)
    if name == 'qsize':
        return N('Queue.qsize', lambda ip, a, kw: C(len(_qlist(q, 'items'))))
    if name == 'empty':
        return N('Queue.empty', lambda ip, a, kw: C(not _qlist(q, 'items')))
    if name == 'full':
        return N('Queue.full', lambda ip, a, kw: C(_full(ip, q)))
    return None


def _qtimeout(ip, f, deadline):
    """The scenario decides when the time is up."""
    if deadline is not NONE:
        ip.event('timeout', 'queue', f, [deadline])


mb.INST_ATTR['tornado.queues.Queue'] = queue_attr


# ------------------------------------------------------------------------ decorators

def decorate(ip, d, f):
    if isinstance(d, BCls):
        if d.name == 'property':
            return Wrapped('property', f)
        if d.name in ('staticmethod', 'classmethod'):
            return Wrapped(d.name, f)
    if isinstance(d, Ext):
        n = d.name
        if n in ('tornado.gen.coroutine', 'asyncio.coroutine', 'types.coroutine'):
            return Wrapped('coroutine', f)
        if n == 'contextlib.contextmanager':
            return Wrapped('contextmanager', f)
        if n in ('functools.lru_cache', 'functools.cache'):
            return Wrapped('lru_cache', f)
        if n in ('functools.cached_property',):
            return Wrapped('cached_property', f)
        if n in ('abc.abstractproperty',):
            return Wrapped('property', f)
        if n == 'abc.abstractmethod':
            if isinstance(f, Func):
                f.attrs['__isabstractmethod__'] = TRUE
            return f
        if n in ('typing.overload', 'typing.no_type_check', 'typing.final',
                 'atexit.register', 'six.python_2_unicode_compatible'):
            return f
    if isinstance(d, T) and d.op in ('res', 'new') and isinstance(d.args[0], str):
        return f
    return ip.call(d, [f])


def check_import(ip, name):
    return None
