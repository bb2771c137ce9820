"""Types, isinstance, equality, comparison."""
import builtins as _bi
import types as _types

from . import terms
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, MemV, LockV, FutV, CoroV, StarKey, kwkey, ViewV, IterV, Tup, Func,
                   Wrapped, Bound, Native, Cls, BCls, Mod, Ext, SuperV, SliceV, CMGen, PyExc,
                   PathCut, Infeasible, Undecided, AnchorLost)
from .terms import (C, EnumC, T, V, NONE, TRUE, FALSE, SPECS, ANY_TYPES, NUM, show)

INT = frozenset(['int', 'bool'])
STR = frozenset(['str'])
BYTES = frozenset(['bytes', 'bytearray'])
OBJECT = frozenset(['object'])
JSON = frozenset(['NoneType', 'bool', 'int', 'float', 'str', 'list', 'dict'])

PYTYPES = {'int': int, 'float': float, 'bool': bool, 'str': str, 'bytes': bytes,
           'bytearray': bytearray, 'list': list, 'dict': dict, 'tuple': tuple, 'set': set,
           'frozenset': frozenset, 'NoneType': type(None), 'traceback': _types.TracebackType,
           'type': type, 'function': _types.FunctionType, 'complex': complex, 'slice': slice}

TYPE_NAMES = ('object', 'int', 'float', 'bool', 'str', 'bytes', 'bytearray', 'list', 'dict',
              'tuple', 'set', 'frozenset', 'type', 'property', 'staticmethod', 'classmethod',
              'super', 'complex', 'slice', 'memoryview')

_exc_cache = {}
_EXTRA_EXC = {
    'struct.error': ('Exception',), 're.error': ('Exception',), 'binascii.Error': ('ValueError',),
    'dataclasses.FrozenInstanceError': ('AttributeError',),
    'tornado.queues.QueueFull': ('Exception',),
    'tornado.queues.QueueEmpty': ('Exception',),
    'tornado.util.TimeoutError': ('Exception',),
    'tornado.gen.Return': ('Exception',),
    'tornado.iostream.StreamClosedError': ('OSError',),
    'tornado.httpclient.HTTPError': ('Exception',),
    'asyncio.InvalidStateError': ('Exception',),
    'tornado.gen.BadYieldError': ('Exception',),
    'asyncio.CancelledError': ('BaseException',),
    'socket.gaierror': ('OSError',),
    'socket.herror': ('OSError',),
    'socket.timeout': ('OSError',),
    'json.JSONDecodeError': ('ValueError',),
    'queue.Full': ('Exception',),
    'queue.Empty': ('Exception',),
    'thrift.protocol.TProtocol.TProtocolException': ('Exception',),
}


def bcls(name):
    got = BCls.table.get(name)
    if got is not None:
        return got
    if name == 'object':
        return BCls('object', (), object)
    py = PYTYPES.get(name)
    return BCls(name, (bcls('object'),) if name != 'bool' else (bcls('int'),), py)


def exc_class(name):
    got = _exc_cache.get(name)
    if got is not None:
        return got
    if name in ('IOError', 'EnvironmentError', 'socket.error', 'select.error'):
        got = exc_class('OSError')
    elif name in _EXTRA_EXC:
        got = BCls(name, tuple(exc_class(b) for b in _EXTRA_EXC[name]))
    else:
        py = getattr(_bi, name, None)
        if not (isinstance(py, type) and issubclass(py, BaseException)):
            return None
        bases = tuple(exc_class(b.__name__) for b in py.__bases__ if b is not object)
        got = BCls(name, bases or (bcls('object'),), py)
    _exc_cache[name] = got
    return got


def typename(ip, v):
    if isinstance(v, C):
        return type(v.v).__name__
    if isinstance(v, T):
        ts = ip.types(v)
        if len(ts) == 1:
            return next(iter(ts))
        return '/'.join(sorted(ts))
    if isinstance(v, Inst):
        return getattr(v.cls, 'name', '?')
    if isinstance(v, Tup):
        return v.nt.name if v.nt is not None else 'tuple'
    if isinstance(v, (Cls, BCls)):
        return 'type'
    if isinstance(v, ByteArr):
        return 'BytesIO' if v.io else v.kind
    if isinstance(v, Obj):
        return v.kind
    if isinstance(v, (Func, Native, Wrapped)):
        return 'function'
    if isinstance(v, Bound):
        return 'method'
    if isinstance(v, Mod):
        return 'module'
    return 'object'


def type_has_attr(typ, attr):
    if typ in ('object',):
        return True
    py = PYTYPES.get(typ)
    if py is None:
        return True
    return hasattr(py, attr)


_REAL = {}


# what the rules stand in for, and what the real thing has besides
REAL = {
    'loop': 'add_callback add_callback_from_signal add_future add_handler add_timeout asyncio_loop '
            'call_at call_later close close_fd current instance is_running make_current '
            'remove_handler remove_timeout run_in_executor run_sync set_default_executor '
            'spawn_callback split_fd start stop time update_handler',
    'periodic': 'start stop is_running callback callback_time jitter io_loop',
    'http': 'fetch fetch_impl close initialize defaults io_loop',
    'response': 'body buffer code effective_url error headers reason request request_time rethrow '
                'start_time time_info',
}


def real_names(stub):
    import logging
    import socket
    if stub in ('socket', 'udp'):
        return dir(socket.socket)
    if stub == 'log':
        return dir(logging.Logger)
    return REAL.get(stub, '').split()


def has_real_attr(ip, o, name):
    """Does the real object behind `o` have an attribute the models do not know?"""
    import asyncio
    import io
    import threading
    if isinstance(o, C):
        return hasattr(o.v, name)
    if isinstance(o, Inst) and isinstance(o.cls, Cls) and o.cls.name.startswith('stub:'):
        return name in real_names(o.cls.name[5:])
    if isinstance(o, FutV):
        return hasattr(asyncio.Future, name)
    if isinstance(o, CoroV):
        return name in ('send', 'throw', 'close', '__await__', 'cr_running')
    if isinstance(o, LockV):
        return hasattr(threading.Lock(), name)
    if isinstance(o, ByteArr):
        return hasattr(io.BytesIO if o.io else memoryview if o.kind == 'memoryview' else bytearray,
                       name)
    if isinstance(o, DictV):
        return hasattr(dict, name) or name in ('move_to_end', 'default_factory', 'most_common')
    if isinstance(o, ListV):
        return hasattr(list, name) or name in ('appendleft', 'popleft', 'maxlen', 'rotate')
    if isinstance(o, SetV):
        return hasattr(set, name)
    if isinstance(o, Tup):
        return hasattr(tuple, name)
    if isinstance(o, (IterV, ViewV)):
        return name.startswith('__') or name in ('send', 'throw', 'gi_frame', 'mapping')
    return False


def obj_types(ip, v):
    """The set of built-in type names a value can have."""
    if isinstance(v, (C, T)):
        return ip.types(v)
    n = typename(ip, v)
    if isinstance(v, Tup):
        return frozenset(['tuple'])
    if n in PYTYPES:
        return frozenset([n])
    return OBJECT


# --------------------------------------------------------------------- isinstance

_ABC = {
    'collections.abc.Mapping': frozenset(['dict']),
    'collections.abc.MutableMapping': frozenset(['dict']),
    'typing.Mapping': frozenset(['dict']),
    'typing.Dict': frozenset(['dict']),
    'collections.Mapping': frozenset(['dict']),
    'collections.abc.Sequence': frozenset(['list', 'tuple', 'str', 'bytes']),
    'collections.abc.Iterable': frozenset(['list', 'tuple', 'str', 'bytes', 'dict', 'set']),
    'numbers.Number': NUM,
    'numbers.Real': NUM,
    'numbers.Integral': INT,
    'types.TracebackType': frozenset(['traceback']),
}


def class_typeset(c):
    if isinstance(c, BCls) and c.py is not None:
        n = c.name
        if n == 'int':
            return INT
        if n in PYTYPES:
            return frozenset([n])
    if isinstance(c, Ext):
        return _ABC.get(c.name)
    return None


def isinstance_(ip, v, cls):
    if isinstance(cls, T):
        cls = ip.resolve(cls)
    if isinstance(cls, Tup):
        # one decision over the union of the built-in types, then the rest
        union = frozenset()
        rest = []
        for c in cls.items:
            if isinstance(c, Tup):
                rest.append(c)
                continue
            ts = class_typeset(c)
            if ts is None:
                rest.append(c)
            else:
                union |= ts
        if union:
            if isinstance(v, (C, T)):
                v = ip.resolve(v)
                if isinstance(v, C):
                    if type(v.v).__name__ in union:
                        return True
                elif ip.decide_type(v, union):
                    return True
            elif obj_types(ip, v) <= union and not isinstance(v, Inst):
                return True
        return any(isinstance_(ip, v, c) for c in rest)
    if isinstance(cls, BCls) and cls.name == 'object':
        return True
    if isinstance(v, T):
        v = ip.resolve(v)
    ts = class_typeset(cls)
    if isinstance(v, EnumC) and isinstance(cls, Cls):
        return ip.is_subclass(v.enum, cls)
    if isinstance(v, C):
        return ts is not None and type(v.v).__name__ in ts
    if isinstance(v, T):
        if ts is not None:
            return ip.decide_type(v, ts)
        sp = SPECS.get(v)
        k = sp.extra.get('cls') if sp is not None else None
        if 'object' not in ip.types(v):
            return False
        if not ip.decide_type(v, OBJECT):
            return False
        if k is not None:
            if isinstance(k, (Cls, BCls)):
                return ip.is_subclass(k, cls)
            return k is cls
        if isinstance(cls, Cls) and sp is not None and sp.extra.get('foreign'):
            return False
        return ip.atom(('isinst', v, cls), '%s is a %s' % (show(v), cls))
    if isinstance(v, Inst):
        return ip.is_subclass(v.cls, cls)
    if isinstance(v, Tup):
        if v.nt is not None and (cls is v.nt or ip.is_subclass(v.nt, cls)):
            return True
        return ts is not None and 'tuple' in ts
    if isinstance(v, (Cls, BCls)) or (isinstance(v, Ext)
                                      and v.name.split('.')[-1][:1].isupper()):
        return isinstance(cls, BCls) and cls.name == 'type'
    if isinstance(v, FutV):
        return isinstance(cls, Ext) and cls.name.endswith('Future')
    if isinstance(v, LockV):
        return False
    if isinstance(v, MemV):
        return isinstance(cls, BCls) and cls.name == 'memoryview'
    if ts is not None:
        return typename(ip, v) in ts
    return False


# --------------------------------------------------------------------- identity

def is_(ip, a, b):
    if a is b:
        return True
    if isinstance(a, T):
        a = ip.resolve(a)
    if isinstance(b, T):
        b = ip.resolve(b)
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, C) and x.v is None and isinstance(y, (C, T)):
            return ip.is_none(y)
    if isinstance(a, C) and isinstance(b, C):
        return type(a.v) is type(b.v) and a.v == b.v
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and x.op == 'typeof':
            return _type_eq(ip, x, y)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and isinstance(y, C) and isinstance(y.v, bool):
            return ip.decide_type(x, frozenset(['bool'])) and ip.cmp_num(x, '==', C(int(y.v)))
    if isinstance(a, T) and isinstance(b, (C, T)) or isinstance(b, T) and isinstance(a, (C, T)):
        ta, tb = ip.types(a), ip.types(b)
        if not (ta & tb):
            return False
        return ip.atom(('is', a, b), '%s is %s' % (show(a), show(b)), first=False)
    if isinstance(a, T) or isinstance(b, T):
        t, o = (a, b) if isinstance(a, T) else (b, a)
        if isinstance(o, (Obj, Tup)) and not (obj_types(ip, o) & ip.types(t)):
            return False
        if t in ip.objof and ip.objof[t] is o:
            return True
        if isinstance(o, (Cls, BCls, Func, Native, Bound)):
            return False
        return ip.atom(('is', t, id(o)), '%s is %r' % (show(t), o), first=False)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.fn is b.fn and a.self is b.self
    return False


def _type_eq(ip, t, c):
    """type(x) is c  for T('typeof', x)"""
    x = t.args[0]
    if isinstance(c, T) and c.op == 'typeof':
        y = c.args[0]
        tx, ty = ip.types(x), ip.types(y)
        if not tx & ty:
            return False
        for n in sorted(tx & ty):
            if ip.decide_type(x, frozenset([n])):
                return ip.decide_type(y, frozenset([n])) and (
                    n != 'object' or ip.atom(('sametype', x, y), 'same type'))
        return False
    if isinstance(c, BCls) and c.py is not None and c.name in PYTYPES:
        return ip.decide_type(x, frozenset([c.name]))
    if 'object' in ip.types(x):
        sp = SPECS.get(x)
        if sp is not None and sp.extra.get('cls') is not None:
            return sp.extra['cls'] is c
        return ip.decide_type(x, OBJECT) and ip.atom(('typeis', x, c), 'type is %r' % c)
    return False


# --------------------------------------------------------------------- equality

def _needed(v):
    if isinstance(v, bool) or isinstance(v, (int, float)):
        return NUM
    if isinstance(v, str):
        return STR
    if isinstance(v, (bytes, bytearray)):
        return BYTES
    if v is None:
        return frozenset(['NoneType'])
    return frozenset([type(v).__name__])


def eq(ip, a, b):
    if isinstance(a, T):
        a = ip.resolve(a)
    if isinstance(b, T):
        b = ip.resolve(b)
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v           # also of the same object: not a number is not itself
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Inst) and isinstance(x.cls, Cls):
            got = ip.class_lookup(x.cls, '__eq__')
            if got is not None:
                return ip.truth(ip.call(ip.bind(got[0], x, x.cls), [y]))
    if isinstance(a, T) and isinstance(b, C):
        return _eq_tc(ip, a, b)
    if isinstance(b, T) and isinstance(a, C):
        return _eq_tc(ip, b, a)
    if isinstance(a, T) and isinstance(b, T):
        return _eq_tt(ip, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(eq(ip, x, y)
                                                    for x, y in zip(a.items, b.items))
    if isinstance(a, T) or isinstance(b, T):
        t, o = (a, b) if isinstance(a, T) else (b, a)
        if t.op in ('typeof',):
            return _type_eq(ip, t, o)
        if isinstance(o, ByteArr):
            if not (ip.types(t) & BYTES):
                return False
            return _seq_eq(ip, t, o.val)
        if isinstance(o, (DictV, ListV)) and o.kind in ip.types(t):
            if not ip.decide_type(t, frozenset([o.kind])):
                return False
            return eq(ip, ip.as_obj(t), o)
        if isinstance(o, (Cls, BCls, Func, Bound, Native)):
            return False
        return is_(ip, a, b)
    if isinstance(a, DictV) and isinstance(b, DictV):
        if a.open or b.open:
            return ip.atom(('deq', id(a), id(b)), 'the dicts are equal')
        if len(a.entries) != len(b.entries):
            return False
        from .m_seq import dict_find
        for k, v in list(a.entries):
            got = dict_find(ip, b, k)
            if got is None or not eq(ip, v, got):
                return False
        return True
    if isinstance(a, ViewV) or isinstance(b, ViewV):
        a, b = as_set(ip, a), as_set(ip, b)
    if isinstance(a, ListV) and isinstance(b, ListV):
        if a.open or b.open:
            return ip.atom(('leq', id(a), id(b)), 'the lists are equal')
        return len(a.items) == len(b.items) and all(eq(ip, x, y)
                                                    for x, y in zip(a.items, b.items))
    if isinstance(a, SetV) and isinstance(b, SetV):
        return len(a.items) == len(b.items) and all(
            any(eq(ip, x, y) for y in b.items) for x in a.items)
    if isinstance(a, ByteArr) and isinstance(b, ByteArr) and not a.io:
        return _seq_eq(ip, a.val, b.val)
    if isinstance(a, ByteArr) and isinstance(b, C) and isinstance(b.v, bytes):
        return _seq_eq(ip, a.val, b)
    if isinstance(b, ByteArr) and isinstance(a, C) and isinstance(a.v, bytes):
        return _seq_eq(ip, b.val, a)
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.fn is b.fn and a.self is b.self
    return False


def as_set(ip, v):
    """The view of keys or items as the set it behaves as."""
    if isinstance(v, ViewV) and v.which != 'values':
        from .m_seq import iterate
        return SetV(iterate(ip, v, None))
    return v


def _eq_tc(ip, t, c):
    if t.op == 'typename':
        x = t.args[0]
        n = c.v
        if n in PYTYPES:
            return ip.decide_type(x, frozenset([n]))
        return 'object' in ip.types(x) and ip.decide_type(x, OBJECT) and \
            ip.atom(('typename', x, n), 'type name is %s' % n)
    need = _needed(c.v)
    ts = ip.types(t)
    if not (ts & need):
        return False
    if not ip.decide_type(t, need):
        return False
    t = ip.resolve(t)
    if isinstance(t, C):
        return t.v == c.v
    if need == NUM:
        return ip.cmp_num(t, '==', C(int(c.v)) if isinstance(c.v, bool) else c)
    if need == frozenset(['NoneType']):
        return True
    return _seq_eq(ip, t, c)


def _eq_tt(ip, a, b):
    if a.op == 'typeof' or b.op == 'typeof':
        return _type_eq(ip, a, b) if a.op == 'typeof' else _type_eq(ip, b, a)
    ta, tb = ip.types(a), ip.types(b)
    fam = [NUM, STR, BYTES, frozenset(['NoneType']), frozenset(['list']), frozenset(['dict']),
           frozenset(['tuple']), OBJECT, frozenset(['traceback'])]
    for f in fam:
        if (ta & f) and (tb & f):
            if ta <= f and tb <= f:
                break
            if ip.decide_type(a, f):
                if not ip.decide_type(b, f):
                    return False
                break
    else:
        return False
    a, b = ip.resolve(a), ip.resolve(b)
    if isinstance(a, C) or isinstance(b, C):
        return eq(ip, a, b)
    if f is NUM:
        return ip.cmp_num(a, '==', b)
    if f is STR or f is BYTES:
        return _seq_eq(ip, a, b)
    if f == frozenset(['NoneType']):
        return True
    x, y = sorted((a, b), key=repr)
    return ip.atom(('eq', x, y), '%s == %s' % (show(x), show(y)), first=False)


def _parts(v):
    if isinstance(v, C):
        return [v]
    if v.op in ('scat', 'bcat'):
        return list(v.args[0])
    return [v]


def _seq_eq(ip, a, b):
    """Equality of strings or of byte strings."""
    a, b = ip.norm(a), ip.norm(b)
    if a is b:
        return True
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v
    pa, pb = _parts(a), _parts(b)
    # strip what is common at both ends
    while pa and pb and pa[0] is pb[0]:
        del pa[0], pb[0]
    while pa and pb and pa[-1] is pb[-1]:
        del pa[-1], pb[-1]
    if pa and pb and isinstance(pa[0], C) and isinstance(pb[0], C):
        n = min(len(pa[0].v), len(pb[0].v))
        if pa[0].v[:n] != pb[0].v[:n]:
            return False
    if pa and pb and isinstance(pa[-1], C) and isinstance(pb[-1], C):
        n = min(len(pa[-1].v), len(pb[-1].v))
        if pa[-1].v[len(pa[-1].v) - n:] != pb[-1].v[len(pb[-1].v) - n:]:
            return False
    ra, rb = _strip_const(pa, pb)
    if ra != _parts(a) or rb != _parts(b):
        if not ra or not rb:
            rest = ra or rb
            if any(isinstance(x, C) and x.v for x in rest):
                return False
        if any(isinstance(x, C) and isinstance(x.v, bytes) or isinstance(x, T) and
               ip.types(x) <= BYTES for x in (a, b)):
            a, b = terms.b_cat(ra), terms.b_cat(rb)
        else:
            a, b = terms.s_cat(ra), terms.s_cat(rb)
        return _seq_eq(ip, a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, C):
            if not _possible(y, x.v):
                return False
            if x in ip.nec.get(y, ()):
                return False
            if isinstance(y, T) and ip.known_cmp(seq_len(y), '==', C(len(x.v))) is False:
                return False
    x, y = sorted((a, b), key=repr)
    if ('seq', x, y) not in ip.atoms and _differ(ip, a, b):
        return False
    yes = ip.atom(('seq', x, y), '%s == %s' % (show(a), show(b)))
    for p, q in ((a, b), (b, a)):
        if yes and isinstance(p, T) and p.op not in ('scat', 'bcat') and p not in ip.eqc:
            ip.eqc[p] = q
            break
        if not yes and isinstance(p, T) and isinstance(q, C):
            ip.nec.setdefault(p, set()).add(q)
    return yes


def _alike(ip, v):
    """The terms that the facts of the path make equal to v."""
    out, n = {v}, 0
    while n != len(out):
        n = len(out)
        for t, r in ip.eqc.items():
            if isinstance(r, (T, C)) and (t in out) != (r in out) and not (
                    isinstance(r, C) and not isinstance(r.v, (str, bytes))):
                out |= {t, r}
    return out


def _differ(ip, a, b):
    """Do known equalities and one known difference make a and b different?"""
    if not ip.eqc:
        return False
    xs, ys = _alike(ip, a), _alike(ip, b)
    if b in xs:
        return False
    if len(xs) == 1 and len(ys) == 1:
        return False
    for x in xs:
        for y in ys:
            if isinstance(x, C) and isinstance(y, C):
                if x.v != y.v:
                    return True
                continue
            if (isinstance(y, C) and y in ip.nec.get(x, ())
                    or isinstance(x, C) and x in ip.nec.get(y, ())):
                return True
            if ip.atoms.get(('seq',) + tuple(sorted((x, y), key=repr))) is False:
                return True
    return False


def _strip_const(pa, pb):
    """Removes the constant characters both lists of parts begin or end with."""
    pa, pb = list(pa), list(pb)
    for k in (0, -1):
        while pa and pb:
            x, y = pa[k], pb[k]
            if x is y:
                del pa[k], pb[k]
                continue
            if not (isinstance(x, C) and isinstance(y, C)):
                break
            n = min(len(x.v), len(y.v))
            if k == 0:
                same, xr, yr = x.v[:n] == y.v[:n], x.v[n:], y.v[n:]
            else:
                same, xr, yr = (x.v[len(x.v) - n:] == y.v[len(y.v) - n:], x.v[:len(x.v) - n],
                                y.v[:len(y.v) - n])
            if not same or not n:
                break
            for lst, r in ((pa, xr), (pb, yr)):
                if r:
                    lst[k] = C(r)
                else:
                    del lst[k]
    return pa, pb


HEXD = set('0123456789abcdef')


def _possible(t, s):
    """Can the string term t be the constant s at all?"""
    if not isinstance(t, T) or not isinstance(s, str):
        return True
    if t.op == 'fmt':
        if t.args[0] == 'x':
            return bool(s) and set(s.lstrip('-')) <= HEXD
        if t.args[0] == 'd':
            return bool(s) and set(s.lstrip('-')) <= set('0123456789')
    if t.op == 'lower':
        return s == s.lower()
    if t.op == 'upper':
        return s == s.upper()
    if t.op == 'scat':
        return len(s) >= sum(len(p.v) for p in t.args[0] if isinstance(p, C))
    return True


def seq_len(v):
    if isinstance(v, C):
        return C(len(v.v))
    if v.op in ('scat', 'bcat'):
        n = C(0)
        for p in v.args[0]:
            n = terms.t_add(n, seq_len(p))
        return n
    if v.op in ('bslice', 'sslice') and v.args[2] is not None:
        return terms.t_sub(v.args[2], v.args[1])
    if v.op in ('bslice', 'sslice'):
        return terms.t_sub(seq_len(v.args[0]), v.args[1])
    if v.op in ('be', 'le'):
        return C(v.args[0])
    return T('len', v)


# --------------------------------------------------------------------- comparison

_CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}


def indexed(ip, v):
    """What __index__ gives, for an object that has it."""
    if isinstance(v, Inst) and isinstance(v.cls, Cls):
        got = ip.class_lookup(v.cls, '__index__')
        if got is not None:
            return ip.call(ip.bind(got[0], v, v.cls), [])
    return v


def as_num(ip, v, what):
    """v as a numeric value, or TypeError."""
    if isinstance(v, Inst) and what in ('index', 'slice'):
        v = indexed(ip, v)
    if isinstance(v, C):
        if isinstance(v.v, bool):
            return C(int(v.v))
        if isinstance(v.v, (int, float)):
            return v
        raise ip.exc('TypeError', '%s: not a number: %r' % (what, v))
    if isinstance(v, T):
        r = ip.resolve(v)
        if isinstance(r, C):
            return as_num(ip, r, what)
        if ip.types(r) <= NUM or ip.decide_type(r, NUM):
            r = ip.resolve(r)
            return r
        raise ip.exc('TypeError', '%s: not a number: %s' % (what, show(v)))
    raise ip.exc('TypeError', '%s: not a number: %r' % (what, v))


def compare(ip, op, a, b):
    if op == 'Is':
        return C(is_(ip, a, b))
    if op == 'IsNot':
        return C(not is_(ip, a, b))
    if op == 'Eq':
        return C(eq(ip, a, b))
    if op == 'NotEq':
        if isinstance(a, Inst) and isinstance(a.cls, Cls):
            got = ip.class_lookup(a.cls, '__ne__')
            if got is not None:
                return C(ip.truth(ip.call(ip.bind(got[0], a, a.cls), [b])))
        return C(not eq(ip, a, b))
    if op in ('In', 'NotIn'):
        from .m_seq import contains
        r = contains(ip, b, a)
        return C(r if op == 'In' else not r)
    o = _CMP[op]
    if isinstance(a, T):
        a = ip.resolve(a)
    if isinstance(b, T):
        b = ip.resolve(b)
    if isinstance(a, C) and isinstance(b, C):
        try:
            return C({'<': lambda: a.v < b.v, '<=': lambda: a.v <= b.v, '>': lambda: a.v > b.v,
                      '>=': lambda: a.v >= b.v}[o]())
        except TypeError:
            raise ip.exc('TypeError', 'unorderable')
    if isinstance(a, ViewV) or isinstance(b, ViewV):
        a, b = as_set(ip, a), as_set(ip, b)
    if isinstance(a, (SetV, Tup, ListV)) or isinstance(b, (SetV, Tup, ListV)):
        if isinstance(a, SetV) and isinstance(b, SetV):
            lo, hi = (a, b) if '<' in o else (b, a)
            sub = all(any(eq(ip, x, y) for y in hi.items) for x in lo.items)
            return C(sub and ('=' in o or len(lo.items) < len(hi.items)))
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a.open or b.open:
                raise Undecided('ordering of lists')
        if isinstance(a, (Tup, ListV)) and type(a) is type(b):
            for x, y in zip(a.items, b.items):
                if not eq(ip, x, y):
                    return compare(ip, op, x, y)
            return C({'<': len(a.items) < len(b.items), '<=': len(a.items) <= len(b.items),
                      '>': len(a.items) > len(b.items), '>=': len(a.items) >= len(b.items)}[o])
        if isinstance(a, C) or isinstance(b, C) or (isinstance(a, T) and ip.types(a) <= NUM) \
                or (isinstance(b, T) and ip.types(b) <= NUM):
            raise ip.exc('TypeError', 'unorderable')
        raise Undecided('ordering of containers')
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Inst) and isinstance(x.cls, Cls):
            name = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[o]
            back = {'<': '__gt__', '<=': '__ge__', '>': '__lt__', '>=': '__le__'}[o]
            got = ip.class_lookup(x.cls, name if x is a else back)
            if got is not None:
                r = ip.call(ip.bind(got[0], x, x.cls), [y])
                if not (isinstance(r, Ext) and r.name == 'NotImplemented'):
                    return r
    for x in (a, b):
        if isinstance(x, T) and ip.types(x) <= STR or isinstance(x, C) and isinstance(x.v, str):
            y = b if x is a else a
            if obj_types(ip, y) & STR:
                return C(ip.atom(('ord', o, a, b), '%s %s %s' % (show(a), o, show(b))))
            raise ip.exc('TypeError', 'unorderable')
    a = as_num(ip, a, 'comparison')
    b = as_num(ip, b, 'comparison')
    return C(ip.cmp_num(a, o, b))
