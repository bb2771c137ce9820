"""Built-in functions and types; attributes of built-in objects; context managers; futures."""
from . import terms
from .gens import Gen
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, MemV, LockV, FutV, CoroV, StarKey, kwkey, ViewV, IterV, Tup, Func,
                   Wrapped, Bound, Native, Cls, BCls, Mod, Ext, SuperV, SliceV, CMGen, PyExc,
                   PathCut, Infeasible, Undecided, AnchorLost)
from .terms import (C, T, V, NONE, TRUE, FALSE, SPECS, ANY_TYPES, NUM, show, set_spec, s_cat,
                    b_cat)
from . import m_types as mt
from . import m_seq as ms
from . import m_str
from . import m_ops
from .m_types import INT, STR, BYTES, OBJECT, bcls, exc_class
from .m_seq import N


# ------------------------------------------------------------------------ functions

def f_len(ip, a, kw):
    return ms.length(ip, a[0])


def f_isinstance(ip, a, kw):
    return C(mt.isinstance_(ip, a[0], a[1]))


def f_issubclass(ip, a, kw):
    return C(ip.is_subclass(a[0], a[1]))


def hasattr_(ip, o, name):
    if isinstance(o, T):
        o = ip.resolve(o)
    if isinstance(o, C):
        return hasattr(o.v, name)
    if name.startswith('__') and isinstance(o, (ListV, DictV, Tup, SetV)):
        # what the protocols of the language ask for; the models have these as operations, not as attributes
        py = {ListV: list, DictV: dict, Tup: tuple, SetV: set}[type(o)]
        if hasattr(py, name):
            return True
    if isinstance(o, T):
        if (o, name) in ip.overlay:
            return True
        ts = ip.types(o)
        has = frozenset(t for t in ts if t != 'object' and mt.type_has_attr(t, name))
        if 'object' in ts:
            sp = SPECS.get(o)
            k = sp.extra.get('cls') if sp else None
            attrs = sp.extra.get('attrs') if sp else None
            if isinstance(k, Cls):
                ok = ip.class_lookup(k, name) is not None
                if ok:
                    has = has | OBJECT
            elif attrs is not None and name in attrs:
                has = has | OBJECT
            elif ts == OBJECT or ip.decide_type(o, OBJECT):
                return ip.atom(('hasattr', o, name), 'hasattr(%s, %r)' % (show(o), name))
            else:
                has = has & ip.types(o)
        if not has:
            return False
        return ip.decide_type(o, has)
    if isinstance(o, Inst) and not (isinstance(o.cls, Cls) and ip.has_external_base(o.cls)):
        if name in o.attrs:
            return True
        if isinstance(o.cls, Cls) and ip.class_lookup(o.cls, name) is not None:
            got = ip.class_lookup(o.cls, name)[0]
            if isinstance(got, Wrapped) and got.how == 'property':
                try:
                    ip.getattr(o, name)
                except PyExc as e:
                    if ip.is_subclass(e.value.cls, exc_class('AttributeError')):
                        return False
                    raise
            return True
    try:
        ip.getattr(o, name)
        return True
    except PyExc as e:
        if ip.is_subclass(e.value.cls, exc_class('AttributeError')):
            return False
        raise


def f_hasattr(ip, a, kw):
    return C(hasattr_(ip, a[0], _cname(ip, a[1])))


def _cname(ip, v):
    if isinstance(v, T):
        v = ip.resolve(v)
    if not isinstance(v, C):
        raise Undecided('attribute with an unknown name')
    return v.v


def f_getattr(ip, a, kw):
    name = _cname(ip, a[1])
    if len(a) > 2:
        if isinstance(a[0], T) and not hasattr_(ip, a[0], name):
            return a[2]
        try:
            return ip.getattr(a[0], name)
        except PyExc as e:
            if ip.is_subclass(e.value.cls, exc_class('AttributeError')):
                return a[2]
            raise
    if isinstance(a[0], T) and isinstance(ip.resolve(a[0]), T) and \
            not hasattr_(ip, a[0], name):
        raise ip.exc('AttributeError', name)
    return ip.getattr(a[0], name)


def f_setattr(ip, a, kw):
    ip.setattr(a[0], _cname(ip, a[1]), a[2])
    return NONE


def f_callable(ip, a, kw):
    v = a[0]
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, (Func, Bound, Native, Wrapped, Cls, BCls)):
        return TRUE
    if isinstance(v, Inst):
        return C(isinstance(v.cls, Cls) and ip.class_lookup(v.cls, '__call__') is not None)
    if isinstance(v, T):
        if v.op == 'attr':
            base = v.args[0]
            if isinstance(base, T) and ip.types(base) <= OBJECT:
                return C(ip.atom(('callable', v), '%s is callable' % show(v)))
            return TRUE
        return C(ip.decide_type(v, OBJECT) and
                 ip.atom(('callable', v), '%s is callable' % show(v)))
    if isinstance(v, Ext):
        return TRUE
    return FALSE


def f_type(ip, a, kw):
    if len(a) == 3:
        c = Cls(a[0].v, list(a[1].items) or [bcls('object')], ip.stack[-1].module
                if ip.stack else None, a[0].v)
        for k, v in a[2].entries:
            c.ns[k.v] = v
        return c
    v = a[0]
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, C):
        return bcls(type(v.v).__name__)
    if isinstance(v, T):
        ts = ip.types(v)
        if len(ts) == 1 and not ts <= OBJECT:
            return bcls(next(iter(ts)))
        return T('typeof', v)
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Tup):
        return v.nt or bcls('tuple')
    if isinstance(v, (Cls, BCls)):
        return bcls('type')
    return bcls(mt.typename(ip, v))


def f_minmax(which):
    def f(ip, a, kw):
        items = list(a) if len(a) > 1 else list(ms.iterate(ip, a[0], None))
        if not items:
            if 'default' in kw:
                return kw['default']
            raise ip.exc('ValueError', 'arg is an empty sequence')
        keyf = kw.get('key')
        best = items[0]
        bk = ip.call(keyf, [best]) if keyf is not None else best
        for x in items[1:]:
            k = ip.call(keyf, [x]) if keyf is not None else x
            op = 'Lt' if which == 'min' else 'Gt'
            if ip.truth(mt.compare(ip, op, k, bk)):
                best, bk = x, k
        return ip.resolve(best) if isinstance(best, T) else best
    return f


def f_abs(ip, a, kw):
    v = mt.as_num(ip, a[0], 'abs')
    if isinstance(v, C):
        return C(abs(v.v))
    return v if ip.cmp_num(v, '>=', C(0)) else terms.t_neg(v)


def f_round(ip, a, kw):
    v = mt.as_num(ip, a[0], 'round')
    if isinstance(v, C) and all(isinstance(x, C) for x in a):
        return C(round(*[x.v for x in a]))
    t = T('round', v, *a[1:])
    if len(a) == 1:
        set_spec(t, 'int')
    return t


def f_sum(ip, a, kw):
    acc = a[1] if len(a) > 1 else C(0)
    for x in ms.iterate(ip, a[0], None):
        acc = m_ops.binop(ip, 'Add', acc, x)
    return acc


def f_any(ip, a, kw):
    for x in ip.live(a[0], None):
        if ip.truth(x):
            return TRUE
    return FALSE


def f_all(ip, a, kw):
    for x in ip.live(a[0], None):
        if not ip.truth(x):
            return FALSE
    return TRUE


def f_range(ip, a, kw):
    a = [m_str.need_int(ip, x, 'TypeError', 'range') for x in a]
    lo, hi, step = C(0), None, C(1)
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    t = T('range', lo, hi, step)
    set_spec(t, 'object')
    return t


def f_enumerate(ip, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', C(0))
    iterable(ip, a[0])
    return IterV(gen=(Tup([m_ops.binop(ip, 'Add', start, C(i)), x])
                      for i, x in enumerate(ip.live(a[0], None))))


def iterable(ip, v):
    """iter(v) is taken at once: what cannot be iterated fails here and not at the first item."""
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, (C, T, FutV, LockV)) and not isinstance(v, T):
        ms.iterate(ip, v, None)
    elif isinstance(v, T) and v not in ip.objof and not ip.types(v) & frozenset(['list', 'dict']):
        ms.iterate(ip, v, None)


def together(ip, seqs, strict=False):
    for x in seqs:
        iterable(ip, x)
    return _together(ip, [ip.live(x, None) for x in seqs], strict)


def _together(ip, its, strict):
    while its:
        row = []
        for it in its:
            x = next(it, None)
            if x is None:
                if strict and (row or any(next(o, None) is not None for o in its[1:])):
                    raise ip.exc('ValueError', 'zip() arguments differ in length')
                return
            row.append(x)
        yield row


def f_zip(ip, a, kw):
    strict = 'strict' in kw and ip.truth(kw['strict'])
    return IterV(gen=(Tup(x) for x in together(ip, a, strict)))


def f_map(ip, a, kw):
    return IterV(gen=(ip.call(a[0], list(x)) for x in together(ip, a[1:])))


def f_filter(ip, a, kw):
    iterable(ip, a[1])
    return IterV(gen=(x for x in ip.live(a[1], None) if ip.truth(
        x if (isinstance(a[0], C) and a[0].v is None) else ip.call(a[0], [x]))))


def f_sorted(ip, a, kw):
    return ListV(ms.sort_items(ip, ms.iterate(ip, a[0], None), kw))


def f_reversed(ip, a, kw):
    return IterV(list(ms.iterate(ip, a[0], None))[::-1])


def f_iter(ip, a, kw):
    if len(a) == 2:
        f, end = a[0], a[1]

        def until():
            n = len(ip.choices)
            for i in range(64):
                v = ip.call(f, [])
                if mt.eq(ip, v, end):
                    return
                yield v
                if len(ip.choices) - n > 32:
                    break
            raise PathCut('iter() bound')
        return IterV(gen=until())
    v = a[0]
    if isinstance(v, IterV):
        return v
    if isinstance(v, Inst) and isinstance(v.cls, Cls):
        got = ip.class_lookup(v.cls, '__iter__')
        if got is not None:
            return ip.call(ip.bind(got[0], v, v.cls), [])
    iterable(ip, v)
    return IterV(gen=ip.live(v, None))


def f_next(ip, a, kw):
    it = a[0]
    if not isinstance(it, IterV):
        if isinstance(it, T):
            return ip.call(ip.getattr(it, '__next__'), [])
        if isinstance(it, Inst) and isinstance(it.cls, Cls):
            got = ip.class_lookup(it.cls, '__next__')
            if got is not None:
                return ip.call(ip.bind(got[0], it, it.cls), [])
        raise ip.exc('TypeError', 'not an iterator')
    v = it.take(ip)
    if v is not None:
        return v
    if len(a) > 1:
        return a[1]
    raise ip.exc('StopIteration')


def f_repr(ip, a, kw):
    v = a[0]
    if isinstance(v, Inst) and isinstance(v.cls, Cls):
        got = ip.class_lookup(v.cls, '__repr__')
        if got is not None:
            return ip.call(ip.bind(got[0], v, v.cls), [])
    return m_str.to_repr(ip, v)


def f_format(ip, a, kw):
    spec = a[1] if len(a) > 1 else C('')
    if isinstance(spec, T):
        spec = ip.resolve(spec)
    if not isinstance(spec, C):
        return T('strfmt', spec, a[0] if isinstance(a[0], (C, T)) else T('obj', a[0]))
    exc = 'TypeError' if isinstance(a[0], C) and a[0].v is None else 'ValueError'
    return m_str.format_value(ip, a[0], spec.v, exc)


def f_hex(ip, a, kw):
    v = m_str.need_int(ip, a[0], 'TypeError', 'hex')
    if isinstance(v, C):
        return C(hex(v.v))
    if not ip.cmp_num(v, '>=', C(0)):
        return T('smeth', 'hex', v)
    return s_cat([C('0x'), T('fmt', 'x', v)])


def f_id(ip, a, kw):
    return T('id', a[0] if isinstance(a[0], V) else C(0))


def f_hash(ip, a, kw):
    t = T('hash', a[0])
    set_spec(t, 'int')
    return t


def f_print(ip, a, kw):
    ip.event('log', 'print', None, a)
    return NONE


def f_vars(ip, a, kw):
    return ip.getattr(a[0], '__dict__')


def f_divmod(ip, a, kw):
    return Tup([m_ops.binop(ip, 'FloorDiv', a[0], a[1]), m_ops.binop(ip, 'Mod', a[0], a[1])])


def f_pow(ip, a, kw):
    if len(a) > 2:
        v = [ip.resolve(x) if isinstance(x, T) else x for x in a]
        if not all(isinstance(x, C) for x in v):
            raise Undecided('pow with a modulus')
        try:
            return C(pow(*[x.v for x in v]))
        except (TypeError, ValueError) as e:
            raise ip.exc(type(e).__name__, str(e))
    return m_ops.binop(ip, 'Pow', a[0], a[1])


def f_ord(ip, a, kw):
    return C(ord(a[0].v)) if isinstance(a[0], C) else T('ord', a[0])


def f_chr(ip, a, kw):
    if isinstance(a[0], C):
        try:
            return C(chr(a[0].v))
        except (ValueError, TypeError) as e:
            raise ip.exc(type(e).__name__, str(e))
    t = T('chr', a[0])
    set_spec(t, 'str')
    return t


def f_delattr(ip, a, kw):
    ip.delattr(a[0], a[1].v)
    return NONE


def f_oct(ip, a, kw):
    v = m_str.need_int(ip, a[0], 'TypeError', 'oct')
    if not isinstance(v, C):
        raise Undecided('oct')
    return C(oct(v.v))


def f_bin(ip, a, kw):
    v = m_str.need_int(ip, a[0], 'TypeError', 'bin')
    if not isinstance(v, C):
        raise Undecided('bin')
    return C(bin(v.v))


def f_import(ip, a, kw):
    m = ip.loader.get(a[0].v)
    return m if m is not None else Ext(a[0].v)


def f_locals(ip, a, kw, sc):
    return DictV([(C(k), v) for k, v in sc.vars.items()])


def f_globals(ip, a, kw, sc):
    return DictV([(C(k), v) for k, v in sc.module.ns.items()])


FUNCS = {
    'len': f_len, 'isinstance': f_isinstance, 'issubclass': f_issubclass, 'hasattr': f_hasattr,
    'getattr': f_getattr, 'setattr': f_setattr, 'callable': f_callable,
    'min': f_minmax('min'), 'max': f_minmax('max'), 'abs': f_abs, 'round': f_round, 'sum': f_sum,
    'any': f_any, 'all': f_all, 'range': f_range, 'enumerate': f_enumerate, 'zip': f_zip,
    'map': f_map, 'filter': f_filter, 'sorted': f_sorted, 'reversed': f_reversed, 'iter': f_iter,
    'next': f_next, 'repr': f_repr, 'format': f_format, 'hex': f_hex, 'id': f_id, 'hash': f_hash,
    'print': f_print, 'vars': f_vars, 'divmod': f_divmod, 'pow': f_pow, 'ord': f_ord,
    'chr': f_chr, '__import__': f_import, 'delattr': f_delattr, 'oct': f_oct, 'bin': f_bin,
    'ascii': f_repr,
}
_natives = {}


def builtin(ip, name):
    got = _natives.get(name)
    if got is not None:
        return got
    if name in mt.TYPE_NAMES:
        r = bcls(name)
    elif name in FUNCS:
        r = Native(name, FUNCS[name])
    elif name == 'locals':
        r = Native(name, f_locals, 'scoped')
    elif name == 'globals':
        r = Native(name, f_globals, 'scoped')
    elif name == 'NotImplemented':
        r = Ext('NotImplemented')
    elif name == 'Ellipsis':
        r = Ext('Ellipsis')
    elif name == '__debug__':
        r = TRUE
    elif name == '__name__':
        return None
    else:
        r = exc_class(name)
    if r is not None:
        _natives[name] = r
    return r


# ------------------------------------------------------------------------ constructors

def call_bcls(ip, c, a, kw):
    n = c.name
    if n == 'int':
        return m_str.call_int(ip, a, kw)
    if n == 'float':
        return m_str.call_float(ip, a, kw)
    if n == 'bool':
        return C(ip.truth(a[0])) if a else FALSE
    if n == 'str':
        if not a:
            return C('')
        if len(a) > 1 or 'encoding' in kw:
            enc, errors = m_str.codec(ip, a, kw, 1)
            return m_str.decode(ip, m_str.as_bytes(ip, a[0]), errors, enc)
        return m_str.to_str(ip, a[0])
    if n == 'bytes':
        if not a:
            return C(b'')
        if len(a) > 1 or 'encoding' in kw:
            return m_str.encode(ip, m_ops.need_str(ip, a[0], 'bytes()'), *m_str.codec(ip, a, kw, 1))
        return m_str.bytes_from(ip, a[0])
    if n == 'bytearray':
        if not a:
            return ByteArr(C(b''))
        if len(a) > 1:
            return ByteArr(m_str.encode(ip, a[0], *m_str.codec(ip, a, kw, 1)))
        return ByteArr(m_str.bytes_from(ip, a[0]))
    if n == 'memoryview':
        return MemV(m_str.as_bytes(ip, a[0]))
    if n == 'list':
        if not a:
            return ListV()
        v = _objview(ip, a[0])
        if isinstance(v, ListV):
            ip.event('iter', 'list', v)
            return ms.copy_list(ip, v)
        return ListV(ms.iterate(ip, a[0], None))
    if n == 'tuple':
        return Tup(ms.iterate(ip, a[0], None)) if a else Tup([])
    if n in ('set', 'frozenset'):
        return SetV(ms.dedupe(ip, ms.iterate(ip, a[0], None))) if a else SetV()
    if n == 'dict':
        d = DictV()
        if a:
            v = _objview(ip, a[0])
            if isinstance(v, DictV):
                ip.event('iter', 'dict()', v)
                d = ms.copy_dict(ip, v)
            else:
                if isinstance(v, C):
                    raise ip.exc('TypeError', 'not iterable')
                ms.dict_update(ip, d, v)
        for k, v in kw.items():
            ms.dict_set(ip, d, kwkey(k), v, quiet=True)
        return d
    if n == 'type':
        return f_type(ip, a, kw)
    if n == 'object':
        return Inst(c, 'sentinel at %s' % ip.where())
    if n == 'property':
        return Wrapped('property', a[0] if a else kw.get('fget'), a[1] if len(a) > 1 else
                       kw.get('fset'))
    if n == 'slice':
        return SliceV(*((list(a) + [NONE, NONE])[:3] if len(a) > 1 else [NONE, a[0], NONE]))
    if n in ('staticmethod', 'classmethod'):
        return Wrapped(n, a[0])
    if ip.is_subclass(c, exc_class('BaseException')):
        i = Inst(c)
        i.attrs['args'] = Tup(a)
        i.label = 'made at %s' % ip.where()
        return i
    raise Undecided('constructor %s' % n)


def _objview(ip, v):
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, T):
        if v in ip.objof:
            return ip.objof[v]
        for k in ('dict', 'list'):
            if k in ip.types(v) and (ip.types(v) == frozenset([k]) or
                                     ip.decide_type(v, frozenset([k]))):
                return ip.as_obj(v)
    return v


# ------------------------------------------------------------------------ attributes

def obj_attr(ip, o, name):
    if isinstance(o, C):
        if isinstance(o.v, (str, bytes)):
            if not hasattr(o.v, name):
                return None
            return m_str.const_method(ip, o, name)
        if name == '__class__':
            return bcls(type(o.v).__name__)
        return num_method(ip, o, name)
    if isinstance(o, DictV):
        return ms.dict_method(ip, o, name)
    if isinstance(o, ListV):
        return ms.list_method(ip, o, name)
    if isinstance(o, SetV):
        return ms.set_method(ip, o, name)
    if isinstance(o, Tup):
        return ms.tup_method(ip, o, name)
    if isinstance(o, ByteArr):
        return m_str.bytearr_method(ip, o, name)
    if isinstance(o, LockV):
        return lock_method(ip, o, name)
    if isinstance(o, FutV):
        return fut_method(ip, o, name)
    if isinstance(o, ViewV):
        if name in ('isdisjoint',):
            return N(name, lambda ip, a, kw: C(not any(
                mt.eq(ip, x, y) for x in ms.iterate(ip, o, None)
                for y in ms.iterate(ip, a[0], None))))
        if name == 'mapping':
            return o.dict
        return None
    if isinstance(o, IterV):
        if name == '__next__':
            return N('next', lambda ip, a, kw: f_next(ip, [o], kw))
        if name == '__iter__':
            return N('iter', lambda ip, a, kw: o)
        g = o.gen
        if name == 'close':
            if not hasattr(g, 'close') or not isinstance(g, Gen):
                return N('close', lambda ip, a, kw: NONE)
            return N('close', lambda ip, a, kw: g.close() or NONE)
        if name == 'send' and isinstance(g, Gen):
            def send(ip, a, kw):
                g.sent = a[0]
                return f_next(ip, [o], {})
            return N('send', send)
        if name == 'throw' and isinstance(g, Gen):
            def throw(ip, a, kw):
                e = ip.call(a[0], a[1:2]) if isinstance(a[0], (Cls, mt.BCls)) else a[0]
                g.error = PyExc(e, ip.where())
                return f_next(ip, [o], {})
            return N('throw', throw)
        return None
    return None


def num_method(ip, o, name):
    v = o
    if name == 'to_bytes':
        def tb(ip, a, kw):
            n = a[0] if a else kw.get('length', C(1))
            order = a[1] if len(a) > 1 else kw.get('byteorder', C('big'))
            if isinstance(n, T):
                n = ip.resolve(n)
            if not isinstance(n, C):
                raise Undecided('to_bytes of unknown length')
            x = m_str.need_int(ip, v, 'TypeError', 'to_bytes')
            signed = ip.truth(kw.get('signed', FALSE))
            lo, hi = (0, (1 << (8 * n.v)) - 1) if not signed else \
                (-(1 << (8 * n.v - 1)), (1 << (8 * n.v - 1)) - 1)
            if not (ip.cmp_num(x, '>=', C(lo)) and ip.cmp_num(x, '<=', C(hi))):
                raise ip.exc('OverflowError', 'int too big to convert')
            return m_str.enc_int(ip, x, n.v, order.v)
        return N('int.to_bytes', tb)
    if name == 'bit_length':
        def bl(ip, a, kw):
            x = v
            if isinstance(x, C):
                return C(x.v.bit_length())
            t = T('bitlen', x)
            set_spec(t, 'int', lo=0)
            return t
        return N('int.bit_length', bl)
    if name == 'is_integer':
        return N('is_integer', lambda ip, a, kw: C(v.v.is_integer()) if isinstance(v, C) else
                 C(ip.atom(('isint', v), '%s is integral' % show(v))))
    if name in ('real', 'numerator') :
        return v
    if name == '__class__':
        return bcls(mt.typename(ip, v))
    return None


def term_method(ip, t, name):
    """Attribute of a (non-container) term; None = opaque attribute."""
    if ip.atoms.get(('hasattr', t, name)) is False:
        raise ip.exc('AttributeError', '%s has no attribute %r' % (show(t), name))
    ts = ip.types(t)
    if name == '__class__':
        return T('typeof', t)
    if name == '__name__' and t.op == 'typeof':
        return T('typename', t.args[0])
    if ts <= STR:
        return m_str.str_method(ip, t, name)
    if ts <= BYTES:
        return m_str.bytes_method(ip, t, name)
    if ts <= NUM:
        r = num_method(ip, t, name)
        return r
    if ts <= frozenset(['NoneType']):
        raise ip.exc('AttributeError', 'None has no attribute %r' % name)
    if ts <= frozenset(['traceback']) or ts <= frozenset(['tuple']):
        return None
    if ts <= OBJECT:
        return None
    # a union: split on the kinds the attribute belongs to
    for fam in (STR, BYTES, NUM, frozenset(['dict']), frozenset(['list']), frozenset(['tuple']),
                frozenset(['traceback'])):
        if ts & fam and any(mt.type_has_attr(x, name) for x in fam & ts):
            if ip.decide_type(t, fam):
                t2 = ip.resolve(t)
                return ip.getattr(t2, name)
            ts = ip.types(t)
    return None


def annotations(ip, f):
    args = getattr(f.node, 'args', None)
    sc = f.scope
    if sc is None:
        from .interp import Scope
        sc = Scope(None, f.module, None)
    out = DictV()
    for p in (args.posonlyargs + args.args + args.kwonlyargs) if args is not None else []:
        if p.annotation is not None:
            out.entries.append([C(p.arg), ip.eval(p.annotation, sc)])
    return out


def func_attr(ip, f, name):
    if isinstance(f, Wrapped) and f.how == 'property':
        if name == 'setter':
            return N('setter', lambda ip, a, kw: Wrapped('property', f.fn, a[0]))
        if name in ('getter', 'deleter'):
            return N(name, lambda ip, a, kw: f)
        if name == 'fget':
            return f.fn
    g = f
    while isinstance(g, (Bound, Wrapped)):
        g = g.fn
    if isinstance(g, Func):
        if name in g.attrs:
            return g.attrs[name]
        if name in ('__name__',):
            return C(g.name)
        if name == '__qualname__':
            return C(g.qualname)
        if name == '__doc__':
            return NONE
        if name == '__module__':
            return C(g.module.name)
        if name in g.attrs:
            return g.attrs[name]
        if name == '__wrapped__':
            return g
        if name == '__annotations__':
            return annotations(ip, g)
    if isinstance(f, Bound) and name == '__self__':
        return f.self
    if isinstance(f, Bound) and name == '__func__':
        return f.fn
    if isinstance(f, Wrapped) and f.how == 'lru_cache' and name == 'cache_clear':
        return N('cache_clear', lambda ip, a, kw: NONE)
    if isinstance(g, Native) and name == '__name__':
        return C(g.name)
    if name == '__call__':
        return f
    return None


def bcls_attr(ip, c, name):
    if name == '__name__':
        return C(c.name.split('.')[-1])
    if name == '__mro__':
        return Tup(ip.mro(c))
    if c.name == 'int' and name == 'from_bytes':
        def fb(ip, a, kw):
            b = m_str.as_bytes(ip, a[0])
            order = a[1] if len(a) > 1 else kw.get('byteorder', C('big'))
            signed = ip.truth(kw.get('signed', FALSE))
            n = ip.norm(mt.seq_len(b))
            if isinstance(n, C):
                return m_str.read_int(ip, b, C(0), n.v, signed, order.v)
            t = T('frombytes', b, order)
            set_spec(t, 'int', lo=None if signed else 0)
            return t
        return N('int.from_bytes', fb)
    if c.name == 'dict' and name == 'fromkeys':
        def fk(ip, a, kw):
            d = DictV()
            for k in ms.iterate(ip, a[0], None):
                ms.dict_set(ip, d, k, a[1] if len(a) > 1 else NONE, quiet=True)
            return d
        return N('dict.fromkeys', fk)
    if c.name in ('bytes', 'bytearray') and name == 'fromhex':
        def fromhex(ip, a, kw):
            v = ip.resolve(a[0]) if isinstance(a[0], T) else a[0]
            if not isinstance(v, C):
                raise Undecided('bytes.fromhex of an unknown text')
            try:
                r = C(bytes.fromhex(v.v))
            except (TypeError, ValueError) as e:
                raise ip.exc(type(e).__name__, str(e))
            return r if c.name == 'bytes' else ByteArr(r)
        return N('bytes.fromhex', fromhex)
    if c.name == 'str' and name == 'maketrans':
        return N('str.maketrans', lambda ip, a, kw: ip.call(m_str.const_method(
            ip, C(''), 'maketrans'), list(a)))
    if c.py is not None and hasattr(c.py, name):
        # an unbound method: str.lower, dict.get
        def unbound(ip, a, kw):
            if name == '__init__':
                return NONE
            if name == '__new__':
                return Inst(a[0])
            return ip.call(ip.getattr(a[0], name), a[1:], kw)
        return N('%s.%s' % (c.name, name), unbound)
    return None


def inst_attr(ip, o, name):
    c = o.cls
    bname = c.name if isinstance(c, BCls) else None
    if bname is None and isinstance(c, Cls):
        for k in ip.mro(c):
            if isinstance(k, BCls) and k.name in INST_ATTR:
                bname = k.name
                break
    if bname in INST_ATTR:
        r = INST_ATTR[bname](ip, o, name)
        if r is not None:
            return r
    if ip.is_subclass(c, exc_class('BaseException')):
        if name in ('with_traceback',):
            return N(name, lambda ip, a, kw: o)
        if name == '__traceback__':
            return set_spec(T('tb', o), 'traceback')
        if name in ('errno', 'strerror', 'filename', 'code', 'reason', 'response', 'value', 'msg',
                    '__cause__', '__context__'):
            args = o.attrs.get('args')
            if name in ('errno', 'strerror') and isinstance(args, Tup) and len(args.items) > 1:
                return args.items[name == 'strerror']
            return T('excattr', o, name)
        if name == 'message':
            return None
        if name == 'add_note':
            return N(name, lambda ip, a, kw: NONE)
    if name == '__init__':
        return N('object.__init__', lambda ip, a, kw: NONE)
    if name == '__eq__':
        return N('object.__eq__', lambda ip, a, kw: C(o is a[0]))
    if name == '__ne__':
        def ne(ip, a, kw):
            return C(not mt.eq(ip, o, a[0]))
        return N('object.__ne__', ne)
    if name == '__hash__':
        return N('object.__hash__', lambda ip, a, kw: T('hash', o))
    if name in ('__str__', '__repr__'):
        return N('object.__str__', lambda ip, a, kw: m_str.to_str(ip, o))
    if name == '__module__':
        return C('')
    if name == '__doc__':
        return NONE
    if name == '__setattr__':
        def sa(ip, a, kw):
            ip.touch(o)
            ip.event('set', a[0].v, o, [a[1]])
            o.attrs[a[0].v] = a[1]
            return NONE
        return N('object.__setattr__', sa)
    if name == '__slots__':
        return None
    return None


INST_ATTR = {}


def inst_call(ip, o, a, kw):
    return None


def class_attr(ip, c, name):
    if name == '__module__':
        return C(c.module.name if c.module else '')
    if name == '__qualname__':
        return C(c.qualname)
    if name == '__doc__':
        return c.ns.get('__doc__', NONE)
    if name == '__class__':
        return bcls('type')
    if name == '__bases__':
        return Tup(c.bases)
    if name == '__init__':
        return N('object.__init__', lambda ip, a, kw: NONE)
    if name == '__new__':
        def new(ip, a, kw):
            return Inst(a[0])
        return N('object.__new__', new)
    if name in ('__setattr__', '__eq__', '__ne__', '__hash__', '__str__', '__repr__'):
        return N('object.' + name, lambda ip, a, kw: ip.call(inst_attr(ip, a[0], name), a[1:]))
    if name == '__annotations__':
        return DictV()
    return None


def super_attr(ip, s, name):
    o = s.self
    if name == '__init__':
        def init(ip, a, kw):
            if isinstance(o, Inst) and ip.is_subclass(o.cls, exc_class('BaseException')):
                o.attrs['args'] = Tup(a)
            return NONE
        return N('object.__init__', init)
    if name == '__new__':
        return N('object.__new__', lambda ip, a, kw: Inst(a[0]))
    if name == '__getattribute__':
        return N('getattribute', lambda ip, a, kw: ip.getattr(o, a[0].v))
    if name in ('__init_subclass__', '__set_name__'):
        return N('object.' + name, lambda ip, a, kw: NONE)
    if isinstance(o, Cls):
        if o.meta is not None and s.cls in ip.mro(o.meta):
            if name == '__call__':
                return N('type.__call__', lambda ip, a, kw: ip.instantiate(o, a, kw))
            if name == '__init__':
                return N('type.__init__', lambda ip, a, kw: NONE)
        r = class_attr(ip, o, name)
        if r is not None:
            return r
    if isinstance(o, Inst):
        r = inst_attr(ip, o, name)
        if r is not None:
            return r
        if isinstance(o.cls, Cls) and ip.has_external_base(o.cls):
            return T('attr', T('super', o), name)
    raise ip.exc('AttributeError', "'super' object has no attribute %r" % name)


def make_super(ip, args, sc):
    if args:
        cls, o = args[0], args[1]
    else:
        s = sc
        while s is not None and (s.func is None or s.func.cls is None or
                                 s.func.name == '<comp>' or not s.func.node.args.args):
            s = s.parent
        if s is None:
            raise ip.exc('RuntimeError', 'super(): no arguments')
        cls = s.func.cls
        o = s.vars[s.func.node.args.args[0].arg]
    k = o.cls if isinstance(o, Inst) else o
    if isinstance(o, Cls) and o.meta is not None and cls in ip.mro(o.meta):
        k = o.meta
    return SuperV(cls, o, ip.mro(k))


def base_init(ip, o, c, args, kwargs):
    if ip.is_subclass(c, exc_class('BaseException')):
        return
    if ip.has_external_base(c):
        ip.event('call', 'external __init__', o, args, kwargs)
        return
    for k in ip.mro(c):
        if isinstance(k, BCls) and k.name in INST_ATTR:
            return
    if args or kwargs:
        if ip.class_lookup(c, '__new__') is not None:
            return
        raise ip.exc('TypeError', '%s() takes no arguments' % c.name)


# ------------------------------------------------------------------------ locks

def acquire(ip, l):
    if ip.other is not None:
        ip.point(l, 'acquiring the lock')
    if l in ip.other_held:
        if ip.thread:
            raise Infeasible()      # it cannot run at this point
        ip.event('deadlock', l.label or 'lock', l)
        raise PathCut('the other thread never releases %r' % l)
    if l in ip.held and not l.reentrant:
        ip.event('deadlock', l.label or 'lock', l)
        ip.deadlocks.append((l, ip.where()))
        raise PathCut('deadlock: %r acquired twice' % l)
    if l not in ip.held:
        for h in ip.held:
            ip.lock_edges.append((h, l, ip.where()))
        ip.hold_epoch += 1
    ip.touch(l)
    l.count += 1
    ip.held.append(l)
    ip.event('acquire', l.label or 'lock', l)


def release(ip, l):
    if l not in ip.held:
        raise ip.exc('RuntimeError', 'release unlocked lock')
    ip.touch(l)
    l.count -= 1
    # the last occurrence
    for i in range(len(ip.held) - 1, -1, -1):
        if ip.held[i] is l:
            del ip.held[i]
            break
    ip.event('release', l.label or 'lock', l)
    if ip.other is not None:
        ip.point(l, 'going on after the release')


def lock_method(ip, l, name):
    if name in ('acquire', '__enter__'):
        def acq(ip, a, kw):
            blocking = a[0] if a else kw.get('blocking', TRUE)
            timeout = a[1] if len(a) > 1 else kw.get('timeout')
            if not ip.truth(blocking) or timeout is not None:
                if l in ip.held and not l.reentrant:
                    return FALSE
                if ip.choose(2, 'the lock is free') == 1:
                    ip._redesc('the lock is taken')
                    return FALSE
            acquire(ip, l)
            return TRUE
        return N('lock.acquire', acq)
    if name in ('release', '__exit__'):
        def rel(ip, a, kw):
            release(ip, l)
            return NONE
        return N('lock.release' if name == 'release' else 'lock.exit', rel)
    if name == 'locked':
        return N('lock.locked', lambda ip, a, kw: C(l in ip.held) if l in ip.held else
                 C(ip.choose(2, 'locked elsewhere') == 1))
    return None


def cm_enter(ip, cm):
    if isinstance(cm, T):
        cm = ip.resolve(cm)
    if isinstance(cm, LockV):
        acquire(ip, cm)
        return TRUE
    if isinstance(cm, ByteArr):
        return cm
    if isinstance(cm, Inst):
        if isinstance(cm.cls, BCls) and cm.cls.name == 'contextlib.suppress':
            return NONE
        if isinstance(cm.cls, Cls):
            got = ip.class_lookup(cm.cls, '__enter__')
            if got is not None:
                return ip.call(ip.bind(got[0], cm, cm.cls), [])
            if cm.cls.name.startswith('stub:') and (
                    '__enter__' in cm.attrs or mt.has_real_attr(ip, cm, '__enter__')):
                return ip.call(ip.getattr(cm, '__enter__'), [])
        raise ip.exc('TypeError', 'not a context manager')
    if isinstance(cm, T):
        e = ip.event('enter', show(cm), cm)
        e.result = T('attr', cm, '__enter__()')
        return e.result
    raise ip.exc('TypeError', 'not a context manager')


def cm_exit(ip, cm, exc):
    """Returns True when the exception is swallowed."""
    if isinstance(cm, T):
        cm = ip.resolve(cm)
    if isinstance(cm, LockV):
        release(ip, cm)
        return False
    if isinstance(cm, Inst):
        if isinstance(cm.cls, BCls) and cm.cls.name == 'contextlib.suppress':
            return exc is not None and any(ip.exc_matches(exc.value, c)
                                           for c in cm.attrs['excs'].items)
        got = ip.class_lookup(cm.cls, '__exit__') if isinstance(cm.cls, Cls) else None
        if got is not None:
            if exc is None:
                args = [NONE, NONE, NONE]
            else:
                args = [exc.value.cls, exc.value, set_spec(T('tb', exc.value), 'traceback')]
            r = ip.call(ip.bind(got[0], cm, cm.cls), args)
            return exc is not None and ip.truth(r)
        if '__exit__' in cm.attrs:
            ip.call(cm.attrs['__exit__'], [NONE, NONE, NONE])
        return False
    if isinstance(cm, T):
        ip.event('exit', show(cm), cm)
    return False


# ------------------------------------------------------------------------ futures

def fut_settle(ip, f, state, value):
    if f.state != 'pending':
        ip.event('fut', 'double', f, [value])
        raise ip.exc('asyncio.InvalidStateError', 'invalid state')
    ip.touch(f)
    f.state, f.value = state, value
    f.sets += 1
    ip.event('fut', 'set_result' if state == 'done' else 'set_exception', f, [value])
    if ip.sched is not None:
        ip.sched.settled(f)
    cbs = f.callbacks
    f.callbacks = []
    for cb in cbs:
        ip.call(cb, [f])


def fut_method(ip, f, name):
    if name == 'set_result':
        return N(name, lambda ip, a, kw: (fut_settle(ip, f, 'done', a[0] if a else
                                                     kw.get('result', NONE)), NONE)[1])
    if name == 'set_exception':
        def se(ip, a, kw):
            v = a[0]
            if isinstance(v, (Cls, BCls)):
                v = ip.call(v, [])
            fut_settle(ip, f, 'error', v)
            return NONE
        return N(name, se)
    if name == 'set_exc_info':
        return N(name, lambda ip, a, kw: (fut_settle(ip, f, 'error', a[0].items[1]), NONE)[1])
    if name == 'add_done_callback':
        def adc(ip, a, kw):
            ip.event('fut', 'add_done_callback', f, a)
            if f.state == 'pending':
                ip.touch(f)
                f.callbacks = f.callbacks + [a[0]]
            else:
                ip.call(a[0], [f])
            return NONE
        return N(name, adc)
    if name == 'result':
        def result(ip, a, kw):
            return fut_result(ip, f)
        return N(name, result)
    if name == 'exception':
        def exception(ip, a, kw):
            if f.state == 'pending':
                raise ip.exc('asyncio.InvalidStateError', 'Exception is not set.')
            return f.value if f.state == 'error' else NONE
        return N(name, exception)
    if name == 'done':
        return N(name, lambda ip, a, kw: C(f.state != 'pending'))
    if name == 'cancelled':
        return N(name, lambda ip, a, kw: FALSE)
    if name == 'cancel':
        return N(name, lambda ip, a, kw: C(f.state == 'pending'))
    if name == '__class__':
        return Ext('tornado.concurrent.Future')
    return None


def fut_result(ip, f):
    if f.state == 'pending':
        raise ip.exc('asyncio.InvalidStateError', 'Result is not set.')
    if f.state == 'error':
        v = f.value
        if isinstance(v, Inst):
            raise PyExc(v, ip.where())
        x = Inst(exc_class('Exception'))
        x.attrs['args'] = Tup([v])
        x.attrs['__term__'] = v
        raise PyExc(x, ip.where())
    return f.value


def await_(ip, v):
    """A yield / await inside a coroutine."""
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, FutV):
        if v.state == 'pending':
            h = getattr(ip, 'await_hook', None)
            if h is not None:
                r = h(ip, v)
                if r is not None:
                    return r
            if ip.sched is not None and ip.sched.current is not None:
                ip.sched.current.wait(v)
                return fut_result(ip, v)
            ip.event('await', 'pending', v)
            raise PathCut('waits for %r' % v)
        return fut_result(ip, v)
    if isinstance(v, CoroV):
        return await_(ip, ip.start(v))
    if isinstance(v, (ListV, Tup)):
        items = [ip.start(x) if isinstance(x, CoroV) else x for x in ms.iterate(ip, v, None)]
        items = [await_(ip, x) for x in items]
        return ListV(items) if isinstance(v, ListV) else Tup(items)
    if isinstance(v, DictV):
        items = [(k, ip.start(x) if isinstance(x, CoroV) else x) for k, x in v.entries]
        return DictV([(k, await_(ip, x)) for k, x in items])
    if isinstance(v, C):
        if v.v is None:
            return NONE
        raise ip.exc('Exception', 'yielded unknown object')
    if isinstance(v, T):
        e = ip.event('await', show(v), v)
        ip.maybe_fail('await ' + show(v), e)
        r = T('res', 'await ' + show(v), ip.fresh('await ' + show(v)))
        e.result = r
        return r
    raise ip.exc('Exception', 'yielded unknown object %r' % (v,))


def maybe_future(ip, v):
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, FutV):
        return v
    f = FutV('maybe_future')
    f.state, f.value = 'done', v
    return f
