"""Operators."""
from . import terms
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, LockV, FutV, ViewV, IterV, Tup, Func,
                   Wrapped, Bound, Native, Cls, BCls, Mod, Ext, SuperV, SliceV, CMGen, PyExc,
                   PathCut, Infeasible, Undecided, AnchorLost)
from .terms import C, T, V, NONE, TRUE, FALSE, SPECS, ANY_TYPES, NUM, show, s_cat, b_cat
from . import m_types as mt
from . import m_seq as ms
from . import m_str
from .m_types import INT, STR, BYTES, OBJECT

_DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__',
           'FloorDiv': '__floordiv__', 'Mod': '__mod__', 'Pow': '__pow__', 'LShift': '__lshift__',
           'RShift': '__rshift__', 'BitAnd': '__and__', 'BitOr': '__or__', 'BitXor': '__xor__',
           'MatMult': '__matmul__'}


def unary(ip, op, v):
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, C):
        try:
            return C({'USub': lambda: -v.v, 'UAdd': lambda: +v.v, 'Invert': lambda: ~v.v}[op]())
        except TypeError:
            raise ip.exc('TypeError', 'bad operand type for unary op')
    if isinstance(v, T):
        v = mt.as_num(ip, v, 'unary')
        if op == 'USub':
            return terms.t_neg(v)
        if op == 'UAdd':
            return v
        return terms.t_invert(m_str.need_int(ip, v, 'TypeError', '~'))
    if isinstance(v, Inst) and isinstance(v.cls, Cls):
        got = ip.class_lookup(v.cls, {'USub': '__neg__', 'UAdd': '__pos__',
                                      'Invert': '__invert__'}[op])
        if got is not None:
            return ip.call(ip.bind(got[0], v, v.cls), [])
    raise ip.exc('TypeError', 'bad operand type for unary op')


def _is_text(ip, v):
    return isinstance(v, C) and isinstance(v.v, str) or isinstance(v, T) and ip.types(v) <= STR


def _is_bytes(ip, v):
    return isinstance(v, C) and isinstance(v.v, bytes) or isinstance(v, ByteArr) or \
        isinstance(v, T) and ip.types(v) <= BYTES


def need_str(ip, v, what):
    if isinstance(v, C):
        if isinstance(v.v, str):
            return v
    elif isinstance(v, T):
        if ip.types(v) <= STR or ((ip.types(v) & STR) and ip.decide_type(v, STR)):
            return ip.resolve(v)
    raise ip.exc('TypeError', '%s: not a str: %r' % (what, v))


def binop(ip, op, a, b):
    if isinstance(a, T):
        a = ip.resolve(a)
    if isinstance(b, T):
        b = ip.resolve(b)
    if isinstance(a, T) and a in ip.objof:
        a = ip.objof[a]
    if isinstance(b, T) and b in ip.objof:
        b = ip.objof[b]
    if isinstance(a, C) and isinstance(b, C) and not (op == 'Mod' and isinstance(a.v, str)):
        return _const(ip, op, a, b)
    if isinstance(a, Inst) and isinstance(a.cls, Cls):
        got = ip.class_lookup(a.cls, _DUNDER[op])
        if got is not None:
            return ip.call(ip.bind(got[0], a, a.cls), [b])
    if op == 'Mod' and _is_text(ip, a):
        return m_str.percent(ip, a, b)
    if op == 'Mod' and _is_bytes(ip, a):
        return m_str.percent_bytes(ip, a, b)
    if op == 'Add':
        if _is_text(ip, a) or _is_text(ip, b):
            return s_cat([need_str(ip, a, '+'), need_str(ip, b, '+')])
        if isinstance(a, ByteArr) and _is_bytes(ip, b):
            return ByteArr(b_cat([a.val, m_str.as_bytes(ip, b)]))
        if _is_bytes(ip, a) or _is_bytes(ip, b):
            return b_cat([m_str.as_bytes(ip, a), m_str.as_bytes(ip, b)])
        if isinstance(a, (ListV, T)) and isinstance(b, ListV) or isinstance(a, ListV):
            for x in (a, b):
                if not isinstance(x, ListV) and not (isinstance(x, T) and
                                                     ip.types(x) == frozenset(['list'])):
                    raise ip.exc('TypeError', 'can only concatenate list')
            return ListV(ms.iterate(ip, a, None) + ms.iterate(ip, b, None))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, (Tup, DictV, SetV)) or isinstance(b, (Tup, DictV, SetV)):
            raise ip.exc('TypeError', 'unsupported operand types for +')
        if isinstance(a, T) and isinstance(b, T):
            for fam in (STR, BYTES):
                if ip.types(a) & fam and ip.types(b) & fam:
                    if ip.decide_type(a, fam):
                        if not ip.decide_type(b, fam):
                            raise ip.exc('TypeError', '+')
                        return binop(ip, op, a, b)
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ListV) and isinstance(y, C):
                return ListV(ms.iterate(ip, x, None) * y.v)
            if isinstance(x, Tup) and isinstance(y, C):
                return Tup(x.items * y.v)
            if _is_text(ip, x):
                t = T('smeth', 'repeat', x, y)
                terms.set_spec(t, 'str')
                return t
            if isinstance(x, (ListV, Tup)) or _is_bytes(ip, x):
                raise Undecided('a sequence repeated')
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and isinstance(a, (SetV, ViewV)) and \
            isinstance(b, (SetV, ViewV)):
        a2, b2 = ms.iterate(ip, a, None), ms.iterate(ip, b, None)
        has = lambda x, l: any(mt.eq(ip, x, y) for y in l)
        if op == 'BitOr':
            return SetV(ms.dedupe(ip, a2 + b2))
        if op == 'BitAnd':
            return SetV([x for x in a2 if has(x, b2)])
        if op == 'Sub':
            return SetV([x for x in a2 if not has(x, b2)])
        return SetV([x for x in a2 if not has(x, b2)] + [x for x in b2 if not has(x, a2)])
    if op == 'BitOr' and isinstance(a, DictV) and isinstance(b, DictV):
        n = ms.copy_dict(ip, a)
        ms.dict_update(ip, n, b)
        return n
    if isinstance(b, Inst) and isinstance(b.cls, Cls):
        got = ip.class_lookup(b.cls, '__r' + _DUNDER[op][2:])
        if got is not None:
            return ip.call(ip.bind(got[0], b, b.cls), [a])
    if op == 'BitOr' and isinstance(a, (BCls, Cls, Ext)):
        # a union of types
        return Tup([a] + (list(b.items) if isinstance(b, Tup) else [b]))
    if op == 'BitOr' and isinstance(a, Tup) and isinstance(b, (BCls, Cls, Ext)):
        return Tup(list(a.items) + [b])
    what = 'operator %s' % op
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
        a = m_str.need_int(ip, a, 'TypeError', what)
        b = m_str.need_int(ip, b, 'TypeError', what)
        a, b = _unbool(a), _unbool(b)
        if isinstance(a, C) and isinstance(b, C):
            return _const(ip, op, a, b)
        if op == 'BitAnd':
            return terms.t_and(ip.norm(a), ip.norm(b), ip.rng)
        if op == 'BitOr':
            return terms.t_or(ip.norm(a), ip.norm(b), ip.rng)
        if op == 'BitXor':
            return terms.t_xor(ip.norm(a), ip.norm(b), ip.rng)
        if isinstance(b, C):
            if b.v < 0:
                raise ip.exc('ValueError', 'negative shift count')
            if op == 'LShift':
                return terms.t_shl(a, b.v)
            return terms.t_shr(ip.norm(a), b.v, ip.rng)
        return T('shl' if op == 'LShift' else 'shrv', a, b)
    a = mt.as_num(ip, a, what)
    b = mt.as_num(ip, b, what)
    if isinstance(a, C) and isinstance(b, C):
        return _const(ip, op, a, b)
    if op == 'Add':
        return ip.norm(terms.t_add(a, b))
    if op == 'Sub':
        return ip.norm(terms.t_sub(a, b))
    if op == 'Mult':
        return ip.norm(terms.t_mul(a, b))
    if op in ('Div', 'FloorDiv', 'Mod'):
        if ip.cmp_num(b, '==', C(0)):
            raise ip.exc('ZeroDivisionError', 'division by zero')
        b = ip.resolve(b) if isinstance(b, T) else b
        if op == 'Div':
            return terms.t_div(a, b)
        if op == 'Mod':
            if isinstance(b, C) and isinstance(b.v, int) and b.v > 0 and b.v & (b.v - 1) == 0 and \
                    mt.obj_types(ip, a) <= INT:
                return terms.t_and_const(a, b.v - 1, ip.rng)
            return T('mod', a, b)
        if isinstance(b, C) and isinstance(b.v, int) and b.v > 0 and b.v & (b.v - 1) == 0 and \
                mt.obj_types(ip, a) <= INT:
            return terms.t_shr(ip.norm(a), b.v.bit_length() - 1, ip.rng)
        return T('fdiv', a, b)
    if op == 'Pow':
        if isinstance(b, C) and isinstance(b.v, int) and 0 <= b.v <= 4:
            r = C(1)
            for _ in range(b.v):
                r = terms.t_mul(r, a)
            return r
        return T('pow', a, b)
    raise Undecided('operator %s' % op)


def _unbool(v):
    return C(int(v.v)) if isinstance(v, C) and isinstance(v.v, bool) else v


def _const(ip, op, a, b):
    import operator
    f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
         'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow,
         'LShift': operator.lshift, 'RShift': operator.rshift, 'BitAnd': operator.and_,
         'BitOr': operator.or_, 'BitXor': operator.xor}.get(op)
    if f is None:
        raise Undecided('operator %s' % op)
    try:
        return m_str.from_py(f(a.v, b.v))
    except Exception as e:
        raise ip.exc(type(e).__name__, str(e))


def iop(ip, op, a, b):
    if isinstance(a, T):
        a = ip.resolve(a)
    if isinstance(a, T) and a in ip.objof:
        a = ip.objof[a]
    if op == 'Add' and isinstance(a, ListV):
        ip.call(ip.getattr(a, 'extend'), [b])
        return a
    if op == 'Add' and isinstance(a, ByteArr):
        ip.call(ip.getattr(a, 'extend'), [b])
        return a
    if op == 'BitOr' and isinstance(a, DictV):
        ip.call(ip.getattr(a, 'update'), [b])
        return a
    if op == 'BitOr' and isinstance(a, SetV):
        ip.call(ip.getattr(a, 'update'), [b])
        return a
    if isinstance(a, T) and op == 'Add' and ip.types(a) == frozenset(['bytearray']):
        raise Undecided('in-place change of an unknown bytearray')
    if isinstance(a, Inst) and isinstance(a.cls, Cls):
        got = ip.class_lookup(a.cls, '__i' + _DUNDER[op][2:])
        if got is not None:
            return ip.call(ip.bind(got[0], a, a.cls), [b])
    return binop(ip, op, a, b)
