"""Strings, byte strings, struct, numbers from text."""
import builtins as _bi
import codecs
import re as _re
import struct as _struct

from . import options
from . import terms
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, MemV, LockV, FutV, ViewV, IterV, Tup, Func,
                   Wrapped, Bound, Native, Cls, BCls, Mod, Ext, SuperV, SliceV, CMGen, PyExc,
                   PathCut, Infeasible, Undecided, AnchorLost)
from .terms import (C, EnumC, T, V, NONE, TRUE, FALSE, SPECS, ANY_TYPES, NUM, show, set_spec, s_cat,
                    s_parts, b_cat, b_parts)
from . import m_types as mt
from . import m_seq as ms
from .m_types import eq, INT, STR, BYTES, OBJECT, seq_len
from .m_seq import N


# ------------------------------------------------------------------------ to text

def to_str(ip, v):
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, C):
        return C(str(v.v))
    if isinstance(v, T):
        ts = ip.types(v)
        if ts <= STR:
            return v
        if ts == frozenset(['int']):
            return T('fmt', 'd', v)
        if 'str' in ts:
            if ip.decide_type(v, STR):
                return ip.resolve(v)
            return to_str(ip, v)
        if ip.str_raises and 'object' in ts:
            ip.event('tostr', 'str', v)
            if ip.atom(('strfails', v), 'str(%s) raises' % show(v), first=False):
                raise ip.exc('Exception', T('msg', 'str'))
        return T('str', v)
    if isinstance(v, Inst):
        if isinstance(v.cls, Cls):
            for n in ('__str__', '__repr__'):
                got = ip.class_lookup(v.cls, n)
                if got is not None:
                    return ip.call(ip.bind(got[0], v, v.cls), [])
        args = v.attrs.get('args')
        if isinstance(args, Tup) and len(args.items) == 1 and isinstance(args.items[0], C):
            if ip.is_subclass(v.cls, mt.exc_class('KeyError')):
                return to_repr(ip, args.items[0])
            return to_str(ip, args.items[0])
        if isinstance(args, Tup) and len(args.items) != 1:
            ok, p = plain(args)
            if ok and ip.is_subclass(v.cls, mt.exc_class('BaseException')) and \
                    not ip.is_subclass(v.cls, mt.exc_class('OSError')):
                return C(str(p) if p else '')
        return T('str', v)
    if isinstance(v, ByteArr):
        return T('str', v)
    if isinstance(v, (Tup, ListV, DictV)):
        ok, p = plain(v)
        if ok:
            return C(str(p))
        return T('str', snapshot(v))
    return T('str', v)


class _Unknown(Exception):
    pass


def plain(v):
    """(True, the Python value) for a value known through and through."""
    def conv(v, depth):
        if depth > 6 or isinstance(v, EnumC) or getattr(v, 'open', False):
            raise _Unknown()
        if isinstance(v, C):
            return v.v
        if type(v) is Tup:
            return tuple(conv(x, depth + 1) for x in v.items)
        if type(v) is ListV:
            return [conv(x, depth + 1) for x in v.items]
        if type(v) is DictV:
            return {conv(k, depth + 1): conv(x, depth + 1) for k, x in v.entries}
        raise _Unknown()
    try:
        return True, conv(v, 0)
    except (_Unknown, TypeError):
        return False, None


def snapshot(v, within=()):
    """The content of a container now, as a value that does not change with it."""
    if isinstance(v, (C, T)):
        return v
    if id(v) in within or getattr(v, 'open', False):
        return T('obj', v)
    within += (id(v),)
    if isinstance(v, Tup):
        return T('tup', *[snapshot(x, within) for x in v.items])
    if isinstance(v, ListV):
        return T('list', *[snapshot(x, within) for x in v.items])
    if isinstance(v, DictV):
        return T('dict', *[snapshot(x, within) for e in v.entries for x in e])
    return T('obj', v)


def to_repr(ip, v):
    if isinstance(v, C):
        return C(repr(v.v))
    if isinstance(v, Inst) and isinstance(v.cls, Cls):
        got = ip.class_lookup(v.cls, '__repr__')
        if got is not None:
            return ip.call(ip.bind(got[0], v, v.cls), [])
    if isinstance(v, Inst):
        ok, p = plain(v.attrs.get('args'))
        if ok and ip.is_subclass(v.cls, mt.exc_class('BaseException')):
            return C('%s(%s)' % (v.cls.name.rsplit('.', 1)[-1], ', '.join(repr(x) for x in p)))
    if isinstance(v, (ListV, DictV, Tup)):
        ok, p = plain(v)
        if ok:
            return C(repr(p))
    if isinstance(v, (ListV, DictV)):
        return T('repr', snapshot(v))
    return T('repr', v)


def hexfmt(ip, v):
    return T('fmt', 'x', v) if not isinstance(v, C) else C(format(v.v, 'x'))


def need_int(ip, v, exc, what):
    """v as an int value, or the given exception."""
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, Inst) and exc == 'TypeError':
        v = mt.indexed(ip, v)
    if isinstance(v, C):
        if isinstance(v.v, int):
            return v
        raise ip.exc(exc, '%s needs an int, not %r' % (what, v))
    if isinstance(v, T):
        if ip.types(v) <= INT or ip.decide_type(v, INT):
            return ip.resolve(v)
        raise ip.exc(exc, '%s needs an int: %s' % (what, show(v)))
    raise ip.exc(exc, '%s needs an int' % what)


def format_value(ip, v, spec, exc='ValueError'):
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, C):
        try:
            return C(format(v.v, spec))
        except (ValueError, TypeError) as e:
            raise ip.exc(type(e).__name__, str(e))
    if spec in ('', 's'):
        if spec == 's' and isinstance(v, T) and not ip.types(v) <= STR:
            pass
        return to_str(ip, v)
    m = _re.match(r'^(0?)(\d*)([xXd])$', spec)
    if m:
        v = need_int(ip, v, exc, 'format %r' % spec)
        if isinstance(v, C):
            return C(format(v.v, spec))
        kind = m.group(3)
        r = T('fmt', 'x' if kind == 'X' else kind, v)
        if kind == 'X':
            r = T('upper', r)
        if m.group(2):
            n = int(m.group(2))
            if m.group(1):
                r = T('zfill', r, C(n))
            else:
                r = T('rjust', r, C(n))
        return r
    m = _re.match(r'^0>(\d+)([xd])?$', spec)
    if m:
        base = format_value(ip, v, m.group(2) or '', exc)
        return T('zfill', base, C(int(m.group(1)))) if not isinstance(base, C) else \
            C(base.v.rjust(int(m.group(1)), '0'))
    if isinstance(v, T) and v.op == 'strfmt':
        return v
    if isinstance(v, (C, T)):
        v = mt.as_num(ip, v, 'format') if spec[-1] in 'feg' else v
        return T('strfmt', spec, v)
    return T('strfmt', spec, T('obj', v))


def percent(ip, fmt, args):
    """'...' % args"""
    if isinstance(fmt, T):
        fmt = ip.resolve(fmt)
    if not isinstance(fmt, C):
        return T('strfmt', fmt, _flat(args))
    mapping = args if isinstance(args, DictV) else None
    items = list(args.items) if isinstance(args, Tup) else [args]
    out = []
    pos = 0
    used = 0
    for m in _re.finditer(r'%(\((\w+)\))?([-#0 +]*)(\d*|\*)(\.\d+)?([diouxXeEfFgGcrsa%])', fmt.v):
        out.append(C(fmt.v[pos:m.start()]))
        pos = m.end()
        conv = m.group(6)
        if conv == '%':
            out.append(C('%'))
            continue
        flags, width = m.group(3), m.group(4)
        if width == '*' and m.group(2) is None and used < len(items):
            w = ip.resolve(items[used]) if isinstance(items[used], T) else items[used]
            if not isinstance(w, C) or not isinstance(w.v, int):
                raise Undecided('a width taken from the arguments')
            used += 1
            width = str(abs(int(w.v)))
            if w.v < 0:
                flags += '-'
        if m.group(2) is not None:
            if mapping is None:
                raise ip.exc('TypeError', 'format requires a mapping')
            v = ms.dict_get(ip, mapping, C(m.group(2)))
        else:
            if used >= len(items):
                raise ip.exc('TypeError', 'not enough arguments for format string')
            v = items[used]
            used += 1
        if conv not in 'sra' and set(flags) - {'0'} and not isinstance(v, C):
            raise Undecided('%' + flags + width + conv)
        if conv in 'di':
            v = mt.as_num(ip, v, '%d')
            if isinstance(v, C):
                r = C(('%' + flags + width + conv) % v.v)
            elif ip.types(v) <= INT:
                r = format_value(ip, v, ('0' if '0' in flags else '') + width + 'd', 'TypeError')
            else:
                r = T('strfmt', '%d', v)
        elif conv in 'xX':
            r = format_value(ip, v, ('0' if '0' in flags else '') + width + conv, 'TypeError')
        elif conv in 'sra':
            r = to_str(ip, v) if conv == 's' else to_repr(ip, v)
            if (width or m.group(5)) and isinstance(r, C):
                r = C(('%' + flags + width + (m.group(5) or '') + 's') % r.v)
            elif width or m.group(5):
                r = T('strfmt', m.group(0), r)
        elif conv == 'c' and isinstance(v, C):
            try:
                r = C(m.group(0) % v.v)
            except (TypeError, OverflowError) as e:
                raise ip.exc(type(e).__name__, str(e))
        elif conv in 'eEfFgG':
            v = mt.as_num(ip, v, '%f')
            r = C(m.group(0) % v.v) if isinstance(v, C) else T('strfmt', m.group(0), v)
        else:
            r = T('strfmt', m.group(0), v if isinstance(v, (C, T)) else T('obj', v))
        out.append(r)
    out.append(C(fmt.v[pos:]))
    if mapping is None and used < len(items):
        if not (used == 0 and len(items) == 1 and not isinstance(args, Tup)
                and isinstance(args, (DictV,))):
            raise ip.exc('TypeError', 'not all arguments converted during string formatting')
    return s_cat(out)


def percent_bytes(ip, fmt, args):
    """b'...' % args"""
    if not isinstance(fmt, C):
        raise Undecided('an unknown bytes format')
    items = list(args.items) if isinstance(args, Tup) else [args]
    out = []
    pos = used = 0
    for m in _re.finditer(rb'%([-#0 +]*)(\d*)([a-zA-Z%])', fmt.v):
        out.append(C(fmt.v[pos:m.start()]))
        pos = m.end()
        conv = m.group(3).decode()
        if conv == '%':
            out.append(C(b'%'))
            continue
        if used >= len(items):
            raise ip.exc('TypeError', 'not enough arguments for format string')
        v = items[used]
        used += 1
        if conv in 'sb' and not m.group(1) and not m.group(2):
            out.append(as_bytes(ip, v))
        elif conv in 'dixX':
            out.append(encode(ip, percent(ip, C(m.group(0).decode()), Tup([v]))))
        else:
            raise Undecided('%%%s in a bytes format' % conv)
    out.append(C(fmt.v[pos:]))
    if used < len(items):
        raise ip.exc('TypeError', 'not all arguments converted during bytes formatting')
    return b_cat(out)


def str_format(ip, fmt, a, kw):
    if not isinstance(fmt, C):
        return T('strfmt', fmt, _flat(Tup(a)))
    out = []
    auto = 0
    s = fmt.v
    i = 0
    import string
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(C(lit))
        if field is None:
            continue
        m = _re.match(r'^(\w*)(.*)$', field)
        name, rest = m.group(1), m.group(2)
        if name == '':
            v = a[auto] if auto < len(a) else None
            auto += 1
        elif name.isdigit():
            v = a[int(name)] if int(name) < len(a) else None
        else:
            v = kw.get(name)
            if v is None:
                raise ip.exc('KeyError', name)
        if v is None:
            raise ip.exc('IndexError', 'Replacement index out of range')
        for m2 in _re.finditer(r'\.(\w+)|\[([^\]]+)\]', rest):
            if m2.group(1):
                v = ip.getattr(v, m2.group(1))
            else:
                k = m2.group(2)
                v = ms.getitem(ip, v, C(int(k) if k.isdigit() else k))
        if spec and '{' in spec:
            sp = str_format(ip, C(spec), a[auto:], kw)
            if not isinstance(sp, C):
                out.append(T('strfmt', sp, v if isinstance(v, (C, T)) else T('obj', v)))
                continue
            spec = sp.v
        if conv == 'r':
            v = to_repr(ip, v)
        elif conv == 's':
            v = to_str(ip, v)
        exc = 'TypeError' if (isinstance(v, C) and v.v is None) else 'ValueError'
        out.append(format_value(ip, v, spec or '', exc))
    return s_cat(out)


def _flat(args):
    if isinstance(args, Tup):
        return T('tup', *[x if isinstance(x, (C, T)) else T('obj', x) for x in args.items])
    return args if isinstance(args, (C, T)) else T('obj', args)


# ------------------------------------------------------------------------ slices

def _cut(ip, parts, n):
    """Split a part list at length n (a value); None when the position is inside a part."""
    acc = C(0)
    for i, p in enumerate(parts):
        if _same_num(ip, acc, n):
            return parts[:i], parts[i:]
        if isinstance(p, C) and isinstance(acc, C) and isinstance(n, C):
            k = n.v - acc.v
            if 0 < k < len(p.v):
                return parts[:i] + [C(p.v[:k])], [C(p.v[k:])] + parts[i + 1:]
        elif isinstance(p, C):
            d = ip.norm(terms.t_sub(n, acc))
            if isinstance(d, C) and 0 < d.v < len(p.v):
                k = int(d.v)
                return parts[:i] + [C(p.v[:k])], [C(p.v[k:])] + parts[i + 1:]
        acc = terms.t_add(acc, seq_len(p))
    if _same_num(ip, acc, n):
        return parts, []
    return None


def _same_num(ip, a, b):
    if a is b:
        return True
    d = ip.norm(terms.t_sub(a, b))
    return isinstance(d, C) and d.v == 0


def seq_getitem(ip, s, k):
    """Index or slice of a str / bytes value."""
    s = ip.norm(s) if isinstance(s, T) else s
    isb = not (mt.obj_types(ip, s) & STR)
    if not isinstance(k, SliceV):
        k = mt.as_num(ip, k, 'index')
        if isinstance(s, C) and isinstance(k, C):
            return C(s.v[ms.index_of(ip, k, len(s.v))])
        n = seq_len(s)
        if isinstance(k, C) and k.v < 0:
            k = terms.t_add(n, k)
        if not (ip.cmp_num(k, '<', n) and ip.cmp_num(k, '>=', C(0))):
            raise ip.exc('IndexError', 'index out of range')
        if isb:
            base, off = _base(s)
            return read_int(ip, base, terms.t_add(off, k), 1, False)
        return T('sslice', s, k, terms.t_add(k, C(1)))
    lo, hi, step = (ip.resolve(x) if isinstance(x, T) else x for x in (k.lo, k.hi, k.step))
    if all(isinstance(x, C) for x in (s, lo, hi, step)):
        return C(s.v[lo.v:hi.v:step.v])
    if not (step is NONE or (isinstance(step, C) and step.v == 1)):
        return T('smeth', 'slice', s, k.lo, k.hi, k.step)
    lo = C(0) if lo is NONE else mt.as_num(ip, lo, 'slice')
    n = ip.norm(seq_len(s))
    if isinstance(lo, C) and lo.v < 0:
        t = terms.t_add(n, lo)
        lo = t if ip.cmp_num(t, '>=', C(0)) else C(0)
    if hi is not NONE:
        hi = mt.as_num(ip, hi, 'slice')
        if isinstance(hi, C) and hi.v < 0:
            t = terms.t_add(n, hi)
            hi = t if ip.cmp_num(t, '>=', C(0)) else C(0)
        elif isinstance(s, T):
            lo_h, hi_h = ip.rng(hi)
            if (lo_h is None or lo_h < 0) and not isinstance(hi, C):
                if ip.cmp_num(hi, '<', C(0)):
                    return T('sslice' if not isb else 'bslice', s, lo, T('neg', hi))
    return slice_seq(ip, s, lo, hi if hi is not NONE else None, isb)


def slice_seq(ip, s, lo, hi, isb):
    cat = b_cat if isb else s_cat
    parts = (b_parts if isb else s_parts)(s)
    n = ip.norm(seq_len(s))
    if hi is not None and ip.known_cmp(n, '<=', hi) is True:
        hi = None
    if hi is not None and _same_num(ip, lo, hi):
        return C(b'') if isb else C('')
    pre = _cut(ip, parts, lo)
    if pre is not None:
        rest = pre[1]
        if hi is None:
            return cat(rest)
        got = _cut(ip, rest, terms.t_sub(hi, lo))
        if got is not None:
            return cat(got[0])
        s2 = cat(rest)
        if s2 is not s:
            return slice_seq(ip, s2, C(0), terms.t_sub(hi, lo), isb)
    if not isb or isinstance(s, T) and s.op == 'bcat':
        # split on whether the slice is complete
        if hi is not None and not ip.cmp_num(n, '>', hi):
            hi = None
        if isinstance(lo, C) and lo.v == 0:
            if hi is None:
                return s
        elif not ip.cmp_num(n, '>', lo):
            return C(b'') if isb else C('')
        if hi is not None and not ip.cmp_num(hi, '>', lo):
            return C(b'') if isb else C('')
    if isinstance(s, T) and s.op in ('scat', 'bcat'):
        # the position is inside an unknown part
        return T('bslice' if isb else 'sslice', s, lo, hi)
    if isb:
        # unknown bytes: split on whether the slice is complete
        if hi is not None:
            if not ip.cmp_num(n, '>=', hi):
                hi = None
        if hi is None and not ip.cmp_num(n, '>=', lo):
            return C(b'')
        base, off = _base(s)
        end = None
        if hi is not None:
            end = terms.t_add(off, hi)
        elif isinstance(s, T) and s.op == 'bslice':
            end = s.args[2]
        lo2 = terms.t_add(off, lo)
        if end is None and isinstance(lo2, C) and lo2.v == 0:
            return base
        return T('bslice', base, lo2, end)
    if hi is None and isinstance(lo, C) and lo.v == 0:
        return s
    if isinstance(s, T) and s.op == 'sslice' and hi is not None and isinstance(lo, C) \
            and lo.v == 0 and isinstance(s.args[1], C) and s.args[1].v == 0 \
            and s.args[2] is not None:
        # s[:a][:b]
        if ip.cmp_num(s.args[2], '<=', hi):
            return s
        return T('sslice', s.args[0], C(0), hi)
    return T('sslice', s, lo, hi)


def _base(s):
    """(underlying byte string, offset) of a byte slice."""
    if isinstance(s, T) and s.op == 'bslice':
        return s.args[0], s.args[1]
    return s, C(0)


# ------------------------------------------------------------------------ reading ints

def read_int(ip, buf, off, size, signed, order='big'):
    """Integer of `size` bytes at offset `off` of the byte value `buf`."""
    off = ip.norm(off) if isinstance(off, T) else off
    if isinstance(buf, T) and buf.op == 'bslice':
        return read_int(ip, buf.args[0], terms.t_add(buf.args[1], off), size, signed, order)
    if isinstance(buf, C) and isinstance(off, C):
        return C(int.from_bytes(buf.v[off.v:off.v + size], order, signed=signed))
    got = _cut(ip, b_parts(buf), off)
    if got is not None and got[1]:
        p = got[1][0]
        if isinstance(p, T) and p.op in ('be', 'le') and p.args[0] == size and \
                (p.op == 'be') == (order == 'big'):
            x = p.args[1]
            lo, hi = ip.rng(x)
            if signed:
                if lo is not None and hi is not None and lo >= -(1 << (8 * size - 1)) and \
                        hi < (1 << (8 * size - 1)):
                    return x
                return T('signed', size, x)
            if lo is not None and hi is not None and lo >= 0 and hi < (1 << (8 * size)):
                return x
            return terms.t_and_const(x, (1 << (8 * size)) - 1, ip.rng)
        if isinstance(p, C) and len(p.v) >= size:
            return C(int.from_bytes(p.v[:size], order, signed=signed))
        end = _cut(ip, got[1], C(size))
        if end is not None and order == 'big' and not signed:
            # several smaller fields
            x = C(0)
            for q in end[0]:
                if isinstance(q, T) and q.op == 'be':
                    w = q.args[0]
                    v = terms.t_and_const(q.args[1], (1 << (8 * w)) - 1, ip.rng)
                elif isinstance(q, C):
                    w = len(q.v)
                    v = C(int.from_bytes(q.v, 'big'))
                else:
                    break
                x = terms.t_or(terms.t_shl(x, 8 * w), v, ip.rng)
            else:
                return x
        # one byte field inside a bigger one etc.: unknown
    return T('rd' if order == 'big' else 'rdle', buf, off, size, signed)


_CODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True),
          'I': (4, False), 'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False),
          '?': (1, False)}


def parse_struct(ip, fmt):
    if isinstance(fmt, T):
        fmt = ip.resolve(fmt)
    if not isinstance(fmt, C):
        raise Undecided('struct with an unknown format')
    s = fmt.v.decode() if isinstance(fmt.v, bytes) else fmt.v
    order = 'big'
    if s[:1] in '<>!=@':
        order = 'big' if s[0] in '>!' else 'little'
        s = s[1:]
    else:
        order = 'little'
    out = []
    for m in _re.finditer(r'(\d*)([a-zA-Z?])', s.replace(' ', '')):
        n = int(m.group(1)) if m.group(1) else 1
        c = m.group(2)
        if c in 's':
            out.append(('s', n, None))
        elif c == 'x':
            out.append(('x', n, None))
        elif c in _CODES:
            for _ in range(n):
                out.append((c,) + _CODES[c])
        else:
            raise Undecided('struct format %r' % s)
    return order, out


def struct_size(ip, fmt):
    order, fields = parse_struct(ip, fmt)
    return sum(f[1] for f in fields)


def struct_pack(ip, fmt, args):
    order, fields = parse_struct(ip, fmt)
    n = len([f for f in fields if f[0] != 'x'])
    if n != len(args):
        raise ip.exc('struct.error', 'pack expected %d items' % n)
    out = []
    args = list(args)
    for c, size, signed in fields:
        if c == 'x':
            out.append(C(b'\0' * size))
            continue
        v = args.pop(0)
        if c == 's':
            v = as_bytes(ip, v)
            if isinstance(v, C):
                out.append(C(v.v[:size].ljust(size, b'\0')))
            elif _same_num(ip, seq_len(v), C(size)):
                out.append(v)
            else:
                out.append(T('padded', v, size))
            continue
        v = need_int(ip, v, 'struct.error', 'struct.pack')
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else \
            (0, (1 << (8 * size)) - 1)
        if isinstance(v, C) and isinstance(v.v, bool):
            v = C(int(v.v))
        if not (ip.cmp_num(v, '>=', C(lo)) and ip.cmp_num(v, '<=', C(hi))):
            raise ip.exc('struct.error', 'argument out of range: %s' % show(v))
        out.append(enc_int(ip, v, size, order))
    return b_cat(out)


def enc_int(ip, v, size, order):
    if isinstance(v, C):
        return C((v.v % (1 << (8 * size))).to_bytes(size, order))
    if size > 8 and order == 'big':
        # the 64-bit words an integer that wide is made of, so that every way to write it agrees
        lo = size - (size % 8 or 8)
        return b_cat([enc_int(ip, terms.t_shr(v, 8 * lo, ip.rng), size - lo, order),
                      enc_int(ip, terms.t_and_const(v, (1 << (8 * lo)) - 1, ip.rng), lo, order)])
    return terms.be(size, v) if order == 'big' or size == 1 else T('le', size, v)


def struct_unpack(ip, fmt, buf, off=None, exact=True):
    order, fields = parse_struct(ip, fmt)
    size = sum(f[1] for f in fields)
    b = as_bytes(ip, buf)
    n = ip.norm(seq_len(b))
    base = off if off is not None else C(0)
    if exact:
        ok = ip.cmp_num(n, '==', C(size))
    else:
        ok = ip.cmp_num(n, '>=', terms.t_add(base, C(size)))
    if not ok:
        raise ip.exc('struct.error', 'unpack requires a buffer of %d bytes' % size)
    out = []
    o = base
    for c, w, signed in fields:
        if c == 's':
            out.append(slice_seq(ip, b, o, terms.t_add(o, C(w)), True))
        elif c != 'x':
            out.append(read_int(ip, b, o, w, signed, 'big' if order == 'big' or w == 1 else order))
        o = terms.t_add(o, C(w))
    return Tup(out)


def as_bytes(ip, v):
    """The immutable byte-string value of bytes / bytearray."""
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, ByteArr):
        return ip.norm(v.val)
    if isinstance(v, C) and isinstance(v.v, (bytes, bytearray)):
        return v
    if isinstance(v, T):
        if v in ip.objof:
            return as_bytes(ip, ip.objof[v])
        if ip.types(v) <= BYTES or ip.decide_type(v, BYTES):
            return v
    raise ip.exc('TypeError', 'a bytes-like object is required, not %s' % mt.typename(ip, v))


def bytes_from(ip, v):
    """What bytes(v) holds."""
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, C) and isinstance(v.v, int):
        if v.v < 0:
            raise ip.exc('ValueError', 'negative count')
        return C(bytes(v.v))
    if isinstance(v, (IterV, Tup, ListV, SetV, Inst, ViewV, DictV)):
        if isinstance(v, Inst) and isinstance(v.cls, Cls):
            got = ip.class_lookup(v.cls, '__bytes__')
            if got is not None:
                return as_bytes(ip, ip.call(ip.bind(got[0], v, v.cls), []))
        out = []
        for x in ip.live(v, None):
            x = need_int(ip, x, 'TypeError', 'bytes()')
            if not (ip.cmp_num(x, '>=', C(0)) and ip.cmp_num(x, '<=', C(255))):
                raise ip.exc('ValueError', 'bytes must be in range(0, 256)')
            out.append(C(bytes([x.v])) if isinstance(x, C) else terms.be(1, x))
        return b_cat(out) if out else C(b'')
    return as_bytes(ip, v)


def codec(ip, a, kw, i=0):
    """The encoding ('' for utf-8) and the error handling of an encode() or decode() call."""
    out = []
    for j, (n, d) in enumerate((('encoding', 'utf-8'), ('errors', 'strict'))):
        v = a[i + j] if len(a) > i + j else kw.get(n, C(d))
        v = ip.norm(v) if isinstance(v, T) else v
        if not isinstance(v, C) or not isinstance(v.v, str):
            raise Undecided('%s not known' % n)
        out.append(v.v)
    enc, errors = out
    try:
        enc = codecs.lookup(enc).name
    except LookupError:
        raise ip.exc('LookupError', 'unknown encoding: %s' % enc)
    return '' if enc == 'utf-8' else enc, errors


def encode(ip, s, enc='', errors='strict'):
    if isinstance(s, C):
        try:
            return C(s.v.encode(enc or 'utf-8', errors))
        except UnicodeEncodeError:
            raise ip.exc('UnicodeEncodeError', T('msg', 'encode'))
    parts = []
    for p in s_parts(s):
        if isinstance(p, C):
            try:
                parts.append(C(p.v.encode(enc or 'utf-8', errors)))
            except UnicodeEncodeError:
                raise ip.exc('UnicodeEncodeError', T('msg', 'encode'))
        elif p.op == 'dec' and len(p.args) == 1 and not enc:
            parts.append(p.args[0])
        elif not enc:
            # lone surrogates are left out, so the error handling does not matter
            parts.append(T('enc', p))
        elif p.op == 'fmt' and enc in ('ascii', 'iso8859-1'):
            parts.append(T('enc', p))
        else:
            if not ip.atom(('encok', p, enc), '%s can be encoded in %s' % (show(p), enc)):
                if errors == 'strict':
                    raise ip.exc('UnicodeEncodeError', T('msg', 'encode'))
                parts.append(T('enc', p, C(enc), C(errors)))
            elif enc == 'ascii':
                parts.append(T('enc', p))
            else:
                parts.append(T('enc', p, C(enc)))
    return b_cat(parts)


def decode(ip, b, errors='strict', enc=''):
    b = ip.norm(b)
    if isinstance(b, C):
        try:
            return C(bytes(b.v).decode(enc or 'utf-8', errors))
        except UnicodeDecodeError:
            raise ip.exc('UnicodeDecodeError', 'invalid')
    parts = b_parts(b)
    out = []
    for p in parts:
        if isinstance(p, C):
            out.append(C(bytes(p.v).decode(enc or 'utf-8', 'replace')))
        elif p.op == 'enc' and (p.args[1].v if len(p.args) == 2 else '') == enc and \
                len(p.args) < 3:
            out.append(p.args[0])
        elif enc == 'iso8859-1':
            out.append(T('dec', p, C(enc)))
        else:
            if errors == 'strict' and not ip.atom(('decok', p) + ((enc,) if enc else ()),
                                                  '%s is valid %s' % (show(p), enc or 'utf-8')):
                raise ip.exc('UnicodeDecodeError', T('msg', 'decode'))
            out.append(T('dec' if errors == 'strict' else 'decr', p, *([C(enc)] if enc else [])))
    for x in out:
        if isinstance(x, T) and x.op in ('decr', 'dec'):
            set_spec(x, 'str')
    return s_cat(out)


# ------------------------------------------------------------------------ str methods

_BOOL_METHODS = ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isnumeric',
                 'isdecimal', 'isidentifier', 'isprintable', 'istitle', 'isascii')


def const_method(ip, s, name):
    f = getattr(s.v, name, None)
    if f is None:
        raise ip.exc('AttributeError', '%r has no attribute %r' % (s.v, name))

    def call(ip, a, kw):
        a = [ip.resolve(x) if isinstance(x, T) else x for x in a]
        if name == 'join':
            return str_join(ip, s, a[0])
        if name == 'format':
            return str_format(ip, s, a, kw)
        if all(_pyable(x) for x in a) and all(_pyable(x) for x in kw.values()):
            try:
                r = f(*[_py(x) for x in a], **{k: _py(x) for k, x in kw.items()})
            except Exception as e:
                raise ip.exc(type(e).__name__, str(e))
            return from_py(r)
        return term_str_call(ip, s, name, a, kw)
    if not callable(f):
        return from_py(f)
    return N('%s.%s' % (type(s.v).__name__, name), call)


def _pyable(x):
    if type(x) in (DictV, ListV):
        return plain(x)[0]
    return isinstance(x, C) or (isinstance(x, Tup) and all(_pyable(y) for y in x.items)) or \
        (isinstance(x, BCls) and x.py)


def _py(x):
    if isinstance(x, C):
        return x.v
    if isinstance(x, Tup):
        return tuple(_py(y) for y in x.items)
    if isinstance(x, (DictV, ListV)):
        return plain(x)[1]
    return x.py


def from_py(r):
    if isinstance(r, (list,)):
        return ListV([from_py(x) for x in r])
    if isinstance(r, tuple):
        return Tup([from_py(x) for x in r])
    if isinstance(r, dict):
        return DictV([(from_py(k), from_py(v)) for k, v in r.items()])
    if isinstance(r, bytearray):
        return ByteArr(C(bytes(r)))
    if isinstance(r, set):
        return SetV([from_py(x) for x in sorted(r, key=repr)])
    return C(r)


def str_join(ip, sep, seq):
    if isinstance(seq, T):
        seq = ip.resolve(seq)
    isb = isinstance(sep, C) and isinstance(sep.v, bytes)
    if isinstance(seq, T) and seq in ip.objof:
        seq = ip.objof[seq]
    if isinstance(seq, ListV) and seq.open:
        ms.materialise_list(ip, seq)
        if seq.open:
            t = T('join', sep, seq.label)
            if isb:
                set_spec(t, 'bytes')
            return t
    items = ms.iterate(ip, seq, None)
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        if isb:
            out.append(as_bytes(ip, x))
            continue
        if isinstance(x, T):
            x = ip.resolve(x)
        if isinstance(x, T) and (ip.types(x) <= STR or ip.decide_type(x, STR)):
            x = ip.resolve(x)
        elif not (isinstance(x, C) and isinstance(x.v, str)):
            raise ip.exc('TypeError', 'sequence item: expected str')
        out.append(x)
    return b_cat(out) if isb else s_cat(out)


def lower(ip, s):
    if isinstance(s, C):
        return C(s.v.lower())
    if s.op == 'scat':
        return s_cat([lower(ip, p) for p in s.args[0]])
    if s.op == 'lower' or s.op == 'fmt':
        return s
    if s.op == 'upper':
        return lower(ip, s.args[0]) if s.args[0].op == 'fmt' else T('lower', s)
    if s.op == 'zfill':
        return T('zfill', lower(ip, s.args[0]), s.args[1])
    sp = SPECS.get(s)
    if sp is not None and sp.extra.get('lower'):
        return s
    return T('lower', s)


def replace(ip, s, a, b):
    if isinstance(s, C) and isinstance(a, C) and isinstance(b, C):
        return C(s.v.replace(a.v, b.v))
    if isinstance(a, C) and isinstance(b, C) and isinstance(s, T):
        if s.op == 'scat' and len(a.v) == 1:
            return s_cat([replace(ip, p, a, b) for p in s.args[0]])
        if ms.safe_without(s, a.v):
            return s
        sp = SPECS.get(s)
        if sp is not None and a.v in sp.extra.get('without', ''):
            return s
    return T('replace', s, a, b)


def split(ip, s, sep, maxsplit=-1):
    if isinstance(s, C) and isinstance(sep, C):
        return from_py(s.v.split(sep.v, maxsplit))
    parts = s_parts(s)
    if isinstance(sep, C) and sep.v is not None and len(sep.v) == 1 and maxsplit < 0 and \
            all(isinstance(p, C) or ms.safe_without(p, sep.v) or
                sep.v in SPECS.get(p, _NOSPEC).extra.get('without', '') for p in parts):
        out = [[]]
        for p in parts:
            if isinstance(p, C):
                bits = p.v.split(sep.v)
                out[-1].append(C(bits[0]))
                for b in bits[1:]:
                    out.append([C(b)])
            else:
                out[-1].append(p)
        return ListV([s_cat(x) for x in out])
    label = T('split', s, sep, C(maxsplit))
    n = T('len', label)
    if n not in SPECS:
        set_spec(n, 'int', lo=(1 if not (isinstance(sep, C) and sep.v is None) else 0),
                 hi=(maxsplit + 1 if maxsplit >= 0 else None))
    return ListV(open=True, label=label, valtypes='str')


class _NS(object):
    extra = {}


_NOSPEC = _NS()


def startswith(ip, s, p, end=False):
    if isinstance(p, Tup):
        return any(startswith(ip, s, x, end) for x in p.items)
    if isinstance(p, T):
        p = ip.resolve(p)
    if isinstance(s, C) and isinstance(p, C):
        return s.v.endswith(p.v) if end else s.v.startswith(p.v)
    isb = not (mt.obj_types(ip, s) & STR)
    ps, pp = (b_parts if isb else s_parts)(s), (b_parts if isb else s_parts)(p)
    if end:
        if len(pp) <= len(ps) and all(a is b for a, b in zip(ps[::-1], pp[::-1])):
            return True
    elif len(pp) <= len(ps) and all(a is b for a, b in zip(ps, pp)):
        return True
    a, b = (ps[-1], pp[-1]) if end else (ps[0] if ps else C(''), pp[0] if pp else C(''))
    if isinstance(a, C) and isinstance(b, C):
        n = min(len(a.v), len(b.v))
        if end:
            if a.v[len(a.v) - n:] != b.v[len(b.v) - n:]:
                return False
            if len(pp) == 1 and n == len(b.v):
                return True
        else:
            if a.v[:n] != b.v[:n]:
                return False
            if len(pp) == 1 and n == len(b.v):
                return True
    if isinstance(a, T) and isinstance(b, C) and b.v and not end:
        if not _may_start(a, b.v[0]):
            return False
    return ip.atom(('ends' if end else 'starts', s, p), '%s %s %s' % (
        show(s), 'ends with' if end else 'starts with', show(p)))


def _may_start(t, ch):
    if t.op == 'fmt':
        return ch in '0123456789abcdef-'
    return True


def str_method(ip, s, name):
    """A method of a str-typed term."""
    if not hasattr(str, name):
        raise ip.exc('AttributeError', 'str has no attribute %r' % name)
    return N('str.' + name, lambda ip, a, kw: options.run(
        lambda ip, a, kw: term_str_call(ip, ip.norm(s), name, a, kw), 'str.' + name, ip,
        [ip.resolve(x) if isinstance(x, T) else x for x in a], kw))


def term_str_call(ip, s, name, a, kw):
    if isinstance(s, C) and isinstance(s.v, bytes) or (isinstance(s, T) and ip.types(s) <= BYTES):
        return term_bytes_call(ip, s, name, a, kw)
    if name == 'lower' or name == 'casefold':
        return lower(ip, s)
    if name == 'encode':
        return encode(ip, s, *codec(ip, a, kw))
    if name == 'format':
        return str_format(ip, s, a, kw)
    if name == 'join':
        return str_join(ip, s, a[0])
    if name == 'replace':
        return replace(ip, s, a[0], a[1])
    if name in ('startswith', 'endswith'):
        return C(startswith(ip, s, a[0], name == 'endswith'))
    if name == 'split':
        sep = a[0] if a else kw.get('sep', NONE)
        mx = a[1] if len(a) > 1 else kw.get('maxsplit', C(-1))
        return split(ip, s, sep, mx.v if isinstance(mx, C) else -1)
    if name in ('partition', 'rpartition'):
        parts = s_parts(s)
        if len(parts) > 0 and isinstance(a[0], C):
            sp = split(ip, s, a[0])
            if not sp.open:
                items = sp.items
                if len(items) == 1:
                    return Tup([s, C(''), C('')] if name == 'partition' else [C(''), C(''), s])
                if name == 'partition':
                    rest = items[1:]
                    j = [rest[0]]
                    for x in rest[1:]:
                        j += [a[0], x]
                    return Tup([items[0], a[0], s_cat(j)])
        if ip.atom(('contains', s, a[0]), '%r in %s' % (a[0], show(s))):
            out = []
            for i in (0, 2):
                t = T('part', s, a[0], C(name), C(i))
                out.append(t)
            return Tup([out[0], a[0], out[1]])
        return Tup([s, C(''), C('')] if name == 'partition' else [C(''), C(''), s])
    if name == 'zfill':
        return T('zfill', s, a[0])
    if name == 'rjust' and len(a) == 2 and isinstance(a[1], C) and a[1].v == '0':
        return T('zfill', s, a[0])
    if name in ('strip', 'lstrip', 'rstrip'):
        ch = a[0] if a else NONE
        if isinstance(s, T) and s.op == 'fmt' and ch is NONE:
            return s
        sp = SPECS.get(s)
        if ch is NONE and sp is not None and sp.extra.get('stripped'):
            return s
        return T('strip' if name == 'strip' else name, s, ch)
    if name == 'upper':
        if isinstance(s, C):
            return C(s.v.upper())
        return T('upper', s)
    if name in _BOOL_METHODS:
        if name == 'isdigit' and isinstance(s, T) and s.op == 'fmt' and s.args[0] == 'd' and \
                (ip.rng(s.args[1])[0] or -1) >= 0:
            return TRUE
        return C(ip.atom((name, s), '%s.%s()' % (show(s), name)))
    if name in ('find', 'index', 'count', 'rfind', 'rindex'):
        t = T('smeth', name, s, *[x for x in a if isinstance(x, (C, T))])
        set_spec(t, 'int', lo=(-1 if 'find' in name else 0))
        return t
    if name == '__len__':
        return ip.norm(seq_len(s))
    if name in ('rsplit', 'splitlines'):
        label = T('smeth', name, s, *[x for x in a if isinstance(x, (C, T))])
        return ListV(open=True, label=label, valtypes='str')
    t = T('smeth', name, s, *[x if isinstance(x, (C, T)) else T('obj', x) for x in a])
    set_spec(t, 'str')
    return t


def bytes_method(ip, s, name):
    if not hasattr(bytes, name) and not hasattr(bytearray, name):
        raise ip.exc('AttributeError', 'bytes has no attribute %r' % name)
    return N('bytes.' + name, lambda ip, a, kw: term_bytes_call(ip, ip.norm(s), name, a, kw))


def term_bytes_call(ip, s, name, a, kw):
    if name == 'decode':
        enc, errors = codec(ip, a, kw)
        return decode(ip, s, errors, enc)
    if name in ('startswith', 'endswith'):
        return C(startswith(ip, s, a[0], name == 'endswith'))
    if name == 'join':
        return str_join(ip, s, a[0])
    if name == 'hex':
        t = T('smeth', 'hex', s)
        set_spec(t, 'str')
        return t
    if name == '__len__':
        return ip.norm(seq_len(s))
    if name in ('lower', 'upper', 'strip'):
        t = T('bmeth', name, s)
        set_spec(t, 'bytes')
        return t
    t = T('bmeth', name, s, *[x if isinstance(x, (C, T)) else T('obj', x) for x in a])
    set_spec(t, ANY_TYPES)
    return t


# ------------------------------------------------------------------------ bytearray / BytesIO

def bytearr_method(ip, b, name):
    def mut(kind, a):
        ip.event('mut', kind, b, a)
        ip.touch(b)
    if b.io:
        if name == 'write':
            def write(ip, a, kw):
                v = as_bytes(ip, a[0])
                mut('write', a)
                b.val = b_cat([b.val, v])
                b.pos = ip.norm(seq_len(b.val))
                return ip.norm(seq_len(v))
            return N('BytesIO.write', write)
        if name in ('getvalue', 'getbuffer'):
            return N('BytesIO.getvalue', lambda ip, a, kw: b.val)
        if name in ('read', 'read1'):
            def read(ip, a, kw):
                at, n = b.pos if b.pos is not None else C(0), ip.norm(seq_len(b.val))
                size = ip.resolve(a[0]) if a and isinstance(a[0], T) else a[0] if a else NONE
                if size is NONE or not ip.cmp_num(mt.as_num(ip, size, 'read'), '>=', C(0)):
                    end = NONE
                    b.pos = n
                else:
                    end = ip.norm(terms.t_add(at, size))
                    b.pos = end if ip.cmp_num(end, '<=', n) else n
                return ip.norm(seq_getitem(ip, b.val, SliceV(at, end, NONE)))
            return N('BytesIO.read', read)
        if name == 'seek':
            def seek(ip, a, kw):
                how = a[1] if len(a) > 1 else C(0)
                if not isinstance(how, C) or how.v not in (0, 1, 2):
                    raise Undecided('seek')
                base = C(0) if how.v == 0 else ip.norm(seq_len(b.val)) if how.v == 2 else \
                    b.pos if b.pos is not None else C(0)
                mut('seek', a)
                b.pos = ip.norm(terms.t_add(base, need_int(ip, a[0], 'TypeError', 'seek')))
                return b.pos
            return N('BytesIO.seek', seek)
        if name == 'tell':
            return N('BytesIO.tell', lambda ip, a, kw: b.pos if b.pos is not None else C(0))
        if name in ('flush', 'close', 'truncate'):
            def other(ip, a, kw):
                mut(name, a)
                if name == 'truncate':
                    b.val = C(b'')
                return NONE
            return N('BytesIO.' + name, other)
        return None
    if isinstance(b, MemV):
        if name == 'tobytes':
            return N('memoryview.tobytes', lambda ip, a, kw: ip.norm(b.val))
        if name == 'tolist':
            return N('memoryview.tolist', lambda ip, a, kw: ListV(ms.iterate(ip, b.val, None)))
        if name in ('release', '__exit__'):
            return N('memoryview.release', lambda ip, a, kw: NONE)
        if name in ('cast', 'toreadonly', '__enter__'):
            return N('memoryview.' + name, lambda ip, a, kw: b)
        if name == 'hex':
            return bytes_method(ip, b.val, name)
        if name in ('nbytes', '__len__'):
            n = ip.norm(seq_len(b.val))
            return n if name == 'nbytes' else N('memoryview.__len__', lambda ip, a, kw: n)
        if name in ('itemsize', 'ndim'):
            return C(1)
        return None
    if name == 'extend':
        def extend(ip, a, kw):
            v = as_bytes(ip, a[0])
            mut('extend', a)
            b.val = b_cat([b.val, v])
            return NONE
        return N('bytearray.extend', extend)
    if name == 'append':
        def append(ip, a, kw):
            v = need_int(ip, a[0], 'TypeError', 'append')
            if not (ip.cmp_num(v, '>=', C(0)) and ip.cmp_num(v, '<=', C(255))):
                raise ip.exc('ValueError', 'byte must be in range(0, 256)')
            mut('append', a)
            b.val = b_cat([b.val, terms.be(1, v)])
            return NONE
        return N('bytearray.append', append)
    if name == 'clear':
        def clear(ip, a, kw):
            mut('clear', a)
            b.val = C(b'')
            return NONE
        return N('bytearray.clear', clear)
    if name == 'copy':
        return N('bytearray.copy', lambda ip, a, kw: ByteArr(b.val))
    if name in ('pop', 'insert', 'remove', 'reverse'):
        def other(ip, a, kw):
            mut(name, a)
            if not isinstance(b.val, C) or not all(isinstance(x, C) for x in a):
                raise Undecided('bytearray.' + name)
            v = bytearray(b.val.v)
            try:
                r = getattr(v, name)(*[x.v for x in a])
            except (ValueError, IndexError, TypeError) as e:
                raise ip.exc(type(e).__name__, str(e))
            b.val = C(bytes(v))
            return NONE if r is None else C(r)
        return N('bytearray.' + name, other)
    if hasattr(bytearray, name):
        return N('bytearray.' + name,
                 lambda ip, a, kw: term_bytes_call(ip, ip.norm(b.val), name, a, kw)
                 if not isinstance(b.val, C) or name in ('decode', 'join') else
                 const_method(ip, b.val, name).fn(ip, a, kw))
    return None


# ------------------------------------------------------------------------ int() / float()

def parse_int(ip, s, base):
    """int(text, base)"""
    s = ip.norm(s) if isinstance(s, T) else s
    if isinstance(s, C):
        try:
            return C(int(s.v, base))
        except ValueError:
            raise ip.exc('ValueError', 'invalid literal for int()')
    t = s
    while t.op in ('zfill', 'upper', 'lower', 'strip', 'rjust') and isinstance(t.args[0], T):
        t = t.args[0]
    if t.op == 'fmt' and ((t.args[0] == 'x' and base == 16) or (t.args[0] == 'd' and base == 10)):
        return t.args[1]
    if ip.atom(('intok', s, base), 'int(%s, %d) succeeds' % (show(s), base)):
        r = T('int', s, base)
        return r
    raise ip.exc('ValueError', T('msg', 'invalid literal for int()'))


def call_int(ip, a, kw):
    if not a:
        return C(0)
    v = a[0]
    if isinstance(v, T):
        v = ip.resolve(v)
    base = a[1] if len(a) > 1 else kw.get('base')
    if base is not None:
        if isinstance(base, T):
            base = ip.resolve(base)
        if not isinstance(base, C):
            raise Undecided('int() with an unknown base')
        if isinstance(v, T) and not ip.types(v) <= STR:
            if not (ip.types(v) & (STR | BYTES)) or not ip.decide_type(v, STR | BYTES):
                raise ip.exc('TypeError', "int() can't convert non-string with explicit base")
            v = ip.resolve(v)
        elif isinstance(v, C) and not isinstance(v.v, (str, bytes)) or not isinstance(v, (C, T)):
            raise ip.exc('TypeError', "int() can't convert non-string with explicit base")
        return parse_int(ip, v, base.v)
    if isinstance(v, C):
        try:
            return C(int(v.v))
        except Exception as e:
            raise ip.exc(type(e).__name__, str(e))
    if isinstance(v, T):
        ts = ip.types(v)
        if ts == frozenset(['bool']):
            return C(1) if ip.cmp_num(v, '==', C(1)) else C(0)
        if ts <= frozenset(['int']):
            return v
        if ts & NUM and ip.decide_type(v, NUM):
            v = ip.resolve(v)
            if isinstance(v, C):
                return C(int(v.v))
            if ip.types(v) <= INT or ('int' in ip.types(v) and len(ip.types(v)) > 1 and
                                      v.op in ('sym', 'item', 'res', 'attr') and
                                      ip.decide_type(v, INT)):
                return v
            if v.op in ('sym', 'item', 'res', 'attr') and ip.rng(v)[0] is None:
                if not ip.atom(('finite', v), '%s is finite' % show(v)):
                    if ip.atom(('nan', v), '%s is nan' % show(v)):
                        raise ip.exc('ValueError', 'cannot convert float NaN to integer')
                    raise ip.exc('OverflowError', 'cannot convert float infinity to integer')
            return T('intof', v)
        ts = ip.types(v)
        if ts & (STR | BYTES) and ip.decide_type(v, STR | BYTES):
            return parse_int(ip, ip.resolve(v), 10)
        if 'object' in ip.types(v) and ip.decide_type(v, OBJECT):
            if ip.atom(('intok', v, 10), 'int(%s) succeeds' % show(v)):
                return T('int', v, 10)
            raise ip.exc('TypeError', 'int() argument must be a number')
        raise ip.exc('TypeError', 'int() argument must be a number')
    if isinstance(v, Inst) and isinstance(v.cls, Cls):
        got = ip.class_lookup(v.cls, '__int__')
        if got is not None:
            return ip.call(ip.bind(got[0], v, v.cls), [])
    raise ip.exc('TypeError', 'int() argument must be a number')


def call_float(ip, a, kw):
    if not a:
        return C(0.0)
    v = a[0]
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, C):
        try:
            return C(float(v.v))
        except Exception as e:
            raise ip.exc(type(e).__name__, str(e))
    if isinstance(v, T):
        ts = ip.types(v)
        if ts & NUM and ip.decide_type(v, NUM):
            return ip.resolve(v)
        if ip.types(v) & (STR | BYTES) and ip.decide_type(v, STR | BYTES):
            v = ip.resolve(v)
            if isinstance(v, C):
                return call_float(ip, [v], {})
            if ip.atom(('floatok', v), 'float(%s) succeeds' % show(v)):
                return T('floatof', v)
            raise ip.exc('ValueError', 'could not convert string to float')
        if 'object' in ip.types(v) and ip.decide_type(v, OBJECT):
            if ip.atom(('floatok', v), 'float(%s) succeeds' % show(v)):
                return T('floatof', v)
    raise ip.exc('TypeError', 'float() argument must be a number')
