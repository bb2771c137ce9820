"""Abstract values: constants, value-provenance terms, and their normal forms.

Every scalar the analysed code computes is represented by a *term* that says where
the value came from (which parameter, which field, which call) and by which
operations.  Two computations that build the same value through different code
get the same normal form:

  * arithmetic: Laurent polynomials with rational coefficients over atoms
  * bit operations with constant masks: bits(x, and-mask, or-mask); shifts
  * strings and bytes: flat concatenations of parts
  * formatting: '%x' / '{:x}' / f'{:x}' / format(.., 'x') / hex()[2:] are one operation

There is no solver and nothing is executed: a term is either syntactically equal to
another one in normal form, or the comparison is an atom the path analysis splits on.
"""
from fractions import Fraction

_intern = {}


class V(object):
    """Base class of every abstract value."""
    __slots__ = ()


class C(V):
    """A constant."""
    __slots__ = ('v', '_key')

    def __new__(cls, v):
        if isinstance(v, float):
            key = ('C', 'float', repr(v))
        else:
            key = ('C', type(v).__name__, v)
        try:
            got = _intern.get(key)
        except TypeError:
            raise TypeError('unhashable constant %r' % (v,))
        if got is None:
            got = object.__new__(cls)
            got.v = v
            got._key = key
            _intern[key] = got
        return got

    def __repr__(self):
        return repr(self.v)

    @property
    def items(self):
        """For the rules: a list that is left out is empty."""
        if self.v is None:
            return []
        raise AttributeError('%r has no items' % (self.v,))

    def __reduce__(self):
        return (C, (self.v,))


class EnumC(C):
    """A member of an enumeration of ints or strings: the constant, with a name."""
    __slots__ = ('enum', 'enum_name')

    def __new__(cls, v, enum, name):
        got = object.__new__(cls)
        got.v = v
        got._key = ('C', type(v).__name__, v)
        got.enum, got.enum_name = enum, name
        return got


class T(V):
    """A value-provenance term (hash-consed: equal terms are the same object)."""
    __slots__ = ('op', 'args', '_t')

    def __new__(cls, op, *args):
        key = ('T', op, args)
        got = _intern.get(key)
        if got is None:
            got = object.__new__(cls)
            got.op = op
            got.args = args
            got._t = None
            _intern[key] = got
        return got

    def __repr__(self):
        return show(self)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def const(v):
    return C(v)


def is_const(v):
    return isinstance(v, C)


def show(v, depth=0):
    if depth > 6:
        return '...'
    if isinstance(v, C):
        return repr(v.v)
    if isinstance(v, T):
        a = v.args
        s = lambda x: show(x, depth + 1)
        if v.op == 'sym':
            return a[0]
        if v.op == 'poly':
            out = []
            for mono, c in a[0]:
                m = '*'.join(s(x) + ('' if p == 1 else '^%d' % p) for x, p in mono)
                if not m:
                    out.append(str(c))
                elif c == 1:
                    out.append(m)
                else:
                    out.append('%s*%s' % (c, m))
            return '(' + ' + '.join(out) + ')'
        if v.op == 'bits':
            return '((%s & %#x) | %#x)' % (s(a[0]), a[1], a[2])
        if v.op == 'fmt':
            return 'format(%s, %r)' % (s(a[1]), a[0])
        if v.op in ('scat', 'bcat'):
            return '<' + ' . '.join(s(x) for x in a[0]) + '>'
        if v.op == 'attr':
            return '%s.%s' % (s(a[0]), a[1])
        if v.op == 'res':
            return '%s#%s' % (a[0], a[1])
        return '%s(%s)' % (v.op, ', '.join(
            s(x) if isinstance(x, V) else (
                '[' + ', '.join(s(y) if isinstance(y, V) else repr(y) for y in x) + ']'
                if isinstance(x, tuple) else str(x)) for x in a))
    return repr(v)


# --------------------------------------------------------------------------- symbols

class Spec(object):
    """What is assumed about a symbol: its possible types and its range."""
    __slots__ = ('types', 'lo', 'hi', 'extra')

    def __init__(self, types, lo=None, hi=None, extra=None):
        self.types = types
        self.lo = lo
        self.hi = hi
        self.extra = extra or {}


ANY_TYPES = frozenset(['NoneType', 'bool', 'int', 'float', 'str', 'bytes', 'list',
                       'tuple', 'dict', 'traceback', 'object'])

SPECS = {}


def sym(name, types='any', lo=None, hi=None, **extra):
    t = T('sym', name)
    if types == 'any':
        types = ANY_TYPES
    elif isinstance(types, str):
        types = frozenset(types.split('|'))
    SPECS[t] = Spec(types, lo, hi, extra)
    return t


def set_spec(t, types=None, lo=None, hi=None, **extra):
    if isinstance(types, str):
        types = frozenset(types.split('|'))
    SPECS[t] = Spec(types, lo, hi, extra)
    return t


NUM = frozenset(['int', 'float', 'bool'])

_INT_OPS = frozenset(['bits', 'shr', 'len', 'int', 'rnd', 'rd', 'intof', 'shl', 'and', 'or',
                      'xor', 'mod', 'fdiv', 'invert', 'ord', 'find'])
_STR_OPS = frozenset(['scat', 'fmt', 'str', 'repr', 'lower', 'upper', 'strip', 'zfill', 'quote', 'quote_plus', 'unquote_plus',
                      'unquote', 'dec', 'sslice', 'replace', 'part', 'join', 'typename',
                      'lstrip', 'rstrip', 'title', 'strfmt'])
_BYTES_OPS = frozenset(['bcat', 'be', 'enc', 'bslice', 'tobytes'])


def types_of(v):
    """The possible (built-in) type names of a scalar value, or None when unknown."""
    if isinstance(v, C):
        return frozenset([type(v.v).__name__])
    if isinstance(v, T):
        sp = SPECS.get(v)
        if sp is not None and sp.types is not None:
            return sp.types
        if v.op == 'poly':
            ints = True
            for mono, c in v.args[0]:
                if c.denominator != 1:
                    ints = False
                for a, p in mono:
                    if p < 0 or not is_int(a):
                        ints = False
            return frozenset(['int']) if ints else frozenset(['float', 'int'])
        if v.op in _INT_OPS:
            return frozenset(['int'])
        if v.op in _STR_OPS:
            return frozenset(['str'])
        if v.op in _BYTES_OPS:
            return frozenset(['bytes'])
        if v.op in ('now', 'rndf', 'floatof', 'inv', 'round'):
            return frozenset(['float'])
        if v.op in ('cmp', 'not', 'boolres', 'isnone', 'eq', 'isinst', 'has', 'contains'):
            return frozenset(['bool'])
    return None


def is_int(v):
    t = types_of(v)
    return t is not None and t <= frozenset(['int', 'bool'])


def is_num(v):
    t = types_of(v)
    return t is not None and t <= NUM


def is_str(v):
    t = types_of(v)
    return t is not None and t <= frozenset(['str'])


def is_bytes(v):
    t = types_of(v)
    return t is not None and t <= frozenset(['bytes', 'bytearray'])


# --------------------------------------------------------------------------- polynomials

def _mono_key(m):
    return repr(m)


def poly_of(v):
    """v as {monomial: Fraction}; monomial = sorted tuple of (atom, power)."""
    if isinstance(v, C):
        if isinstance(v.v, (int, float)) and v.v == v.v and v.v not in (float('inf'), float('-inf')):
            f = Fraction(v.v)
            return {(): f} if f else {}
        return None
    if isinstance(v, T) and v.op == 'poly':
        return dict(v.args[0])
    return {((v, 1),): Fraction(1)}


def _akey(a):
    return repr(a)


def poly_term(p, floaty=False):
    p = {m: c for m, c in p.items() if c != 0}
    p = _recombine(p)
    if not p:
        return C(0.0) if floaty else C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if c.denominator == 1 and not floaty:
                return C(int(c))
            return C(float(c)) if (floaty or c.denominator != 1) else C(int(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return T('poly', tuple(sorted(p.items(), key=lambda kv: _mono_key(kv[0]))))


def _recombine(p):
    """a * 2^k * (x >> k) + a * (x & (2^k - 1))  ->  a * x"""
    changed = True
    while changed:
        changed = False
        for m, c in list(p.items()):
            if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], T):
                a = m[0][0]
                if a.op == 'bits' and a.args[2] == 0 and a.args[1] > 0 \
                        and (a.args[1] & (a.args[1] + 1)) == 0:
                    x, k = a.args[0], a.args[1].bit_length()
                    sh = T('shr', x, k)
                    sm = ((sh, 1),)
                    cands = [sm]
                    # the high half can be masked too
                    for m2 in p:
                        if len(m2) == 1 and m2[0][1] == 1 and isinstance(m2[0][0], T) and \
                                m2[0][0] is sh:
                            cands.append(m2)
                    for m2 in cands:
                        if p.get(m2) is not None and p[m2] == c * (1 << k):
                            p = dict(p)
                            del p[m]
                            del p[m2]
                            xm = poly_of(x)
                            for mm, cc in xm.items():
                                p[mm] = p.get(mm, 0) + c * cc
                            p = {mm: cc for mm, cc in p.items() if cc != 0}
                            changed = True
                            break
                    if changed:
                        break
    return p


def _mul_mono(m1, m2):
    d = {}
    for a, n in m1:
        d[a] = d.get(a, 0) + n
    for a, n in m2:
        d[a] = d.get(a, 0) + n
    return tuple(sorted(((a, n) for a, n in d.items() if n), key=lambda x: _akey(x[0])))


def _floaty(*vs):
    for v in vs:
        if isinstance(v, C) and isinstance(v.v, float):
            return True
    return False


def t_add(a, b, sign=1):
    if isinstance(a, C) and isinstance(b, C):
        return C(a.v + b.v) if sign == 1 else C(a.v - b.v)
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        return T('add' if sign == 1 else 'sub', a, b)
    out = dict(pa)
    for m, c in pb.items():
        out[m] = out.get(m, 0) + sign * c
    return poly_term(out)


def t_sub(a, b):
    return t_add(a, b, -1)


def t_neg(a):
    return t_sub(C(0), a)


def t_mul(a, b):
    if isinstance(a, C) and isinstance(b, C):
        return C(a.v * b.v)
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        return T('mul', a, b)
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mul_mono(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return poly_term(out)


def t_div(a, b):
    """true division (b assumed non-zero on this path)"""
    if isinstance(a, C) and isinstance(b, C):
        return C(a.v / b.v)
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None or not pb:
        return T('div', a, b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = tuple((x, -n) for x, n in m)
        return poly_term({_mul_mono(m1, inv): c1 / c for m1, c1 in pa.items()})
    return t_mul(a, T('inv', b))


# --------------------------------------------------------------------------- ranges

def const_range(t):
    """Declared/derived interval of a numeric term without path facts: (lo, hi)."""
    if isinstance(t, C):
        if isinstance(t.v, (int, float)):
            return t.v, t.v
        return None, None
    if isinstance(t, T):
        sp = SPECS.get(t)
        if sp is not None and (sp.lo is not None or sp.hi is not None):
            return sp.lo, sp.hi
        return range_op(t, const_range)
    return None, None


def range_op(t, rng):
    """Interval of a composite term from the intervals of its parts."""
    if t.op == 'poly':
        lo = hi = Fraction(0)
        for mono, c in t.args[0]:
            ml, mh = Fraction(1), Fraction(1)
            ok = True
            for a, p in mono:
                if p != 1:
                    ok = False
                    break
                al, ah = rng(a)
                # products: only non-negative factors are tracked
                if len(mono) > 1 and (al is None or al < 0):
                    ok = False
                    break
                if len(mono) > 1:
                    ml = ml * Fraction(al)
                    mh = mh * Fraction(ah) if (mh is not None and ah is not None) else None
                else:
                    ml = None if al is None else Fraction(al)
                    mh = None if ah is None else Fraction(ah)
            if not ok:
                return None, None
            if c < 0:
                ml, mh = mh, ml
            lo = None if (lo is None or ml is None) else lo + c * ml
            hi = None if (hi is None or mh is None) else hi + c * mh
        return lo, hi
    if t.op == 'bits':
        x, am, om = t.args
        if am >= 0:
            return om, am | om
        lo, hi = rng(x)
        if lo is not None and lo >= 0:
            if hi is not None:
                n = int(hi).bit_length()
                return om, (((1 << n) - 1) & am) | om
            return om, None
        return None, None
    if t.op == 'shr':
        lo, hi = rng(t.args[0])
        k = t.args[1]
        return (None if lo is None else int(lo) >> k), (None if hi is None else int(hi) >> k)
    if t.op == 'len':
        return 0, None
    if t.op == 'rd':
        n, signed = t.args[2], t.args[3]
        if signed:
            return -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
        return 0, (1 << (8 * n)) - 1
    if t.op in ('rnd', 'rndf'):
        return t.args[1], t.args[2]
    if t.op in ('boolres', 'cmp', 'eq', 'not'):
        return 0, 1
    if t.op == 'mod' and isinstance(t.args[1], C) and isinstance(t.args[1].v, int) and t.args[1].v > 0:
        return 0, t.args[1].v - 1
    if t.op == 'intof':
        lo, hi = rng(t.args[0])
        # truncation: keeps sign, magnitude does not grow
        return (None if lo is None else (0 if lo >= 0 else -((-lo) // 1))), \
               (None if hi is None else (hi // 1 if hi >= 0 else 0))
    return None, None


# --------------------------------------------------------------------------- bits

def _bits_parts(x):
    if isinstance(x, T) and x.op == 'bits':
        return x.args
    return x, -1, 0


def mk_bits(x, am, om, rng=const_range):
    am &= ~om
    if am == 0:
        return C(om)
    if isinstance(x, C):
        return C((x.v & am) | om)
    lo, hi = rng(x)
    if lo is not None and lo >= 0 and hi is not None:
        full = (1 << int(hi).bit_length()) - 1
        if am & full == 0:
            return C(om)
        am = am & full if am >= 0 or True else am
        if am & full == full and om == 0:
            return x
        # canonical: mask limited to the bits x can have
    elif am == -1 and om == 0:
        return x
    # bits of (y << k) + ...: mask distributes over a shifted single term
    if isinstance(x, T) and x.op == 'poly':
        r = _bits_of_poly(x, am, om, rng)
        if r is not None:
            return r
    return T('bits', x, am, om)


def _bits_of_poly(x, am, om, rng):
    """(hi*2^k + lo) & mask where lo in [0, 2^k): separate the two parts."""
    parts = split_poly_bits(x, rng)
    if parts is None:
        return None
    hi, k, lo = parts
    if am >= 0 and am < (1 << k):
        return t_or_const(t_and_const(lo, am, rng), om, rng)
    low_am = am & ((1 << k) - 1)
    if low_am == 0:
        top = t_or_const(t_and_const(hi, am >> k, rng), om >> k, rng)
        return t_add(t_shl(top, k), C(om & ((1 << k) - 1)))
    return None


def split_poly_bits(x, rng):
    """x = hi * 2^k + lo with 0 <= lo < 2^k  (k > 0), or None."""
    p = poly_of(x)
    if p is None or not (isinstance(x, T) and x.op == 'poly'):
        return None
    items = list(p.items())
    for m, c in items:
        if c.denominator != 1 or c <= 1:
            continue
        c = int(c)
        if c & (c - 1):
            continue
        k = c.bit_length() - 1
        hi, lo = {}, {}
        for m2, c2 in items:
            if c2.denominator != 1:
                return None
            if c2 % (1 << k) == 0:
                hi[m2] = c2 / (1 << k)
            else:
                lo[m2] = c2
        lot = poly_term(lo)
        l, h = rng(lot)
        if l is not None and l >= 0 and h is not None and h < (1 << k):
            return poly_term(hi), k, lot
    return None


def _complement(x):
    """y when x is written as ~y, that is -1 - y."""
    if isinstance(x, T) and x.op == 'poly':
        p = poly_of(x)
        if p and p.get((), 0) == -1 and all(c < 0 and c.denominator == 1 for c in p.values()):
            return t_sub(C(-1), x)
    return None


def t_and_const(x, m, rng=const_range):
    y = _complement(x)
    if y is not None:
        if m >= 0:
            return t_sub(C(m), t_and_const(y, m, rng))
        return t_sub(C(-1), t_or_const(y, ~m, rng))
    b, am, om = _bits_parts(x)
    return mk_bits(b, am & m, om & m, rng)


def t_or_const(x, m, rng=const_range):
    y = _complement(x)
    if y is not None:
        return t_sub(C(-1), t_and_const(y, ~m, rng))
    b, am, om = _bits_parts(x)
    return mk_bits(b, am & ~m, om | m, rng)


def t_and(a, b, rng=const_range):
    if isinstance(a, C) and isinstance(b, C):
        return C(a.v & b.v)
    if isinstance(b, C) and isinstance(b.v, int):
        return t_and_const(a, int(b.v), rng)
    if isinstance(a, C) and isinstance(a.v, int):
        return t_and_const(b, int(a.v), rng)
    if a is b:
        return a
    return T('and', *sorted((a, b), key=repr))


def t_or(a, b, rng=const_range):
    if isinstance(a, C) and isinstance(b, C):
        return C(a.v | b.v)
    if isinstance(b, C) and isinstance(b.v, int):
        return t_or_const(a, int(b.v), rng)
    if isinstance(a, C) and isinstance(a.v, int):
        return t_or_const(b, int(a.v), rng)
    if a is b:
        return a
    # disjoint bit ranges: or == add
    for hi, lo in ((a, b), (b, a)):
        k = _trailing_zeros(hi)
        l, h = rng(lo)
        if k and l is not None and l >= 0 and h is not None and h < (1 << k):
            return t_add(hi, lo)
    return T('or', *sorted((a, b), key=repr))


def _trailing_zeros(x):
    p = poly_of(x)
    if not p:
        return 0
    k = None
    for m, c in p.items():
        if c.denominator != 1:
            return 0
        n = int(c)
        z = (n & -n).bit_length() - 1
        k = z if k is None else min(k, z)
    return k or 0


def t_xor(a, b, rng=const_range):
    if isinstance(a, C) and isinstance(b, C):
        return C(a.v ^ b.v)
    if isinstance(a, C):
        a, b = b, a
    if isinstance(b, C) and isinstance(b.v, int):
        m = int(b.v)
        if m < 0:
            return t_invert(t_xor(a, C(~m), rng))
        return t_add(a, t_sub(C(m), t_mul(C(2), t_and_const(a, m, rng))))
    if a is b:
        return C(0)
    return T('xor', *sorted((a, b), key=repr))


def t_invert(a):
    if isinstance(a, C):
        return C(~a.v)
    return t_sub(C(-1), a)


def t_shl(a, k):
    if isinstance(a, C):
        return C(a.v << k)
    return t_mul(a, C(1 << k))


def t_shr(a, k, rng=const_range):
    if k == 0:
        return a
    if isinstance(a, C):
        return C(a.v >> k)
    lo, hi = rng(a)
    if lo is not None and lo >= 0 and hi is not None and hi < (1 << k):
        return C(0)
    if isinstance(a, T) and a.op == 'shr':
        return t_shr(a.args[0], a.args[1] + k, rng)
    if isinstance(a, T) and a.op == 'bits':
        x, am, om = a.args
        return mk_bits(t_shr(x, k, rng), am >> k, om >> k, rng)
    if isinstance(a, T) and a.op == 'poly':
        parts = split_poly_bits(a, rng)
        if parts is not None:
            h, kk, l = parts
            if kk == k:
                return h
            if kk < k:
                return t_shr(h, k - kk, rng)
            return t_add(t_shl(h, kk - k), t_shr(l, k, rng))
        tz = _trailing_zeros(a)
        if tz >= k:
            return t_div_exact(a, 1 << k)
    return T('shr', a, k)


def t_div_exact(a, n):
    return poly_term({m: c / n for m, c in poly_of(a).items()})


# --------------------------------------------------------------------------- strings

def s_cat(parts):
    """Concatenation of string values (already known to be str)."""
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == 'scat':
            sub = list(p.args[0])
        else:
            sub = [p]
        for q in sub:
            if isinstance(q, C):
                if q.v == '':
                    continue
                if out and isinstance(out[-1], C):
                    out[-1] = C(out[-1].v + q.v)
                    continue
            out.append(q)
    if not out:
        return C('')
    if len(out) == 1:
        return out[0]
    return T('scat', tuple(out))


def s_parts(v):
    if isinstance(v, T) and v.op == 'scat':
        return list(v.args[0])
    return [v]


def b_cat(parts):
    out = []
    for p in parts:
        sub = list(p.args[0]) if isinstance(p, T) and p.op == 'bcat' else [p]
        for q in sub:
            if isinstance(q, C):
                if len(q.v) == 0:
                    continue
                if out and isinstance(out[-1], C):
                    out[-1] = C(out[-1].v + q.v)
                    continue
            out.append(q)
    if not out:
        return C(b'')
    if len(out) == 1:
        return out[0]
    return T('bcat', tuple(out))


def b_parts(v):
    if isinstance(v, T) and v.op == 'bcat':
        return list(v.args[0])
    if isinstance(v, C) and len(v.v) == 0:
        return []
    return [v]


def b_len(v):
    if isinstance(v, C):
        return C(len(v.v))
    if isinstance(v, T):
        if v.op == 'bcat':
            n = C(0)
            for p in v.args[0]:
                n = t_add(n, b_len(p))
            return n
        if v.op == 'be':
            return C(v.args[0])
        if v.op == 'tobytes':
            return C(v.args[0])
    return T('len', v)


def be(n, x):
    """n-byte big-endian encoding of x."""
    if isinstance(x, C) and isinstance(x.v, int):
        return C((int(x.v) % (1 << (8 * n))).to_bytes(n, 'big'))
    return T('be', n, x)


def sub_terms(v, seen=None):
    """All terms inside a scalar value."""
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            for a in x.args:
                if isinstance(a, V):
                    stack.append(a)
                elif isinstance(a, tuple):
                    stack.extend(_flat(a))
    return seen


def _flat(t):
    out = []
    for x in t:
        if isinstance(x, V):
            out.append(x)
        elif isinstance(x, tuple):
            out.extend(_flat(x))
    return out


def t_pow2(e):
    return None
