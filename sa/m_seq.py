"""Containers: dicts, lists, tuples, sets, views, iteration."""
from . import terms
from .objs import (Obj, Inst, DictV, ListV, SetV, ByteArr, LockV, FutV, CoroV, StarKey, kwkey, ViewV, IterV, Tup, Func,
                   Wrapped, Bound, Native, Cls, BCls, Mod, Ext, SuperV, SliceV, CMGen, PyExc,
                   PathCut, Infeasible, Undecided, AnchorLost)
from .terms import (C, EnumC, T, V, NONE, TRUE, FALSE, SPECS, ANY_TYPES, NUM, show, set_spec)
from . import m_types as mt
from .m_types import eq, typename, JSON, INT, STR, BYTES, OBJECT

MAX_MATERIALISE = 16


def item_term(label, key, valtypes, op='item'):
    """The (unknown) content of an open container at a key."""
    if callable(valtypes):
        return valtypes(label, key)
    t = T(op, label, key)
    if t not in SPECS:
        if valtypes == 'json':
            set_spec(t, JSON, valtypes='json', keytypes=STR)
        elif valtypes is not None:
            set_spec(t, valtypes)
        else:
            set_spec(t, ANY_TYPES)
    return t


# ------------------------------------------------------------------------ dict

def _sure_eq(a, b):
    if a is b:
        return True
    if isinstance(a, C) and isinstance(b, C):
        try:
            return a.v == b.v
        except Exception:
            return False
    return None if (isinstance(a, T) or isinstance(b, T) or not isinstance(a, C)
                    or not isinstance(b, C)) else False


def hashable(ip, k):
    if isinstance(k, (DictV, ListV, SetV)) or (isinstance(k, ByteArr) and not k.io):
        raise ip.exc('TypeError', 'unhashable type')
    if isinstance(k, T):
        ts = ip.types(k)
        bad = ts & frozenset(['list', 'dict'])
        if bad:
            if ip.decide_type(k, bad):
                raise ip.exc('TypeError', 'unhashable type')


def dict_entry(ip, d, k):
    hashable(ip, k)
    if isinstance(k, T):
        k = ip.norm(k)
    if d.asked is not None and isinstance(k, C):
        d.asked.add(k.v)
    for e in d.entries:
        if _sure_eq(e[0], k) is True:
            return e
    for e in d.entries:
        if _sure_eq(e[0], k) is None and eq(ip, e[0], k):
            return e
    if d.open:
        for a in d.absent:
            if _sure_eq(a, k):
                return None
        if d.keytypes is not None and isinstance(k, (C, T)):
            if not (mt.obj_types(ip, k) & d.keytypes):
                return None
        key = ('has', d.label, k)
        if ip.atom(key, '%r in %s' % (k, show(d.label) if isinstance(d.label, V) else d.label)):
            v = item_term(d.label, k, d.valtypes)
            ip.touch(d)
            e = [k, v]
            d.entries.append(e)
            return e
        ip.touch(d)
        d.absent.append(k)
    return None


def dict_find(ip, d, k):
    e = dict_entry(ip, d, k)
    return None if e is None else e[1]


def dict_get(ip, d, k):
    e = dict_entry(ip, d, k)
    if e is None:
        if d.default is not None:
            v = ip.call(d.default, [])
            dict_set(ip, d, k, v)
            return v
        raise ip.exc('KeyError', k)
    return e[1]


def dict_set(ip, d, k, v, quiet=False):
    hashable(ip, k)
    if isinstance(k, T):
        k = ip.norm(k)
    if not quiet:
        ip.event('mut', 'setitem', d, [k, v])
    ip.touch(d)
    if d.owner is not None and isinstance(k, C):
        write_through(ip, d.owner, k.v, v)
    for e in d.entries:
        if _sure_eq(e[0], k) is True:
            e[1] = v
            return
    for e in d.entries:
        if _sure_eq(e[0], k) is None and eq(ip, e[0], k):
            e[1] = v
            return
    d.entries.append([k, v])


def write_through(ip, o, name, v):
    """A change of an object's __dict__ is a change of the object."""
    ip.touch(o)
    ns = o.attrs if isinstance(o, Inst) else o.ns
    ip.event('set' if v is not None else 'del', name, o, [v] if v is not None else [])
    if v is None:
        ns.pop(name, None)
    else:
        ns[name] = v


def dict_del(ip, d, k):
    e = dict_entry(ip, d, k)
    ip.event('mut', 'delitem', d, [k])
    if e is None:
        return None
    ip.touch(d)
    if d.owner is not None and isinstance(e[0], C):
        write_through(ip, d.owner, e[0].v, None)
    d.entries = [x for x in d.entries if x is not e]
    if d.open:
        d.absent.append(e[0])
    return e


def dict_update(ip, d, other):
    if isinstance(other, T):
        other = ip.resolve(other)
    for k, v in mapping_items(ip, other):
        dict_set(ip, d, k, v)


def mapping_items(ip, d):
    if isinstance(d, T):
        if ip.types(d) <= frozenset(['dict']) or ip.decide_type(d, frozenset(['dict'])):
            d = ip.as_obj(d)
        elif 'object' in ip.types(d):
            items = ip.call(ip.getattr(d, 'items'), [])
            return [tuple(fixed_items(ip, x, 2)) for x in iterate(ip, items, None)]
        else:
            raise ip.exc('TypeError', 'not a mapping')
    if isinstance(d, ViewV):
        return [tuple(fixed_items(ip, x, 2)) for x in iterate(ip, d, None)]
    if isinstance(d, DictV):
        expand_dict(ip, d)
        return [tuple(e) for e in d.entries]
    if isinstance(d, (ListV, IterV, Tup)):
        return [tuple(fixed_items(ip, x, 2)) for x in iterate(ip, d, None)]
    if isinstance(d, Inst):
        ks = iterate(ip, ip.call(ip.getattr(d, 'keys'), []), None)
        gi = ip.getattr(d, '__getitem__')
        return [(k, ip.call(gi, [k])) for k in ks]
    raise ip.exc('TypeError', 'not a mapping: %r' % (d,))


def expand_dict(ip, d):
    """Choose the number of further (unknown) entries of an open dict, and close it."""
    if not d.open:
        return
    n = ip.choose(ip.elem_bound + 1, None)
    ip._redesc('%s has %d more entries' % (show(d.label) if isinstance(d.label, V) else d.label, n))
    ip.touch(d)
    base = [e[0] for e in d.entries]
    absent = list(d.absent)
    for i in range(n):
        k = item_term(d.label, C(i), d.keytypes, op='key')
        v = item_term(d.label, k, d.valtypes)
        for other in base + absent:
            if isinstance(other, (C, T)) and isinstance(k, T):
                x, y = sorted((k, other), key=repr)
                ip.atoms[('seq', x, y)] = False
                if isinstance(other, C):
                    ip.nec.setdefault(k, set()).add(other)
                    if isinstance(other.v, (int, float)):
                        ip.ne.setdefault(k, set()).add(other.v)
                else:
                    ip.atoms[('eq', x, y)] = False
        base.append(k)
        d.entries.append([k, v])
    d.open = False
    _pin_len(ip, d.label, len(d.entries))


def _pin_len(ip, label, total):
    if not isinstance(label, V):
        return
    t = T('len', label)
    r = ip.known_cmp(t, '==', C(total))
    if r is False:
        raise Infeasible()
    if r is None:
        ip.lo[t] = ip.hi[t] = (total, False)
        ip.eqc[t] = C(total)


def list_len_known(ip, lst):
    t = T('len', lst.label)
    lo, hi = ip.rng(t)
    return int(lo) if lo is not None and lo == hi else None


def materialise_list(ip, lst):
    """An open list whose length the path has pinned becomes a closed one."""
    if lst.open:
        n = list_len_known(ip, lst)
        if n is not None and n <= MAX_MATERIALISE:
            ip.touch(lst)
            lst.items = [item_term(lst.label, C(i), lst.valtypes) for i in range(n)]
            lst.open = False


def expand_list(ip, lst):
    materialise_list(ip, lst)
    if not lst.open:
        return
    n = ip.choose(ip.elem_bound + 1, None)
    ip._redesc('%s has %d elements' % (show(lst.label), n))
    _pin_len(ip, lst.label, n)
    ip.touch(lst)
    lst.items = [item_term(lst.label, C(i), lst.valtypes) for i in range(n)]
    lst.open = False


def nonempty(ip, v):
    if isinstance(v, DictV):
        if v.entries:
            return True
        if v.open:
            return ip.cmp_num(T('len', v.label), '>', C(0))
        return False
    if isinstance(v, ListV):
        if v.items:
            return True
        if v.open:
            return ip.cmp_num(T('len', v.label), '>', C(0))
        return False
    if isinstance(v, SetV):
        return bool(v.items)
    if isinstance(v, Tup):
        return bool(v.items)
    if isinstance(v, ByteArr):
        return True if v.io else ip.cmp_num(mt.seq_len(v.val), '!=', C(0))
    if isinstance(v, ViewV):
        return nonempty(ip, v.dict)
    return True


def length(ip, v):
    if ip.other is not None:
        ip.point(v, 'len()')
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, T) and v in ip.objof:
        v = ip.objof[v]
    if isinstance(v, C):
        try:
            return C(len(v.v))
        except TypeError:
            raise ip.exc('TypeError', 'object of type %s has no len()' % type(v.v).__name__)
    if isinstance(v, DictV):
        if v.open:
            return T('len', v.label)
        return C(len(v.entries))
    if isinstance(v, ListV):
        materialise_list(ip, v)
        if v.open:
            return T('len', v.label)
        return C(len(v.items))
    if isinstance(v, (SetV, Tup)):
        return C(len(v.items))
    if isinstance(v, Cls):
        from . import m_class
        if m_class.members(ip, v) is not None:
            return C(len(m_class.members(ip, v)))
    if isinstance(v, ByteArr):
        return ip.norm(mt.seq_len(v.val))
    if isinstance(v, ViewV):
        return length(ip, v.dict)
    if isinstance(v, Inst):
        if isinstance(v.cls, Cls):
            got = ip.class_lookup(v.cls, '__len__')
            if got is not None:
                return ip.call(ip.bind(got[0], v, v.cls), [])
        raise ip.exc('TypeError', 'no len()')
    if isinstance(v, T):
        ts = ip.types(v)
        ok = ts & frozenset(['str', 'bytes', 'bytearray', 'list', 'dict', 'tuple', 'object'])
        if not ok or (ok != ts and not ip.decide_type(v, ok)):
            raise ip.exc('TypeError', 'object has no len()')
        v = ip.resolve(v)
        if isinstance(v, C):
            return length(ip, v)
        return ip.norm(mt.seq_len(v))
    raise ip.exc('TypeError', 'object has no len()')


def contains(ip, c, x):
    if isinstance(c, Cls):
        return any(eq(ip, m, x) for m in iterate(ip, c, None))
    if ip.other is not None:
        ip.point(c, 'in')
    if isinstance(c, T):
        c = ip.resolve(c)
    if isinstance(c, T):
        if c in ip.objof:
            c = ip.objof[c]
        else:
            ts = ip.types(c)
            if ts <= frozenset(['dict', 'list']) and len(ts) == 1:
                c = ip.as_obj(c)
            elif ts <= STR:
                return _str_contains(ip, c, x)
            elif ts <= BYTES:
                return ip.atom(('contains', c, x), '%s in %s' % (x, show(c)))
            elif 'dict' in ts and ip.decide_type(c, frozenset(['dict'])):
                c = ip.as_obj(c)
            elif 'list' in ip.types(c) and ip.decide_type(c, frozenset(['list'])):
                c = ip.as_obj(c)
            elif 'str' in ip.types(c) and ip.decide_type(c, STR):
                return _str_contains(ip, c, x)
            elif ip.types(c) & frozenset(['tuple', 'object', 'bytes']):
                ip.decide_type(c, frozenset(['tuple', 'object', 'bytes'])) or _not_iter(ip, c)
                return ip.atom(('contains', c, x), '%s in %s' % (x, show(c)))
            else:
                _not_iter(ip, c)
    if isinstance(c, DictV):
        return dict_entry(ip, c, x) is not None
    if isinstance(c, ViewV):
        if c.which == 'keys':
            return dict_entry(ip, c.dict, x) is not None
        return any(eq(ip, y, x) for y in iterate(ip, c, None))
    if isinstance(c, ListV) and c.open:
        materialise_list(ip, c)
        if c.open:
            return ip.atom(('contains', c.label, x), '%r in %s' % (x, show(c.label)))
    if isinstance(c, (ListV, Tup, SetV)):
        return any(eq(ip, y, x) for y in c.items)
    if isinstance(c, IterV):
        return any(eq(ip, y, x) for y in ip.live(c, None))
    if isinstance(c, C) and isinstance(c.v, str):
        return _str_contains(ip, c, x)
    if isinstance(c, C) and isinstance(c.v, bytes) and isinstance(x, C):
        return x.v in c.v
    if isinstance(c, Inst) and isinstance(c.cls, Cls):
        got = ip.class_lookup(c.cls, '__contains__')
        if got is not None:
            return ip.truth(ip.call(ip.bind(got[0], c, c.cls), [x]))
        if ip.class_lookup(c.cls, '__iter__') is not None:
            return any(eq(ip, y, x) for y in ip.live(c, None))
    if isinstance(c, Cls):
        return any(eq(ip, v, x) for k, v in c.ns.items())
    if isinstance(x, EnumC) and isinstance(x.v, int) and isinstance(c, (C, T)):
        from .m_ops import binop        # a flag in a combination of flags
        return eq(ip, binop(ip, 'BitAnd', c, C(x.v)), C(x.v))
    raise ip.exc('TypeError', 'argument is not iterable: %r' % (c,))


def _not_iter(ip, c):
    raise ip.exc('TypeError', 'argument of this type is not iterable: %r' % (c,))


def _str_contains(ip, c, x):
    if isinstance(x, T):
        x = ip.resolve(x)
    if not (mt.obj_types(ip, x) & STR):
        raise ip.exc('TypeError', 'in <string> requires string')
    if isinstance(c, C) and isinstance(x, C):
        return x.v in c.v
    if isinstance(x, C):
        parts = terms.s_parts(c)
        if any(isinstance(p, C) and x.v in p.v for p in parts):
            return True
        if all(isinstance(p, C) or safe_without(p, x.v) for p in parts) and len(x.v) == 1:
            return False
    return ip.atom(('contains', c, x), '%r in %s' % (x, show(c)))


def safe_without(p, ch):
    """The string term p never contains the character ch."""
    if isinstance(p, C):
        return ch not in p.v
    if isinstance(p, T):
        if p.op == 'fmt' and p.args[0] == 'x':
            return ch not in '0123456789abcdef-'
        if p.op == 'fmt' and p.args[0] == 'd':
            return ch not in '0123456789-'
        if p.op in ('zfill', 'lower', 'upper'):
            return safe_without(p.args[0], ch) and ch not in '0'
        if p.op in ('quote', 'quote_plus'):
            return ch in ':= ,;"?&#@+$!*()\'[]{}|\\^`<>' and ch not in _safe_arg(p)
    return False


def _safe_arg(p):
    return p.args[1].v if len(p.args) > 1 else '/'


# ------------------------------------------------------------------------ iteration

def iterate(ip, v, node):
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, ListV):
        ip.event('iter', 'list', v)
        expand_list(ip, v)
        return list(v.items)
    if isinstance(v, (Tup, SetV)):
        return list(v.items)
    if isinstance(v, IterV):
        return v.rest(ip)
    if isinstance(v, DictV):
        ip.event('iter', 'keys', v)
        expand_dict(ip, v)
        return [e[0] for e in v.entries]
    if isinstance(v, ViewV):
        ip.event('iter', v.which, v.dict)
        expand_dict(ip, v.dict)
        if v.which == 'keys':
            return [e[0] for e in v.dict.entries]
        if v.which == 'values':
            return [e[1] for e in v.dict.entries]
        return [Tup(e) for e in v.dict.entries]
    if isinstance(v, C):
        if isinstance(v.v, (str, tuple)):
            return [C(x) for x in v.v]
        if isinstance(v.v, bytes):
            return [C(x) for x in v.v]
        raise ip.exc('TypeError', '%r object is not iterable' % type(v.v).__name__)
    if isinstance(v, T):
        if v.op == 'range':
            return _iter_range(ip, v)
        if v in ip.objof:
            return iterate(ip, ip.objof[v], node)
        ts = ip.types(v)
        if 'list' in ts and (ts == frozenset(['list']) or ip.decide_type(v, frozenset(['list']))):
            return iterate(ip, ip.as_obj(v), node)
        ts = ip.types(v)
        if 'dict' in ts and (ts == frozenset(['dict']) or ip.decide_type(v, frozenset(['dict']))):
            return iterate(ip, ip.as_obj(v), node)
        ts = ip.types(v)
        ok = ts & frozenset(['object', 'tuple', 'str', 'bytes', 'bytearray'])
        if not ok or (ok != ts and not ip.decide_type(v, ok)):
            raise ip.exc('TypeError', '%s is not iterable' % show(v))
        ip.event('iter', 'opaque', v)
        text = ok <= STR
        known = ip.rng(T('len', v)) if text else (None, None)
        if known[0] is not None and known[0] == known[1]:
            n = int(known[0])
            if n > 8:
                raise Undecided('iteration over a long unknown string')
        else:
            n = ip.choose(ip.elem_bound + 1, None)
            ip._redesc('%s has %d elements' % (show(v), n))
            if text:
                _pin_len(ip, v, n)
        if text:
            return [item_term(v, C(i), STR, 'char') for i in range(n)]
        return [item_term(v, C(i), None) for i in range(n)]
    if isinstance(v, Cls):
        from . import m_class
        got = m_class.members(ip, v)
        if got is not None:
            return list(got)
    if isinstance(v, Inst):
        if isinstance(v.cls, Cls):
            got = ip.class_lookup(v.cls, '__iter__')
            if got is not None:
                return IterV(gen=ip.live(v, node)).rest(ip)
            if ip.has_external_base(v.cls):
                return iterate(ip, T('iterof', v), node)
        raise ip.exc('TypeError', '%r is not iterable' % (v,))
    if isinstance(v, ByteArr):
        val = ip.norm(v.val)
        if isinstance(val, C):
            return [C(x) for x in val.v]
        raise Undecided('iteration over unknown bytes')
    raise ip.exc('TypeError', '%r is not iterable' % (v,))


class LongRange(list):
    """A constant range too long to unroll: the path is cut if it really goes that far."""

    def __init__(self, r):
        list.__init__(self, [C(i) for i in r[:5000]])

    def __iter__(self):
        for x in list.__iter__(self):
            yield x
        raise PathCut('a constant loop of more than 5000 rounds')


def _iter_range(ip, v):
    lo, hi, step = v.args
    if isinstance(lo, C) and isinstance(hi, C) and isinstance(step, C):
        r = range(lo.v, hi.v, step.v)
        return [C(i) for i in r] if len(r) <= 5000 else LongRange(r)
    if not (isinstance(step, C) and step.v == 1):
        raise Undecided('range with an unknown step')
    out = []
    i = lo
    while ip.cmp_num(i, '<', hi):
        out.append(i)
        if len(out) > ip.elem_bound and len(out) > 2:
            raise PathCut('range bound')
        i = terms.t_add(i, C(1))
    return out


def fixed_items(ip, v, n):
    """The n items of v, or None when it has another number of items."""
    if isinstance(v, T):
        v = ip.resolve(v)
    if isinstance(v, T):
        if v in ip.objof:
            v = ip.objof[v]
        elif ip.types(v) == frozenset(['list']) or (
                'list' in ip.types(v) and ip.decide_type(v, frozenset(['list']))):
            v = ip.as_obj(v)
        elif ip.types(v) & frozenset(['tuple', 'object', 'str']):
            if not ip.decide_type(v, frozenset(['tuple', 'object', 'str', 'dict'])):
                raise ip.exc('TypeError', 'cannot unpack')
            if 'tuple' in ip.types(v) or 'str' in ip.types(v):
                if not ip.cmp_num(T('len', v), '==', C(n)):
                    return None
            return [item_term(v, C(i), SPECS[v].extra.get('valtypes') if v in SPECS else None)
                    for i in range(n)]
        else:
            raise ip.exc('TypeError', 'cannot unpack non-iterable')
    if isinstance(v, ListV) and v.open:
        if not ip.cmp_num(T('len', v.label), '==', C(n)):
            return None
        materialise_list(ip, v)
    if isinstance(v, (DictV, ViewV)):
        d = v.dict if isinstance(v, ViewV) else v
        if d.open and not d.entries:
            t = T('len', d.label)
            if not ip.cmp_num(t, '==', C(n)):
                return None
    items = iterate(ip, v, None)
    return items if len(items) == n else None


def dedupe(ip, items):
    out = []
    for x in items:
        hashable(ip, x)
        if not any(eq(ip, x, y) for y in out):
            out.append(x)
    return out


# ------------------------------------------------------------------------ subscripts

def index_of(ip, k, n):
    """Constant index normalised against a known length."""
    i = k.v
    if i < 0:
        i += n
    if i < 0 or i >= n:
        raise ip.exc('IndexError', 'index out of range')
    return i


def getitem(ip, o, k):
    if ip.other is not None:
        ip.point(o, 'reading an item')
    from . import m_str
    if isinstance(o, T):
        o = ip.resolve(o)
    if isinstance(k, T):
        k = ip.resolve(k)
    if isinstance(o, T):
        if o in ip.objof:
            return getitem(ip, ip.objof[o], k)
        if o.op == 'range':
            raise Undecided('subscript of range')
        ts = ip.types(o)
        cont = ts & frozenset(['list', 'dict', 'str', 'bytes', 'bytearray', 'tuple', 'object'])
        if not cont:
            raise ip.exc('TypeError', 'object is not subscriptable')
        if cont != ts and not ip.decide_type(o, cont):
            raise ip.exc('TypeError', 'object is not subscriptable')
        for n in ('dict', 'list', 'str', 'bytes', 'tuple'):
            if n in ip.types(o):
                if ip.types(o) == frozenset([n]) or ip.decide_type(o, frozenset([n])):
                    if n in ('dict', 'list'):
                        return getitem(ip, ip.as_obj(o), k)
                    if n in ('str', 'bytes'):
                        return m_str.seq_getitem(ip, o, k)
                    return _tuple_term_item(ip, o, k)
        if 'bytearray' in ip.types(o):
            return m_str.seq_getitem(ip, o, k)
        e = ip.event('call', '%s.__getitem__' % show(o), o, [k])
        r = item_term(o, k, None) if isinstance(k, V) and not isinstance(k, SliceV) else \
            T('res', 'item', ip.fresh('item'))
        e.result = r
        return r
    if isinstance(o, DictV):
        if isinstance(k, SliceV):
            raise ip.exc('TypeError', 'unhashable type: slice')
        return dict_get(ip, o, k)
    if isinstance(o, (ListV, Tup)):
        if isinstance(o, ListV):
            materialise_list(ip, o)
        if isinstance(k, SliceV):
            return _slice_items(ip, o, k)
        k = mt.as_num(ip, k, 'index')
        if isinstance(o, ListV) and o.open:
            return _open_item(ip, o, k)
        if not isinstance(k, C):
            # split over the possible indexes
            for i in range(len(o.items)):
                if ip.cmp_num(k, '==', C(i)):
                    return o.items[i]
            raise ip.exc('IndexError', 'index out of range')
        return o.items[index_of(ip, k, len(o.items))]
    if isinstance(o, C) and isinstance(o.v, (str, bytes)):
        return m_str.seq_getitem(ip, o, k)
    if isinstance(o, C) and isinstance(o.v, tuple) and isinstance(k, C):
        return C(o.v[index_of(ip, k, len(o.v))])
    if isinstance(o, Cls):
        from . import m_class
        ms_ = m_class.members(ip, o)
        if ms_ is not None and isinstance(k, C):
            for m in ms_:
                if m_class.name_of(m) == k.v:
                    return m
            raise ip.exc('KeyError', k)
        got = ip.class_lookup(o, '__class_getitem__')
        if got is not None:
            f = got[0].fn if isinstance(got[0], Wrapped) else got[0]
            return ip.call(f, [o, k])
        return o
    if isinstance(o, ByteArr):
        r = m_str.seq_getitem(ip, o.val, k)
        return type(o)(r) if isinstance(k, SliceV) else r
    if isinstance(o, Inst):
        if isinstance(o.cls, Cls):
            got = ip.class_lookup(o.cls, '__getitem__')
            if got is not None:
                return ip.call(ip.bind(got[0], o, o.cls), [k])
        raise ip.exc('TypeError', 'object is not subscriptable')
    if isinstance(o, (Ext, BCls, Cls)):
        return o            # typing generics
    if isinstance(o, ViewV):
        raise ip.exc('TypeError', 'view is not subscriptable')
    if isinstance(o, C):
        raise ip.exc('TypeError', '%r object is not subscriptable' % type(o.v).__name__)
    raise ip.exc('TypeError', 'object is not subscriptable: %r' % (o,))


def _tuple_term_item(ip, o, k):
    if isinstance(k, SliceV):
        return T('tslice', o, k.lo, k.hi)
    k = mt.as_num(ip, k, 'index')
    if not ip.cmp_num(T('len', o), '>', k):
        raise ip.exc('IndexError', 'tuple index out of range')
    return item_term(o, k, SPECS[o].extra.get('valtypes') if o in SPECS else None)


def _open_item(ip, o, k):
    if isinstance(k, C) and k.v < 0:
        if not ip.cmp_num(T('len', o.label), '>=', C(-k.v)):
            raise ip.exc('IndexError', 'list index out of range')
        materialise_list(ip, o)
        if not o.open:
            return o.items[k.v]
        return item_term(o.label, terms.t_add(T('len', o.label), k), o.valtypes)
    if not ip.cmp_num(T('len', o.label), '>', k):
        raise ip.exc('IndexError', 'list index out of range')
    materialise_list(ip, o)
    if not o.open and isinstance(k, C):
        return o.items[k.v]
    return item_term(o.label, k, o.valtypes)


def _slice_items(ip, o, k):
    lo, hi, step = (ip.resolve(x) if isinstance(x, T) else x for x in (k.lo, k.hi, k.step))
    if isinstance(o, ListV) and o.open:
        if lo is NONE and hi is NONE and step is NONE:
            n = ListV(open=True, label=o.label, valtypes=o.valtypes)
            return n
        expand_list(ip, o)
    items = list(o.items)
    vals = []
    for x in (lo, hi, step):
        if not isinstance(x, C):
            n = len(items)
            # split over the possible cut positions
            x = mt.as_num(ip, x, 'slice')
            for i in range(n):
                if ip.cmp_num(x, '==', C(i)):
                    vals.append(i)
                    break
            else:
                vals.append(n if ip.cmp_num(x, '>', C(0)) else 0)
        else:
            vals.append(x.v)
    out = items[vals[0]:vals[1]:vals[2]]
    return Tup(out) if isinstance(o, Tup) else ListV(out)


def _splice(ip, o, k, new):
    """Replaces o[k] of a bytearray."""
    from . import m_str
    if not isinstance(k, SliceV):
        if not isinstance(k, C):
            raise Undecided('bytearray item at an unknown index')
        getitem(ip, o, k)                     # IndexError
        k = SliceV(k, NONE if k.v == -1 else C(k.v + 1), NONE)
    if k.step is not NONE:
        raise Undecided('a stepped slice of a bytearray')
    before = C(b'') if k.lo is NONE else getitem(ip, o.val, SliceV(NONE, k.lo, NONE))
    after = C(b'') if k.hi is NONE else getitem(ip, o.val, SliceV(k.hi, NONE, NONE))
    ip.touch(o)
    o.val = m_str.b_cat([before, new, after])


def setitem(ip, o, k, v):
    if ip.other is not None:
        ip.point(o, 'setting an item')
    if isinstance(o, T):
        o = ip.resolve(o)
    if isinstance(o, T):
        if o in ip.objof:
            o = ip.objof[o]
        else:
            ts = ip.types(o)
            ok = ts & frozenset(['dict', 'list', 'bytearray', 'object'])
            if not ok or (ok != ts and not ip.decide_type(o, ok)):
                raise ip.exc('TypeError', 'item assignment not supported')
            for n in ('dict', 'list'):
                if n in ip.types(o) and (ip.types(o) == frozenset([n]) or
                                         ip.decide_type(o, frozenset([n]))):
                    return setitem(ip, ip.as_obj(o), k, v)
            ip.event('mut', 'setitem', o, [k, v])
            return
    if isinstance(o, DictV):
        dict_set(ip, o, k, v)
        return
    if isinstance(o, ListV):
        ip.event('mut', 'setitem', o, [k, v])
        if isinstance(k, SliceV):
            if k.lo is NONE and k.hi is NONE:
                ip.touch(o)
                o.items = list(iterate(ip, v, None))
                o.open = False
                return
            items = iterate(ip, v, None)
            expand_list(ip, o)
            cut = [x.v if isinstance(x, C) else None for x in (k.lo, k.hi, k.step)]
            ip.touch(o)
            cur = list(o.items)
            cur[cut[0]:cut[1]:cut[2]] = items
            o.items = cur
            return
        expand_list(ip, o)
        if not isinstance(k, C):
            raise Undecided('list item assignment at an unknown index')
        ip.touch(o)
        o.items[index_of(ip, k, len(o.items))] = v
        return
    if isinstance(o, ByteArr):
        from . import m_str
        ip.event('mut', 'setitem', o, [k if not isinstance(k, SliceV) else NONE, v])
        if isinstance(k, SliceV) and k.lo is NONE and k.hi is NONE:
            ip.touch(o)
            o.val = m_str.as_bytes(ip, v)
            return
        _splice(ip, o, k, m_str.as_bytes(ip, v) if isinstance(k, SliceV) else
                terms.be(1, m_str.need_int(ip, v, 'TypeError', 'item assignment')))
        return
    if isinstance(o, Inst) and isinstance(o.cls, Cls):
        got = ip.class_lookup(o.cls, '__setitem__')
        if got is not None:
            ip.call(ip.bind(got[0], o, o.cls), [k, v])
            return
    raise ip.exc('TypeError', 'item assignment not supported: %r' % (o,))


def delitem(ip, o, k):
    if ip.other is not None:
        ip.point(o, 'deleting an item')
    if isinstance(o, T):
        o = ip.resolve(o)
        if isinstance(o, T):
            if o in ip.objof or ip.types(o) <= frozenset(['dict', 'list']):
                o = ip.objof.get(o) or ip.as_obj(o)
            else:
                ip.event('mut', 'delitem', o, [k if not isinstance(k, SliceV) else NONE])
                return
    if isinstance(o, DictV):
        if dict_del(ip, o, k) is None:
            raise ip.exc('KeyError', k)
        return
    if isinstance(o, ListV):
        ip.event('mut', 'delitem', o, [])
        ip.touch(o)
        if isinstance(k, SliceV):
            if k.lo is NONE and k.hi is NONE:
                o.items = []
                o.open = False
                return
            expand_list(ip, o)
            cut = [x.v if isinstance(x, C) else None for x in (k.lo, k.hi, k.step)]
            cur = list(o.items)
            del cur[cut[0]:cut[1]:cut[2]]
            o.items = cur
            return
        expand_list(ip, o)
        if not isinstance(k, C):
            raise Undecided('del list item at an unknown index')
        i = index_of(ip, k, len(o.items))
        o.items = o.items[:i] + o.items[i + 1:]
        return
    if isinstance(o, ByteArr):
        ip.event('mut', 'delitem', o, [])
        if isinstance(k, SliceV) and k.lo is NONE and k.hi is NONE:
            ip.touch(o)
            o.val = C(b'')
            return
        _splice(ip, o, k, C(b''))
        return
    raise Undecided('del item of %r' % (o,))


# ------------------------------------------------------------------------ methods

def N(name, fn):
    return Native(name, fn)


def dict_method(ip, d, name):
    def arg(a, kw, i, default=None):
        return a[i] if len(a) > i else default

    if name == 'get':
        def get(ip, a, kw):
            e = dict_entry(ip, d, a[0])
            return e[1] if e is not None else (a[1] if len(a) > 1 else kw.get('default', NONE))
        return N('dict.get', get)
    if name in ('keys', 'values', 'items'):
        return N('dict.' + name, lambda ip, a, kw: ViewV(d, name))
    if name == 'pop':
        def pop(ip, a, kw):
            e = dict_del(ip, d, a[0])
            if e is not None:
                return e[1]
            if len(a) > 1:
                return a[1]
            raise ip.exc('KeyError', a[0])
        return N('dict.pop', pop)
    if name == 'setdefault':
        def sd(ip, a, kw):
            e = dict_entry(ip, d, a[0])
            if e is not None:
                return e[1]
            v = a[1] if len(a) > 1 else NONE
            dict_set(ip, d, a[0], v)
            return v
        return N('dict.setdefault', sd)
    if name == 'update':
        def upd(ip, a, kw):
            ip.event('mut', 'update', d, a)
            for x in a:
                dict_update(ip, d, x)
            for k, v in kw.items():
                dict_set(ip, d, kwkey(k), v)
            return NONE
        return N('dict.update', upd)
    if name == 'copy':
        return N('dict.copy', lambda ip, a, kw: copy_dict(ip, d))
    if name == 'clear':
        def clear(ip, a, kw):
            ip.event('mut', 'clear', d)
            ip.touch(d)
            d.entries = []
            d.open = False
            return NONE
        return N('dict.clear', clear)
    if name == 'popitem':
        def popitem(ip, a, kw):
            expand_dict(ip, d)
            ip.event('mut', 'popitem', d)
            if not d.entries:
                raise ip.exc('KeyError', 'popitem')
            ip.touch(d)
            last = a[0] if a else kw.get('last', TRUE)
            if ip.truth(last):
                e = d.entries[-1]
                d.entries = d.entries[:-1]
            else:
                e = d.entries[0]
                d.entries = d.entries[1:]
            return Tup(e)
        return N('dict.popitem', popitem)
    if name == 'move_to_end':
        def to_end(ip, a, kw):
            e = dict_entry(ip, d, a[0])
            if e is None:
                raise ip.exc('KeyError', a[0])
            expand_dict(ip, d)
            ip.event('mut', 'move_to_end', d)
            ip.touch(d)
            rest = [x for x in d.entries if x is not e and x[0] is not e[0]]
            last = a[1] if len(a) > 1 else kw.get('last', TRUE)
            d.entries = rest + [e] if ip.truth(last) else [e] + rest
            return NONE
        return N('OrderedDict.move_to_end', to_end)
    if name == '__contains__':
        return N('dict.__contains__', lambda ip, a, kw: C(dict_entry(ip, d, a[0]) is not None))
    if name == '__getitem__':
        return N('dict.__getitem__', lambda ip, a, kw: dict_get(ip, d, a[0]))
    if name == '__setitem__':
        return N('dict.__setitem__', lambda ip, a, kw: (dict_set(ip, d, a[0], a[1]), NONE)[1])
    if name == '__len__':
        return N('dict.__len__', lambda ip, a, kw: length(ip, d))
    if name == '__class__':
        return mt.bcls('dict')
    return None


def copy_dict(ip, d):
    """A shallow copy; an open dict stays open with the same (unknown) content."""
    n = DictV([list(e) for e in d.entries], d.open, d.label if d.open else None, d.keytypes,
              d.valtypes)
    n.absent = list(d.absent)
    n.default = d.default
    ip.event('copy', 'dict', d, [], None, n)
    return n


def list_method(ip, l, name):
    def mut(kind, *a):
        ip.event('mut', kind, l, a)
        ip.touch(l)

    if name == 'append':
        def append(ip, a, kw):
            if l.open:
                expand_list(ip, l)
            mut('append', a[0])
            l.items = l.items + [a[0]]
            return NONE
        return N('list.append', append)
    if name == 'extend':
        def extend(ip, a, kw):
            new = iterate(ip, a[0], None)
            if l.open:
                expand_list(ip, l)
            mut('extend', *new)
            l.items = l.items + list(new)
            return NONE
        return N('list.extend', extend)
    if name == 'insert':
        def insert(ip, a, kw):
            expand_list(ip, l)
            mut('insert', *a)
            items = list(l.items)
            items.insert(a[0].v if isinstance(a[0], C) else len(items), a[1])
            l.items = items
            return NONE
        return N('list.insert', insert)
    if name in ('pop', 'popleft'):
        def pop(ip, a, kw):
            expand_list(ip, l)
            mut('pop')
            if not l.items:
                raise ip.exc('IndexError', 'pop from empty list')
            i = a[0].v if a else (-1 if name == 'pop' else 0)
            items = list(l.items)
            v = items.pop(i)
            l.items = items
            return v
        return N('list.pop', pop)
    if name == 'extendleft':
        def extendleft(ip, a, kw):
            mut('extendleft', a[0])
            l.items = list(iterate(ip, a[0], None))[::-1] + l.items
            return NONE
        return N('list.extendleft', extendleft)
    if name == 'rotate':
        def rotate(ip, a, kw):
            mut('rotate')
            n = a[0].v if a else 1
            if l.items:
                n %= len(l.items)
                l.items = l.items[-n:] + l.items[:-n] if n else l.items
            return NONE
        return N('list.rotate', rotate)
    if name == 'appendleft':
        def appendleft(ip, a, kw):
            expand_list(ip, l)
            mut('appendleft', a[0])
            l.items = [a[0]] + l.items
            return NONE
        return N('list.appendleft', appendleft)
    if name == 'remove':
        def remove(ip, a, kw):
            expand_list(ip, l)
            mut('remove', a[0])
            for i, x in enumerate(l.items):
                if eq(ip, x, a[0]):
                    l.items = l.items[:i] + l.items[i + 1:]
                    return NONE
            raise ip.exc('ValueError', 'not in list')
        return N('list.remove', remove)
    if name == 'clear':
        def clear(ip, a, kw):
            mut('clear')
            l.items = []
            l.open = False
            return NONE
        return N('list.clear', clear)
    if name == 'copy':
        return N('list.copy', lambda ip, a, kw: copy_list(ip, l))
    if name == 'reverse':
        def rev(ip, a, kw):
            expand_list(ip, l)
            mut('reverse')
            l.items = l.items[::-1]
            return NONE
        return N('list.reverse', rev)
    if name == 'sort':
        def sort(ip, a, kw):
            expand_list(ip, l)
            mut('sort')
            l.items = sort_items(ip, l.items, kw)
            return NONE
        return N('list.sort', sort)
    if name == 'index':
        def index(ip, a, kw):
            expand_list(ip, l)
            for i, x in enumerate(l.items):
                if eq(ip, x, a[0]):
                    return C(i)
            raise ip.exc('ValueError', 'not in list')
        return N('list.index', index)
    if name == 'count':
        def count(ip, a, kw):
            expand_list(ip, l)
            return C(sum(1 for x in l.items if eq(ip, x, a[0])))
        return N('list.count', count)
    if name == '__len__':
        return N('list.__len__', lambda ip, a, kw: length(ip, l))
    if name == '__getitem__':
        return N('list.__getitem__', lambda ip, a, kw: getitem(ip, l, a[0]))
    if name == '__class__':
        return mt.bcls('list')
    return None


def copy_list(ip, l):
    materialise_list(ip, l)
    n = ListV(list(l.items), l.open, l.label if l.open else None, l.valtypes)
    ip.event('copy', 'list', l, [], None, n)
    return n


def sort_items(ip, items, kw):
    items = list(items)
    keyf = kw.get('key')
    back = 'reverse' in kw and ip.truth(kw['reverse'])
    keys = [ip.call(keyf, [x]) if keyf is not None and keyf is not NONE else x for x in items]
    if len(items) <= 1:
        return items
    if all(isinstance(k, C) for k in keys):
        try:
            order = sorted(range(len(items)), key=lambda i: keys[i].v, reverse=back)
        except TypeError as e:
            raise ip.exc('TypeError', str(e))
        return [items[i] for i in order]
    # insertion sort over decided comparisons
    out = []
    for x, k in zip(items, keys):
        i = 0
        while i < len(out) and ip.truth(mt.compare(ip, 'GtE' if back else 'LtE', out[i][1], k)):
            i += 1
        out.insert(i, (x, k))
    return [x for x, _ in out]


def set_method(ip, s, name):
    def has(x):
        return any(eq(ip, x, y) for y in s.items)

    if name == 'add':
        def add(ip, a, kw):
            hashable(ip, a[0])
            ip.event('mut', 'add', s, a)
            if not has(a[0]):
                ip.touch(s)
                s.items = s.items + [a[0]]
            return NONE
        return N('set.add', add)
    if name in ('discard', 'remove'):
        def discard(ip, a, kw):
            ip.event('mut', name, s, a)
            for i, x in enumerate(s.items):
                if eq(ip, x, a[0]):
                    ip.touch(s)
                    s.items = s.items[:i] + s.items[i + 1:]
                    return NONE
            if name == 'remove':
                raise ip.exc('KeyError', a[0])
            return NONE
        return N('set.' + name, discard)
    if name == 'update':
        def upd(ip, a, kw):
            ip.event('mut', 'update', s, a)
            ip.touch(s)
            for y in a:
                s.items = dedupe(ip, s.items + list(iterate(ip, y, None)))
            return NONE
        return N('set.update', upd)
    if name in ('intersection_update', 'difference_update', 'symmetric_difference_update'):
        def upd2(ip, a, kw):
            r = ip.call(set_method(ip, s, name[:-7]), list(a))
            ip.event('mut', name, s, a)
            ip.touch(s)
            s.items = r.items
            return NONE
        return N('set.' + name, upd2)
    if name == 'pop' and s.items:
        def pop(ip, a, kw):
            ip.event('mut', 'pop', s, a)
            ip.touch(s)
            i = ip.choose(len(s.items), None)
            x = s.items[i]
            s.items = s.items[:i] + s.items[i + 1:]
            return x
        return N('set.pop', pop)
    if name == 'pop':
        def pop0(ip, a, kw):
            raise ip.exc('KeyError', 'pop from an empty set')
        return N('set.pop', pop0)
    if name in ('union', 'difference', 'intersection', 'copy', 'issubset', 'issuperset',
                'isdisjoint', 'symmetric_difference'):
        def op(ip, a, kw):
            others = [x for y in a for x in iterate(ip, y, None)]
            if name == 'copy':
                return SetV(list(s.items))
            if name == 'union':
                return SetV(dedupe(ip, s.items + others))
            if name == 'difference':
                return SetV([x for x in s.items if not any(eq(ip, x, y) for y in others)])
            if name == 'issubset':
                return C(all(any(eq(ip, x, y) for y in others) for x in s.items))
            if name == 'isdisjoint':
                return C(not any(any(eq(ip, x, y) for y in others) for x in s.items))
            if name == 'symmetric_difference':
                return SetV([x for x in s.items if not any(eq(ip, x, y) for y in others)] +
                            dedupe(ip, [y for y in others if not has(y)]))
            if name == 'issuperset':
                return C(all(has(x) for x in others))
            return SetV([x for x in s.items if any(eq(ip, x, y) for y in others)])
        return N('set.' + name, op)
    if name == 'clear':
        def clear(ip, a, kw):
            ip.event('mut', 'clear', s)
            ip.touch(s)
            s.items = []
            return NONE
        return N('set.clear', clear)
    return None


def tup_method(ip, t, name):
    if t.nt is not None and isinstance(t.nt, Cls):
        got = ip.class_lookup(t.nt, '_fields')
        fields = got[0] if got is not None else None
        if fields is not None:
            names = [f.v for f in fields.items]
            if name in names:
                return t.items[names.index(name)]
            if name == '_fields':
                return fields
            if name == '_asdict':
                return N('_asdict', lambda ip, a, kw: DictV(
                    [(C(n), v) for n, v in zip(names, t.items)]))
            if name == '_replace':
                def rep(ip, a, kw):
                    return Tup([kw.get(n, v) for n, v in zip(names, t.items)], t.nt)
                return N('_replace', rep)
        got = ip.class_lookup(t.nt, name)
        if got is not None:
            return ip.bind(got[0], t, t.nt)
        if name == '__class__':
            return t.nt
    if name == 'index':
        def index(ip, a, kw):
            for i, x in enumerate(t.items):
                if eq(ip, x, a[0]):
                    return C(i)
            raise ip.exc('ValueError', 'not in tuple')
        return N('tuple.index', index)
    if name == 'count':
        return N('tuple.count', lambda ip, a, kw: C(sum(1 for x in t.items if eq(ip, x, a[0]))))
    if name == '__len__':
        return N('len', lambda ip, a, kw: C(len(t.items)))
    return None
