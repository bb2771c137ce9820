"""What the class statement does besides running the body: named tuples, data classes, enumerations,
__set_name__ and __init_subclass__."""
import ast

from .objs import (Inst, DictV, ListV, Tup, Func, Wrapped, Bound, Native, Cls, BCls, Ext, IterV, V,
                   PyExc, Undecided)
from .terms import C, T, NONE, TRUE, FALSE, EnumC
from . import m_types as mt
from . import m_seq as ms
from . import m_str
from .m_types import bcls, exc_class

ENUMS = {'enum.Enum': None, 'enum.IntEnum': 'int', 'enum.Flag': 'flag', 'enum.IntFlag': 'flag',
         'enum.StrEnum': 'str'}


def annotated(c):
    """[(name, annotation node)] of the class body, in order."""
    out = []
    for s in (c.node.body if c.node is not None else []):
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            text = ast.unparse(s.annotation)
            if 'ClassVar' not in text:
                out.append((s.target.id, text))
    return out


def method(name, f):
    return Native(name, f, 'method')


def concrete(ip, c):
    """TypeError for a class with abstract methods left."""
    mro = ip.mro(c)
    if not any(isinstance(b, Ext) and b.name == 'abc.ABC' or
               isinstance(b, Cls) and '__abc__' in b.ns for b in mro):
        return
    seen = set()
    for k in mro:
        if isinstance(k, Cls):
            for n, v in k.ns.items():
                if n not in seen:
                    seen.add(n)
                    f = v.fn if isinstance(v, Wrapped) else v
                    if isinstance(f, Func) and '__isabstractmethod__' in f.attrs:
                        raise ip.exc('TypeError', "Can't instantiate abstract class %s" % c.name)


def class_made(ip, c, s, sc):
    kws = {}
    for k in s.keywords:
        v = ip.eval(k.value, sc)
        if k.arg == 'metaclass':
            if isinstance(v, Ext) and v.name in ('abc.ABCMeta', 'enum.EnumMeta', 'enum.EnumType'):
                if v.name == 'abc.ABCMeta':
                    c.ns['__abc__'] = TRUE
                continue
            if isinstance(v, BCls) and v.name == 'type':
                continue
            if isinstance(v, Cls) and ip.is_subclass(v, bcls('type')) and not any(
                    n in k.ns for k in ip.mro(v) if isinstance(k, Cls)
                    for n in ('__new__', '__prepare__', '__setattr__', '__getattribute__')):
                c.meta = v
                continue
            raise Undecided('metaclass of %s' % c.name)
        if k.arg is None:
            raise Undecided('keywords of class %s' % c.name)
        kws[k.arg] = v
    if c.meta is None:
        c.meta = next((b.meta for b in ip.mro(c)[1:] if isinstance(b, Cls) and b.meta), None)
    for n, v in list(c.ns.items()):
        if isinstance(v, Inst) and isinstance(v.cls, Cls):
            got = ip.class_lookup(v.cls, '__set_name__')
            if got is not None:
                ip.call(ip.bind(got[0], v, v.cls), [c, C(n)])
    kind = enum_kind(c)
    if kind is not None:
        make_enum(ip, c, kind)
    for k in ip.mro(c)[1:]:
        if isinstance(k, Cls) and '__init_subclass__' in k.ns:
            f = k.ns['__init_subclass__']
            ip.call(f.fn if isinstance(f, Wrapped) else f, [c], kws)
            break
    if c.meta is not None:
        init = ip.class_lookup(c.meta, '__init__')
        if init is not None:
            ip.call(init[0], [c, C(c.name), Tup(c.bases), ip.own_dict(c, c.ns)], kws)


# ------------------------------------------------------------------------ enumerations

def enum_kind(c):
    """None: no enumeration; 'object', 'int', 'flag' or 'str' otherwise."""
    kind = None
    for k in c.mro or ():
        if isinstance(k, Ext) and k.name in ENUMS:
            kind = ENUMS[k.name] or kind or 'object'
    if kind == 'object':
        for k in c.mro:
            if isinstance(k, BCls) and k.name in ('int', 'str'):
                return k.name
    return kind


def make_enum(ip, c, kind):
    members = []
    flag = kind == 'flag'
    if flag:
        kind = 'int'
    auto = 0
    for n, v in list(c.ns.items()):
        if n.startswith('_') or isinstance(v, (Func, Wrapped, Native, Cls)):
            continue
        if isinstance(v, T) and v.op in ('new', 'res') and v.args[0] == 'enum.auto':
            auto = auto + 1 if not flag else 1 << auto.bit_length()
            v = C(n.lower()) if kind == 'str' else C(auto)
        elif isinstance(v, C) and isinstance(v.v, int):
            auto = v.v
        twin = next((m for m in members if mt.eq(ip, value_of(m), v)), None)
        if twin is not None:
            c.ns[n] = twin
            continue
        if kind in ('int', 'str'):
            if not isinstance(v, C):
                raise Undecided('enumeration member %s' % n)
            m = EnumC(v.v, c, n)
        else:
            m = Inst(c, '%s.%s' % (c.name, n))
            m.attrs.update(name=C(n), _name_=C(n), value=v, _value_=v)
        c.ns[n] = m
        members.append(m)
    c.ns['__members__'] = DictV([(C(name_of(m)), m) for m in members])


def value_of(m):
    return C(m.v) if isinstance(m, EnumC) else m.attrs['_value_']


def name_of(m):
    return m.enum_name if isinstance(m, EnumC) else m.attrs['_name_'].v


def members(ip, c):
    got = ip.class_lookup(c, '__members__')
    return [e[1] for e in got[0].entries] if got is not None else None


def enum_call(ip, c, a):
    v = a[0]
    if isinstance(v, Inst) and v.cls is c:
        return v
    if enum_kind(c) == 'flag' and isinstance(v, T):
        return m_str.need_int(ip, v, 'ValueError', c.name)     # any combination
    for m in members(ip, c):
        if mt.eq(ip, v, value_of(m)):
            return m
    if enum_kind(c) == 'flag' and isinstance(v, C) and isinstance(v.v, int):
        return v
    raise ip.exc('ValueError', '%r is not a valid %s' % (v, c.name))


# ------------------------------------------------------------------------ named tuples

def named_tuple(ip, c):
    from . import m_ext
    fields = [n for n, _ in annotated(c)]
    defaults = [c.ns[n] for n in fields if n in c.ns]
    for n in fields:
        c.ns.pop(n, None)
    base = m_ext._namedtuple(ip, [C(c.name), ListV([C(f) for f in fields])],
                             {'defaults': Tup(defaults)})
    for k, v in base.ns.items():
        c.ns.setdefault(k, v)


# ------------------------------------------------------------------------ data classes

class Fld(object):
    def __init__(self, name, default=None, factory=None, init=True, compare=True, show=True,
                 kw_only=False):
        self.name, self.default, self.factory = name, default, factory
        self.init, self.compare, self.show, self.kw_only = init, compare, show, kw_only


def x_field(ip, a, kw):
    i = Inst(bcls('dataclasses.Field'))
    i.attrs.update(kw)
    return i


def x_dataclass(ip, a, kw):
    opts = {k: kw[k] for k in list(kw)}
    if a:
        return data_class(ip, a[0], opts)
    return Native('dataclass', lambda ip, a, kw: data_class(ip, a[0], opts))


def fields_of(ip, c):
    out = []
    for k in reversed(ip.mro(c)):
        if isinstance(k, Cls):
            for f in FIELDS.get(k, ()):
                out = [x for x in out if x.name != f.name] + [f]
    return out


FIELDS = {}


def data_class(ip, c, opts):
    on = lambda n, d: ip.truth(opts[n]) if n in opts else d
    own = []
    kwo = on('kw_only', False)
    for n, text in annotated(c):
        if text.endswith('KW_ONLY'):
            kwo = True
            continue
        d = c.ns.get(n)
        if isinstance(d, Inst) and d.cls is bcls('dataclasses.Field'):
            at = d.attrs
            tr = lambda k: ip.truth(at[k]) if k in at else True
            f = Fld(n, at.get('default'), at.get('default_factory'), tr('init'), tr('compare'),
                    tr('repr'), kwo or ('kw_only' in at and ip.truth(at['kw_only'])))
            if f.default is None:
                c.ns.pop(n)
            else:
                c.ns[n] = f.default
        else:
            if isinstance(d, (ListV, DictV)):
                raise ip.exc('ValueError', 'mutable default')
            f = Fld(n, d, kw_only=kwo)
        own.append(f)
    FIELDS[c] = own
    fs = fields_of(ip, c)
    frozen = on('frozen', False)

    def init(ip, a, kw):
        o, vals, left = a[0], list(a[1:]), dict(kw)
        put = (lambda n, v: ip.set_raw(o, n, v)) if frozen else (lambda n, v: ip.setattr(o, n, v))
        pos = [f for f in fs if f.init and not f.kw_only]
        if len(vals) > len(pos):
            raise ip.exc('TypeError', '%s() takes %d positional arguments' % (c.name, len(pos)))
        given = {f.name: v for f, v in zip(pos, vals)}
        for n, v in left.items():
            if n in given or not any(f.name == n and f.init for f in fs):
                raise ip.exc('TypeError', '%s() got an unexpected argument %r' % (c.name, n))
            given[n] = v
        for f in fs:
            if f.name in given:
                put(f.name, given[f.name])
            elif f.factory is not None:
                put(f.name, ip.call(f.factory, []))
            elif f.default is not None:
                put(f.name, f.default)
            elif f.init:
                raise ip.exc('TypeError', '%s() missing argument %r' % (c.name, f.name))
        got = ip.class_lookup(o.cls, '__post_init__')
        if got is not None:
            ip.call(ip.bind(got[0], o, o.cls), [])
        return NONE

    def row(ip, o):
        return Tup([ip.getattr(o, f.name) for f in fs if f.compare])

    def same(ip, a, kw):
        x, y = a
        return C(isinstance(y, Inst) and y.cls is x.cls and mt.eq(ip, row(ip, x), row(ip, y)))

    def text(ip, a, kw):
        parts = [C(c.qualname.rsplit('.', 1)[-1] + '(')]
        for i, f in enumerate([f for f in fs if f.show]):
            parts += [C((', ' if i else '') + f.name + '='),
                      m_str.to_repr(ip, ip.getattr(a[0], f.name))]
        return m_str.s_cat(parts + [C(')')])

    def deny(ip, a, kw):
        raise ip.exc('dataclasses.FrozenInstanceError', 'cannot assign to field')
    if on('init', True):
        c.ns['__init__'] = method('__init__', init)
    if on('eq', True) and '__eq__' not in c.ns:
        c.ns['__eq__'] = method('__eq__', same)
    if on('repr', True) and '__repr__' not in c.ns:
        c.ns['__repr__'] = method('__repr__', text)
    if frozen:
        c.ns['__setattr__'] = method('__setattr__', deny)
        c.ns['__delattr__'] = method('__delattr__', deny)
        c.ns['__hash__'] = method('__hash__', lambda ip, a, kw: T('hash', a[0].label or C('x')))
    if on('order', False):
        for n, op in (('__lt__', 'Lt'), ('__le__', 'LtE'), ('__gt__', 'Gt'), ('__ge__', 'GtE')):
            c.ns[n] = method(n, lambda ip, a, kw, op=op: mt.compare(ip, op, row(ip, a[0]),
                                                                    row(ip, a[1])))
    c.ns['__match_args__'] = Tup([C(f.name) for f in fs if f.init and not f.kw_only])
    return c


def x_replace(ip, a, kw):
    o = a[0]
    args = {f.name: ip.getattr(o, f.name) for f in fields_of(ip, o.cls) if f.init}
    args.update({k: kw[k] for k in list(kw)})
    return ip.call(o.cls, [], args)


def x_asdict(ip, a, kw):
    def conv(v):
        if isinstance(v, Inst) and isinstance(v.cls, Cls) and fields_of(ip, v.cls):
            return DictV([(C(f.name), conv(ip.getattr(v, f.name))) for f in fields_of(ip, v.cls)])
        if isinstance(v, ListV) and not v.open:
            return ListV([conv(x) for x in v.items])
        if isinstance(v, DictV) and not v.open:
            return DictV([(k, conv(x)) for k, x in v.entries])
        return v
    return conv(a[0])


def x_astuple(ip, a, kw):
    return Tup([ip.getattr(a[0], f.name) for f in fields_of(ip, a[0].cls)])


def x_fields(ip, a, kw):
    c = a[0].cls if isinstance(a[0], Inst) else a[0]
    out = []
    for f in fields_of(ip, c):
        i = Inst(bcls('dataclasses.Field'))
        i.attrs.update(name=C(f.name), default=f.default if f.default is not None else NONE)
        out.append(i)
    return Tup(out)
