"""Regular expressions over known text; anything else is an unmodelled result."""
import re

from .objs import Inst, Tup, ListV, Native, DictV, Cls, PyExc, Undecided
from .terms import C, T, V, NONE, TRUE, FALSE, set_spec, show
from . import m_types as mt
from . import m_builtin as mb
from .m_types import bcls
from .m_seq import N

FUNCS = ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer')


def lift(v):
    if isinstance(v, tuple):
        return Tup([lift(x) for x in v])
    if isinstance(v, list):
        return ListV([lift(x) for x in v])
    if isinstance(v, dict):
        return DictV([(C(k), lift(x)) for k, x in v.items()])
    if isinstance(v, re.Match):
        i = Inst(bcls('re.Match'))
        i.attrs['__m__'] = Py(v)
        return i
    return C(v)


class Py(V):
    """A Python object kept as it is."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def _known(ip, v):
    if isinstance(v, T):
        v = ip.norm(ip.resolve(v))
    return v


def run(ip, pat, name, a, kw):
    """pat: a compiled Python pattern."""
    a = [_known(ip, x) for x in a]
    k = {n: _known(ip, kw[n]) for n in list(kw)}
    sub = name in ('sub', 'subn')
    if all(isinstance(x, C) for x in a[1:] if not (sub and x is a[1])) and isinstance(
            a[0], C) or (sub and all(isinstance(x, C) for x in a[1:])):
        rest = list(a)
        if all(isinstance(x, C) for x in rest) and all(isinstance(x, C) for x in k.values()):
            try:
                r = getattr(pat, name)(*[x.v for x in rest], **{n: x.v for n, x in k.items()})
            except (TypeError, IndexError, re.error) as e:
                raise ip.exc(type(e).__name__ if not isinstance(e, re.error) else 're.error', str(e))
            if name == 'finditer':
                r = list(r)
            return lift(r)
        if sub and len(rest) > 1 and isinstance(rest[1], C) and not isinstance(rest[0], (C, T)):
            out, pos, n = [], 0, 0
            count = rest[2].v if len(rest) > 2 else (k['count'].v if 'count' in k else 0)
            from . import m_str
            for m in pat.finditer(rest[1].v):
                if count and n >= count:
                    break
                out.append(C(rest[1].v[pos:m.start()]))
                out.append(ip.call(rest[0], [lift(m)]))
                pos = m.end()
                n += 1
            out.append(C(rest[1].v[pos:]))
            r = m_str.s_cat(out)
            return r if name == 'sub' else Tup([r, C(n)])
    t = T('res', 're.' + name, ip.fresh('res:re.' + name))
    types = {'sub': ['str'], 'split': ['list'], 'findall': ['list'],
             'match': ['NoneType', 'object'], 'search': ['NoneType', 'object'],
             'fullmatch': ['NoneType', 'object']}.get(name)
    if types is None:
        raise Undecided('re.%s of unknown text' % name)
    if a and isinstance(a[1 if sub and len(a) > 1 else 0], (T, C)):
        text = a[1 if sub and len(a) > 1 else 0]
        want = frozenset(['str']) if isinstance(pat.pattern, str) else frozenset(['bytes', 'bytearray'])
        if isinstance(text, T):
            if not ip.types(text) & want or not ip.decide_type(text, want):
                raise ip.exc('TypeError', 'expected string or bytes-like object')
        elif type(text.v).__name__ not in want:
            raise ip.exc('TypeError', 'expected string or bytes-like object')
    elif a and not isinstance(a[0], (T, C)) and not sub:
        raise ip.exc('TypeError', 'expected string or bytes-like object')
    set_spec(t, frozenset(types))
    ip.imprecise.append('result of re.%s' % name)
    ip.guesses.append(show(t))
    return t


def pattern(ip, v, flags):
    v = _known(ip, v)
    if isinstance(v, Inst) and v.cls is bcls('re.Pattern'):
        return v.attrs['__p__'].v
    if not isinstance(v, C) or not isinstance(flags, C):
        raise Undecided('a regular expression that is not known')
    try:
        return re.compile(v.v, flags.v)
    except re.error as e:
        raise ip.exc('re.error', str(e))


def x_compile(ip, a, kw):
    p = pattern(ip, a[0], a[1] if len(a) > 1 else kw.get('flags', C(0)))
    i = Inst(bcls('re.Pattern'))
    i.attrs['__p__'] = Py(p)
    return i


def x_func(name):
    def f(ip, a, kw):
        n = {'sub': 3, 'subn': 3}.get(name, 2)
        flags = kw.pop('flags', None) if 'flags' in kw else None
        if flags is None:
            flags = C(0)
        p = pattern(ip, a[0], flags)
        rest = list(a[1:])
        if name in ('match', 'search', 'fullmatch', 'findall', 'finditer') and len(rest) > 1:
            p = pattern(ip, a[0], rest[1])
            rest = rest[:1]
        return run(ip, p, name, rest, kw)
    return f


def pattern_attr(ip, o, name):
    p = o.attrs['__p__'].v
    if name in FUNCS:
        return N('Pattern.' + name, lambda ip, a, kw: run(ip, p, name, list(a), kw))
    if name in ('pattern', 'flags', 'groups'):
        return C(getattr(p, name))
    return None


def match_attr(ip, o, name):
    m = o.attrs['__m__'].v
    if name in ('group', 'groups', 'groupdict', 'start', 'end', 'span', 'expand', '__getitem__'):
        def f(ip, a, kw):
            try:
                return lift(getattr(m, name)(*[x.v for x in a]))
            except IndexError as e:
                raise ip.exc('IndexError', str(e))
        return N('Match.' + name, f)
    if name in ('string', 'lastgroup', 'lastindex', 'pos', 'endpos'):
        return C(getattr(m, name))
    return None


mb.INST_ATTR['re.Pattern'] = pattern_attr
mb.INST_ATTR['re.Match'] = match_attr
TABLE = {'re.compile': x_compile, 're.escape': lambda ip, a, kw: C(re.escape(_known(ip, a[0]).v))}
for _n in FUNCS:
    TABLE['re.' + _n] = x_func(_n)
