"""Heap objects, callables and control-flow signals of the analyser."""
from .terms import C, V


class Obj(V):
    """A heap object; compared by identity."""
    __slots__ = ('gen', 'label')
    kind = 'object'

    def __init__(self, label=None):
        self.gen = Obj.current_gen
        self.label = label

    current_gen = 0

    def snapshot(self):
        return None

    def restore(self, s):
        pass


class Inst(Obj):
    __slots__ = ('cls', 'attrs', 'order')

    def __init__(self, cls, label=None):
        Obj.__init__(self, label)
        self.cls = cls
        self.attrs = {}

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def __repr__(self):
        return '<%s%s>' % (getattr(self.cls, 'name', '?'), ' ' + self.label if self.label else '')


class DictV(Obj):
    """A dict: known entries in insertion order, plus unknown content when `open`."""
    __slots__ = ('entries', 'open', 'keytypes', 'valtypes', 'absent', 'default', 'nmore', 'owner',
                 'asked')
    kind = 'dict'

    def __init__(self, entries=(), open=False, label=None, keytypes=None, valtypes=None):
        Obj.__init__(self, label)
        self.entries = [list(e) for e in entries]
        self.open = open
        self.keytypes = keytypes
        self.valtypes = valtypes
        self.absent = []
        self.default = None
        self.nmore = 0
        self.owner = None       # the object whose __dict__ this is
        self.asked = None       # a set of the keys looked up, when somebody wants to know

    def snapshot(self):
        return [list(e) for e in self.entries], self.open, list(self.absent)

    def restore(self, s):
        self.entries, self.open, self.absent = s

    def __repr__(self):
        return '{%s%s}' % (', '.join('%r: %r' % (k, v) for k, v in self.entries),
                           ', ...%s' % (self.label or '') if self.open else '')


class ListV(Obj):
    __slots__ = ('items', 'open', 'valtypes')
    kind = 'list'

    def __init__(self, items=(), open=False, label=None, valtypes=None):
        Obj.__init__(self, label)
        self.items = list(items)
        self.open = open
        self.valtypes = valtypes

    def snapshot(self):
        return list(self.items), self.open

    def restore(self, s):
        self.items, self.open = s

    def __repr__(self):
        return '[%s%s]' % (', '.join(map(repr, self.items)), ', ...' if self.open else '')


class SetV(Obj):
    __slots__ = ('items',)
    kind = 'set'

    def __init__(self, items=(), label=None):
        Obj.__init__(self, label)
        self.items = list(items)

    def snapshot(self):
        return list(self.items)

    def restore(self, s):
        self.items = s


class ByteArr(Obj):
    """bytearray / BytesIO: a mutable byte string."""
    __slots__ = ('val', 'pos', 'io')
    kind = 'bytearray'

    def __init__(self, val, label=None, io=False):
        Obj.__init__(self, label)
        self.val = val
        self.io = io
        self.pos = None         # of a BytesIO: where the next read starts; None: the beginning

    def snapshot(self):
        return self.val, self.pos

    def restore(self, s):
        self.val, self.pos = s

    def __repr__(self):
        return 'bytearray(%r)' % (self.val,)


class MemV(ByteArr):
    """memoryview"""
    __slots__ = ()
    kind = 'memoryview'

    def __repr__(self):
        return 'memoryview(%r)' % (self.val,)


class LockV(Obj):
    __slots__ = ('reentrant', 'count', 'site')
    kind = 'lock'

    def __init__(self, reentrant=False, label=None):
        Obj.__init__(self, label)
        self.reentrant = reentrant
        self.count = 0

    def snapshot(self):
        return self.count

    def restore(self, s):
        self.count = s

    def __repr__(self):
        return '<lock %s>' % (self.label or '')


class FutV(Obj):
    __slots__ = ('state', 'value', 'callbacks', 'sets')
    kind = 'future'

    def __init__(self, label=None):
        Obj.__init__(self, label)
        self.state = 'pending'
        self.value = None
        self.callbacks = []
        self.sets = 0

    def snapshot(self):
        return self.state, self.value, list(self.callbacks), self.sets

    def restore(self, s):
        self.state, self.value, self.callbacks, self.sets = s

    def __repr__(self):
        return '<future %s %s>' % (self.label or '', self.state)


class CoroV(Obj):
    """What calling an async def gives: nothing of it runs before it is awaited."""
    __slots__ = ('fn', 'args', 'kwargs', 'fut')
    kind = 'coroutine'

    def __init__(self, fn, args, kwargs):
        Obj.__init__(self, 'coroutine %s' % getattr(fn, 'qualname', fn))
        self.fn, self.args, self.kwargs, self.fut = fn, args, kwargs, None

    def snapshot(self):
        return self.fut

    def restore(self, s):
        self.fut = s

    def __repr__(self):
        return '<%s>' % self.label


class StarKey(str):
    """A keyword given by ** whose name is not known."""
    term = None


def kwkey(k):
    return k.term if isinstance(k, StarKey) else C(k)


class ViewV(Obj):
    """dict.keys()/values()/items(): a live view."""
    __slots__ = ('dict', 'which')
    kind = 'view'

    def __init__(self, d, which):
        Obj.__init__(self)
        self.dict = d
        self.which = which


class Endless(object):
    """The items of itertools.count, repeat and cycle."""

    def __init__(self, at):
        self.at = at

    def __len__(self):
        return 1 << 40

    def __getitem__(self, i):
        return self.at(i)


class IterV(Obj):
    """An iterator: the items known already, then whatever `gen` (a Python iterator that follows the
    analysed program as far as the next item) delivers."""
    __slots__ = ('items', 'pos', 'gen')
    kind = 'iterator'

    def __init__(self, items=(), gen=None):
        Obj.__init__(self)
        self.items = items if isinstance(items, Endless) else list(items)
        self.pos = 0
        self.gen = gen

    def take(self, ip):
        """The next item, or None at the end."""
        if self.pos < len(self.items):
            ip.touch(self)
            self.pos += 1
            return self.items[self.pos - 1]
        if self.gen is None:
            return None
        v = next(self.gen, None)
        if v is None:
            self.gen = None
        return v

    def rest(self, ip):
        """All the items left."""
        if isinstance(self.items, Endless):
            raise PathCut('an endless iterator is read to its end')
        out = []
        while True:
            v = self.take(ip)
            if v is None:
                return out
            out.append(v)
            if len(out) > 5000:
                raise PathCut('a very long iterator')

    def snapshot(self):
        return self.pos

    def restore(self, s):
        self.pos = s


class Tup(V):
    __slots__ = ('items', 'nt')

    def __init__(self, items, nt=None):
        self.items = tuple(items)
        self.nt = nt

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.items))


class Func(V):
    __slots__ = ('node', 'scope', 'module', 'name', 'qualname', 'defaults', 'kwdefaults', 'cls',
                 'kind', 'attrs')

    def __init__(self, node, scope, module, name, qualname, defaults, kwdefaults, cls):
        self.node = node
        self.scope = scope
        self.module = module
        self.name = name
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.kind = 'plain'
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qualname


class Wrapped(V):
    """property / staticmethod / classmethod / coroutine / contextmanager around a function."""
    __slots__ = ('how', 'fn', 'fset')

    def __init__(self, how, fn, fset=None):
        self.how = how
        self.fn = fn
        self.fset = fset

    def __repr__(self):
        return '<%s %r>' % (self.how, self.fn)


class Bound(V):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class Native(V):
    """A modelled callable: fn(interp, args, kwargs) -> value."""
    __slots__ = ('name', 'fn', 'data')

    def __init__(self, name, fn, data=None):
        self.name = name
        self.fn = fn
        self.data = data

    def __repr__(self):
        return '<%s>' % self.name


class Cls(V):
    __slots__ = ('name', 'bases', 'ns', 'module', 'qualname', 'mro', 'gen', 'node', 'meta')

    def __init__(self, name, bases, module, qualname, node=None):
        self.meta = None
        self.name = name
        self.bases = bases
        self.ns = {}
        self.module = module
        self.qualname = qualname
        self.mro = None
        self.gen = Obj.current_gen
        self.node = node

    def snapshot(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns = s

    def __repr__(self):
        return '<class %s>' % self.qualname


class BCls(V):
    """A built-in or external class that is modelled (types and exceptions)."""
    __slots__ = ('name', 'bases', 'py')
    table = {}

    def __new__(cls, name, bases=(), py=None):
        got = cls.table.get(name)
        if got is None:
            got = object.__new__(cls)
            got.name = name
            got.bases = tuple(bases)
            got.py = py
            cls.table[name] = got
        return got

    def __repr__(self):
        return '<class %s>' % self.name


class Mod(V):
    __slots__ = ('name', 'ns', 'path', 'tree', 'gen', 'loading')

    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.ns = {}
        self.tree = None
        self.gen = 0
        self.loading = False

    def snapshot(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns = s

    def __repr__(self):
        return '<module %s>' % self.name


class Ext(V):
    """An external (not analysed) module, class, function or constant, by dotted name."""
    __slots__ = ('name',)
    table = {}

    def __new__(cls, name):
        got = cls.table.get(name)
        if got is None:
            got = object.__new__(cls)
            got.name = name
            cls.table[name] = got
        return got

    def __repr__(self):
        return self.name


class SuperV(V):
    __slots__ = ('cls', 'self', 'mro')

    def __init__(self, cls, self_, mro):
        self.cls = cls
        self.self = self_
        self.mro = mro


class SliceV(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class CMGen(V):
    """A call of a @contextmanager function, not yet entered."""
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


# ----------------------------------------------------------------------- signals

class Signal(Exception):
    pass


class ReturnSig(Signal):
    def __init__(self, value):
        self.value = value


class BreakSig(Signal):
    pass


class ContinueSig(Signal):
    pass


class PyExc(Exception):
    """An exception of the analysed program."""
    def __init__(self, value, loc=None):
        Exception.__init__(self)
        self.value = value
        self.loc = loc


class PathCut(Exception):
    """The path leaves the analysed bound (loop unrolling, call depth)."""


class Infeasible(Exception):
    """The path contradicts an assumption of the scenario."""


class Undecided(Exception):
    """A construct the analyser has no rule for."""


class AnchorLost(Exception):
    """Something the rule refers to does not exist any more."""
