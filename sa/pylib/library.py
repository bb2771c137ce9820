"""Functions and classes of the standard library, as source the analysis follows.  Each does what the
original does as far as it can be observed; nothing here is ever executed."""


class SimpleNamespace(object):
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)

    def __eq__(self, other):
        return isinstance(other, SimpleNamespace) and vars(self) == vars(other)


class ChainMap(object):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def get(self, key, default=None):
        for m in self.maps:
            if key in m:
                return m[key]
        return default

    def _merged(self):
        out = {}
        for m in reversed(self.maps):
            out.update(m)
        return out

    def __iter__(self):
        return iter(self._merged())

    def __len__(self):
        return len(self._merged())

    def __contains__(self, key):
        return any(key in m for m in self.maps)

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __delitem__(self, key):
        del self.maps[0][key]

    def items(self):
        return self._merged().items()

    def keys(self):
        return self._merged().keys()

    def values(self):
        return self._merged().values()

    def new_child(self, m=None, **kwargs):
        return ChainMap({} if m is None else m, *self.maps)

    @property
    def parents(self):
        return ChainMap(*self.maps[1:])


class ExitStack(object):
    def __init__(self):
        self._callbacks = []

    def __enter__(self):
        return self

    def callback(self, f, *args, **kwargs):
        self._callbacks.append(lambda t, v, tb: (f(*args, **kwargs), False)[1])
        return f

    def push(self, exit):
        if hasattr(exit, '__exit__'):
            self._callbacks.append(exit.__exit__)
        else:
            self._callbacks.append(exit)
        return exit

    def enter_context(self, cm):
        result = cm.__enter__()
        self._callbacks.append(cm.__exit__)
        return result

    def pop_all(self):
        new = ExitStack()
        new._callbacks = self._callbacks
        self._callbacks = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, v, tb):
        swallowed = False
        pending = v
        raised = False
        while self._callbacks:
            f = self._callbacks.pop()
            try:
                if f(None if pending is None else type(pending), pending, tb):
                    swallowed = True
                    pending = None
                    raised = False
            except Exception as e:
                pending = e
                raised = True
        if raised:
            raise pending
        return v is not None and swallowed and pending is None


class closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *args):
        self.thing.close()


class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *args):
        return None


def singledispatch(func):
    registry = {object: func}

    def dispatch(cls):
        for c in cls.__mro__:
            if c in registry:
                return registry[c]
        return func

    def register(cls, f=None):
        if f is None:
            if not isinstance(cls, type):
                return register(list(cls.__annotations__.values())[0], cls)
            return lambda f: register(cls, f)
        registry[cls] = f
        return f

    def wrapper(*args, **kwargs):
        best = None
        for c in registry:
            if isinstance(args[0], c) and (best is None or issubclass(c, best)):
                best = c
        return registry[best](*args, **kwargs)
    wrapper.register = register
    wrapper.dispatch = dispatch
    wrapper.registry = registry
    return wrapper


class singledispatchmethod(object):
    def __init__(self, func):
        self.dispatcher = singledispatch(func)

    def register(self, cls, method=None):
        return self.dispatcher.register(cls, method)

    def __get__(self, obj, cls=None):
        def method(*args, **kwargs):
            best = None
            registry = self.dispatcher.registry
            for c in registry:
                if isinstance(args[0], c) and (best is None or issubclass(c, best)):
                    best = c
            return registry[best](obj, *args, **kwargs)
        return method


class partialmethod(object):
    def __init__(self, func, *args, **kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs

    def __get__(self, obj, cls=None):
        return lambda *a, **kw: self.func(obj, *(self.args + a), **dict(self.kwargs, **kw))


def total_ordering(cls):
    ns = vars(cls)
    if '__lt__' in ns:
        if '__gt__' not in ns:
            cls.__gt__ = lambda self, other: not (self < other) and not self == other
        if '__le__' not in ns:
            cls.__le__ = lambda self, other: self < other or self == other
        if '__ge__' not in ns:
            cls.__ge__ = lambda self, other: not (self < other)
    elif '__gt__' in ns:
        if '__lt__' not in ns:
            cls.__lt__ = lambda self, other: not (self > other) and not self == other
        if '__ge__' not in ns:
            cls.__ge__ = lambda self, other: self > other or self == other
        if '__le__' not in ns:
            cls.__le__ = lambda self, other: not (self > other)
    elif '__le__' in ns:
        cls.__lt__ = lambda self, other: self <= other and not self == other
        cls.__gt__ = lambda self, other: not (self <= other)
        cls.__ge__ = lambda self, other: not (self <= other) or self == other
    else:
        cls.__gt__ = lambda self, other: self >= other and not self == other
        cls.__lt__ = lambda self, other: not (self >= other)
        cls.__le__ = lambda self, other: not (self >= other) or self == other
    return cls


def cmp_to_key(f):
    class K(object):
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return f(self.obj, other.obj) < 0

        def __gt__(self, other):
            return f(self.obj, other.obj) > 0
    return K


def bisect_right(a, x, lo=0, hi=None, key=None):
    n = len(a) if hi is None else hi
    i = lo
    while i < n and not x < (a[i] if key is None else key(a[i])):
        i += 1
    return i


def bisect_left(a, x, lo=0, hi=None, key=None):
    n = len(a) if hi is None else hi
    i = lo
    while i < n and (a[i] if key is None else key(a[i])) < x:
        i += 1
    return i


def insort_right(a, x, lo=0, hi=None, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)


def insort_left(a, x, lo=0, hi=None, key=None):
    a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)


def heapify(h):
    h.sort()


def heappush(h, x):
    h.append(x)
    h.sort()


def heappop(h):
    return h.pop(0)


def iter_unpack(fmt, buffer):
    import struct
    n = struct.calcsize(fmt)
    if len(buffer) % n:
        raise struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    return iter([struct.unpack(fmt, buffer[i:i + n]) for i in range(0, len(buffer), n)])


class Event(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False


class UserDict(object):
    def __init__(self, dict=None, **kwargs):
        self.data = {}
        if dict is not None:
            self.data.update(dict)
        self.data.update(kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        return self.data[key]

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def get(self, key, default=None):
        return self.data.get(key, default)

    def items(self):
        return self.data.items()

    def keys(self):
        return self.data.keys()

    def values(self):
        return self.data.values()

    def update(self, *args, **kwargs):
        self.data.update(*args, **kwargs)

    def pop(self, *args):
        return self.data.pop(*args)

    def setdefault(self, key, default=None):
        return self.data.setdefault(key, default)

    def copy(self):
        return UserDict(self.data)


class Counter(object):
    def __init__(self, iterable=None, **kwargs):
        self._d = {}
        self.update(iterable, **kwargs)

    def __getitem__(self, key):
        return self._d.get(key, 0)

    def __setitem__(self, key, value):
        self._d[key] = value

    def __delitem__(self, key):
        self._d.pop(key, None)

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __contains__(self, key):
        return key in self._d

    def __eq__(self, other):
        return self._d == getattr(other, '_d', other)

    def get(self, key, default=None):
        return self._d.get(key, default)

    def items(self):
        return self._d.items()

    def keys(self):
        return self._d.keys()

    def values(self):
        return self._d.values()

    def pop(self, *args):
        return self._d.pop(*args)

    def clear(self):
        self._d.clear()

    def setdefault(self, key, default=None):
        return self._d.setdefault(key, default)

    def copy(self):
        return Counter(self._d)

    def elements(self):
        return iter([k for k, n in self._d.items() for _ in range(n)])

    def total(self):
        return sum(self._d.values())

    def most_common(self, n=None):
        items = sorted(self._d.items(), key=lambda kv: kv[1], reverse=True)
        return items if n is None else items[:n]

    def update(self, iterable=None, **kwargs):
        if iterable is not None:
            if hasattr(iterable, 'items'):
                for k, n in iterable.items():
                    self._d[k] = self._d.get(k, 0) + n
            else:
                for k in iterable:
                    self._d[k] = self._d.get(k, 0) + 1
        for k, n in kwargs.items():
            self._d[k] = self._d.get(k, 0) + n

    def subtract(self, iterable=None, **kwargs):
        if iterable is not None:
            if hasattr(iterable, 'items'):
                for k, n in iterable.items():
                    self._d[k] = self._d.get(k, 0) - n
            else:
                for k in iterable:
                    self._d[k] = self._d.get(k, 0) - 1
        for k, n in kwargs.items():
            self._d[k] = self._d.get(k, 0) - n


class deque(object):
    """With a bound on its length."""

    def __init__(self, iterable=(), maxlen=None):
        self._items = []
        self.maxlen = maxlen
        self.extend(iterable)

    def append(self, x):
        self._items.append(x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            self._items.pop(0)

    def appendleft(self, x):
        self._items.insert(0, x)
        if self.maxlen is not None and len(self._items) > self.maxlen:
            self._items.pop()

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def extendleft(self, xs):
        for x in xs:
            self.appendleft(x)

    def pop(self):
        return self._items.pop()

    def popleft(self):
        if not self._items:
            raise IndexError('pop from an empty deque')
        return self._items.pop(0)

    def clear(self):
        self._items.clear()

    def remove(self, x):
        self._items.remove(x)

    def rotate(self, n=1):
        for _ in range(n):
            self._items.insert(0, self._items.pop())
        for _ in range(-n):
            self._items.append(self._items.pop(0))

    def count(self, x):
        return self._items.count(x)

    def copy(self):
        return deque(self._items, self.maxlen)

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def __reversed__(self):
        return reversed(self._items)

    def __contains__(self, x):
        return x in self._items

    def __getitem__(self, i):
        return self._items[i]

    def __setitem__(self, i, x):
        self._items[i] = x


class MappingProxyType(object):
    def __init__(self, mapping):
        self._mapping = mapping

    def __len__(self):
        return len(self._mapping)

    def __getitem__(self, key):
        return self._mapping[key]

    def __setitem__(self, key, item):
        raise TypeError("'mappingproxy' object does not support item assignment")

    def __delitem__(self, key):
        raise TypeError("'mappingproxy' object does not support item deletion")

    def __iter__(self):
        return iter(self._mapping)

    def __contains__(self, key):
        return key in self._mapping

    def __eq__(self, other):
        return self._mapping == other

    def __or__(self, other):
        return self._mapping | other

    def get(self, key, default=None):
        return self._mapping.get(key, default)

    def items(self):
        return self._mapping.items()

    def keys(self):
        return self._mapping.keys()

    def values(self):
        return self._mapping.values()

    def copy(self):
        return self._mapping.copy()
