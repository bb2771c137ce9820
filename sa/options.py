"""Finds arguments a model of a library function did not look at."""
from .objs import Undecided


class Args(list):
    """Positional arguments that remember which of them were read."""

    def __init__(self, items):
        list.__init__(self, items)
        self.seen = set()

    def __getitem__(self, i):
        n = len(self)
        self.seen.update(range(*i.indices(n)) if isinstance(i, slice) else [i if i >= 0 else i + n])
        return list.__getitem__(self, i)

    def __iter__(self):
        self.seen.update(range(len(self)))
        return list.__iter__(self)

    def __add__(self, o):
        return list(self) + list(o)

    def __radd__(self, o):
        return list(o) + list(self)

    def unread(self):
        return ['argument %d' % (i + 1) for i in range(len(self)) if i not in self.seen]


class Kw(dict):
    """Keyword arguments that remember which of them were read."""

    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()
        self.given = list(d)

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, *d):
        self.seen.add(k)
        return dict.get(self, k, *d)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def _all(self):
        self.seen.update(self.given)

    def __iter__(self):
        self._all()
        return dict.__iter__(self)

    def keys(self):
        self._all()
        return dict.keys(self)

    def items(self):
        self._all()
        return dict.items(self)

    def values(self):
        self._all()
        return dict.values(self)

    def copy(self):
        self._all()
        return dict(self)

    def unread(self):
        return [k for k in self.given if k not in self.seen]


# what these are given besides does not matter
IGNORE = ('acquire', 'lock.exit', 'threading.Lock', 'threading.RLock', 'typing.TypeVar', 'typing.cast',
          'logging.getLogger', 'functools.wraps', 'six.wraps', 'functools.lru_cache',
          'isinstance', 'print', 'os.getenv', 'os.environ.get', 'tornado.ioloop.PeriodicCallback')

# the default is only looked at when it is needed
DEFAULT = {'filter': 1, 'map': 1, 'get': 2, 'pop': 2, 'getattr': 3, 'next': 2, 'setdefault': 2, 'max': 9, 'min': 9}


def run(f, name, ip, args, kwargs):
    if not args and not kwargs or name in IGNORE:
        return f(ip, args, kwargs)
    a, k = Args(args), Kw(kwargs)
    r = f(ip, a, k)
    left = a.unread() + k.unread()
    last = name.rsplit('.', 1)[-1]
    if last in DEFAULT:
        left = [x for x in left if x != 'argument %d' % DEFAULT[last] and x != 'default']
    if left and not last.endswith(('Exception', 'Error')):
        raise Undecided('%s of %s is not modelled' % (', '.join(left), name))
    return r
