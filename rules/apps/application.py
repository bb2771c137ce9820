"""What an application passes to the client: values whose conversion runs code of the application.

It is interpreted by the analysis like the client itself; `use` is given by the scenario.
"""


class Value(object):
    def __init__(self, use, number=1, text='text'):
        self.use = use
        self.number = number
        self.text = text

    def __str__(self):
        self.use()
        return self.text

    def __repr__(self):
        self.use()
        return self.text

    def __int__(self):
        self.use()
        return self.number

    def __bool__(self):
        self.use()
        return bool(self.number)


class Failing(object):
    """Conversions raise, with an error whose own conversion runs code of the application."""

    def __init__(self, use, error=RuntimeError):
        self.use = use
        self.error = error

    def __str__(self):
        self.use()
        raise self.error('no text')

    def __int__(self):
        self.use()
        raise self.error('no number')


class Error(Exception):
    def __init__(self, use):
        self.use = use

    def __str__(self):
        self.use()
        return 'failed'


class Collector(object):
    """A function that is at the same time a collection, empty as yet."""
    def __init__(self, use):
        self.use = use

    def __call__(self, key, value):
        self.use(key, value)

    def __len__(self):
        return 0
