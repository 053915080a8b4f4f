"""User-written emitters used as recording stubs.

They follow the documented emitter interface only: callable with no number or
with a number, reset(), and the two uniqueness properties.
"""
import warnings


class Feed:
    """An endless, cycling stream of given values that records its use."""

    def __init__(self, values, label='', log=None):
        self.values = list(values)
        self.label = label
        self.log = log if log is not None else []
        self.pos = 0
        self.fail = None

    num_unique_values = None
    emits_unique_values = False

    def __call__(self, number=None):
        self.log.append((self.label, number))
        if self.fail is not None:
            raise self.fail
        if number is None:
            return self._next()
        return [self._next() for _ in range(number)]

    def _next(self):
        v = self.values[self.pos % len(self.values)]
        self.pos += 1
        return v

    def reset(self):
        self.log.append((self.label, 'reset'))
        self.pos = 0


class Keeper(Feed):
    """Hands out the one list it keeps where a full round is asked for."""

    def __call__(self, number=None):
        if number == len(self.values) and self.pos % number == 0:
            self.log.append((self.label, number))
            self.pos += number
            return self.values
        return super().__call__(number)


class Unknown(Feed):
    """One that calls itself unique per call but does not know its number of values."""
    replace_only_after_call = True

    def __init__(self, values, label='', log=None):
        super().__init__(values, label, log)
        self.num_unique_values = 0 if len(self.values) % 2 else None


class Stream:
    """Model side of Feed/Sequential/Iterative: values and a position."""

    def __init__(self, values):
        self.values = list(values)
        self.pos = 0

    def one(self):
        v = self.values[self.pos % len(self.values)]
        self.pos += 1
        return v

    def many(self, n):
        return [self.one() for _ in range(n)]

    def reset(self):
        self.pos = 0


def own_class():
    """A user's class derived from one of the library's, that emits other things than its
    items.
    """
    from fauxdoc.emitters import Sequential

    class Own(Sequential):
        def __init__(self, values):
            self.table = list(values)
            super().__init__(range(len(self.table)))

        def emit(self):
            return self.table[super().emit()]

        def emit_many(self, number):
            return [self.table[i] for i in super().emit_many(number)]

        def alter(self, values):
            self.table = list(values)
            n = len(self.table)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.iterator_factory = lambda: iter(range(n))
    return Own


def make_source(kind, values, label='', log=None):
    """A real or user-written emitter replaying `values` endlessly."""
    if kind == 'feed':
        return Feed(values, label, log)
    if kind == 'keeper':
        return Keeper(values, label, log)
    if kind == 'unknown':
        return Unknown(values, label, log)
    if kind == 'own':
        return own_class()(values)
    from fauxdoc.emitters import Iterative, Sequential
    vals = list(values)
    if kind == 'seq':
        return Sequential(vals)
    if kind == 'iter':
        return Iterative(lambda: iter(vals))
    if kind == 'gen':
        return Iterative(lambda: (v for v in vals))
    raise ValueError(kind)


LIVE_KINDS = ['feed', 'seq', 'iter', 'gen', 'static', 'unknown', 'keeper', 'own']


def live_source(kind, values, label='', log=None):
    """(emitter, model stream) of a source that `change` can later alter."""
    if kind == 'static':
        from fauxdoc.emitters import Static
        return Static(values[0]), Stream(values[:1])
    return make_source(kind, values, label, log), Stream(values)


def change(kind, em, stream, values):
    """Gives a live source other values, in the way its class provides."""
    vals = list(values)
    if kind == 'static':
        em.value = vals[0]
        vals = vals[:1]
    elif kind in ('feed', 'unknown', 'keeper'):
        em.values, em.pos = vals, 0
    elif kind == 'own':
        em.alter(vals)
    elif kind == 'gen':
        em.iterator_factory = lambda: (v for v in vals)
    else:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')     # deprecated for Sequential
            em.iterator_factory = lambda: iter(vals)
    stream.values, stream.pos = vals, 0


SOURCE_KINDS = ['feed', 'seq', 'iter', 'gen', 'keeper', 'own']


class Recorder:
    """Wraps an emitter; keeps everything it emitted, passes the rest on."""

    def __init__(self, inner):
        self.__dict__['inner'] = inner
        self.__dict__['out'] = []

    def __call__(self, number=None):
        v = self.inner() if number is None else self.inner(number)
        if number is None:
            self.out.append(v)
        else:
            self.out.extend(v)
        return v

    def __getattr__(self, name):
        return getattr(self.__dict__['inner'], name)

    def __setattr__(self, name, value):
        setattr(self.__dict__['inner'], name, value)
