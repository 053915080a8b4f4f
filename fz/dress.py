"""The same argument in other clothes: instances of classes derived from the built-in
ones, and sequences of a user's own. Whatever accepts the plain argument accepts these.
"""
import datetime as dt
from collections.abc import Mapping, Sequence


class Number(int):
    """As an IntEnum member or a user's own kind of number would be."""


class Float(float):
    pass


class String(str):
    pass


class Delta(dt.timedelta):
    pass


class Row(Sequence):
    """A sequence that is neither list nor tuple."""

    def __init__(self, values):
        self._values = tuple(values)

    def __getitem__(self, i):
        got = self._values[i]
        return Row(got) if isinstance(i, slice) else got

    def __len__(self):
        return len(self._values)

    def __eq__(self, other):
        return isinstance(other, Sequence) and list(self) == list(other)

    __hash__ = None

    def __repr__(self):
        return repr(list(self._values))


class List_(list):
    pass


class Tuple_(tuple):
    pass


class View(Mapping):
    """A mapping that is no dict."""

    def __init__(self, values):
        self._values = dict(values)

    def __getitem__(self, key):
        return self._values[key]

    def __iter__(self):
        return iter(self._values)

    def __len__(self):
        return len(self._values)


def number(n):
    if type(n) is int:
        return Number(n)
    return Float(n) if type(n) is float else n


def text(s):
    return String(s) if type(s) is str else s


def delta(d):
    return Delta(d.days, d.seconds, d.microseconds) if type(d) is dt.timedelta else d


def row(values, k):
    """One of several kinds of sequences with these values."""
    return (list, tuple, Row, List_, Tuple_)[k % 5](values)


def any_of(v):
    for f in (number, text, delta):
        v = f(v)
    return v
