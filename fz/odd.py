"""Values that careless code trips over; each has a repr that evaluates to it."""
import collections
import datetime
import decimal
import enum
import fractions
import uuid


class Thing:
    """An ordinary object whose text is not its repr."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Thing) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return 'thing ' + self.name

    def __repr__(self):
        return 'Thing(%r)' % self.name


class Empty:
    """False and of no length, but a value all the same; iterable, too."""

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())

    def __eq__(self, other):
        return isinstance(other, Empty)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Empty()'


class Vague:
    """Neither true nor false, like an array of several numbers."""

    def __bool__(self):
        raise ValueError('the truth value of this is ambiguous')

    def __eq__(self, other):
        return isinstance(other, Vague)

    def __hash__(self):
        return 8

    def __repr__(self):
        return 'Vague()'


class Callable:
    """A value that could be called, but never should be."""

    def __call__(self, *args, **kw):
        raise RuntimeError('a value was called')

    def reset(self):
        raise RuntimeError('a value was reset')

    def seed(self, *args):
        raise RuntimeError('a value was seeded')

    emit = emit_many = reset
    previous = rng = rng_seed = 'own'

    def __eq__(self, other):
        return isinstance(other, Callable)

    def __hash__(self):
        return 9

    def __repr__(self):
        return 'Callable()'


class Text(str):
    """A kind of string whose text is not itself."""

    def __str__(self):
        return 'text ' + str.__str__(self)

    def __repr__(self):
        return 'Text(%s)' % str.__repr__(self)


class Many(list):
    def __repr__(self):
        return 'Many(%s)' % list.__repr__(self)


Pair = collections.namedtuple('Pair', 'left right')


class Colour(enum.Enum):
    RED = 1
    BLUE = 'blue'

    def __repr__(self):
        return 'Colour.' + self.name


class Level(enum.IntEnum):
    NONE = 0
    HIGH = 3

    def __repr__(self):
        return 'Level.' + self.name


NAMES = {'Thing': Thing, 'Empty': Empty, 'Vague': Vague, 'Callable': Callable, 'Text': Text,
         'Many': Many, 'Pair': Pair, 'Colour': Colour, 'Level': Level,
         'Decimal': decimal.Decimal, 'Fraction': fractions.Fraction, 'UUID': uuid.UUID,
         'Ellipsis': Ellipsis, 'set': set, 'bytearray': bytearray}

VALUES = [
    Thing('a'), Thing(''), Empty(), Vague(), Callable(), Text('t'), Text(''), Many([1, 2]),
    Many(), Pair(1, 'r'), Colour.RED, Colour.BLUE, Level.NONE, Level.HIGH,
    decimal.Decimal('1.50'), decimal.Decimal(0), fractions.Fraction(1, 3),
    uuid.UUID(int=5), datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5),
    datetime.time(0, 0), datetime.timedelta(0), datetime.timedelta(days=1), Ellipsis,
    {1}, set(), frozenset(), frozenset({2}), b'', b'bytes', bytearray(b'x'), range(0),
    range(2), 1e16, -0.0, 10 ** 30, 1j, float('inf'), 'None', '%s', '{0}', '\ud800', '\n',
    'nul\0', 0.1 + 0.2, {}, {'a': None}, (), [], [[]], [None], (None,)]
