"""Group members of many kinds (module level, so that they can be pickled)."""


class Member:
    """Compares by tag, so that equal but distinct members exist."""

    def __init__(self, tag, log=None):
        self.tag = tag

    def __eq__(self, other):
        if isinstance(other, Member):
            return self.tag == other.tag
        return NotImplemented

    def __lt__(self, other):
        if isinstance(other, Member):
            return self.tag < other.tag
        return NotImplemented

    __hash__ = None

    def __repr__(self):
        return 'Member(%r)' % (self.tag,)


class Full:
    """Has the attribute x and the method m."""

    def __init__(self, ident, log):
        self.ident, self.log, self.x = ident, log, 'old'

    def m(self, *args, **kwargs):
        self.log.append((self.ident, args, kwargs))
        return self


class Falsy(Full):
    def __bool__(self):
        return False


class Empty(Full):
    def __len__(self):
        return 0


class EqualsAll(Full):
    """Claims to be equal to anything, None included."""

    def __eq__(self, other):
        return True

    __hash__ = Full.__hash__


class NeverEqual(Full):
    def __eq__(self, other):
        return False

    __hash__ = Full.__hash__


class Lacking:
    def __init__(self, ident, log):
        self.ident, self.log = ident, log


class OnlyAttr(Lacking):
    def __init__(self, ident, log):
        super().__init__(ident, log)
        self.x = None


class OnlyMethod(Lacking):
    def m(self, *args, **kwargs):
        self.log.append((self.ident, args, kwargs))


class ClassAttr(Lacking):
    x = 'of the class'

    @classmethod
    def _n(cls):
        return 1


class Static(Lacking):
    """The method is a function stored on the instance."""

    def __init__(self, ident, log):
        super().__init__(ident, log)
        self.m = lambda *args, **kwargs: log.append((ident, args, kwargs))


class Prop(Lacking):
    def __init__(self, ident, log):
        super().__init__(ident, log)
        self._x = 'old'

    @property
    def x(self):
        return self._x

    @x.setter
    def x(self, value):
        self._x = value


class Slots:
    """Has slots; x is declared but has no value yet."""
    __slots__ = ('ident', 'log', 'x')

    def __init__(self, ident, log):
        self.ident, self.log = ident, log


class FullSlots(Slots):
    __slots__ = ()

    def __init__(self, ident, log):
        super().__init__(ident, log)
        self.x = 0

    def m(self, *args, **kwargs):
        self.log.append((self.ident, args, kwargs))


class Dynamic:
    """Finds attributes with __getattr__ only."""

    def __init__(self, ident, log):
        self.ident, self.log = ident, log

    def __getattr__(self, name):
        if name == 'm':
            return lambda *a, **k: self.log.append((self.ident, a, k))
        raise AttributeError(name)


class Silent(list):
    """A callable object that is false, such as an empty log of its calls."""

    def __call__(self, *args, **kwargs):
        self.call(*args, **kwargs)


class FalsyMethod(Lacking):
    """The method is a callable object that is false."""

    def __init__(self, ident, log):
        super().__init__(ident, log)
        self.m = Silent()
        self.m.call = lambda *args, **kwargs: log.append((ident, args, kwargs))


class Refusing(Lacking):
    """Setting its attribute raises."""
    error = None

    def __init__(self, ident, log):
        super().__init__(ident, log)
        self._x = 'old'

    @property
    def x(self):
        return self._x

    @x.setter
    def x(self, value):
        if self.error is not None:
            raise self.error
        self._x = value


class Raising(Full):
    """Its method logs the call and raises."""
    error = None

    def m(self, *args, **kwargs):
        self.log.append((self.ident, args, kwargs))
        if self.error is not None:
            raise self.error


KINDS = {c.__name__: c for c in (
    Full, Falsy, Empty, EqualsAll, NeverEqual, Lacking, OnlyAttr, OnlyMethod, ClassAttr,
    Static, Prop, Slots, FullSlots, Dynamic, Raising,
    FalsyMethod, Refusing)}
HAS_X = {'Full', 'Falsy', 'Empty', 'EqualsAll', 'NeverEqual', 'OnlyAttr', 'ClassAttr',
         'Prop', 'FullSlots', 'Raising', 'Refusing'}
HAS_M = {'Full', 'Falsy', 'Empty', 'EqualsAll', 'NeverEqual', 'OnlyMethod', 'Static',
         'FullSlots', 'Dynamic', 'Raising', 'FalsyMethod'}
PLAIN = [None, 0, '', 'text', 5, (), False]
