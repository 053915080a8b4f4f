"""Functions of many shapes for wrappers and actions.

Every maker takes `call(args_dict, rng)` and returns a callable; `call` gets the
values by name ('v' for the single positional one) and the rng it was given, or
NO_RNG if none was passed.
"""
import functools
import keyword

NO_RNG = 'no rng passed'


class _Obj:
    def __init__(self, call):
        self.call = call

    def __call__(self, v):
        return self.call({'v': v}, NO_RNG)

    def meth(self, v):
        return self.call({'v': v}, NO_RNG)

    def rngmeth(self, v, rng):
        return self.call({'v': v}, rng)

    @classmethod
    def rngclassmeth(cls, v, rng):
        return cls.at.call({'v': v}, rng)


class _RngObj(_Obj):
    def __call__(self, v, rng=None):
        return self.call({'v': v}, rng)


class _Named(_Obj):
    """With attributes of its own that mean nothing to fauxdoc."""
    wants_rng = True
    signature = 'signed'
    rng = bound_to = 'own'
    items = value = previous = num_unique_values = None

    def function(self, *args, **kw):
        return 'the function attribute was called with %r' % ((args, kw),)

    def reset(self, *args):
        raise RuntimeError('the function was reset')

    seed = try_mock_call = reset


class _RngNamed(_Named):
    wants_rng = False

    def __call__(self, v, rng):
        return self.call({'v': v}, rng)


def _one(kind, call):
    if kind == 'def':
        def f(v):
            return call({'v': v}, NO_RNG)
        return f
    if kind == 'lambda':
        return lambda something: call({'v': something}, NO_RNG)
    if kind == 'posonly':
        def f(v, /):
            return call({'v': v}, NO_RNG)
        return f
    if kind == 'default':
        def f(v, extra=7, *more, other=8):
            if (extra, more, other) != (7, (), 8):
                return 'unexpected arguments %r' % ((extra, more, other),)
            return call({'v': v}, NO_RNG)
        return f
    if kind == 'args':
        def f(*args):
            if len(args) != 1:
                return 'unexpected arguments %r' % (args,)
            return call({'v': args[0]}, NO_RNG)
        return f
    if kind == 'varkw':
        def f(v, **kw):
            if kw:
                return 'unexpected arguments %r' % (kw,)
            return call({'v': v}, NO_RNG)
        return f
    if kind == 'rng':
        return lambda v, rng: call({'v': v}, rng)
    if kind == 'rngfirst':
        # rng is passed by name, wherever it stands
        def f(v, extra=1, rng=None):
            return call({'v': v}, rng)
        return f
    if kind == 'rngkw':
        def f(v, *, rng):
            return call({'v': v}, rng)
        return f
    if kind == 'rngdefault':
        def f(v, rng=None):
            return call({'v': v}, rng)
        return f
    if kind == 'rngargs':
        def f(*args, rng, **kw):
            if kw or len(args) != 1:
                return 'unexpected arguments %r %r' % (args, kw)
            return call({'v': args[0]}, rng)
        return f
    if kind == 'object':
        return _Obj(call)
    if kind == 'rngobject':
        return _RngObj(call)
    if kind == 'named':
        return _Named(call)
    if kind == 'rngnamed':
        return _RngNamed(call)
    if kind == 'method':
        return _Obj(call).meth
    if kind == 'rngmethod':
        return _Obj(call).rngmeth
    if kind == 'partial':
        def f(c, v):
            return c({'v': v}, NO_RNG)
        return functools.partial(f, call)
    if kind == 'rngpartial':
        def f(c, v, rng):
            return c({'v': v}, rng)
        return functools.partial(f, call)
    if kind == 'rngpartialset':
        # with a generator of its own, which that of the emitter replaces
        def f(c, v, rng):
            return c({'v': v}, rng)
        return functools.partial(f, call, rng='own')
    if kind == 'class':
        class Made:
            def __new__(cls, v):
                return call({'v': v}, NO_RNG)
        return Made
    if kind == 'wrapped':
        def f(v):
            return call({'v': v}, NO_RNG)

        @functools.wraps(f)
        def g(*a, **k):
            return f(*a, **k)
        return g
    if kind == 'localrng':
        # a variable of that name is no parameter
        def f(v):
            rng = NO_RNG
            return call({'v': v}, rng)
        return f
    if kind == 'freerng':
        rng = NO_RNG

        def f(v):
            return call({'v': v}, rng)
        return f
    if kind == 'inner':
        def f(v):
            return (lambda w, rng: call({'v': w}, rng))(v, NO_RNG)
        f.rng = f.wants_rng = f.function = f.args = True
        return f
    if kind == 'static':
        class Stat(_Obj):
            at = _Obj(call)

            @staticmethod
            def stat(v):
                return Stat.at.call({'v': v}, NO_RNG)
        return Stat.stat
    if kind == 'rngclassmethod':
        class Cls(_Obj):
            at = _Obj(call)
        return Cls.rngclassmeth
    if kind == 'rngclass':
        class RngMade:
            def __new__(cls, v, rng):
                return call({'v': v}, rng)
        return RngMade
    if kind == 'partialkw':
        def f(v, extra, *, other):
            if (extra, other) != (3, 4):
                return 'unexpected arguments %r' % ((extra, other),)
            return call({'v': v}, NO_RNG)
        return functools.partial(f, extra=3, other=4)
    if kind == 'rngwrapped':
        def f(v, rng):
            return call({'v': v}, rng)

        @functools.wraps(f)
        def g(*a, **k):
            return f(*a, **k)
        return g
    if kind == 'rngannotated':
        def f(v: 'int', *, more: 'str' = 'm', rng: 'random.Random') -> 'str':
            if more != 'm':
                return 'unexpected argument %r' % (more,)
            return call({'v': v}, rng)
        return f
    if kind == 'otherrng':
        def f(v, rngs=NO_RNG, rng_seed=NO_RNG, seed=NO_RNG, RNG=NO_RNG):
            if not rngs == rng_seed == seed == RNG == NO_RNG:
                return 'unexpected arguments %r' % ((rngs, rng_seed, seed, RNG),)
            return call({'v': v}, NO_RNG)
        return f
    raise ValueError(kind)


ONE_PLAIN = ['def', 'lambda', 'posonly', 'default', 'args', 'varkw', 'object', 'method',
             'partial', 'class', 'wrapped', 'named', 'localrng', 'freerng', 'inner', 'static',
             'partialkw', 'otherrng']
ONE_RNG = ['rng', 'rngfirst', 'rngkw', 'rngdefault', 'rngargs', 'rngobject', 'rngmethod',
           'rngpartial', 'rngnamed', 'rngclassmethod', 'rngclass', 'rngwrapped',
           'rngannotated', 'rngpartialset']
ONE_BAD = ['none', 'two', 'kwonly', 'rngonly', 'kwonlyrng', 'varkwonly', 'getattr', 'next',
           'rngposonly', 'vposrng', 'partial', 'class', 'object', 'wrapped']


def one_bad(kind):
    return {
        'none': lambda: 0,
        'two': lambda a, b: 0,
        'kwonly': _bad_kwonly,
        'rngonly': lambda rng: 0,
        'kwonlyrng': _bad_kwonlyrng,
        'varkwonly': lambda **kw: 0,
        'rngposonly': _bad_rngposonly, 'vposrng': lambda rng, v, w: 0,
        'partial': functools.partial(lambda a, b, c: 0, 1), 'class': _BadClass,
        'object': _BadObject(), 'wrapped': _bad_wrapped,
        # without a signature: tried with a value
        'getattr': getattr, 'next': next,
    }[kind]


def _bad_rngposonly(v, rng, /):
    return 0


class _BadClass:
    def __init__(self):
        pass


class _BadObject:
    def __call__(self):
        return 0


@functools.wraps(lambda a, b: 0)
def _bad_wrapped(*args):
    return 0


def _bad_kwonly(v, *, needed):
    return 0


def _bad_kwonlyrng(a, b, *, rng):
    return 0


make_one = _one


def make_many(kind, names, call):
    """A function taking the given names as keyword arguments."""
    rng = kind.startswith('rng')
    if not all(n.isidentifier() and not keyword.iskeyword(n) for n in names):
        kind = 'rngvarkw' if rng else 'varkw'
    head = ', '.join(names)
    body = '{%s}' % ', '.join('%r: %s' % (n, n) for n in names)
    ns = {'call': call, 'NO_RNG': NO_RNG}
    if kind in ('def', 'rngdef'):
        params = head + (', ' if head else '') + ('rng' if rng else '')
        src = 'def f(%s):\n return call(%s, %s)' % (params.rstrip(', '), body,
                                                    'rng' if rng else 'NO_RNG')
    elif kind in ('kwonly', 'rngkwonly'):
        if not names and not rng:
            src = 'def f():\n return call({}, NO_RNG)'
        else:
            params = '*, ' + ', '.join(list(names) + (['rng'] if rng else []))
            src = 'def f(%s):\n return call(%s, %s)' % (params, body,
                                                        'rng' if rng else 'NO_RNG')
    elif kind == 'varkw':
        src = 'def f(**kw):\n return call(kw, NO_RNG)'
    elif kind == 'rngvarkw':
        src = 'def f(*, rng, **kw):\n return call(kw, rng)'
    elif kind == 'rngdefault':
        src = ('def f(%s):\n return call(%s, rng)'
               % (', '.join(['%s=None' % n for n in names] + ['rng=None']), body))
    elif kind == 'reversed':
        src = ('def f(%s):\n return call(%s, NO_RNG)'
               % (', '.join(reversed(names)), body))
    elif kind == 'object':
        src = ('class F:\n def __call__(_me, %s):\n  return call(%s, NO_RNG)\nf = F()'
               % (head, body))
    elif kind == 'named':
        ns['Base'] = _Named
        src = ('class F(Base):\n def __call__(_me, %s):\n  return call(%s, NO_RNG)\n'
               'f = F(call)' % (head, body))
    elif kind == 'localrng':
        src = 'def f(%s):\n rng = NO_RNG\n return call(%s, rng)' % (head, body)
    elif kind == 'otherrng':
        src = ('def f(%s):\n return call(%s, NO_RNG) if rngs is rng_seed is None else "got"'
               % (', '.join(list(names) + ['rngs=None', 'rng_seed=None']), body))
    elif kind in ('method', 'rngmethod'):
        src = ('class F:\n def meth(_me, %s):\n  return call(%s, %s)\nf = F().meth'
               % (', '.join(list(names) + ['rng'] * rng), body, 'rng' if rng else 'NO_RNG'))
    elif kind in ('partial', 'rngpartial'):
        ns['partial'] = functools.partial
        src = ('def g(_first, %s):\n return call(%s, %s)\nf = partial(g, 1)'
               % (', '.join(list(names) + ['rng'] * rng), body, 'rng' if rng else 'NO_RNG'))
    elif kind == 'rngpartialset':
        ns['partial'] = functools.partial
        src = ('def g(%s):\n return call(%s, rng)\nf = partial(g, rng="own")'
               % (', '.join(list(names) + ['rng']), body))
    elif kind in ('wrapped', 'rngwrapped'):
        ns['wraps'] = functools.wraps
        src = ('def g(%s):\n return call(%s, %s)\n@wraps(g)\n'
               'def f(*a, **k):\n return g(*a, **k)'
               % (', '.join(list(names) + ['rng'] * rng), body, 'rng' if rng else 'NO_RNG'))
    elif kind in ('class', 'rngclass'):
        src = ('class f:\n def __new__(_cls, %s):\n  return call(%s, %s)'
               % (', '.join(list(names) + ['rng'] * rng), body, 'rng' if rng else 'NO_RNG'))
    elif kind == 'partvarkw':
        first = names[0] if names else 'extra=0'
        src = ('def f(%s, **kw):\n return call(dict(kw%s), NO_RNG)'
               % (first, ', %s=%s' % (names[0], names[0]) if names else ''))
    else:
        raise ValueError(kind)
    exec(src, ns)
    return ns['f']


MANY_PLAIN = ['def', 'kwonly', 'varkw', 'reversed', 'object', 'partvarkw', 'named', 'localrng',
              'otherrng', 'method', 'partial', 'wrapped', 'class']
MANY_RNG = ['rngdef', 'rngkwonly', 'rngvarkw', 'rngdefault', 'rngmethod', 'rngpartial',
            'rngwrapped', 'rngclass', 'rngpartialset']
MANY_BAD = ['missing', 'extra', 'misnamed', 'positional', 'none', 'rngextra', 'int', 'max',
            'bool']


def many_bad(kind, names):
    """A function that cannot take exactly these names; needs >= 1 name."""
    ns = {}
    if kind in ('int', 'max', 'bool'):
        return {'int': int, 'max': max, 'bool': bool}[kind]
    if kind == 'missing':
        params = ', '.join(names[1:])
    elif kind == 'extra':
        params = ', '.join(names + ['one_more'])
    elif kind == 'misnamed':
        params = ', '.join(names[:-1] + ['misnamed'])
    elif kind == 'positional':
        params = ', '.join(names) + ', /'
    elif kind == 'none':
        params = ''
    else:
        params = ', '.join(names + ['one_more', 'rng'])
    exec('def f(%s):\n return 0' % params, ns)
    return ns['f']
