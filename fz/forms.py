"""The documented ways to ask an emitter: by a call (with the number given by place or
by name) and through the methods `emit` and `emit_many`.

Which one is taken next depends on nothing but the case (see core.run_case).
"""
import zlib

from . import dress

_state = [0]
_last = [0]


def start(text):
    _state[0] = zlib.crc32(text.encode('utf-8', 'backslashreplace'))
    _others.clear()


def ask(em, n=None, form=None):
    """One value, or (with a number) a list."""
    if form is None:
        # an ordinary linear congruential generator
        _state[0] = (_state[0] * 1664525 + 1013904223) % 2 ** 32
        form = _last[0] = _state[0] >> 28
        stir(type(em))
        if type(n) is int and not _state[0] >> 20 & 7:
            n = dress.Number(n)
    if form < 8 or not hasattr(em, 'emit_many'):
        return em() if n is None else em(n)
    if n is None:
        return em.emit() if form < 14 else em(None) if form == 14 else em(number=None)
    return em.emit_many(n) if form < 14 else em(number=n)


def again(em, n=None):
    """The same way as last time."""
    return ask(em, n, _last[0])


def values(em, n=None):
    """The same, always as a list."""
    return [ask(em)] if n is None else ask(em, n)


def values_again(em, n=None):
    return [again(em)] if n is None else again(em, n)


_choice = [('items',), ('weights', None), ('replace', True), ('replace_only_after_call', False),
           ('noun', ''), ('rng_seed', None), ('cum_weights', None)]
_seed = ('rng_seed', None)
# The documented parameters in their order, with their defaults.
PARAMETERS = {
    'Choice': _choice,
    'poisson_choice': [('items',), ('mu', 1), ('weight_floor', 0)] + _choice[2:6],
    'gaussian_choice': [('items',), ('mu', 0), ('sigma', 1), ('weight_floor', 0)] + _choice[2:6],
    'chance': [('chance',), _seed],
    'Static': [('value',)],
    'Iterative': [('iterator_factory',), ('reset_after_call', False)],
    'Sequential': [('items',), ('reset_after_call', False)],
    'Word': [('length_emitter',), ('alphabet_emitter',), _seed],
    'Text': [('numwords_emitter',), ('word_emitter',), ('sep_emitter', None), _seed],
    'WrapOne': [('source',), ('wrapper',), _seed],
    'WrapMany': [('sources',), ('wrapper',), _seed],
    'CopyFields': [('source',), ('separator', None)],
    'BasedOnFields': [('source',), ('action',), _seed],
    'Field': [('name',), ('emitter',), ('repeat', None), ('gate', None), ('hide', False), _seed],
}


def make(fn, **given):
    """Calls a class or factory: some leading arguments by place, the others by name, those
    that are the defaults left out or not.
    """
    _state[0] = (_state[0] * 1664525 + 1013904223) % 2 ** 32
    form = _state[0] >> 24
    params = PARAMETERS[fn.__name__]
    assert set(given) <= {p[0] for p in params}, given
    for p in params[1:]:
        if len(p) > 1 and p[0] in given and form & 1:
            v = given[p[0]]
            if v is p[1] or (type(v) is type(p[1]) and v == p[1]):
                del given[p[0]]
    # how many by place: as usual (those without defaults), none, all, or some
    if not _state[0] >> 18 & 7:
        for name in ('items', 'weights', 'cum_weights'):
            if type(given.get(name)) in (list, tuple) and fn.__name__ != 'Sequential':
                given[name] = dress.row(given[name], form)
        for name in ('mu', 'sigma', 'chance', 'weight_floor'):
            if name in given:
                given[name] = dress.any_of(given[name])
    last = max(i for i, p in enumerate(params) if p[0] in given) + 1
    usual = sum(len(p) == 1 for p in params)
    k = (usual, usual, 0, last, last, form // 8 % (last + 1), form // 8 % (last + 1),
         usual)[form >> 1 & 7]
    # only one of the two kinds of weights may be given; None is as good as nothing
    args = [given.pop(p[0], *p[1:]) for p in params[:k]]
    em = fn(*args, **given)
    stir(type(em))
    return em


# ---------------------------------------------------------------- bystanders
#
# Other objects of the same class, made and used in between: nothing of it may be
# noticed by the objects of the case.

_others = {}


class _Part:
    """The least an emitter-like object needs."""
    rng_seed = num_unique_values = None
    emits_unique_values = False

    def __init__(self, *values):
        self.values, self.at = values, 0

    def __call__(self, number=None):
        if number is not None:
            return [self() for _ in range(number)]
        self.at += 1
        return self.values[self.at % len(self.values)]

    def reset(self):
        self.at = 0

    def seed(self, rng_seed):
        self.at = 0


def _other(name):
    import fauxdoc.emitters as e
    from fauxdoc.profile import Field, Schema
    from fauxdoc.group import ObjectGroup, ObjectMap
    if name == 'Choice':
        return e.Choice(['by1', 'by2', 'by3', 'by3'], [1, 2, 0.5, 3], replace=False, rng_seed=5)
    if name == 'Static':
        return e.Static('by')
    if name == 'Iterative':
        return e.Iterative(lambda: iter(['by1', 'by2', 'by3']))
    if name == 'Sequential':
        return e.Sequential(['by1', 'by2', 'by3'])
    if name == 'Word':
        return e.Word(_Part(2, 3), _Part('by', 'x', 'yy'), rng_seed=6)
    if name == 'Text':
        return e.Text(_Part(2, 3), _Part('by', 'x', 'yy'), _Part('-', '--'), rng_seed=7)
    if name == 'WrapOne':
        return e.WrapOne(_Part('by1', 'by2'), lambda v, rng: ('by', v, rng.random()), rng_seed=8)
    if name == 'WrapMany':
        return e.WrapMany({'by1': _Part('a', 'b'), 'by2': _Part('c')},
                          lambda by1, by2: ('by', by1, by2), rng_seed=9)
    fields = [Field('by1', _Part('f', 'g'), repeat=_Part(None, 2)),
              Field('by2', _Part('h'), gate=_Part(True, False))]
    if name == 'CopyFields':
        return e.CopyFields(fields, '~')
    if name == 'BasedOnFields':
        return e.BasedOnFields(fields, lambda **kw: ('by', kw), rng_seed=10)
    if name == 'Field':
        return fields[0]
    if name == 'Schema':
        return Schema(*fields)
    if name == 'ObjectGroup':
        return ObjectGroup(*fields)
    if name == 'ObjectMap':
        return ObjectMap({f.name: f for f in fields})
    return None


def stir(cls):
    """Now and then makes or uses another object of that class (or of one of these)."""
    _state[0] = (_state[0] * 1664525 + 1013904223) % 2 ** 32
    what = _state[0] >> 22
    if what >= 128:
        return
    if isinstance(cls, str):
        _stir(cls.split()[what % len(cls.split())], what // 8)
        return
    for base in cls.__mro__:
        if base.__module__.startswith('fauxdoc') and base.__name__ in _names:
            name = base.__name__
            break
    else:
        return
    _stir(name, what // 8)


def _stir(name, what):
    if name not in _others or not what % 8:
        _others[name] = _other(name)
    it = _others[name]
    if name in ('ObjectGroup', 'ObjectMap'):
        if what % 2:
            it.do_method('reset')
        else:
            it.setattr('rng_seed', what)
        return
    if name == 'Schema':
        [it, it.reset_fields, lambda: it.seed_fields(what)][what % 3]()
        return
    if name == 'Choice':
        if what % 4 == 1:
            it.weights = [4, 3, 2, 1] if what % 3 else None
        elif what % 4 == 2:
            it.replace = bool(what % 3)
        elif what % 4 == 3:
            it.replace_only_after_call = bool(what % 3)
        it.num_unique_values, it.num_unique_items, it.emits_unique_values
        if it.num_unique_items < 2:
            it.reset()
    elif name == 'Static':
        it.value = 'by%d' % what
    elif name in ('Iterative', 'Sequential'):
        it.reset_after_call = bool(what % 2)
        next(it.iterator)
    elif name == 'WrapOne' and what % 3 == 1:
        it.set_wrapper_function(lambda v: ('by', v))
    elif name == 'WrapMany' and what % 3 == 1:
        it.set_wrapper_function(lambda **kw: ('by', sorted(kw)))
    elif name == 'BasedOnFields' and what % 3 == 1:
        it.set_action_function(lambda by1, by2: ('by', by1, by2))
    elif name == 'Field' and what % 3 == 1:
        it.gate_emitter = _Part(False, True)
    if what % 5 == 1:
        it.reset()
    elif what % 5 == 2 and hasattr(it, 'seed'):
        it.seed(what)
    elif name == 'Field' or what % 5 == 3:
        it()
    elif what % 5 == 4:
        it(2)


_names = {'Choice', 'Static', 'Iterative', 'Sequential', 'Word', 'Text', 'WrapOne', 'WrapMany',
          'CopyFields', 'BasedOnFields', 'Field', 'Schema', 'ObjectGroup', 'ObjectMap'}
