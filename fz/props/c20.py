import random
from types import MappingProxyType

from hypothesis import strategies as st

from .. import bigdocs, forms, funcs, gen
from ..core import Sub, Violation, eq, raises, req
from ..funcs import NO_RNG
from ..rec import SOURCE_KINDS, Stream, make_source

PROP = 'C20'
RULE = ('Random sources, functions of about twenty shapes (functions, lambdas, methods, '
        'partials, classes, callable objects, with and without rng, built-ins without a '
        'signature), random single/list calls, resets, new wrappers, rebound wrappers and '
        'errors raised by the function; every call is recorded and compared with a stream '
        'model. Non-trivial: at least two values emitted.')
ASSUMPTIONS = ['No source is called "rng" (the name by which the generator is passed).']

vals_st = st.lists(st.one_of(st.integers(0, 50), st.text('ab', max_size=2), st.none(),
                             st.just([1]), gen.strange), min_size=1, max_size=7)


class Boom(Exception):
    pass


ERRORS = {'Boom': Boom, 'ValueError': ValueError, 'TypeError': TypeError,
          'KeyError': KeyError, 'AttributeError': AttributeError,
          'IndexError': IndexError, 'ZeroDivisionError': ZeroDivisionError}


class Probe:
    """Stands behind the wrapper function; records and may raise."""

    def __init__(self):
        self.calls = []
        self.draws = []         # what it drew from the rng, per call
        self.fail = None        # (calls until failure, exception)

    def __call__(self, values, rng):
        if self.fail is not None:
            left, exc = self.fail
            if left == 0:
                raise exc
            self.fail = (left - 1, exc)
        self.calls.append((values, rng))
        n = len(self.calls)
        draw = None if rng is NO_RNG else rng.random()
        self.draws.append(draw)
        return ('made', n, sorted(values.items(), key=lambda kv: kv[0]), draw)


class Draws:
    """The numbers that functions draw from the generator of their emitter: one sequence
    that starts anew with each reset and seeding only, and then always in the same way.
    """

    def __init__(self, seed):
        self.seen = {}
        self.restart(seed)

    def restart(self, seed):
        self.key = None if seed is None else repr(seed)
        self.now = []

    def add(self, draws, what):
        for d in draws:
            if d is None:
                continue
            req(d not in self.now, '%s: the generator gives a number again without having '
                'been reset', what)
            self.now.append(d)
            if self.key is not None:
                first = self.seen.setdefault(self.key, [])
                k = len(self.now) - 1
                if k < len(first):
                    eq(d, first[k], '%s: number %d from the generator with seed %s' % (
                        what, k, self.key))
                else:
                    first.append(d)


ops_st = st.one_of(
    st.just(('one',)), st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 6)),
    st.tuples(st.just('many'), st.integers(1, 4)), st.just(('reset',)),
    st.tuples(st.just('seed'), st.integers(0, 9)),
    st.tuples(st.just('error'), st.integers(0, 3), st.sampled_from(sorted(ERRORS)),
              st.booleans()))


def set_ops(plain, rng):
    return st.tuples(st.just('set'), st.sampled_from(plain + rng),
                     st.sampled_from(['function', 'wrapper', 'rebound', 'rebound wrapper', 'in place',
                                      'in place']))


NAMES = ['a', 'b', 'name', 'number', 'args', 'kwargs', 'function', 'value', 'x1', 'greet',
         'self', 'cls', 'signature', 'bound_to']
ODD_NAMES = ['first name', 'class', '', 'a-b', '1', '\u00fcber', '*', 'None']


def name_sets(mn=0, odd=True):
    plain = st.lists(st.sampled_from(NAMES), unique=True, min_size=mn, max_size=4)
    if not odd:
        return plain
    return st.one_of(plain, plain, plain, plain, st.lists(
        st.sampled_from(NAMES + 2 * ODD_NAMES), unique=True, min_size=max(mn, 1),
        max_size=4))


@st.composite
def cases(draw):
    many = draw(st.booleans())
    names = draw(name_sets()) if many else ['v']
    sources = {n: (draw(st.sampled_from(SOURCE_KINDS)), draw(vals_st),
                   draw(st.sampled_from([0, 0, 1, 3]))) for n in names}
    p, r = ((funcs.MANY_PLAIN, funcs.MANY_RNG) if many
            else (funcs.ONE_PLAIN, funcs.ONE_RNG))
    kind = draw(st.sampled_from(p + r))
    swap = st.tuples(st.just('swap'), st.integers(0, 3), st.sampled_from(SOURCE_KINDS),
                     vals_st)
    if many:
        swap = st.one_of(swap, st.tuples(
            st.just('more'), st.sampled_from(NAMES + ODD_NAMES), st.sampled_from(SOURCE_KINDS),
            vals_st, st.sampled_from(p + r)), st.tuples(
            st.just('fewer'), st.integers(0, 3), st.sampled_from(p + r)))
    ops = draw(st.lists(st.one_of(ops_st, ops_st, ops_st, set_ops(p, r), swap),
                        min_size=1, max_size=10))
    return (many, sources, kind, draw(st.one_of(st.none(), st.integers(0, 9))), ops,
            draw(st.integers(0, 3)) == 0,
            draw(st.sampled_from(['same', 'same', 'dict', 'map', 'proxy'])))


def check(case, obs):
    from fauxdoc.emitters.wrappers import BoundWrapper, WrapMany, WrapOne
    from fauxdoc.group import ObjectMap
    many, sources, kind, seed, ops, rebound, outer = case
    names = list(sources)
    real = {}
    model = {}
    for n, (sk, vals, pre) in sources.items():
        real[n] = make_source(sk, vals)
        model[n] = Stream(vals)
        for _ in range(pre):
            real[n]()           # used before: must start over all the same

    def make(kind):
        probe = Probe()
        fn = (funcs.make_many(kind, names, probe) if many
              else funcs.make_one(kind, probe))
        return fn, probe

    def bound_elsewhere(fn):
        """The wrapper of another emitter, to be bound to this one."""
        obs.tag('rebound')
        if many:
            other = WrapMany({n: make_source('seq', [1]) for n in names}, fn,
                             rng_seed=77)
        else:
            other = WrapOne(make_source('seq', [1]), fn, rng_seed=77)
        return other.wrapper
    fn, probe = make(kind)
    first = bound_elsewhere(fn) if rebound else fn
    if many:
        # the caller's mapping, which the caller goes on using for something else
        given = {'map': ObjectMap}.get(outer, dict)(real)
        em = forms.make(WrapMany, sources=MappingProxyType(given) if outer == 'proxy'
                        else given, wrapper=first, rng_seed=seed)
        if outer != 'same':
            for n in names[:2]:
                given[n] = None
            given['another'] = make_source('seq', ['of another'])
            if len(names) > 2:
                del given[names[2]]
            obs.tag('the mapping given is changed afterwards')
        mine = list(given.items())
    else:
        em = forms.make(WrapOne, source=real['v'], wrapper=first, rng_seed=seed)
    eq(len(probe.calls), 0, 'calls of the function while it is set')
    emitted = 0
    draws = Draws(seed)
    obs.tag('WrapMany' if many else 'WrapOne', 'function ' + kind)

    def restart():
        for m in model.values():
            m.reset()

    def take():
        return {n: m.one() for n, m in model.items()}

    def verify(got, before, what):
        wants_rng = kind.startswith('rng')
        draws.add(probe.draws[before:], what)
        eq(len(probe.calls) - before, len(got), what + ': calls of the function')
        for j, g in enumerate(got):
            values, rng = probe.calls[before + j]
            want = take()
            eq(values, want, '%s: arguments of call %d' % (what, j))
            if wants_rng:
                req(rng is em.rng, '%s: the function got %r as rng, not the rng of the '
                    'wrapper', what, rng)
            else:
                req(rng is NO_RNG, '%s: unexpected rng %r', what, rng)
            req(type(g) is tuple and g[:3] == (
                'made', before + j + 1, sorted(want.items(), key=lambda kv: kv[0])),
                '%s: value %d is %.300r for %r', what, j, g, want)
    for i, op in enumerate(ops):
        what = 'op %d %r (%s)' % (i, op, kind)
        before = len(probe.calls)
        if op[0] == 'one':
            verify([forms.ask(em)], before, what)
            emitted += 1
        elif op[0] == 'many':
            got = forms.ask(em, op[1])
            req(type(got) is list and len(got) == op[1], '%s: got %.300r', what, got)
            verify(got, before, what)
            emitted += op[1]
        elif op[0] == 'reset':
            em.reset()
            restart()
            draws.restart(em.rng_seed)
            eq(len(probe.calls), before, what + ': calls of the function')
        elif op[0] == 'swap' and names:
            # another source in the place of one, through the public map
            n = names[op[1] % len(names)]
            label, = [k for k, v in em.emitters.items() if v is real[n]]
            em.emitters[label] = real[n] = make_source(op[2], op[3])
            model[n] = Stream(op[3])
            obs.tag('swapped')
        elif op[0] in ('more', 'fewer'):
            # sources added and removed through the public map
            if op[0] == 'more':
                em.emitters[op[1]] = real[op[1]] = make_source(op[2], op[3])
                model[op[1]] = Stream(op[3])
            elif names:
                gone = names[op[1] % len(names)]
                em.emitters.pop(gone)
                del real[gone], model[gone]
            names = list(real)
            if kind not in ('varkw', 'rngvarkw') or len(ops) % 2:
                # a function that takes the new names
                kind = op[-1]
                fn, probe = make(kind)
                em.set_wrapper_function(fn)
                eq(len(probe.calls), 0, what + ': calls of the function while setting it')
                restart()
                draws.restart(None)
            obs.tag('sources added or removed')
        elif op[0] == 'seed':
            em.seed(op[1])
            eq(em.rng.random(), random.Random(op[1]).random(), what + ': rng is seeded')
            em.seed(op[1])
            draws.restart(op[1])
            eq(len(probe.calls), before, what + ': calls of the function')
        elif op[0] == 'error':
            _, after, name, single = op
            exc = ERRORS[name]('raised by the function')
            probe.fail = (0 if single else after, exc)
            try:
                forms.ask(em, None if single else after + 2)
            except BaseException as e:
                req(e is exc, '%s: the function raised %r, the caller got %r',
                    what, exc, e)
            else:
                raise Violation('%s: the error did not reach the caller' % what)
            probe.fail = None
            em.reset()
            restart()
            draws.restart(em.rng_seed)
            obs.tag('error')
        elif op[0] == 'set':
            kind = op[1]
            fn, probe = make(kind)
            if op[2] == 'function':
                em.set_wrapper_function(fn)
            elif op[2] == 'wrapper':
                em.wrapper = BoundWrapper(fn, em)
            elif op[2] == 'in place':
                em.wrapper.function = fn
                obs.tag('function replaced in place')
            else:
                other = bound_elsewhere(fn)
                if op[2] == 'rebound':
                    em.set_wrapper_function(other)
                else:
                    em.wrapper = BoundWrapper(other, em)
            eq(len(probe.calls), 0, what + ': calls of the function while setting it')
            if op[2] != 'in place':
                restart()
                draws.restart(None)
            obs.tag('new wrapper')
            req(em.wrapper.function is fn or kind in ('method', 'rngmethod') and
                em.wrapper.function == fn, '%s: wrapper.function is %r', what,
                em.wrapper.function)
            req(em.wrapper.bound_to is em, '%s: bound to %r', what, em.wrapper.bound_to)
            eq(bool(em.wrapper.wants_rng), kind.startswith('rng'), what + ': wants_rng')
    if many:
        req(list(given) == [k for k, _ in mine] and all(given[k] is v for k, v in mine),
            'the mapping given has become %r', given)
    obs.interesting(emitted > 1)


@st.composite
def builtin_cases(draw):
    fn = draw(st.sampled_from(['str', 'int', 'float', 'bool', 'repr', 'abs', 'list',
                               'tuple', 'dict', 'type', 'frozenset', 'str.upper', 'len',
                               'bytes.fromhex', 'complex', 'hash']))
    if fn in ('list', 'tuple', 'frozenset', 'len', 'str.upper'):
        vals = draw(st.lists(st.text('abc', max_size=3), min_size=1, max_size=6))
    elif fn == 'bytes.fromhex':
        vals = draw(st.lists(st.sampled_from(['00', 'ff', '']), min_size=1, max_size=4))
    elif fn == 'dict':
        vals = draw(st.lists(st.integers(0, 9), min_size=1, max_size=5))
    else:
        vals = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=6))
    calls = draw(st.lists(st.one_of(st.none(), st.integers(0, 5)), min_size=1, max_size=6))
    return fn, draw(st.sampled_from(SOURCE_KINDS)), vals, calls, draw(st.sampled_from(
        [None, None, 'set', 'in place', 'set after rng', 'in place after rng']))


def check_builtin(case, obs):
    """Functions whose signature may be unknown still work."""
    from fauxdoc.emitters.wrappers import WrapMany, WrapOne
    name, sk, vals, calls, later = case
    if '.' in name:
        owner, attr = name.split('.')
        fn = getattr({'str': str, 'bytes': bytes}[owner], attr)
    else:
        fn = __builtins__[name] if isinstance(__builtins__, dict) else getattr(
            __builtins__, name)
    m = Stream(vals)
    src = make_source(sk, vals)
    many = name == 'dict'
    if not later:
        first = fn
    elif 'rng' in later:
        first = (lambda rng, **k: rng.random()) if many else (lambda v, rng: rng.random())
    else:
        first = (lambda **k: None) if many else (lambda v: None)
    if many:
        em = WrapMany({'a': src, 'b': make_source(sk, vals)}, first)
    else:
        em = WrapOne(src, first)
    if later:
        em()
        if later.startswith('set'):
            em.set_wrapper_function(fn)
        else:
            em.wrapper.function = fn
            m.one()
    for c in calls:
        k = 1 if c is None else c
        got = forms.values(em, c)
        ins = m.many(k)
        want = [dict(a=v, b=v) if name == 'dict' else fn(v) for v in ins]
        eq(got, want, '%s of %r' % (name, ins))
        eq([type(g) for g in got], [type(w) for w in want], '%s of %r: types' % (name, ins))
    obs.interesting(len(calls) > 1)
    obs.tag(name)


@st.composite
def refuse_cases(draw):
    many = draw(st.booleans())
    if many:
        return (True, draw(name_sets(1, False)), draw(st.sampled_from(funcs.MANY_BAD)),
                draw(st.booleans()))
    return False, ['v'], draw(st.sampled_from(funcs.ONE_BAD)), draw(st.booleans())


def check_refuse(case, obs):
    from fauxdoc.emitters.wrappers import BoundWrapper, WrapMany, WrapOne
    many, names, kind, later = case
    fn = funcs.many_bad(kind, names) if many else funcs.one_bad(kind)
    srcs = {n: make_source('seq', [1, 2, 3]) for n in names}
    what = '%s function for %r' % (kind, names)
    if not later:
        if many:
            raises(TypeError, what, WrapMany, srcs, fn)
        else:
            raises(TypeError, what, WrapOne, srcs['v'], fn)
    else:
        if many:
            em = WrapMany(srcs, lambda **kw: kw)
        else:
            em = WrapOne(srcs['v'], lambda v: v)
        raises(TypeError, what, em.set_wrapper_function, fn)
        raises(TypeError, what, setattr, em, 'wrapper', BoundWrapper(fn, em))
        # a suitable one can still be set
        if many:
            em.set_wrapper_function(lambda **kw: kw)
            eq(em(), {n: 1 for n in names}, 'first value afterwards')
        else:
            em.set_wrapper_function(lambda v: v)
            eq(em(), 1, 'first value afterwards')
    obs.interesting()
    obs.tag(kind)


@st.composite
def limited_cases(draw):
    many = draw(st.booleans())
    names = draw(name_sets(1, False)) if many else ['v']
    sources = {n: (draw(st.sampled_from(['norep', 'norep', 'roac', 'feed'])),
                   draw(st.integers(1, 6)), draw(st.integers(0, 7))) for n in names}
    p, r = ((funcs.MANY_PLAIN, funcs.MANY_RNG) if many
            else (funcs.ONE_PLAIN, funcs.ONE_RNG))
    steps = draw(st.lists(st.tuples(
        st.integers(0, 7), st.booleans(), st.sampled_from(['good', 'good', 'wrapper', 'bad']),
        st.sampled_from(p + r)), min_size=1, max_size=4))
    return many, sources, draw(st.sampled_from(p + r)), \
        draw(st.one_of(st.none(), st.integers(0, 9))), steps


def check_limited(case, obs):
    """Sources that run out: new wrappers start over, however little is left."""
    from fauxdoc.emitters import Choice, WrapMany, WrapOne
    from fauxdoc.emitters.wrappers import BoundWrapper
    many, sources, kind, seed, steps = case
    names = list(sources)
    real = {}
    for n, (sk, size, used) in sources.items():
        items = ['%s%d' % (n, i) for i in range(size)]
        real[n] = (make_source('feed', items) if sk == 'feed' else Choice(
            items, replace_only_after_call=sk == 'roac', replace=sk == 'roac'))
        real[n](min(used, size))
    limit = min([size for sk, size, _ in sources.values() if sk != 'feed'], default=9)
    endless = all(sk != 'norep' for sk, _, _ in sources.values())

    def make(kind):
        probe = Probe()
        return (funcs.make_many(kind, names, probe) if many
                else funcs.make_one(kind, probe)), probe
    fn, probe = make(kind)
    em = WrapMany(real, fn, rng_seed=seed) if many else WrapOne(real['v'], fn,
                                                                rng_seed=seed)
    left = limit

    def verify(n, what):
        got = forms.ask(em, n)
        req(type(got) is list and len(got) == n, '%s: got %.300r', what, got)
        for name, (sk, size, _) in sources.items():
            vals = [dict(g[2])[name] for g in got]
            req(set(vals) <= {'%s%d' % (name, i) for i in range(size)},
                '%s: source %s gave %r', what, name, vals)
            if sk != 'feed':
                req(len(set(vals)) == len(vals), '%s: source %s gave %r', what, name, vals)
            elif left == limit:
                eq(vals, ['%s%d' % (name, i % size) for i in range(n)],
                   '%s: source %s' % (what, name))
    for i, (n, empty, how, kind) in enumerate(steps):
        what = 'step %d %r' % (i, steps[i])
        n = min(n, left)
        if empty:
            n = left
        verify(n, what)
        if not endless:
            left -= n
        if left == 0:
            obs.tag('used up')
        if how == 'bad':
            fn = (funcs.many_bad('extra', names) if many else funcs.one_bad('none'))
            raises(TypeError, what, em.set_wrapper_function, fn)
            how = 'good'
        fn, probe = make(kind)
        if how == 'good':
            em.set_wrapper_function(fn)
        else:
            em.wrapper = BoundWrapper(fn, em)
        eq(len(probe.calls), 0, what + ': calls of the function while it is set')
        left = limit
        for name, (sk, size, _) in sources.items():
            if sk == 'norep':
                eq(real[name].num_unique_items, size, '%s: items left in %s' % (what, name))
    verify(left, 'at the end')
    obs.interesting(not endless)


SUBS = [
    Sub('limited', limited_cases, check_limited, 800),
    Sub('calls', cases, check, 5200),
    Sub('builtins', builtin_cases, check_builtin, 800),
    Sub('refused', refuse_cases, check_refuse, 600),
    Sub('big', bigdocs.wrap_cases, bigdocs.check_wrap, 300, 4800),
]
