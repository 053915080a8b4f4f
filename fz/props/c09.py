import math
from collections import Counter

from hypothesis import strategies as st

from .. import forms, gen
from ..core import Sub, Violation, eq, req
from ..stats import check_freq

PROP = 'C09'
RULE = ('Random x (0..100000), mu, sigma, weight floors, sequence lengths (1..600), '
        'options and chances, compared with the textbook formulas evaluated in '
        'logarithms. Non-trivial: every function case with x > 0, every factory case '
        'with more than one item.')
ASSUMPTIONS = ['probabilities are compared to a relative 1e-7, and below 1e-300 (times the '
               'largest density, if that is above 1) only as being next to nothing '
               '(floating-point underflow)']


def ref_poisson(x, mu):
    if mu == 0:
        return 1.0 if x == 0 else 0.0
    return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))


def ref_gaussian(x, mu, sigma):
    z = (x - mu) / sigma
    if abs(z) > 1e100:
        return 0.0
    return math.exp(-z * z / 2) / (sigma * math.sqrt(2 * math.pi))


def close(got, want, what, peak=1.0):
    req(isinstance(got, (int, float)) and not isinstance(got, bool),
        '%s: %r is not a number', what, got)
    least = 1e-300 * max(1.0, peak)
    if want < least:
        ok = 0 <= got < 1.001 * least
    else:
        ok = abs(got - want) <= 1e-7 * want
    req(ok, '%s: got %r, expected %r', what, got, want)


mus = st.one_of(st.integers(0, 30), st.integers(0, 1000),
                st.floats(0.001, 50, allow_nan=False), st.floats(0.001, 900),
                st.one_of(st.floats(700, 1500), st.integers(700, 20000), st.floats(1e-9, 1e5)))
poisson_cases = st.tuples(
    st.one_of(st.integers(0, 40), st.integers(100, 220), st.integers(0, 3000),
              st.integers(0, 100000)),
    st.one_of(st.none(), mus))


def check_poisson(case, obs):
    from fauxdoc.mathtools import poisson
    x, mu = case
    if mu is None:
        close(poisson(x), ref_poisson(x, 1), 'poisson(%r)' % x)
    else:
        close(poisson(x, mu), ref_poisson(x, mu), 'poisson(%r, %r)' % (x, mu))
        close(poisson(x=x, mu=mu), ref_poisson(x, mu), 'poisson(x=%r, mu=%r)' % (x, mu))
    obs.interesting(x > 0)
    obs.tag('x>=171' if x >= 171 else 'x<171', 'mu>=700' if (mu or 1) >= 700 else 'mu<700')


nums = st.one_of(st.integers(-20, 20), st.floats(-100, 100), st.integers(-10 ** 9, 10 ** 9),
                 st.floats(-1e300, 1e300))
gaussian_cases = st.tuples(nums, st.one_of(st.none(), nums),
                           st.one_of(st.none(), st.integers(1, 50), st.floats(0.01, 100),
                                     st.sampled_from([1e-200, 1e-9, 1e9])))


def check_gaussian(case, obs):
    from fauxdoc.mathtools import gaussian
    x, mu, sigma = case
    kw = {}
    if mu is not None:
        kw['mu'] = mu
    if sigma is not None:
        kw['sigma'] = sigma
    m, s = 0 if mu is None else mu, 1 if sigma is None else sigma
    what = 'gaussian(%r, %r)' % (x, kw)
    got = gaussian(x, **kw)
    want = ref_gaussian(x, m, s)
    close(got, want, what, 1 / s)
    if mu is not None and sigma is not None:
        close(gaussian(x, mu, sigma), want, what + ' positional', 1 / s)
    obs.interesting()
    obs.tag('overflowing square' if abs((x - m) / s) > 1e154 else 'ordinary',
            'underflow' if want < 1e-300 * max(1, 1 / s) else 'positive')


@st.composite
def factory_cases(draw):
    kind = draw(st.sampled_from(['poisson', 'gaussian']))
    n = draw(st.one_of(st.integers(1, 30), st.sampled_from([170, 171, 172, 200, 400, 600])))
    floor = draw(st.one_of(st.none(), st.sampled_from([0, 0.001, 0.05, 0.1, 0.5, 1, 2, 1e-5])))
    if kind == 'poisson':
        args = {'mu': draw(st.one_of(st.integers(1, 12), st.floats(0.1, 20), st.integers(20, 200),
                                    st.integers(500, 1500)))}
    else:
        args = {'mu': draw(st.one_of(st.integers(-3, 30), st.floats(-5, 30))),
                'sigma': draw(st.one_of(st.integers(1, 9), st.floats(0.5, 20)))}
    for k in list(args):
        if draw(st.integers(0, 4)) == 0:
            del args[k]
    if floor is not None:
        args['weight_floor'] = floor
    opts = {}
    mode = draw(st.sampled_from(['', 'norep', 'roac', 'both']))
    if mode in ('norep', 'both'):
        opts['replace'] = False
    if mode in ('roac', 'both'):
        opts['replace_only_after_call'] = True
    if draw(st.booleans()):
        opts['noun'] = draw(st.sampled_from(['thing', 'word']))
    opts['rng_seed'] = draw(gen.int_seeds)
    return {'kind': kind, 'n': n, 'args': args, 'opts': opts,
            'items': draw(st.sampled_from(['range', 'list', 'tuple', 'str', 'zero-range'])),
            'ops': draw(st.lists(st.one_of(st.none(), st.integers(0, min(n, 6))), max_size=4)),
            'positional': draw(st.booleans())}


@st.composite
def big_cases(draw):
    case = draw(factory_cases())
    n = draw(gen.big(5000))
    args = dict(case['args'])
    if case['kind'] == 'poisson':
        args['mu'] = draw(st.one_of(st.integers(1, n), st.floats(0.5, 1500)))
    else:
        args['mu'] = draw(st.one_of(st.integers(1, n), st.floats(-5, n)))
        args['sigma'] = draw(st.one_of(st.integers(1, n), st.floats(0.5, n)))
    count = st.one_of(st.none(), st.integers(0, 6), st.integers(0, n), st.just(n),
                      st.just(n // 2))
    return dict(case, n=n, args=args, ops=draw(st.lists(count, max_size=3)))


def check_factory(case, obs):
    from fauxdoc.emitters import Choice, gaussian_choice, poisson_choice
    n, kind, args, opts = case['n'], case['kind'], case['args'], case['opts']
    items = {'range': range(1, n + 1), 'zero-range': range(0, n),
             'list': ['i%d' % i for i in range(n)],
             'tuple': tuple(range(100, 100 + n)),
             'str': ''.join(chr(0x4e00 + i) for i in range(n))}[case['items']]
    fn = poisson_choice if kind == 'poisson' else gaussian_choice
    order = ['mu', 'weight_floor'] if kind == 'poisson' else ['mu', 'sigma', 'weight_floor']
    floor = args.get('weight_floor', 0)
    if kind == 'poisson':
        want = [max(ref_poisson(x, args.get('mu', 1)), floor) for x in range(1, n + 1)]
    else:
        want = [max(ref_gaussian(x, args.get('mu', 0), args.get('sigma', 1)), floor)
                for x in range(1, n + 1)]
    if not max(want) > 1e-295:
        obs.tag('all weights vanish')
        return
    if case['positional'] and all(k in args for k in order):
        em = fn(items, *[args[k] for k in order], **opts)
    else:
        em = forms.make(fn, items=items, **args, **opts)
    what = '%s_choice(%d items, %r, %r)' % (kind, n, args, opts)
    eq(list(em.items), list(items), what + ' items')
    req(em.weights is not None and len(em.weights) == n, '%s weights: %r', what, em.weights)
    for i, (g, w) in enumerate(zip(em.weights, want)):
        close(g, w, '%s: weight at position %d' % (what, i + 1))
    roac = opts.get('replace_only_after_call', False)
    eq(bool(em.replace), opts.get('replace', True) or roac, what + ' replace')
    eq(bool(em.replace_only_after_call), roac, what + ' replace_only_after_call')
    eq(em.noun, opts.get('noun', ''), what + ' noun')
    ref = Choice(items, weights=list(em.weights), replace=opts.get('replace', True),
                 replace_only_after_call=roac, rng_seed=opts['rng_seed'])
    left = n
    for op in case['ops']:
        need = 1 if op is None else op
        if not em.replace:
            if need > left:
                continue
            left -= need
        eq(em(op), ref(op), what + ': output compared with Choice given these weights')
    obs.interesting(n > 1)
    obs.tag(kind, 'floored' if any(w == floor for w in want) and floor else 'no floor',
            'long' if n > 170 else 'short')


chance_cases = st.tuples(
    st.one_of(st.sampled_from([0, 1, 0.0, 1.0, -1, 2, -0.25, 1.5, 0.5, 0.1, 0.9, 1e-12,
                               -1e-9, 1.0000001, 100, -100]),
              st.floats(0, 1), st.floats(-2, 3)),
    gen.int_seeds, st.sampled_from(['single', 'list', 'mixed', 'one-lists']))


def check_chance(case, obs):
    from fauxdoc.emitters import chance
    p, seed, shape = case
    em = forms.make(chance, chance=p, rng_seed=seed)
    total = 3000
    if shape == 'single':
        got = [em() for _ in range(total)]
    elif shape == 'list':
        total = 8000
        got = em(total)
    elif shape == 'one-lists':
        got = [em(1)[0] for _ in range(total)]
    else:
        got = []
        while len(got) < total:
            got.append(em())
            got.extend(em(7))
        total = len(got)
    for v in got:
        if type(v) is not bool:
            raise Violation('chance(%r) emitted %r' % (p, v))
    q = min(1.0, max(0.0, p))
    check_freq(Counter(got), {True: q, False: 1 - q}, total, 'chance(%r)' % p)
    obs.interesting()
    obs.tag('never' if p <= 0 else 'always' if p >= 1 else 'sometimes')


@st.composite
def slight_cases(draw):
    p = 10.0 ** -draw(st.floats(3, 5))
    return draw(st.sampled_from([p, p, 1 - p])), draw(gen.int_seeds), draw(st.sampled_from(
        ['list', 'list', 'lists', 'single']))


def check_slight(case, obs):
    """Chances so small, or so large, that only very many draws show them."""
    from fauxdoc.emitters import chance
    p, seed, shape = case
    em = chance(p, rng_seed=seed)
    total = 250000 if shape == 'single' else 2000000
    if shape == 'single':
        yes = sum(em() for _ in range(total))
    elif shape == 'list':
        yes = sum(em(total))
    else:
        yes = sum(sum(em(1000)) for _ in range(total // 1000))
    check_freq({True: yes, False: total - yes}, {True: p, False: 1 - p}, total,
               'chance(%r)' % p)
    obs.interesting()


SUBS = [
    Sub('slight', slight_cases, check_slight, 32, 400),
    Sub('poisson', poisson_cases, check_poisson, 2400),
    Sub('gaussian', gaussian_cases, check_gaussian, 2400),
    Sub('factories', factory_cases, check_factory, 2000),
    Sub('big', big_cases, check_factory, 120, 1920),
    Sub('chance', chance_cases, check_chance, 480, 4000),
]
