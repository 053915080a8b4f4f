import random
from collections import Counter

from hypothesis import strategies as st

from .. import gen
from ..core import Sub, Violation, eq, req
from ..stats import check_freq, plackett_luce_orders, plackett_luce_pairs

PROP = 'C08'
RULE = ('Random weight vectors, ways of setting them, call shapes and seeds; 4000-20000 '
        'draws per case are compared with the exact probabilities by Chernoff bounds '
        '(replacement: per item; without replacement: per ordered pair and per complete '
        'ordered draw, from 1500-6000 draws). Relabelling cases compare two emitters over '
        'different values, same weights and seed, draw by draw. Non-trivial: at least two '
        'items with positive weight.')
ASSUMPTIONS = ['each frequency cell raises a false alarm with probability below 6e-12 '
               'on a correct sampler; runs are a function of VERIF_SEED']

wval = st.sampled_from([0, 1, 1, 2, 3, 5, 10, 0.5, 0.25])


@st.composite
def rep_cases(draw):
    n = draw(st.one_of(st.integers(2, 6), st.sampled_from([20, 33, 64])))
    weights = None
    if draw(st.integers(0, 4)):
        if n > 6:
            pat = draw(st.lists(wval, min_size=3, max_size=6))
            weights = [pat[i % len(pat)] for i in range(n)]
        else:
            weights = draw(st.lists(wval, min_size=n, max_size=n))
        if not any(weights):
            weights[-1] = 1
        # exact powers of two keep derived cumulative weights exact
        scale = draw(st.sampled_from([1, 1, 1, 2 ** -30, 2 ** 30, 0.25]))
        if scale != 1:
            weights = [w * scale for w in weights]
    return {'n': n, 'weights': weights,
            'given': draw(st.sampled_from(['weights', 'cum', 'set-weights', 'set-cum',
                                           'reset-to', 'roac', 'was-norep'])),
            'shape': draw(st.sampled_from(['single', 'one-lists', 'list', 'lists'])),
            'size': draw(st.integers(2, 20)), 'seed': draw(gen.int_seeds)}


def make(case, replace=True, roac=False):
    from fauxdoc.emitters import Choice
    n, w, given = case['n'], case['weights'], case['given']
    kw = {'rng_seed': case['seed'], 'replace': replace, 'replace_only_after_call': roac}
    items = range(n)
    if w is None:
        if given == 'reset-to':
            em = Choice(items, weights=[1] + [0] * (n - 1), **kw)
            em.weights = None
            return em
        return Choice(items, **kw)
    if given == 'cum':
        return Choice(items, cum_weights=gen.cum(w), **kw)
    if given == 'set-weights':
        em = Choice(items, **kw)
        em.weights = w
        return em
    if given == 'set-cum':
        em = Choice(items, weights=[1] * n, **kw)
        em.cum_weights = gen.cum(w)
        return em
    if given == 'reset-to':
        em = Choice(items, cum_weights=list(range(1, n + 1)), **kw)
        em()
        em.cum_weights = None
        em.weights = w
        return em
    return Choice(items, weights=w, **kw)


def check_rep(case, obs):
    given, shape = case['given'], case['shape']
    if given == 'was-norep':
        em = make(case, replace=False)
        em()
        em.replace = True
    elif given == 'roac' and shape in ('single', 'one-lists'):
        em = make(case, roac=True)
    else:
        em = make(case)
    w = case['weights'] or [1] * case['n']
    probs = {i: x / sum(w) for i, x in enumerate(w)}
    if shape == 'single':
        total = 5000
        got = [em() for _ in range(total)]
    elif shape == 'one-lists':
        total = 5000
        got = [em(1)[0] for _ in range(total)]
    elif shape == 'list':
        total = 20000
        got = em(total)
    else:
        got = []
        while len(got) < 10000:
            got.extend(em(case['size']))
        total = len(got)
    check_freq(Counter(got), probs, total, '%s/%s' % (given, shape))
    if case['n'] <= 8:
        # consecutive draws are independent
        pairs = Counter(zip(got[::2], got[1::2]))
        check_freq(pairs, {(i, j): probs[i] * probs[j] for i in probs for j in probs},
                   len(got) // 2, 'consecutive draws, %s/%s' % (given, shape))
    obs.interesting(sum(1 for x in w if x) > 1)
    obs.tag(given, shape, 'weighted' if case['weights'] else 'unweighted')


@st.composite
def norep_cases(draw):
    n = draw(st.integers(2, 5))
    weights = None
    if draw(st.integers(0, 4)):
        weights = draw(st.lists(wval, min_size=n, max_size=n))
        if not any(weights):
            weights[0] = 1
    mode = draw(st.sampled_from(['norep', 'norep', 'norep-single', 'roac', 'roac',
                                 'shuffle']))
    return {'n': n, 'weights': weights, 'mode': mode,
            'given': draw(st.sampled_from(['weights', 'cum', 'set-weights', 'set-cum',
                                           'reset-to'])),
            'k': draw(st.integers(2, n)), 'seed': draw(st.integers(0, 2 ** 40)),
            'how': draw(st.sampled_from(['new', 'seed', 'reset', 'switch']))}


def check_norep(case, obs):
    n, mode, k = case['n'], case['mode'], case['k']
    w = case['weights'] or [1] * n
    npos = sum(1 for x in w if x)
    k = min(k, npos)
    total = 1500 if mode != 'roac' else 4000
    draws = []
    if mode == 'roac':
        if k < 2:
            return
        em = make(case, roac=True)
        draws = [tuple(em(k)) for _ in range(total)]
    elif mode == 'shuffle':
        from fauxdoc.mathtools import weighted_shuffle
        rng = random.Random(case['seed'])
        total = 4000
        draws = [tuple(weighted_shuffle(range(n), w, rng, k)) for _ in range(total)]
    else:
        how = case['how']
        em = make(case, replace=False) if how != 'new' else None
        rng = random.Random(case['seed'])
        for s in range(total):
            if how == 'new':
                em = make(dict(case, seed=case['seed'] + s), replace=False)
            elif how == 'seed':
                em.seed(case['seed'] + s)
            elif how == 'reset':
                em.rng_seed = case['seed'] + s
                em.reset()
            else:
                em.seed(case['seed'] + s)
                em.replace = True
                em(2)
                em.replace = False
            if mode == 'norep-single':
                draws.append(tuple(em() for _ in range(k)))
            else:
                draws.append(tuple(em(k)))
    check_freq(Counter(draws), plackett_luce_orders(w, k), total,
               '%s draws of %d from weights %r' % (mode, k, w))
    obs.interesting(npos > 1)
    obs.tag(mode, 'weighted' if case['weights'] else 'unweighted')


@st.composite
def big_cases(draw):
    n = draw(st.sampled_from([8, 12, 20, 30, 50]))
    frac = draw(st.sampled_from([0.1, 0.25, 0.4, 0.45, 0.7, 1.0]))
    return {'n': n, 'k': max(2, int(n * frac)),
            'pat': draw(st.lists(st.sampled_from([1, 2, 5, 10, 0]), min_size=2,
                                 max_size=4).filter(any)),
            'weighted': draw(st.integers(0, 3)) > 0, 'seed': draw(gen.int_seeds),
            'mode': draw(st.sampled_from(['roac', 'shuffle', 'norep']))}


def check_big(case, obs):
    """Larger sequences: marginals of the first two draws for every size k."""
    from fauxdoc.emitters import Choice
    from fauxdoc.mathtools import weighted_shuffle
    n, k = case['n'], case['k']
    w = [case['pat'][i % len(case['pat'])] for i in range(n)] if case['weighted'] \
        else [1] * n
    k = min(k, sum(1 for x in w if x))
    if k < 2:
        return
    total = 3000
    weights = w if case['weighted'] else None
    if case['mode'] == 'roac':
        em = Choice(range(n), weights=weights, replace_only_after_call=True,
                    rng_seed=case['seed'])
        draws = [em(k) for _ in range(total)]
    elif case['mode'] == 'norep':
        em = Choice(range(n), weights=weights, replace=False, rng_seed=case['seed'])
        draws = []
        for s in range(total):
            em.seed(case['seed'] + s)
            draws.append(em(k))
    else:
        rng = random.Random(case['seed'])
        draws = [weighted_shuffle(range(n), w, rng, k) for _ in range(total)]
    tot = sum(w)
    first = {i: x / tot for i, x in enumerate(w)}
    check_freq(Counter(d[0] for d in draws), first, total,
               'first of %d' % k)
    pairs = plackett_luce_pairs(w)
    second = Counter()
    for (i, j), p in pairs.items():
        second[j] += p
    check_freq(Counter(d[1] for d in draws), second, total, 'second of %d' % k)
    if len(set(w)) == 1:
        # with equal weights every position of the list is uniform
        last = {i: 1 / n for i in range(n)}
        check_freq(Counter(d[-1] for d in draws), last, total, 'last of %d' % k)
    obs.interesting()
    obs.tag(case['mode'], 'weighted' if case['weighted'] else 'unweighted',
            'k/n=%.1f' % (k / n))


@st.composite
def position_cases(draw):
    n = draw(st.integers(2, 4))
    return {'n': n, 'weights': draw(st.one_of(
                st.none(), st.just([1] * n), st.just([3] * n),
                st.lists(st.sampled_from([1, 2, 3, 5, 0.5, 10]), min_size=n, max_size=n))),
            'k': draw(st.integers(2, n)), 'seed': draw(st.integers(0, 2 ** 40)),
            'mode': draw(st.sampled_from(['roac', 'shuffle', 'shuffle-all', 'norep'])),
            'given': draw(st.sampled_from(['weights', 'cum', 'set-weights', 'reset-to'])),
            'between': draw(st.booleans())}


def check_positions(case, obs):
    """Many more draws: small biases of an order or of one position."""
    from fauxdoc.mathtools import weighted_shuffle
    n, k, mode = case['n'], case['k'], case['mode']
    w = case['weights'] or [1] * n
    total = 40000
    if mode == 'roac':
        em = make(case, roac=True)
        draws = []
        for i in range(total):
            if case['between'] and i % 5 == 0:
                em()
            draws.append(tuple(em(k)))
    elif mode == 'norep':
        em = make(case, replace=False)
        draws, total = [], 25000
        for i in range(total):
            em.seed(case['seed'] + i)
            if case['between']:
                em.reset()
            draws.append(tuple(em(k)))
    else:
        rng = random.Random(case['seed'])
        if mode == 'shuffle-all':
            k = n
            draws = [tuple(weighted_shuffle(range(n), w, rng)) for _ in range(total)]
        else:
            draws = [tuple(weighted_shuffle(range(n), w, rng, k)) for _ in range(total)]
    orders = plackett_luce_orders(w, k)
    what = '%s of %d from weights %r' % (mode, k, w)
    check_freq(Counter(draws), orders, total, what)
    for pos in range(k):
        marg = Counter()
        for o, p in orders.items():
            marg[o[pos]] += p
        check_freq(Counter(d[pos] for d in draws), marg, total,
                   '%s, position %d' % (what, pos))
    first, last = Counter(), Counter()
    for o, p in orders.items():
        first[o[0]] += p
        last[o[-1]] += p
    # what one call draws has no influence on the next call
    for name, margin, at in (('last', last, -1), ('first', first, 0)):
        pairs = Counter((a[at], b[0]) for a, b in zip(draws[::2], draws[1::2]))
        check_freq(pairs, {(i, j): p * q for i, p in margin.items() for j, q in
                           first.items()}, total // 2,
                   '%s: %s item of a call and first of the next' % (what, name))
    obs.interesting()
    obs.tag(mode, 'weighted' if case['weights'] else 'unweighted')


@st.composite
def group_cases(draw):
    n = draw(st.one_of(st.sampled_from([64, 65, 100, 128, 200, 256, 257, 300, 500, 512, 513,
                                        1000, 1024]), st.integers(60, 1500)))
    return {'n': n, 'weights': draw(st.one_of(st.none(), st.lists(
                st.sampled_from([0, 1, 2, 5, 10, 0.5, 100]), min_size=1,
                max_size=9).filter(any))),
            'shape': draw(st.sampled_from(['cycle', 'runs', 'rising', 'falling'])),
            'mode': draw(st.sampled_from(['rep', 'rep-single', 'roac', 'roac', 'shuffle',
                                          'norep'])),
            'given': draw(st.sampled_from(['weights', 'cum', 'set-weights', 'set-cum',
                                           'reset-to'])),
            'frac': draw(st.sampled_from([0.02, 0.1, 0.3, 0.41, 0.43, 0.6, 1.0])),
            'seed': draw(st.integers(0, 2 ** 40))}


def check_groups(case, obs):
    """Long sequences: shares of a sixteenth of the items each, and of single ones."""
    from fauxdoc.mathtools import weighted_shuffle
    n, mode = case['n'], case['mode']
    w = case['weights']
    if w is not None:
        if case['shape'] == 'cycle':
            w = [w[i % len(w)] for i in range(n)]
        elif case['shape'] == 'runs':
            w = [w[i * len(w) // n] for i in range(n)]
        else:
            w = list(range(1, n + 1))
            if case['shape'] == 'falling':
                w.reverse()
        if not any(w):
            w[0] = 1
    spec = dict(case, weights=w)
    w = w or [1] * n
    npos = sum(1 for x in w if x)
    k = max(1, min(int(n * case['frac']), npos))
    if mode.startswith('rep'):
        total = 20000
        em = make(spec)
        got = em(total) if mode == 'rep' else [em() for _ in range(total)]
        firsts, ends = got, None
    else:
        total = max(200, min(4000, 150000 // (k if k < n * .42 or mode != 'roac' else n)))
        if mode == 'roac':
            em = make(spec, roac=True)
            draws = [em(max(k, 2)) for _ in range(total)]
        elif mode == 'shuffle':
            rng = random.Random(case['seed'])
            draws = [weighted_shuffle(range(n), w, rng, k) for _ in range(total // 4)]
        else:
            em = make(spec, replace=False)
            draws = []
            for i in range(total // 8):
                em.seed(case['seed'] + i)
                draws.append(em(k))
        total = len(draws)
        firsts = [d[0] for d in draws]
        ends = [d[-1] for d in draws] if len(set(w)) == 1 else None
    tot = sum(w)
    what = '%s of %d items, %s' % (mode, n, case['given'])
    group = [i * 16 // n for i in range(n)]
    share = Counter()
    for i, x in enumerate(w):
        share[group[i]] += x / tot
    check_freq(Counter(group[i] for i in firsts), share, total, what + ' (sixteenths)')
    mod = Counter()
    for i, x in enumerate(w):
        mod[i % 7] += x / tot
    check_freq(Counter(i % 7 for i in firsts), mod, total, what + ' (every seventh)')
    single = {i: x / tot for i, x in enumerate(w)}
    check_freq(Counter(firsts), single, total, what + ' (items)')
    if ends is not None:
        check_freq(Counter(group[i] for i in ends), share, total, what + ' (last of a call)')
    obs.interesting(npos > 1)
    obs.tag(mode, 'weighted' if case['weights'] else 'unweighted')


@st.composite
def huge_cases(draw):
    n = draw(st.one_of(
        st.builds(lambda e, d: 2 ** e + d, st.integers(11, 22), st.sampled_from([-1, 0, 1])),
        st.integers(2000, 2000000), st.integers(2000, 70000), st.sampled_from(
            [10000, 40000, 50000, 98304, 100000, 1000000])))
    return {'n': n, 'mode': draw(st.sampled_from(
                ['single', 'single', 'one-lists', 'list', 'lists', 'roac', 'norep'])),
            'weights': draw(st.one_of(st.none(), st.none(), st.lists(
                st.sampled_from([0, 1, 2, 5, 0.5]), min_size=1, max_size=5).filter(any))),
            'seed': draw(st.integers(0, 2 ** 40))}


def check_huge(case, obs):
    """Very long sequences: shares of a sixteenth of the items and of residues."""
    from fauxdoc.emitters import Choice
    n, mode, w = case['n'], case['mode'], case['weights']
    if w is not None or mode == 'norep':
        n = min(n, 70000)
    pat = w or [1]
    weights = None if w is None else [w[i * len(w) // n] for i in range(n)]
    em = Choice(range(n), weights=weights, replace=mode != 'norep',
                replace_only_after_call=mode == 'roac', rng_seed=case['seed'])
    total = 6000
    if mode == 'single':
        got = [em() for _ in range(total)]
    elif mode == 'one-lists':
        got = [em(1)[0] for _ in range(total)]
    elif mode == 'list':
        got = em(total)
    elif mode == 'lists':
        got = [v for _ in range(total // 100) for v in em(100)]
    elif mode == 'roac':
        # weighted samples cost time in proportion to n
        total = 3000 if w is None else max(40, min(3000, 4000000 // n))
        got = [em(2)[0] for _ in range(total)]
    else:
        total = max(40, min(1000, 2000000 // n))
        got = []
        for i in range(total):
            em.seed(case['seed'] + i)
            got.append(em())
            if total * 40 < n:
                break
        total = len(got)
    tot = sum(weights or [n])
    share, mod = Counter(), Counter()
    for g in range(16):
        lo, hi = -(-g * n // 16), -(-(g + 1) * n // 16)
        share[g] = (hi - lo if w is None else sum(weights[lo:hi])) / tot
    for r in range(5):
        mod[r] = (len(range(r, n, 5)) if w is None else sum(weights[r::5])) / tot
    what = '%s of %d items with weights %r' % (mode, n, pat)
    check_freq(Counter(v * 16 // n for v in got), share, total, what + ' (sixteenths)')
    check_freq(Counter(v % 5 for v in got), mod, total, what + ' (every fifth)')
    if w is None and mode != 'norep':
        # a fair sample has about this many equal pairs
        pairs = sum(c * (c - 1) // 2 for c in Counter(got).values())
        mean = total * (total - 1) / 2 / n
        req(pairs <= 4 * mean + 60, '%s: %d equal pairs among %d values, expected about '
            '%.1f', what, pairs, total, mean)
    obs.interesting()
    obs.tag(mode, 'weighted' if w else 'unweighted')


@st.composite
def chi_cases(draw):
    n = draw(st.one_of(st.sampled_from([100, 128, 256, 1000, 1024, 2000]),
                       st.integers(100, 3000)))
    return {'n': n, 'shape': draw(st.sampled_from(['equal', 'equal', 'cycle', 'ramp', 'heavy',
                                                   'heavy', 'none', 'none'])),
            'pat': draw(st.lists(st.sampled_from([1, 2, 5, 0.5]), min_size=1, max_size=5)),
            'at': draw(st.floats(0, 1)), 'share': draw(st.sampled_from([.9, .99, .999])),
            'mode': draw(st.sampled_from(['single', 'single', 'list', 'lists', 'many'])),
            'given': draw(st.sampled_from(['weights', 'cum', 'set-weights', 'set-cum',
                                           'reset-to'])),
            'scale': draw(st.sampled_from([1, 1, 2 ** -40, 2 ** 40])),
            'seed': draw(st.integers(0, 2 ** 40))}


def check_chi(case, obs):
    """Coarse or uneven grids of random points: all items at once, very many draws."""
    import numpy as np
    n, shape, mode = case['n'], case['shape'], case['mode']
    pat = case['pat']
    w = {'equal': lambda: [3] * n, 'none': lambda: None, 'ramp': lambda: list(range(n, 2 * n)),
         'cycle': lambda: [pat[i % len(pat)] for i in range(n)],
         'heavy': lambda: [1] * n}[shape]()
    heavy = None
    if shape == 'heavy':
        heavy = min(int(case['at'] * n), n - 1)
        w[heavy] = int((n - 1) / (1 - case['share']) * case['share'])
    if w is not None:
        w = [x * case['scale'] for x in w]
    em = make(dict(case, weights=w))
    if mode == 'single':
        total = 120000
        got = [em() for _ in range(total)]
    else:
        size = {'list': 800000, 'lists': 2000, 'many': 40}[mode]
        total = 800000 if mode == 'list' else 400000
        got = [v for _ in range(total // size) for v in em(size)]
    seen = np.bincount(np.array(got), minlength=n)
    w = np.array(w or [1] * n, dtype=float)
    if heavy is not None:
        # the rest of the items, given that it is not the heavy one
        check_freq({0: int(seen[heavy])}, {0: float(w[heavy] / w.sum())}, total,
                   '%s: draws of the heavy item' % mode)
        seen, w = np.delete(seen, heavy), np.delete(w, heavy)
    k = seen.sum()
    mean = w / w.sum() * k
    if not k or mean.min() < 0.2:
        return
    # mean and variance of the statistic under independent draws
    chi = float(((seen - mean) ** 2 / mean).sum())
    sd = (2 * len(w) + float((1 / mean).sum())) ** .5
    req(chi < len(w) + 12 * sd, '%s of %d items (%s weights): the counts of the %d items in %d '
        'draws are further from the expected ones than chance allows: chi-square %.0f, '
        'standard deviation %.0f', mode, n, shape, len(w), k, chi, sd)
    req(chi > len(w) - 12 * sd, '%s of %d items (%s weights): the counts are too even: '
        'chi-square %.0f for %d items', mode, n, shape, chi, len(w))
    obs.interesting()
    obs.tag(mode, shape)


@st.composite
def rank_cases(draw):
    n = draw(st.one_of(st.integers(3, 30), st.integers(30, 200)))
    return {'n': n, 'pat': draw(st.lists(st.sampled_from([1, 1, 2, 5, 0.5, 50, 1000, 0]),
                                         min_size=1, max_size=6).filter(any)),
            'shape': draw(st.sampled_from(['cycle', 'runs', 'first', 'last', 'none'])),
            'frac': draw(st.sampled_from([0.1, 0.2, 0.3, 0.41, 0.43, 0.6, 0.9, 1.0])),
            'mode': draw(st.sampled_from(['roac', 'roac', 'shuffle', 'norep', 'norep-parts'])),
            'given': draw(st.sampled_from(['weights', 'cum', 'set-weights', 'set-cum',
                                           'reset-to'])),
            'seed': draw(st.integers(0, 2 ** 40))}


def check_ranks(case, obs):
    """Each item of a draw, given the ones before it, in proportion to the weights.

    The share of weight that stands before the drawn item among those left, in
    order of weight, is a uniform number if (and only if) the draws are fair.
    """
    import numpy as np
    from fauxdoc.mathtools import weighted_shuffle
    n, mode, pat = case['n'], case['mode'], case['pat']
    w = {'cycle': lambda: [pat[i % len(pat)] for i in range(n)],
         'runs': lambda: [pat[i * len(pat) // n] for i in range(n)],
         'first': lambda: [pat[0] * 1000 or 500] + [1] * (n - 1),
         'last': lambda: [1] * (n - 1) + [pat[-1] * 100 or 50],
         'none': lambda: None}[case['shape']]()
    if w is not None and not any(w):
        w[0] = 1
    k = max(2, int(n * case['frac']))
    spec = dict(case, weights=w)
    total = max(60, min(1500, 40000 // k))
    rng = random.Random(case['seed'])
    if mode == 'roac':
        em = make(spec, roac=True)
        draws = [em(k) for _ in range(total)]
    elif mode == 'shuffle':
        draws = [weighted_shuffle(range(n), w or [1] * n, rng, k) for _ in range(total)]
    else:
        em = make(spec, replace=False)
        draws = []
        for i in range(total):
            em.seed(case['seed'] + i)
            if mode == 'norep':
                draws.append(em(k))
            else:
                draws.append([em()] + em(k // 2) + em(k - 1 - k // 2))
    # not the numbers that made the draws
    rng = random.Random('ranks %d' % case['seed'])
    full = np.array(w or [1] * n, dtype=float)
    order = np.argsort(-full, kind='stable')
    place = np.argsort(order)
    full = full[order]
    parts = Counter()
    pairs = Counter()
    size, npairs = Counter(), 0
    for d in draws:
        left = full.copy()
        prev = None
        for t, item in enumerate(d):
            cs = np.cumsum(left)
            if cs[-1] <= 0:
                break
            i = place[item]
            u = (cs[i] - left[i] * (1 - rng.random())) / cs[-1]
            left[i] = 0
            cell = min(int(u * 8), 7)
            part = t * 5 // k if t else 'first'
            parts[part, cell] += 1
            size[part] += 1
            if prev is not None:
                pairs[prev // 2, cell // 2] += 1
                npairs += 1
            prev = cell
    what = '%s of %d out of %d (weights %r, %s)' % (mode, k, n, pat, case['shape'])
    for part, m in size.items():
        check_freq({c: parts[part, c] for c in range(8)}, {c: 1 / 8 for c in range(8)}, m,
                   '%s: eighths of the weight left, part %s of the draws' % (what, part))
    if npairs:
        check_freq(pairs, {(a, b): 1 / 16 for a in range(4) for b in range(4)}, npairs,
                   what + ': one draw and the next')
    obs.interesting()
    obs.tag(mode, case['shape'])


NAN = float('nan')
LABELS = ['str', 'tuple', 'lists', 'rev', 'dups', 'mixed', 'none', 'bools',
          'runs', 'pairs', 'nan']


def labels(kind, n):
    return {
        'str': ['x%d' % i for i in range(n)],
        'tuple': [(i, 'y') for i in range(n)],
        'lists': [[i] for i in range(n)],
        'rev': list(range(n, 0, -1)),
        'dups': ['d%d' % (i % 3) for i in range(n)],
        'mixed': [None if i % 4 == 0 else ('s' if i % 4 == 1 else (i, [i]))
                  for i in range(n)],
        'none': [None] * n,
        'bools': [bool(i % 2) for i in range(n)],
        'runs': ['r%d' % (4 * i // n) for i in range(n)],
        'pairs': [('p', i // 2) for i in range(n)],
        'nan': [NAN if i % 3 else i for i in range(n)],
    }[kind]


@st.composite
def relabel_cases(draw):
    n = draw(gen.sizes(1, 60))
    # heavy neighbours are drawn again and again
    skewed = st.tuples(st.integers(0, n - 1), st.integers(1, 3), st.sampled_from(
        [9, 50, 1000])).map(lambda t: [t[2] if t[0] <= i < t[0] + t[1] else 1
                                       for i in range(n)])
    weights = draw(st.one_of(st.none(), gen.weight_lists(n), skewed))
    mode = draw(st.sampled_from(['rep', 'norep', 'roac', 'roac', 'shuffle']))
    ops = draw(st.lists(st.one_of(st.none(), st.integers(0, n), st.integers(0, n // 2)),
                        min_size=1, max_size=8))
    return n, weights, mode, ops, draw(st.sampled_from(LABELS)), draw(gen.seeds), \
        draw(st.booleans())


def check_relabel(case, obs):
    from fauxdoc.emitters import Choice
    from fauxdoc.mathtools import weighted_shuffle
    n, weights, mode, ops, kind, seed, as_tuple = case
    lab = labels(kind, n)
    kw = dict(weights=weights, replace=mode != 'norep',
              replace_only_after_call=mode == 'roac', rng_seed=seed)
    seq = tuple(lab) if as_tuple else list(lab)
    if mode == 'shuffle':
        a, b = [(lambda k, items=items, rng=random.Random(seed): weighted_shuffle(
            items, weights or [1] * n, rng, k)) for items in (range(n), seq)]
    else:
        a, b = Choice(range(n), **kw), Choice(seq, **kw)
    left = n
    for i, op in enumerate(ops):
        need = 1 if op is None else op
        if mode == 'norep':
            if need > left:
                continue
            left -= need
        x, y = a(op), b(op)
        want = lab[x] if op is None and mode != 'shuffle' else [lab[j] for j in x]
        eq(gen.key(y), gen.key(want), 'op %d (%r) over %s labels' % (i, op, kind))
    obs.interesting(n > 1)
    obs.tag(mode, kind)


SUBS = [
    Sub('replacement', rep_cases, check_rep, 560, 4000),
    Sub('no-replacement', norep_cases, check_norep, 480, 4000),
    Sub('large', big_cases, check_big, 120, 1200),
    Sub('positions', position_cases, check_positions, 48, 600),
    Sub('groups', group_cases, check_groups, 96, 1200),
    Sub('huge', huge_cases, check_huge, 80, 800),
    Sub('all-items', chi_cases, check_chi, 64, 800),
    Sub('ranks', rank_cases, check_ranks, 96, 1200),
    Sub('relabel', relabel_cases, check_relabel, 1600),
]
