import datetime
from collections.abc import Sequence

from hypothesis import strategies as st

from .. import bigchoice, edges, forms, gen
from ..choicemodel import build_choice, emit, model_choice
from ..core import Sub, Violation, eq, raises, req
from ..gen import key, seq_values

PROP = 'C04'
RULE = ('Random item sequences (lists, tuples, strings, ranges, date ranges, groups; '
        'duplicates, unhashable values, 1..100 items or far too many to list), random plain or cumulative '
        'weights with zeros, random histories of single and list calls. Non-trivial: '
        'at least two items and at least 5 values emitted.')
ASSUMPTIONS = ['coverage of every selectable item is decided by drawing enough values '
               'that missing one by chance has probability below 1e-12 per case',
               'the total of weights with zeros is at least the smallest normal float '
               '(see the known finding)']


@st.composite
def choice_cases(draw):
    items = draw(gen.sequences())
    n = len(seq_values(items))
    weights, cum = None, False
    if draw(st.integers(0, 3)):
        cum = draw(st.booleans())
        weights = draw(gen.exact_weight_lists(n) if cum else gen.weight_lists(n))
    spec = {'items': items, 'weights': weights, 'cum': cum,
            'seed': draw(gen.seeds)}
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 12)),
        st.tuples(st.just('many'), st.integers(13, 300)),
        st.just(('reset',)), st.tuples(st.just('seed'), gen.seeds)),
        min_size=1, max_size=12))
    return spec, ops


def check_history(case, obs):
    spec, ops = case
    em, model = build_choice(spec), model_choice(spec)
    total = 0
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] == 'reset':
            em.reset()
        elif op[0] == 'seed':
            em.seed(op[1])
        else:
            got = emit(em, model, op, what, obs)
            total += len(got)
    eq(list(em.items), seq_values(spec['items']), 'items afterwards')
    obs.interesting(model.n > 1 and total >= 5)
    obs.tag('weights' if spec['weights'] else 'no weights')
    if spec['weights'] and 0 in spec['weights']:
        obs.tag('zero weights')
    if model.n == 1:
        obs.tag('single item')
    if model.n > 32:
        obs.tag('many items')


@st.composite
def support_cases(draw):
    n = draw(st.one_of(st.integers(1, 9), st.sampled_from([16, 17, 32, 33, 40])))
    if draw(st.booleans()):
        weights = draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 0.5]), min_size=n,
                                max_size=n))
        if not any(weights):
            weights[draw(st.integers(0, n - 1))] = 1
    else:
        weights = None
    items = draw(st.sampled_from([('list', ['i%d' % i for i in range(n)]),
                                  ('list', ['i%d' % i for i in range(n)]), ('alike', n)]))
    # what the emitter was and did before it got its weights
    before = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        kind = draw(st.sampled_from(['none', 'plain', 'plain', 'only', 'cum', 'norep', 'roac']))
        if kind in ('plain', 'cum'):
            arg = draw(st.lists(st.sampled_from([0, 1, 2, 0.5]), min_size=n, max_size=n))
            arg[draw(st.integers(0, n - 1))] = 1
        else:
            arg = draw(st.integers(0, n - 1))
        before.append((kind, arg, draw(st.sampled_from([None, None, 0, 1, 3]))))
    return {'items': items, 'weights': weights, 'before': before,
            'cum': draw(st.booleans()), 'seed': draw(gen.int_seeds),
            'how': draw(st.sampled_from(['single', 'one-lists', 'list', 'lists'])),
            'size': draw(st.integers(2, 9))}


def build_with_past(spec):
    if not spec['before']:
        return build_choice(spec)
    em = build_choice(dict(spec, weights=None))
    n = len(seq_values(spec['items']))
    for kind, arg, draws in spec['before']:
        if kind == 'none':
            em.weights = None
        elif kind == 'plain':
            em.weights = arg
        elif kind == 'cum':
            em.cum_weights = gen.cum(arg)
        elif kind == 'only':
            em.weights = [int(i == arg) for i in range(n)]
        elif kind == 'norep':
            em.replace = False
        else:
            em.replace_only_after_call = True
        if draws is None:
            em()
        elif draws <= em.num_unique_items:
            em(draws)
        em.replace = True
        em.replace_only_after_call = False
    if spec['weights'] is None:
        em.cum_weights = None
    elif spec['cum']:
        em.cum_weights = gen.cum(spec['weights'])
    else:
        em.weights = spec['weights']
    return em


def check_support(case, obs):
    """Every selectable item does come up; nothing else does."""
    spec = dict(case)
    em = build_with_past(spec)
    items = [gen.key(v) for v in seq_values(spec['items'])]
    w = spec['weights'] or [1] * len(items)
    pmin = min(x for x in w if x) / sum(w)
    # (1 - pmin) ** draws * n < 1e-13
    draws = int(35 / pmin) + 10
    if spec['how'] == 'single':
        got = [em() for _ in range(draws)]
    elif spec['how'] == 'one-lists':
        got = [em(1)[0] for _ in range(draws)]
    elif spec['how'] == 'list':
        got = em(draws)
    else:
        got = []
        while len(got) < draws:
            got.extend(em(spec['size']))
    got = {gen.key(v) for v in got}
    want = {x for x, p in zip(items, w) if p}
    extra = got - want
    missing = want - got
    req(not extra, 'emitted items that cannot be selected: %r', sorted(extra))
    req(not missing, 'never emitted in %d draws although selectable: %r',
        draws, sorted(missing))
    obs.interesting(len(want) > 1)
    obs.tag(spec['items'][0])
    if spec['before']:
        obs.tag('with a past')
    obs.tag(spec['how'], 'weights' if spec['weights'] else 'no weights')


bad_items = st.one_of(
    st.sampled_from([('list', []), ('tuple', []), ('str', ''), ('range', 5, 5, 1)]),
    st.sampled_from(['set', 'dict', 'int', 'none', 'iterator', 'generator']))


def check_bad(case, obs):
    from fauxdoc.emitters import Choice
    bad, kw = case
    if isinstance(bad, str):
        items = {'set': {1, 2}, 'dict': {1: 2}, 'int': 5, 'none': None,
                 'iterator': iter([1, 2]), 'generator': (x for x in [1])}[bad]
    else:
        items = gen.make_seq(bad)
    raises(ValueError, 'Choice over %r' % (bad,), Choice, items, **kw)
    obs.interesting()


@st.composite
def huge_cases(draw):
    kind = draw(st.sampled_from(['range', 'range', 'seconds', 'micros', 'seq']))
    if kind in ('range', 'seq'):
        # sys.maxsize is as long as a sequence can be
        n = draw(st.sampled_from([10 ** 10, 2 ** 32 + 1, 10 ** 15, 2 ** 53 - 1, 2 ** 62]))
        spec = (kind, draw(st.integers(-5, 10 ** 20)), n, draw(st.sampled_from([1, -1, 3])))
    else:
        spec = (kind, draw(st.dates(datetime.date(1, 1, 1), datetime.date(5000, 1, 1))),
                draw(st.sampled_from([10 ** 10, 10 ** 11])))
    return {'items': spec, 'seed': draw(gen.int_seeds),
            'roac': draw(st.booleans()),
            'ops': draw(st.lists(st.one_of(st.none(), st.integers(0, 60)), min_size=1,
                                 max_size=8))}


class Steps(Sequence):
    """A user's own sequence, too long to be listed."""

    def __init__(self, r):
        self.r = r

    def __len__(self):
        return len(self.r)

    def __getitem__(self, i):
        return self.r[i]


def check_huge(case, obs):
    """The items are not listed: they may be as many as a sequence can have."""
    from fauxdoc.dtrange import DateOrTimeRange
    from fauxdoc.emitters import Choice
    spec, roac = case['items'], case['roac']
    if spec[0] in ('range', 'seq'):
        _, a, n, step = spec
        items = range(a, a + n * step, step)
        pos = items.index
        if spec[0] == 'seq':
            items = Steps(items)
    else:
        start = datetime.datetime.combine(spec[1], datetime.time())
        unit = datetime.timedelta(**{spec[0].replace('micros', 'microseconds'): 1})
        items, n = DateOrTimeRange(start, spec[2], unit), spec[2]

        def pos(v):
            return (v - start) // unit
    em = Choice(items, replace_only_after_call=roac, rng_seed=case['seed'])
    eq(em.num_unique_items, n, 'num_unique_items')
    seen = []
    for k, op in enumerate(case['ops'] + [60, 60]):
        got = forms.values(em, op)
        eq(len(got), 1 if op is None else op, 'number of values')
        at = [pos(v) for v in got]
        req(all(0 <= i < n for i in at), 'positions %r out of %d', at, n)
        if roac:
            eq(len(set(at)), len(at), 'different items in call %d' % k)
        seen += at
    # at least 120 draws: a quarter is missed once in 10 ** 15 cases
    for lo, hi in ((0, .25), (.25, .5), (.5, .75), (.75, 1)):
        req(any(lo * n <= i < hi * n for i in seen), 'nothing emitted from %s to %s of the '
            'items in %d draws', lo, hi, len(seen))
    req(len(set(seen)) > len(seen) / 2, 'only %d different items in %d draws from %d',
        len(set(seen)), len(seen), n)
    obs.interesting()
    obs.tag(spec[0], 'roac' if roac else 'rep')


@st.composite
def rare_cases(draw):
    return {'n': draw(st.integers(2500, 7000)), 'at': draw(st.floats(0, 1)),
            'mode': draw(st.sampled_from(['single', 'lists', 'list'])),
            'cum': draw(st.booleans()), 'seed': draw(st.integers(0, 2 ** 40)),
            'scale': draw(st.sampled_from([1, 2 ** -40, 2 ** 30]))}


def check_rare(case, obs):
    """Thousands of items that are hardly ever chosen, next to one that mostly is."""
    from fauxdoc.emitters import Choice
    n, mode = case['n'], case['mode']
    total, share = (150000, .99) if mode == 'single' else (1000000, .999)
    at = int(case['at'] * n)
    w = [case['scale']] * n
    w.insert(at, int(n / (1 - share) * share) * case['scale'])
    em = Choice(range(n + 1), rng_seed=case['seed'],
                **{'cum_weights' if case['cum'] else 'weights': gen.cum(w) if case['cum']
                   else w})
    if mode == 'single':
        got = [em() for _ in range(total)]
    else:
        size = total if mode == 'list' else 250
        got = [v for _ in range(total // size) for v in em(size)]
    seen = set(got) - {at}
    p = (1 - share) / n
    mean = n * (1 - (1 - p) ** total)
    req(len(seen) > .8 * mean, '%s calls: of %d rare items only %d ever came up in %d draws, '
        'expected about %.0f', mode, n, len(seen), total, mean)
    obs.interesting()
    obs.tag(mode)


SUBS = [
    Sub('rare', rare_cases, check_rare, 24, 400),
    Sub('history', choice_cases, check_history, 4200),
    Sub('support', support_cases, check_support, 2400),
    Sub('huge', huge_cases, check_huge, 300),
    Sub('refused', st.tuples(bad_items, st.fixed_dictionaries({}, optional={
        'replace': st.booleans(), 'replace_only_after_call': st.booleans(),
        'rng_seed': st.integers(0, 3)})), check_bad, 150, 600),
    Sub('edges', edges.cases('rep'), edges.check, 600),
    Sub('big', bigchoice.histories(extra=('singles',)), bigchoice.check_rep, 240, 4000),
    Sub('vast', bigchoice.histories(140000, extra=('singles',), mn=6001), bigchoice.check_rep, 24, 400),
]


@st.composite
def lowest_cases(draw):
    return draw(st.permutations([5e-324, 0.0])), draw(st.integers(0, 9))


def check_lowest(case, obs):
    """Known finding: weights with a subnormal total. Not part of the check."""
    from fauxdoc.emitters import Choice
    weights, seed = case
    got = set(Choice(['a', 'b'], list(weights), rng_seed=seed)(200))
    eq(got, {x for x, w in zip('ab', weights) if w}, 'items of 200 draws')


FINDING_SUBS = [Sub('lowest', lowest_cases, check_lowest, 1)]
