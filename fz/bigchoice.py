"""Choice and weighted_shuffle over long sequences, with batch-wise multiset oracles."""
from collections import Counter

from hypothesis import strategies as st

from . import forms, gen
from .core import eq, raises, req


@st.composite
def specs(draw, mx=6000, mn=65):
    n = draw(gen.big(mx, mn))
    kind = draw(st.sampled_from(['range', 'list', 'dups', 'str']))
    weights = draw(st.sampled_from(['none', 'equal', 'pattern', 'pattern', 'sparse', 'dense',
                                    'dominant']))
    return {'n': n, 'kind': kind, 'k': draw(st.integers(2, n)) if kind == 'dups' else n,
            'weights': weights, 'seed': draw(gen.int_seeds),
            'pat': draw(st.lists(st.sampled_from([0, 1, 2, 3, 10]), min_size=2,
                                 max_size=7).filter(any)),
            'at': draw(st.one_of(st.sampled_from([0, n - 1, n // 2]), st.integers(0, n - 1))),
            'some': draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=9)),
            'cum': draw(st.booleans())}


def sizes(n):
    return st.one_of(st.none(), st.none(), st.integers(0, 5), st.integers(0, n),
                     st.sampled_from([n, n - 1, n + 1, n // 2, int(n * .42),
                                      int(n * .42) + 1, int(n * .1), 2]),
                     st.integers(max(0, n - 9), n))


class Big:
    def __init__(self, spec):
        n = spec['n']
        self.n = n
        self.items = {'range': lambda: range(5, 5 + n),
                      'list': lambda: ['v%d' % i for i in range(n)],
                      'dups': lambda: ['d%d' % (i * 31 % spec['k']) for i in range(n)],
                      'str': lambda: ''.join(chr(0x4e00 + i) for i in range(n))}[spec['kind']]()
        kind = spec['weights']
        if kind == 'none':
            w = None
        elif kind == 'equal':
            w = [spec['pat'][0] + 1] * n
        elif kind == 'pattern':
            w = [spec['pat'][i % len(spec['pat'])] for i in range(n)]
            if not any(w):
                w[spec['at']] = 1
        elif kind == 'dense':
            w = [1] * n
            for i in spec['some']:
                w[i] = 0
            w[spec['at']] = 2
        elif kind == 'sparse':
            w = [0] * n
            for i in spec['some'] + [spec['at']]:
                w[i] = 1
        else:
            # all the others together come up once in 2 ** 50 / 140000 draws
            w = [1] * n
            w[spec['at']] = 2 ** 50
        self.weights = w
        self.dominant = spec['at'] if kind == 'dominant' and n > 1 else None
        self.kw = {}
        if w is not None:
            self.kw = {'cum_weights': gen.cum(w)} if spec['cum'] else {'weights': list(w)}
        self.refill()

    def split(self):
        pos, zero = Counter(), Counter()
        for i, v in enumerate(self.items):
            (pos if self.weights is None or self.weights[i] else zero)[v] += 1
        return pos, zero

    def refill(self):
        self.pos, self.zero = self.split()
        self.fresh = True

    def left(self):
        return sum(self.pos.values()) + sum(self.zero.values())

    def take(self, got, what):
        """Takes the emitted values out of what is left."""
        k = sum(self.pos.values())
        for part, have, name in ((got[:k], self.pos, 'positive'),
                                 (got[k:], self.zero, 'zero')):
            want = Counter(part)
            over = want - have
            req(not over, '%s: %d of the values are not among the (%s-weight) items left, '
                'e.g. %r', what, sum(over.values()), name, list(over)[:3])
            have.subtract(want)
        self.pos, self.zero = +self.pos, +self.zero
        if self.fresh and got and self.dominant is not None:
            eq(got[0], self.items[self.dominant], what + ': the item with all the weight '
               'comes first')
        self.fresh = self.fresh and not got

    def call(self, got, what):
        """One call that may use all items."""
        self.refill()
        self.take(got, what)


@st.composite
def histories(draw, mx=6000, extra=(), mn=65):
    spec = draw(specs(mx, mn))
    ops = draw(st.lists(st.one_of(sizes(spec['n']), sizes(spec['n']),
                                  st.sampled_from(['reset', 'seed', 'weights', 'none',
                                                   *extra])), min_size=1, max_size=6 if mn < 6000 else 2))
    return spec, ops


def check_norep(case, obs):
    from fauxdoc.emitters import Choice
    spec, ops = case
    m = Big(spec)
    em = Choice(m.items, replace=False, rng_seed=spec['seed'], **m.kw)
    done = 0
    for i, op in enumerate(ops + ['rest']):
        what = 'op %d %r of %d items' % (i, op, m.n)
        if op == 'reset':
            em.reset()
            m.refill()
        elif op == 'seed':
            em.seed(3)
            m.refill()
        elif op in ('weights', 'none'):
            m.weights = [1 + i % 2 for i in range(m.n)] if op == 'weights' else None
            m.dominant = None
            em.weights = m.weights
            m.refill()
        else:
            left = m.left()
            if op == 'rest':
                op = left
            if (1 if op is None else op) > left:
                raises(ValueError, what, forms.ask, em, op)
            else:
                got = forms.values(em, op)
                eq(len(got), 1 if op is None else op, what + ': values')
                m.take(got, what)
                done += len(got)
        eq(em.num_unique_items, m.left(), what + ': num_unique_items')
        eq(em.num_unique_values, len(m.pos | m.zero), what + ': num_unique_values')
    obs.interesting(done > 1)
    obs.tag(spec['kind'], spec['weights'])


def check_roac(case, obs):
    from fauxdoc.emitters import Choice
    spec, ops = case
    m = Big(spec)
    em = Choice(m.items, replace_only_after_call=True, rng_seed=spec['seed'], **m.kw)
    most = 0
    for i, op in enumerate(ops + [m.n]):
        what = 'op %d %r of %d items' % (i, op, m.n)
        if op == 'reset':
            em.reset()
        elif op == 'seed':
            em.seed(3)
        elif op in ('weights', 'none'):
            m.weights = [1 + i % 2 for i in range(m.n)] if op == 'weights' else None
            m.dominant = None
            em.weights = m.weights
        elif op is not None and op > m.n:
            raises(ValueError, what, forms.ask, em, op)
        else:
            got = forms.values(em, op)
            eq(len(got), 1 if op is None else op, what + ': values')
            m.call(got, what)
            most = max(most, len(got))
        eq(em.num_unique_items, m.n, what + ': num_unique_items')
    obs.interesting(most > 1)
    obs.tag(spec['kind'], spec['weights'])


def check_rep(case, obs):
    from fauxdoc.emitters import Choice
    spec, ops = case
    m = Big(spec)
    em = Choice(m.items, rng_seed=spec['seed'], **m.kw)
    most = 0
    for i, op in enumerate(ops + [300]):
        what = 'op %d %r of %d items' % (i, op, m.n)
        if op == 'reset':
            em.reset()
        elif op == 'seed':
            em.seed(3)
        elif op in ('weights', 'none'):
            m.weights = [1 + i % 2 for i in range(m.n)] if op == 'weights' else None
            m.dominant = None
            em.weights = m.weights
        elif op == 'singles':
            got = [em() for _ in range(300)]
            selectable(m, got, what)
        else:
            got = forms.values(em, op)
            eq(len(got), 1 if op is None else op, what + ': values')
            selectable(m, got, what)
            most = max(most, len(got))
    obs.interesting(most > 1)
    obs.tag(spec['kind'], spec['weights'])


def selectable(m, got, what):
    pos, _ = m.split()
    bad = [v for v in got if v not in pos]
    req(not bad, '%s: emitted %r, which cannot be selected', what, bad[:3])
    if m.dominant is not None:
        want = m.items[m.dominant]
        bad = [v for v in got if v != want]
        req(len(bad) < 3, '%s: emitted %r instead of the item with all the weight', what,
            bad[:3])
    elif len(got) >= 300:
        # a quarter of the weight is missed in 300 draws once in 10 ** 37 cases
        w = m.weights or [1] * m.n
        total, run, part, quarter = sum(w), 0, set(), 0
        got = set(got)
        for i, v in enumerate(m.items):
            run += w[i]
            if w[i]:
                part.add(v)
            if run * 4 >= total * (quarter + 1):
                req(part & got, '%s: nothing emitted of the items up to %d, which have a '
                    'quarter of the weight', what, i)
                while run * 4 >= total * (quarter + 1):
                    quarter += 1
                part = set()


@st.composite
def shuffles(draw, mx=6000, mn=65):
    spec = draw(specs(mx, mn))
    return spec, draw(st.lists(sizes(spec['n']).filter(lambda k: k is None or k <= spec['n']),
                               min_size=1, max_size=4 if mn < 6000 else 2))


def check_shuffle(case, obs):
    import random
    from fauxdoc.mathtools import weighted_shuffle
    spec, numbers = case
    m = Big(spec)
    w = m.weights or [1] * m.n
    r1, r2 = random.Random(spec['seed']), random.Random(spec['seed'])
    for k in numbers:
        what = '%r of %d items' % (k, m.n)
        before = list(w)
        got = weighted_shuffle(m.items, w, r1, k)
        again = weighted_shuffle(m.items, w, r2, k)
        req(got == again, '%s: different results from equal generators', what)
        eq(len(got), m.n if k is None else k, what + ': values')
        eq(w, before, 'weights afterwards')
        m.call(got, what)
    obs.interesting()
    obs.tag(spec['kind'], spec['weights'])
