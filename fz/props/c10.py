import random
from collections import Counter

from hypothesis import strategies as st

from .. import bigchoice, edges, gen
from ..choicemodel import ChoiceModel
from ..core import Sub, eq, raises, req
from ..gen import key, make_seq, seq_values

PROP = 'C10'
RULE = ('Random item sequences (duplicates, unhashable values, strings, ranges; 0..100 '
        'items), weights with zeros and extreme ratios, every number from 0 to the length '
        '(sizes around the switch of algorithm preferred), random rng seeds. Non-trivial: '
        'at least two items and number >= 1.')


@st.composite
def cases(draw):
    if draw(st.integers(0, 40)) == 0:
        items, n, weights = ('list', []), 0, []
    else:
        items = draw(gen.sequences(mx=100))
        n = len(seq_values(items))
        weights = draw(gen.weight_lists(n, tiny=True))
        if draw(st.integers(0, 6)) == 0:
            weights = [0] * n
    npos = sum(1 for w in weights if w)
    near = [k for k in (int(n * .42), int(n * .42) + 1, npos, npos + 1, npos - 1, n,
                        n - 1, 1, 0) if 0 <= k <= n]
    number = draw(st.one_of(st.none(), st.integers(0, n), st.sampled_from(near)))
    return items, weights, number, draw(st.integers(0, 2 ** 32)), \
        draw(st.sampled_from(['list', 'tuple'])), draw(st.sampled_from(['kw', 'pos'])), \
        draw(st.integers(1, 4))


def check(case, obs):
    from fauxdoc.mathtools import weighted_shuffle
    items, weights, number, seed, wkind, how, rounds = case
    seq = make_seq(items)
    values = seq_values(items)
    n = len(values)
    w = list(weights) if wkind == 'list' else tuple(weights)
    r1, r2 = random.Random(seed), random.Random(seed)
    for i in range(rounds):
        outs = []
        for rng in (r1, r2):
            if number is None:
                out = weighted_shuffle(seq, w, rng)
            elif how == 'pos':
                out = weighted_shuffle(seq, w, rng, number)
            else:
                out = weighted_shuffle(items=seq, weights=w, rng=rng, number=number)
            outs.append(out)
        what = 'weighted_shuffle(%r, %r, number=%r)' % (seq, w, number)
        req(type(outs[0]) is list, '%s gave %r', what, outs[0])
        eq(list(map(key, outs[0])), list(map(key, outs[1])),
           what + ' from equal rng states')
        req(outs[0] is not outs[1] and outs[0] is not seq, '%s: not a new list', what)
        k = n if number is None else number
        eq(len(outs[0]), k, what + ': number of items')
        m = ChoiceModel(values, weights, False, False)
        m.accept(outs[0], False, what)
        outs[0].clear()
        eq(list(seq), values, 'items afterwards')
        eq(list(w), list(weights), 'weights afterwards')
    eq(r1.getstate(), r2.getstate(), 'rng state afterwards')
    k = n if number is None else number
    obs.interesting(n > 1 and k > 0)
    obs.tag('low k' if k <= n * 0.42 else 'high k')
    if 0 in weights:
        obs.tag('zero weights')
    if k > sum(1 for x in weights if x):
        obs.tag('needs zero-weight items')


def check_default_rng(case, obs):
    from fauxdoc.mathtools import weighted_shuffle
    items, weights, number = case[:3]
    values = seq_values(items)
    out = weighted_shuffle(make_seq(items), weights, number=number)
    eq(len(out), len(values) if number is None else number, 'number of items')
    ChoiceModel(values, weights, False, False).accept(out, False, 'default rng')
    obs.interesting(len(values) > 1)


mismatch = st.tuples(st.integers(0, 8), st.integers(0, 8),
                     st.one_of(st.none(), st.integers(0, 8))).filter(lambda t: t[0] != t[1])


def check_mismatch(case, obs):
    from fauxdoc.mathtools import weighted_shuffle
    a, b, number = case
    raises(ValueError, '%d items with %d weights' % (a, b), weighted_shuffle,
           list(range(a)), [1] * b, random.Random(1), number)
    obs.interesting()


SUBS = [
    Sub('sample', cases, check, 4800),
    Sub('default-rng', cases, check_default_rng, 600),
    Sub('mismatch', mismatch, check_mismatch, 400, 2000),
    Sub('edges', edges.shuffle_cases(), edges.check_shuffle, 900),
    Sub('big', bigchoice.shuffles(), bigchoice.check_shuffle, 300, 4000),
    Sub('vast', bigchoice.shuffles(140000, 6001), bigchoice.check_shuffle, 24, 400),
]
