"""Choices and shuffles driven by a generator that often gives the ends of [0, 1).

random() may return any float from 0.0 up to, but not including, 1.0. The ends
are so rare that no sampling meets them; here they come up all the time.
"""
import random

from hypothesis import strategies as st

from . import gen
from .choicemodel import ChoiceModel, emit
from .core import eq
from .gen import key, make_seq, seq_values


class Extreme(random.Random):
    ENDS = [0.0, 0.0, 1 - 2 ** -53, 1 - 2 ** -53, 2 ** -53, 0.5]

    def random(self):
        x = super().random()
        return self.ENDS[int(x * 12)] if x < .5 else super().random()


@st.composite
def cases(draw, mode):
    items = draw(gen.sequences(mx=40))
    n = len(seq_values(items))
    w = draw(st.one_of(gen.exact_weight_lists(n), gen.weight_lists(n), st.none()))
    if w is not None and draw(st.booleans()):
        w[draw(st.sampled_from([0, n - 1]))] = 0
        if not any(w):
            w[n // 2] = 1
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), st.integers(0, n)),
        st.tuples(st.just('many'), st.sampled_from([1, n, n // 3]))), min_size=1,
        max_size=8))
    return items, w, mode, ops, draw(st.integers(0, 2 ** 32)), draw(st.booleans())


def check(case, obs):
    from fauxdoc.emitters import Choice
    items, w, mode, ops, seed, cum = case
    seq, values = make_seq(items), seq_values(items)
    em = Choice(seq, rng_seed=1, replace_only_after_call=mode == 'roac')
    em.rng = Extreme(seed)
    if mode == 'norep':
        em.replace = False
    if w is not None:
        if cum:
            em.cum_weights = gen.cum(w)
            # what counts are the weights that result
            w = list(em.weights)
        else:
            em.weights = w
    model = ChoiceModel(values, w, mode != 'norep', mode == 'roac')
    for i, op in enumerate(ops):
        emit(em, model, op, 'op %d %r' % (i, op))
    obs.interesting(len(values) > 1)
    obs.tag('weights' if w else 'no weights')


@st.composite
def shuffle_cases(draw):
    items = draw(gen.sequences(mx=60))
    n = len(seq_values(items))
    return (items, draw(st.one_of(gen.weight_lists(n, tiny=True), gen.exact_weight_lists(n))),
            draw(st.one_of(st.none(), st.integers(0, n), st.integers(0, n * 2 // 5))),
            draw(st.integers(0, 2 ** 32)))


def check_shuffle(case, obs):
    from fauxdoc.mathtools import weighted_shuffle
    items, w, number, seed = case
    seq, values = make_seq(items), seq_values(items)
    n = len(values)
    k = n if number is None else number
    got = weighted_shuffle(seq, w, Extreme(seed), number)
    again = weighted_shuffle(seq, w, Extreme(seed), number)
    eq(len(got), k, 'number of items')
    eq(list(map(key, got)), list(map(key, again)), 'result from equal rng states')
    ChoiceModel(values, w, False, False).accept(got, False, 'weighted_shuffle(%r, %r, '
                                                'number=%r)' % (seq, w, number))
    obs.interesting(n > 1 and k > 0)
