from hypothesis import strategies as st

from .. import bigchoice, edges, forms, gen
from ..choicemodel import build_choice, distinct_count, emit, model_choice
from ..core import Sub, eq, raises, req
from ..gen import seq_values

PROP = 'C06'
RULE = ('Random item sequences (up to 100 items), weights with zeros, and histories of '
        'single calls and list calls of every size from 0 to beyond the number of items, '
        'with resets and reseedings. Non-trivial: at least two items and a list call of '
        'at least two values.')


@st.composite
def cases(draw):
    items = draw(gen.sequences(mx=100))
    n = len(seq_values(items))
    weights, cum = None, False
    if draw(st.integers(0, 2)):
        cum = draw(st.booleans())
        weights = draw(gen.exact_weight_lists(n) if cum else gen.weight_lists(n))
    npos = sum(1 for w in weights or [1] * n if w)
    near = [k for k in (npos - 1, npos, npos + 1, n - 1, n, n + 1, int(n * .42),
                        int(n * .42) + 1) if k >= 0]
    size = st.one_of(st.integers(0, n + 2), st.sampled_from(near))
    spec = {'items': items, 'weights': weights, 'cum': cum,
            'replace': draw(st.booleans()), 'roac': True,
            'seed': draw(gen.int_seeds)}
    wl = st.one_of(st.none(), gen.exact_weight_lists(n))
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), size),
        st.tuples(st.just('many'), size), st.tuples(st.just('many'), size),
        st.just(('reset',)), st.tuples(st.just('seed'), gen.seeds),
        st.tuples(st.just('weights'), wl), st.tuples(st.just('cum'), wl)),
        min_size=1, max_size=12))
    how = draw(st.sampled_from(['init', 'attr', 'attr-from-norep']))
    return spec, ops, how


def check(case, obs):
    spec, ops, how = case
    from .c05 import apply_setting
    if how == 'init':
        em = build_choice(spec)
    else:
        em = build_choice(dict(spec, roac=False, replace=(how == 'attr')))
        if how == 'attr-from-norep':
            em()
        em.replace_only_after_call = True
    model = model_choice(spec)
    eq(bool(em.replace), True, 'replace')
    biggest = 0
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if not apply_setting(em, model, op):
            got = emit(em, model, op, what, obs)
            if got:
                biggest = max(biggest, len(got))
                if len(got) == model.n:
                    obs.tag('all items at once')
        model.check_counts(em, what)
        eq(em.num_unique_items, model.n, what + ': num_unique_items')
        eq(em.num_unique_values, distinct_count(model.values),
           what + ': num_unique_values')
    eq(list(em.items), seq_values(spec['items']), 'items afterwards')
    # still works after refusals
    emit(em, model, ('many', model.n), 'finally all items')
    emit(em, model, ('one',), 'finally one')
    obs.interesting(model.n > 1 and biggest > 1)
    obs.tag('weights' if spec['weights'] else 'no weights', how)
    if spec['weights'] and 0 in spec['weights']:
        obs.tag('zero weights')


@st.composite
def twin_cases(draw):
    n = draw(gen.sizes(2, 60))
    weights = draw(st.one_of(st.none(), gen.weight_lists(n, zeros=False)))
    sizes = st.integers(0, n)
    a = draw(st.lists(sizes, min_size=1, max_size=5))
    pos = draw(st.integers(0, len(a)))
    return n, weights, draw(gen.seeds), a, pos


def check_twin(case, obs):
    """A refused request leaves later calls of a seeded emitter unaffected."""
    n, weights, seed, sizes, pos = case
    spec = {'items': ('range', 0, n, 1), 'weights': weights, 'roac': True, 'seed': seed}
    out = []
    for refuse in (False, True):
        em = build_choice(spec)
        got = []
        for i, k in enumerate(sizes + [None]):
            if refuse and i == pos:
                raises(ValueError, 'too many', forms.ask, em, n + 1 + i)
            got.append(em(k))
        out.append(got)
    eq(out[1], out[0], 'output with a refused request at %d' % pos)
    obs.interesting()


SUBS = [
    Sub('history', cases, check, 4800),
    Sub('refused-twin', twin_cases, check_twin, 1200),
    Sub('edges', edges.cases('roac'), edges.check, 600),
    Sub('big', bigchoice.histories(), bigchoice.check_roac, 240, 4000),
    Sub('vast', bigchoice.histories(140000, mn=6001), bigchoice.check_roac, 24, 400),
]
