from collections import Counter

from hypothesis import strategies as st

from .. import bigchoice, edges, forms, gen
from ..choicemodel import build_choice, emit, model_choice
from ..core import Sub, Violation, eq, raises, req
from ..gen import key, seq_values

PROP = 'C05'
RULE = ('Random item sequences (duplicates, unhashable values, up to 100 items), '
        'weights with zeros, and random histories of single/list emissions (including '
        'requests for more than remains), reset, seed, weight and replacement changes, '
        'compared with a multiset model after every step. Non-trivial: at least two '
        'items and at least two successful emissions without replacement.')


@st.composite
def norep_specs(draw, mx=60):
    items = draw(gen.sequences(mx=mx))
    n = len(seq_values(items))
    weights, cum = None, False
    if draw(st.booleans()):
        cum = draw(st.booleans())
        weights = draw(gen.exact_weight_lists(n) if cum
                       else gen.weight_lists(n, tiny=True))
    return {'items': items, 'weights': weights, 'cum': cum, 'replace': False,
            'roac': False, 'seed': draw(gen.int_seeds)}


@st.composite
def history_cases(draw):
    spec = draw(norep_specs())
    n = len(seq_values(spec['items']))
    wl = st.one_of(st.none(), gen.exact_weight_lists(n))
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.just(('one',)),
        st.tuples(st.just('many'), st.integers(0, n + 2)),
        st.tuples(st.just('many'), st.integers(0, max(1, n // 2))),
        st.tuples(st.just('many'), st.integers(0, max(1, n // 2))),
        st.just(('left', 0)), st.just(('left', 1)), st.just(('left', -1)),
        st.just(('reset',)), st.tuples(st.just('seed'), gen.seeds),
        st.tuples(st.just('weights'), wl), st.tuples(st.just('cum'), wl),
        st.tuples(st.just('replace'), st.booleans()),
        st.tuples(st.just('roac'), st.booleans())), min_size=1, max_size=16))
    return spec, ops


def apply_setting(em, model, op):
    """Applies a setting op to both sides; True if op was one."""
    if op[0] == 'reset':
        em.reset()
        model.refill()
    elif op[0] == 'seed':
        em.seed(op[1])
        model.refill()
    elif op[0] == 'weights':
        em.weights = op[1]
        model.set_weights(op[1])
    elif op[0] == 'cum':
        em.cum_weights = None if op[1] is None else gen.cum(op[1])
        model.set_weights(op[1])
    elif op[0] == 'replace':
        em.replace = op[1]
        model.set_replace(op[1])
    elif op[0] == 'roac':
        em.replace_only_after_call = op[1]
        model.set_roac(op[1])
    else:
        return False
    return True


def check_history(case, obs):
    spec, ops = case
    em, model = build_choice(spec), model_choice(spec)
    model.check_counts(em, 'new')
    emissions = 0
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] == 'left':
            op = ('many', max(0, model.num_items + op[1]))
        if not apply_setting(em, model, op):
            got = emit(em, model, op, what, obs)
            if got and not model.replace:
                emissions += 1
        else:
            obs.tag('setting ' + op[0])
        model.check_counts(em, what)
        model.check_settings(em, what)
    # finally hand out everything that is left, one way or the other
    if not model.replace:
        left = model.num_items
        if left % 2:
            while model.num_items:
                emit(em, model, ('one',), 'draining')
        else:
            emit(em, model, ('many', left), 'draining')
        model.check_counts(em, 'drained')
        raises(ValueError, 'empty emitter', em)
        raises(ValueError, 'empty emitter', em, 1)
        raises(ValueError, 'empty emitter', em, 2)
        eq(em(0), [], 'em(0) on an empty emitter')
        em.reset()
        model.refill()
        emit(em, model, ('many', model.n), 'after final reset')
        model.check_counts(em, 'end')
    eq(list(em.items), seq_values(spec['items']), 'items afterwards')
    obs.interesting(model.n > 1 and emissions > 1)
    if spec['weights'] and 0 in spec['weights']:
        obs.tag('zero weights')
    if model.n > 32:
        obs.tag('many items')


@st.composite
def split_cases(draw):
    spec = draw(norep_specs(mx=100))
    spec['seed'] = draw(gen.seeds)
    n = len(seq_values(spec['items']))
    parts = []
    for _ in range(2):
        left, cut = n, []
        while left:
            c = draw(st.one_of(st.just(None), st.integers(1, left), st.integers(0, 3)))
            size = 1 if c is None else min(c, left)
            cut.append(None if c is None else size)
            left -= size
            if len(cut) > 12 and left:
                cut.append(left)
                left = 0
        parts.append(cut)
    overdraw = draw(st.booleans())
    return spec, parts[0], parts[1], overdraw


def check_split(case, obs):
    """The order a seeded emitter hands items out in ignores call boundaries."""
    spec, a, b, overdraw = case
    seqs = []
    for cut, od in ((a, False), (b, overdraw)):
        em = build_choice(spec)
        got = []
        for c in cut:
            if od:
                raises(ValueError, 'overdraw', forms.ask, em, len(seq_values(spec['items'])) + 1)
                # looking is not taking
                em.num_unique_values, em.num_unique_items, em.emits_unique_values
            if c is None:
                got.append(forms.ask(em))
            else:
                got.extend(forms.ask(em, c))
        seqs.append(got)
    eq(list(map(key, seqs[0])), list(map(key, seqs[1])),
       'order for cuts %r and %r' % (a, b))
    want = Counter(map(key, seq_values(spec['items'])))
    eq(Counter(map(key, seqs[0])), want, 'multiset of all values')
    # reset replays the same order for a seeded emitter
    em.reset()
    eq(list(map(key, em(len(seqs[0])))), list(map(key, seqs[0])), 'order after reset')
    obs.interesting(len(seqs[0]) > 2 and a != b)


SUBS = [
    Sub('history', history_cases, check_history, 4800),
    Sub('split', split_cases, check_split, 2100),
    Sub('edges', edges.cases('norep'), edges.check, 600),
    Sub('big', bigchoice.histories(), bigchoice.check_norep, 240, 4000),
    Sub('vast', bigchoice.histories(140000, mn=6001), bigchoice.check_norep, 24, 400),
]
