from hypothesis import strategies as st

from .. import forms, gen
from ..choicemodel import ChoiceModel, build_choice, emit, model_choice
from ..core import Sub, eq, raises, req
from ..gen import key, seq_values
from .c05 import apply_setting

PROP = 'C07'
RULE = ('Random Choice emitters and random sequences of valid and invalid settings of '
        'weights, cum_weights, replace and replace_only_after_call mixed with emissions; '
        'attributes are compared with a model after every step, and output with a twin '
        'that never saw the refused settings and one given the other kind of weights. Non-trivial: at least two settings, one of '
        'them a weight change or refused.')


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 7), st.sampled_from([20, 30])))
    items = draw(st.sampled_from([('range', 0, n, 1),
                                  ('list', ['i%d' % (i % 3) for i in range(n)])]))
    wl = st.one_of(st.none(), gen.exact_weight_lists(n))
    weights = draw(wl)
    spec = {'items': items, 'weights': weights, 'cum': draw(st.booleans()),
            'replace': draw(st.booleans()), 'roac': draw(st.booleans()),
            'seed': draw(gen.int_seeds)}
    badn = st.integers(0, n + 3).filter(lambda k: k != n)
    bad = badn.flatmap(lambda k: st.lists(st.integers(1, 3), min_size=k, max_size=k))
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), st.integers(0, n)),
        st.tuples(st.just('weights'), wl), st.tuples(st.just('cum'), wl),
        st.tuples(st.just('replace'), st.booleans()),
        st.tuples(st.just('roac'), st.booleans()),
        st.tuples(st.just('bad-weights'), bad),
        st.tuples(st.just('bad-cum'), bad),
        st.tuples(st.sampled_from(['odd-weights', 'odd-cum']),
                  st.sampled_from(['x', None, 'raise']), st.integers(0, n - 1)),
        st.just(('reset',)), st.tuples(st.just('seed'), gen.int_seeds)),
        min_size=2, max_size=14))
    kind = draw(st.sampled_from(['list', 'tuple']))
    return spec, ops, kind


@st.composite
def big_cases(draw):
    n = draw(gen.big(3000))
    k = draw(st.sampled_from([3, 50, n]))
    items = draw(st.sampled_from([('range', 0, n, 1), ('list', ['i%d' % (i % k)
                                                               for i in range(n)])]))
    pats = st.lists(st.sampled_from([0, 1, 2, 5, 0.5]), min_size=2, max_size=6)

    def full(pat):
        w = [pat[i % len(pat)] for i in range(n)]
        return w if any(w) else [1] + w[1:]
    wl = st.one_of(st.none(), pats.map(full), st.just([1] * n))
    bad = st.sampled_from([n - 1, n + 1, n // 2, 0, 2 * n, 64, 256, 1000]).filter(
        lambda k: k != n).map(lambda k: [1] * k)
    spec = {'items': items, 'weights': draw(wl), 'cum': draw(st.booleans()),
            'replace': draw(st.booleans()), 'roac': draw(st.booleans()),
            'seed': draw(gen.int_seeds)}
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), st.integers(0, min(n, 300))),
        st.tuples(st.sampled_from(['weights', 'cum']), wl),
        st.tuples(st.sampled_from(['replace', 'roac']), st.booleans()),
        st.tuples(st.sampled_from(['bad-weights', 'bad-cum']), bad),
        st.just(('reset',)), st.just(('seed', 3))), min_size=1, max_size=5))
    return spec, ops, draw(st.sampled_from(['list', 'tuple']))


class Failing(list):
    """Weights of the right number that can not all be read."""

    def __iter__(self):
        yield from self[:-1]
        raise RuntimeError('no more weights')


def check(case, obs):
    spec, ops, kind = case
    em, model = build_choice(spec), model_choice(spec)
    twin = build_choice(spec)      # sees only the accepted operations
    tmodel = model_choice(spec)
    # gets the same weights in the other form
    dual, dmodel = build_choice(dict(spec, cum=not spec['cum'])), model_choice(spec)
    model.check_settings(em, 'new')
    conv = list if kind == 'list' else tuple
    nset = refused = 0
    for i, op in enumerate(ops):
        what = 'op %d %.200r' % (i, op)
        if op[0] in ('bad-weights', 'bad-cum'):
            w = conv(op[1])
            attr = 'weights' if op[0] == 'bad-weights' else 'cum_weights'
            raises(ValueError, what, setattr, em, attr, w)
            refused += 1
            obs.tag('refused')
            if not op[1]:
                obs.tag('refused empty')
        elif op[0] in ('odd-weights', 'odd-cum'):
            n = model.n
            if n == 1:
                continue        # one text would be its own sum
            w = list(range(1, n + 1))
            if op[1] == 'raise':
                w = Failing(w)
            else:
                w[op[2]] = op[1]
            try:
                if op[0] == 'odd-weights':
                    em.weights = w
                else:
                    em.cum_weights = w
            except Exception:
                refused += 1
                obs.tag('refused in the midst')
            else:
                return          # not refused: nothing is said about these
        elif op[0] in ('weights', 'cum') and op[1] is not None:
            given = op[1] if op[0] == 'weights' else gen.cum(op[1])
            passed = conv(given)
            for e in (em, twin):
                if op[0] == 'weights':
                    e.weights = passed
                else:
                    e.cum_weights = passed
            for m in (model, tmodel, dmodel):
                m.set_weights(op[1])
            if op[0] == 'weights':
                dual.cum_weights = gen.cum(op[1])
            else:
                dual.weights = op[1]
            nset += 1
            if kind == 'list':
                # later changes to the passed list are of no concern
                passed[0] = 1000
                passed.append(5)
            eq(list(given), list(given), '')
        elif op[0] in ('one', 'many'):
            got = emit(em, model, op, what)
            gott = emit(twin, tmodel, op, what + ' (twin)')
            eq(got, gott, what + ': output compared with a twin without refused '
               'settings')
            eq(got, emit(dual, dmodel, op, what + ' (dual)'), what + ': output compared with '
               'a twin given the other kind of weights')
        else:
            apply_setting(em, model, op)
            apply_setting(twin, tmodel, op)
            other = {'weights': 'cum', 'cum': 'weights'}.get(op[0], op[0])
            apply_setting(dual, dmodel, (other,) + op[1:])
            nset += op[0] in ('replace', 'roac', 'weights', 'cum')
        model.check_settings(em, what)
        model.check_counts(em, what)
        req(not (em.replace_only_after_call and not em.replace),
            '%s: replace_only_after_call without replace', what)
    obs.interesting(nset + refused >= 2)


@st.composite
def init_cases(draw):
    n = draw(st.integers(1, 8))
    good = draw(gen.exact_weight_lists(n))
    badn = draw(st.integers(0, n + 2).filter(lambda k: k != n))
    return {'n': n, 'good': good, 'bad': [1] * badn,
            'how': draw(st.sampled_from(['ok-w', 'ok-c', 'bad-w', 'bad-c', 'both',
                                         'both-empty-w', 'both-empty-c', 'mutate-w',
                                         'mutate-c'])),
            'replace': draw(st.booleans()), 'roac': draw(st.booleans()),
            'noun': draw(st.sampled_from(['', 'thing']))}


def check_init(case, obs):
    from fauxdoc.emitters import Choice
    n, good, bad, how = case['n'], case['good'], case['bad'], case['how']
    kw = {'replace': case['replace'], 'replace_only_after_call': case['roac'],
          'noun': case['noun'], 'rng_seed': 1}
    items = list(range(n))
    obs.interesting()
    obs.tag(how)
    if how == 'bad-w':
        raises(ValueError, 'weights %r for %d items' % (bad, n), Choice, items,
               weights=bad, **kw)
    elif how == 'bad-c':
        raises(ValueError, 'cum_weights %r for %d items' % (bad, n), Choice, items,
               cum_weights=bad, **kw)
    elif how.startswith('both'):
        w = [] if how == 'both-empty-w' else good
        c = [] if how == 'both-empty-c' else gen.cum(good)
        raises((TypeError,), 'both kinds of weights', Choice, items, weights=w,
               cum_weights=c, **kw)
    else:
        passed = list(good) if how.endswith('w') else gen.cum(good)
        em = forms.make(Choice, items=items, **{
            'weights' if how.endswith('w') else 'cum_weights': passed}, **kw)
        if how.startswith('mutate'):
            passed[0] += 7
            passed.append(3)
        model = ChoiceModel(items, good, case['replace'], case['roac'])
        model.check_settings(em, how)
        got = forms.ask(em, n)
        model.accept(got, False, how)
        model.check_settings(em, how + ' after emitting')


SUBS = [
    Sub('settings', cases, check, 4500),
    Sub('construction', init_cases, check_init, 600),
    Sub('big', big_cases, check, 120, 1920),
]
