from collections import Counter

from hypothesis import strategies as st

from .. import forms, gen
from ..core import Sub, Violation, eq, req

PROP = 'C18'
RULE = ('Random vocabularies of 1 to 60 distinct words (with or without weights, zero '
        'weights included), random word counts per text from 0 to several times the '
        'vocabulary, random single and list requests, resets, reseeding and weight changes; '
        'the words of each request must form consecutive permutations of the vocabulary. '
        'Non-trivial: the vocabulary has at least two words and a request needs more than '
        'one word.')


@st.composite
def cases(draw):
    v = draw(st.one_of(st.integers(1, 6), st.sampled_from([10, 21, 24, 33, 60])))
    w = draw(st.one_of(st.none(), gen.weight_lists(v)))
    count = draw(st.sampled_from([st.integers(0, 2), st.one_of(
        st.integers(0, 4), st.just(v), st.just(v + 1), st.integers(0, 3 * v))]))
    cnts = draw(st.lists(count, min_size=1, max_size=6))
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 6)),
        st.tuples(st.just('many'), st.sampled_from([1, 2, 12])),
        st.just(('reset',)), st.tuples(st.just('seed'), st.integers(0, 99)),
        st.tuples(st.just('weights'), st.one_of(st.none(), gen.exact_weight_lists(v)))),
        min_size=1, max_size=6))
    return {'v': v, 'w': w, 'counts': cnts,
            'how': draw(st.sampled_from(['init', 'later', 'toggle'])),
            'sep': draw(st.sampled_from([None, '/', '--'])),
            'items': draw(st.sampled_from(['list', 'tuple', 'str'])),
            'seed': draw(st.one_of(st.none(), st.integers(0, 99))), 'ops': ops}


@st.composite
def big_cases(draw):
    case = draw(cases())
    v = draw(gen.big(3000))
    pat = draw(st.one_of(st.none(), st.lists(st.sampled_from([0, 1, 2, 10]), min_size=2,
                                             max_size=5).filter(any)))
    per = draw(st.sampled_from([1, 3, 50, v // 3, v - 1, v, v + 1, 2 * v, 20000]))
    counts = draw(st.lists(st.sampled_from([per, per, per // 2, per + 1, 0, 1]), min_size=1,
                           max_size=4))
    room = 40000 // (max(counts) + 1)
    sizes = st.integers(0, max(1, min(1500, room)))
    ops = draw(st.lists(st.one_of(st.just(('one',)), st.tuples(st.just('many'), sizes),
                                  st.just(('reset',)), st.just(('seed', 3)),
                                  st.just(('weights', None))), min_size=1, max_size=4))
    w = None if pat is None else [pat[i % len(pat)] for i in range(v)]
    if w is not None and not any(w):
        w[0] = 1
    return dict(case, v=v, w=w, counts=counts, ops=ops)


def check(case, obs):
    from fauxdoc.emitters import Choice, Sequential, Static, Text
    v = case['v']
    if case['items'] == 'str':
        vocab = ''.join(chr(0x4e00 + i) for i in range(v))
    else:
        vocab = ['w%d' % i for i in range(v)]
        if case['items'] == 'tuple':
            vocab = tuple(vocab)
    roac0 = case['how'] != 'later'
    we = Choice(vocab, weights=case['w'], replace_only_after_call=roac0)
    if case['how'] == 'toggle':
        we.replace_only_after_call = False
        we.replace_only_after_call = True
    sep = ' ' if case['sep'] is None else case['sep']
    ne = Sequential(case['counts'])
    em = Text(ne, we, None if case['sep'] is None else Static(sep),
              rng_seed=case['seed'])
    if case['how'] == 'later':
        we.replace_only_after_call = True
    pos = 0
    cn = case['counts']
    big = False
    for i, op in enumerate(case['ops']):
        what = 'op %d %r' % (i, op)
        if op[0] == 'reset':
            em.reset()
            pos = 0
            continue
        if op[0] == 'seed':
            em.seed(op[1])
            continue
        if op[0] == 'weights':
            em.word_emitter.weights = op[1]
            continue
        k = 1 if op[0] == 'one' else op[1]
        ns = [cn[(pos + j) % len(cn)] for j in range(k)]
        pos += k
        got = forms.values(em, None if op[0] == 'one' else k)
        eq(len(got), k, what + ': number of texts')
        flat = []
        for t, n in zip(got, ns):
            ws = t.split(sep) if t else []
            eq(len(ws), n, what + ': words in text %.300r' % t)
            flat.extend(ws)
        for at in range(0, len(flat), v):
            block = flat[at:at + v]
            c = Counter(block)
            dup = [x for x, m in c.items() if m > 1]
            req(not dup, '%s: of %d words, %r repeated among words %d..%d although the '
                'list has %d', what, len(flat), dup, at, at + len(block) - 1, v)
            bad = set(c) - set(vocab)
            req(not bad, '%s: words %r are not in the list', what, bad)
        if len(flat) > v:
            obs.tag('more words than the list has')
        elif len(flat) == v:
            obs.tag('exactly the list')
        elif k > 1 and len(flat) > 1:
            obs.tag('several texts within the list')
        big = big or len(flat) > 1
    obs.interesting(v > 1 and big)


SUBS = [Sub('blocks', cases, check, 4500), Sub('big', big_cases, check, 160, 2560)]
