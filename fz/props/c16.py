from hypothesis import strategies as st

from .. import bigdocs, forms
from ..core import Sub, eq, raises, req
from ..rec import LIVE_KINDS, Recorder, change, live_source

PROP = 'C16'
RULE = ('Random length streams (with zeros and repeats) and alphabets (single characters, '
        'longer strings, empty strings, random Choice emitters behind recorders), random '
        'mixes of single calls, list calls, resets and reseeding; each word is compared '
        'with the next stretch of the two streams. Non-trivial: at least two words and at '
        'least one of positive length.')

lengths = st.lists(st.one_of(st.integers(0, 4), st.integers(0, 12), st.integers(0, 4),
                             st.sampled_from([33, 65, 300])),
                   min_size=1, max_size=7)
alpha = st.lists(st.one_of(st.sampled_from(list('abcdefgh')),
                           st.sampled_from(['\u00e9', '\U0001f600', 'xy', 'xyz', ''])),
                 min_size=1, max_size=9)
ops_st = st.lists(st.one_of(
    st.just(('one',)), st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 7)),
    st.tuples(st.just('many'), st.sampled_from([60, 130, 300, 1100])),
    st.tuples(st.just('many'), st.integers(1, 4)), st.just(('reset',)),
    st.tuples(st.just('lengths'), lengths), st.tuples(st.just('alphabet'), alpha),
    st.tuples(st.just('swap'), st.booleans(), st.sampled_from(LIVE_KINDS), lengths, alpha)),
    min_size=1, max_size=14)


@st.composite
def stream_cases(draw):
    return (draw(st.sampled_from(LIVE_KINDS)), draw(lengths),
            draw(st.sampled_from(LIVE_KINDS)), draw(alpha),
            draw(st.one_of(st.none(), st.integers(0, 9))), draw(ops_st))


def check_stream(case, obs):
    from fauxdoc.emitters import Word
    lk, lens, ak, alph, seed, ops = case
    le, ml = live_source(lk, lens)
    ae, ma = live_source(ak, alph)
    em = forms.make(Word, length_emitter=le, alphabet_emitter=ae, rng_seed=seed)

    def next_word():
        return ''.join(ma.many(ml.one()))
    nwords = nchars = 0
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] == 'reset':
            em.reset()
            ml.reset()
            ma.reset()
            obs.tag('reset')
            continue
        if op[0] in ('lengths', 'alphabet'):
            change(*((lk, le, ml) if op[0] == 'lengths' else (ak, ae, ma)), op[1])
            obs.tag('changed ' + op[0])
            continue
        if op[0] == 'swap':
            # another emitter in the place of one, through the public map
            if op[1]:
                lk, old = op[2], le
                new, stream = le, ml = live_source(lk, op[3])
            else:
                ak, old = op[2], ae
                new, stream = ae, ma = live_source(ak, op[4])
            label, = [k for k, v in em.emitters.items() if v is old]
            em.emitters[label] = new
            obs.tag('swapped')
            continue
        want = [next_word() for _ in range(1 if op[0] == 'one' else op[1])]
        if op[0] == 'one':
            eq(forms.ask(em), want[0], what)
        else:
            eq(forms.ask(em, op[1]), want, what)
        nwords += len(want)
        nchars += sum(map(len, want))
        if '' in want:
            obs.tag('zero-length word')
    req(em.length_emitter is le and em.alphabet_emitter is ae,
        'length_emitter/alphabet_emitter are not the ones given')
    obs.interesting(nwords > 1 and nchars)


@st.composite
def random_cases(draw):
    lens = draw(st.lists(st.integers(0, 6), min_size=1, max_size=5))
    alph = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'd', 'e', 'xy', '\u00e9']),
                         min_size=1, max_size=7))
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 6)),
        st.tuples(st.just('many'), st.sampled_from([20, 50, 150, 400])),
        st.just(('reset',)), st.tuples(st.just('seed'), st.one_of(st.none(), st.integers(0, 99)))),
        min_size=1, max_size=10))
    return lens, alph, draw(st.integers(0, 99)), ops


def check_random(case, obs):
    """Random children: words are cut from what the children emitted."""
    from fauxdoc.emitters import Choice, Word
    lens, alph, seed, ops = case

    def build(s):
        return Word(Recorder(Choice(lens)), Recorder(Choice(alph)), rng_seed=s)
    em = build(seed)
    twin = build(seed)      # rebuilt at every reset/seed, so starts from scratch
    words = 0
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] == 'reset':
            em.reset()
            twin = build(seed)
            obs.tag('reset')
            continue
        if op[0] == 'seed':
            seed = seed if op[1] is None else op[1]
            em.seed(seed)
            twin = build(seed)
            obs.tag('seed')
            continue
        le, ae = em.length_emitter, em.alphabet_emitter
        del le.out[:]
        del ae.out[:]
        got = forms.values(em, None if op[0] == 'one' else op[1])
        words += len(got)
        eq(len(got), 1 if op[0] == 'one' else op[1], what + ': number of words')
        eq(len(le.out), len(got), what + ': lengths drawn')
        eq(len(ae.out), sum(le.out), what + ': characters drawn')
        at = 0
        for w, n in zip(got, le.out):
            eq(w, ''.join(ae.out[at:at + n]), what + ': a word of length %d' % n)
            at += n
        eq(forms.values_again(twin, None if op[0] == 'one' else op[1]), got,
           what + ': a Word newly built with seed %r, compared' % seed)
    obs.interesting(words > 1)


SUBS = [
    Sub('streams', stream_cases, check_stream, 4000),
    Sub('random', random_cases, check_random, 2400),
    Sub('big', bigdocs.text_cases, bigdocs.check_word, 240, 3840),
]
