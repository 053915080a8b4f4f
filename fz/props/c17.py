from hypothesis import strategies as st

from .. import bigdocs, forms
from ..core import Sub, eq, raises, req
from ..rec import LIVE_KINDS, Recorder, Stream, change, live_source

PROP = 'C17'
RULE = ('Random word counts (with zeros), word lists and separators (including default, '
        'empty and long ones), from replaying emitters, user-written emitters and random '
        'Choice/Word emitters behind recorders, with random mixes of single calls, list '
        'calls, resets and reseeding; every text is compared with the next stretch of the '
        'three streams. Non-trivial: at least two texts and at least one with two or more '
        'words.')

counts = st.lists(st.one_of(st.integers(0, 3), st.integers(0, 9), st.integers(0, 3),
                            st.sampled_from([33, 65, 300])), min_size=1, max_size=7)
words = st.one_of(
    st.lists(st.sampled_from(['ab', 'c', 'def', 'G', '\u00e9t\u00e9', '', 'w x']),
             min_size=1, max_size=8),
    st.integers(1, 12).map(lambda n: ['w%d' % i for i in range(n)]))
seps = st.one_of(st.none(), st.lists(st.sampled_from([' ', ', ', '-', '', '; ', '  ']),
                                     min_size=1, max_size=6))
ops_st = st.lists(st.one_of(
    st.just(('one',)), st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 7)),
    st.tuples(st.just('many'), st.sampled_from([60, 130, 300, 1100])),
    st.tuples(st.just('many'), st.integers(1, 4)), st.just(('reset',)),
    st.tuples(st.just('counts'), counts), st.tuples(st.just('words'), words),
    st.tuples(st.just('seps'), seps.filter(lambda v: v is not None)),
    st.tuples(st.just('swap'), st.sampled_from(LIVE_KINDS), st.one_of(
        st.tuples(st.just(0), counts), st.tuples(st.just(1), words),
        st.tuples(st.just(2), seps.filter(lambda v: v is not None))))),
    min_size=1, max_size=14)


def render(n, mw, ms):
    parts = []
    for i in range(n):
        if i:
            parts.append(ms.one())
        parts.append(mw.one())
    return ''.join(parts)


@st.composite
def stream_cases(draw):
    return ([draw(st.sampled_from(LIVE_KINDS)) for _ in range(3)], draw(counts),
            draw(words), draw(seps), draw(st.one_of(st.none(), st.integers(0, 9))),
            draw(ops_st))


def check_stream(case, obs):
    from fauxdoc.emitters import Text
    kinds, cnts, wlist, slist, seed, ops = case
    ne, mn = live_source(kinds[0], cnts)
    we, mw = live_source(kinds[1], wlist)
    se = None
    if slist is None:
        em = forms.make(Text, numwords_emitter=ne, word_emitter=we, rng_seed=seed)
        ms = Stream([' '])
        obs.tag('default separator')
    else:
        se, ms = live_source(kinds[2], slist)
        em = forms.make(Text, numwords_emitter=ne, word_emitter=we, sep_emitter=se,
                        rng_seed=seed)
        req(em.sep_emitter is se, 'sep_emitter is not the one given')
    ntexts = 0
    long = False
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] == 'reset':
            em.reset()
            for m in (mn, mw, ms):
                m.reset()
            obs.tag('reset')
            continue
        if op[0] in ('counts', 'words', 'seps'):
            part = {'counts': (kinds[0], ne, mn), 'words': (kinds[1], we, mw),
                    'seps': (kinds[2], se, ms)}[op[0]]
            if part[1] is not None:
                change(*part, op[1])
                obs.tag('changed ' + op[0])
            continue
        if op[0] == 'swap':
            # another emitter in the place of one, through the public map
            kind, (which, vals) = op[1:]
            old = (ne, we, em.sep_emitter)[which]
            new, stream = live_source(kind, vals)
            label, = [k for k, v in em.emitters.items() if v is old]
            em.emitters[label] = new
            kinds = kinds[:which] + [kind] + kinds[which + 1:]
            if which == 0:
                ne, mn = new, stream
            elif which == 1:
                we, mw = new, stream
            else:
                se, ms = new, stream
            obs.tag('swapped')
            continue
        k = 1 if op[0] == 'one' else op[1]
        ns = mn.many(k)
        want = [render(n, mw, ms) for n in ns]
        if op[0] == 'one':
            eq(forms.ask(em), want[0], what)
        else:
            eq(forms.ask(em, k), want, what)
        ntexts += k
        long = long or any(n > 1 for n in ns)
        if 0 in ns:
            obs.tag('zero words')
            if k > 1 and any(ns):
                obs.tag('zero words among others')
    req(em.numwords_emitter is ne and em.word_emitter is we,
        'numwords_emitter/word_emitter are not the ones given')
    obs.interesting(ntexts > 1 and long)


@st.composite
def random_cases(draw):
    cnts = draw(st.lists(st.integers(0, 6), min_size=1, max_size=5))
    kind = draw(st.sampled_from(['choice', 'word', 'text']))
    wlist = draw(st.integers(1, 6).map(lambda n: ['w%d' % i for i in range(n)]))
    slist = draw(st.one_of(st.none(), st.lists(st.sampled_from([' ', ', ', '-', '']),
                                               min_size=1, max_size=4)))
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 6)),
        st.tuples(st.just('many'), st.sampled_from([20, 50, 150])),
        st.just(('reset',)), st.tuples(st.just('seed'), st.one_of(st.none(), st.integers(0, 99)))),
        min_size=1, max_size=10))
    return cnts, kind, wlist, slist, draw(st.integers(0, 99)), ops


def check_random(case, obs):
    from fauxdoc.emitters import Choice, Static, Text, Word
    cnts, kind, wlist, slist, seed, ops = case
    obs.tag(kind)

    def build(s):
        if kind == 'choice':
            we = Choice(wlist)
        elif kind == 'word':
            we = Word(Choice([0, 1, 2, 3]), Choice('abcd'))
        else:
            we = Text(Choice([0, 1, 2]), Choice(wlist), Choice(['.', ':']))
        se = None if slist is None else Recorder(Choice(slist))
        return Text(Recorder(Choice(cnts)), Recorder(we), se, rng_seed=s)
    em = build(seed)
    twin = build(seed)
    ntexts, long = 0, False
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] == 'reset':
            em.reset()
            twin = build(seed)
            obs.tag('reset')
            continue
        if op[0] == 'seed':
            seed = seed if op[1] is None else op[1]
            em.seed(seed)
            twin = build(seed)
            obs.tag('seed')
            continue
        ne, we = em.numwords_emitter, em.word_emitter
        se = em.sep_emitter
        del ne.out[:], we.out[:]
        if slist is not None:
            del se.out[:]
        got = forms.values(em, None if op[0] == 'one' else op[1])
        eq(len(got), 1 if op[0] == 'one' else op[1], what + ': number of texts')
        eq(len(ne.out), len(got), what + ': word counts drawn')
        eq(len(we.out), sum(ne.out), what + ': words drawn')
        gaps = sum(max(0, n - 1) for n in ne.out)
        if slist is None:
            ms = Stream([' '])
        else:
            eq(len(se.out), gaps, what + ': separators drawn')
            ms = Stream(se.out or [''])
        mw = Stream(we.out or [''])
        for t, n in zip(got, ne.out):
            eq(t, render(n, mw, ms), what + ': a text of %d words' % n)
        eq(forms.values_again(twin, None if op[0] == 'one' else op[1]), got,
           what + ': a Text newly built with seed %r, compared' % seed)
        ntexts += len(got)
        long = long or any(n > 1 for n in ne.out)
    obs.interesting(ntexts > 1 and long)


SUBS = [
    Sub('streams', stream_cases, check_stream, 4000),
    Sub('random', random_cases, check_random, 2000),
    Sub('big', bigdocs.text_cases, bigdocs.check_text, 240, 3840),
]
