import random

from hypothesis import strategies as st

from .. import gen, trees
from ..core import Sub, Violation, eq, req

PROP = 'C02'
RULE = ('Random emitters (up to four levels), fields and schemas, all kinds of seeds, random '
        'histories before and after seeding and resetting; relations between objects that '
        'must behave alike (same seed given in six ways, other inner seeds, other history '
        'before), and between objects that must not (different non-negative seeds, output '
        'of at least 200 bits). Non-trivial: a random object with at least three emitted '
        'values, or a pair of different seeds.')
ASSUMPTIONS = [
    'Objects given no seed at all are not compared.',
    'A single emission and a list of one are not required to draw alike from the '
    'generator; only equal call sequences are compared.']


@st.composite
def cases(draw):
    spec = draw(trees.targets)
    rounds = draw(st.sampled_from([10, 10, 40, 150]))
    return (spec, draw(gen.seeds), draw(gen.seeds),
            draw(trees.brimming(spec, draw(trees.emissions(1, 8, rounds)))),
            draw(trees.brimming(spec, draw(trees.histories(1, 8)))),
            draw(st.integers(0, 99)))


def random_target(spec):
    if spec[0] == 'field':
        return any(trees.is_random(s) for s in spec[1:4] if s)
    if spec[0] == 'schema':
        return any(random_target(f[1]) if f[0] == 'plain' else
                   f[0] == 'based' and f[2] in ('roll', 'mroll') for f in spec[1])
    return trees.is_random(spec)


def governs(spec):
    """Whether the object hands its seed to its parts."""
    return spec[0] in ('word', 'text', 'one', 'many', 'field', 'schema')


def check(case, obs):
    spec, seed, other, ops, before, mark = case

    def build(s=trees.SPEC, sp=spec):
        return trees.Builder().target(sp, s)

    def started(s):
        """A new object that has the seed in the plainest way there is."""
        t = build(s)
        if t.kind == 'schema':
            t.seed(s)
            t.reset()
        return t
    ref = build(seed)
    if not ref.seedable():
        # nothing to seed: reset alone must replay
        first = ref.outputs(ops)
        ref.reset()
        eq(ref.outputs(ops), first, 'output after reset')
        eq(build().outputs(ops), first, 'output of an identically built object')
        obs.tag('not seedable')
        return
    ref = started(seed)
    want = ref.outputs(ops)

    def same(t, how):
        got = t.outputs(ops)
        for i, (a, b) in enumerate(zip(got, want)):
            req(a == b, '%s: output %d of %.60r is %.300s, expected %.300s', how, i, ops[i], a,
                b)
    same(started(seed), 'an identically built object with the same seed')
    t = build(other)
    t.seed(seed)
    if t.kind == 'schema':
        # its parts were reset by being built
        same(t, 'a new schema given the seed by seed_fields')
    else:
        same(t, 'an object built with another seed and then seeded')
    t = build()
    t.seed(seed)
    same(t, 'an object seeded after it was built')
    # reset replays
    ref.reset()
    same(ref, 'after reset')
    ref.outputs([op for op in before if op[0] != 'seed'])
    ref.reset()
    same(ref, 'after more use and a reset')
    # what happened before seeding and resetting does not matter
    t = build(other)
    t.outputs(before)
    t.seed(seed)
    t.reset()
    same(t, 'after use, seed and reset')
    t.outputs(before)
    t.reset()
    t.seed(seed)
    t.reset()
    same(t, 'after use, reset, seed and reset')
    # seeding alone restarts everything random
    if trees.positionless(spec):
        for first_seed, how in ((other, 'another seed'), (seed, 'the same seed')):
            t = build(first_seed)
            if t.kind == 'schema':
                t.seed(first_seed)
            t.outputs([op for op in before if op[0] != 'seed'])
            t.seed(seed)
            t.used = 0          # items without replacement are shuffled anew
            same(t, 'seeded (no reset) after use with ' + how)
        obs.tag('no positions')
    # the seed may also be set as the attribute; reset makes it count
    if t.kind != 'schema':
        t = build(other)
        t.outputs(before)
        t.obj.rng_seed = seed
        t.reset()
        same(t, 'after setting rng_seed and a reset')
        eq(t.obj.rng_seed, seed, 'rng_seed')
    if governs(spec):
        t = build(seed, trees.reseeded(spec, mark))
        if t.kind == 'schema':
            t.seed(seed)
        same(t, 'an object with other seeds in its parts')
        t = build(other, trees.reseeded(spec, mark))
        t.outputs(before)
        t.seed(seed)
        t.reset()
        same(t, 'an object with other seeds in its parts, seeded and reset after use')
        obs.tag('inner seeds')
    rnd = random_target(spec)
    values = sum(1 if op[0] == 'one' or t.kind != 'emitter' else op[1] for op in ops)
    obs.interesting(rnd and values > 2)
    obs.tag(t.kind, 'random' if rnd else 'not random', type(seed).__name__)
    if seed in (0, '', b'', 0.0, False):
        obs.tag('falsy seed')


# ------------------------------------------------------------ different seeds

FAMILIES = ['choice', 'weighted', 'norep', 'roac', 'word', 'text', 'one', 'many', 'field',
            'schema', 'gauss', 'deep', 'based', 'bigword']


def family(name, s):
    """An object with far more than 200 bits in its first 60 outputs."""
    R = ('range', 0, 1000, 1)
    W = [1 + i % 7 for i in range(1000)]
    C = ('choice', R, None, 'rep', None)
    L = ('choice', ('str', 'abcdefghijklmnopqrstuvwxyz'), None, 'rep', None)
    word = ('word', ('choice', ('list', [8, 9]), None, 'rep', None), L, s)
    spec = {
        'choice': ('choice', R, None, 'rep', s), 'weighted': ('choice', R, W, 'rep', s),
        'norep': ('choice', R, None, 'norep', s), 'roac': ('choice', R, W, 'roac', s),
        'word': word, 'text': ('text', ('static', 4), word, None, s),
        'bigword': ('word', ('static', 30), ('choice', ('str', 'ab'), None, 'rep', None), s),
        'one': ('one', C, 'pair', s),
        'many': ('many', [('a', C), ('b', ('static', 1))], 'items', s),
        'field': ('field', C, ('static', 2), None, s),
        'gauss': ('factory', 'gaussian', (R, 500, 200), s),
        'deep': ('one', ('many', [('a', ('text', ('static', 3), word, None, None))], 'items',
                         None), 'same', s),
        'schema': ('schema', [('plain', ('field', C, None, None, s), False)]),
        'based': ('schema', [('plain', ('field', ('static', 'x'), None, None, s), False),
                             ('based', [0], 'roll', False, s)]),
    }[name]
    return spec


texts = st.one_of(st.text(max_size=4), st.sampled_from(['1', '01', ' 1', 'a', 'A', '0']))
nonneg = st.one_of(st.integers(0, 5), st.integers(0, 2 ** 16), st.integers(0, 2 ** 40),
                   st.integers(2 ** 60, 2 ** 130))


@st.composite
def pairs(draw):
    a = draw(nonneg)
    how = draw(st.sampled_from(['any', 'next', 'high', 'bit', 'text']))
    if how == 'next':
        b = a + 1
    elif how == 'high':
        b = a + (1 << draw(st.sampled_from([31, 32, 33, 53, 63, 64, 128])))
    elif how == 'bit':
        b = a ^ (1 << draw(st.integers(0, 70)))
    elif how == 'text':
        a = draw(texts)
        b = draw(texts.filter(lambda x: x != a))
    else:
        b = draw(nonneg.filter(lambda x: x != a))
    if draw(st.booleans()):
        a, b = b, a
    return (draw(st.sampled_from(FAMILIES)), a, b,
            draw(st.sampled_from(['built', 'seeded', 'reseeded', 'attribute'])))


def check_differ(case, obs):
    name, a, b, how = case
    if random.Random(a).getrandbits(99) == random.Random(b).getrandbits(99):
        # e.g. 2 and 2**32 + 2: one and the same seed to random.Random
        obs.tag('not told apart by random.Random')
        return
    ops = [('many', 30), ('one',)] + [('one',)] * 29
    out = []
    for s in (a, b):
        t = trees.Builder().target(family(name, s), s if how == 'built' else 12345)
        if how == 'seeded' or (t.kind == 'schema' and how != 'reseeded'):
            t.seed(s)
        elif how == 'reseeded':
            t.outputs([('many', 3), ('one',)])
            t.seed(s)
            t.reset()
        elif how == 'attribute':
            t.obj.rng_seed = s
            t.reset()
        out.append(t.outputs(ops))
    req(out[0] != out[1], 'seeds %r and %r give the same output', a, b)
    # and not just shifted or partly: at least a tenth of the single outputs differ
    n = sum(x != y for x, y in zip(out[0], out[1]))
    req(n > 3, 'seeds %r and %r differ in %d of %d outputs only', a, b, n, len(ops))
    obs.interesting()
    obs.tag(name, how)


# ------------------------------------------------------------- long sequences

def scaled(name, n, pat):
    R = ('range', 0, n, 1)
    W = [pat[i % len(pat)] for i in range(n)]
    if not any(W):
        W[-1] = 1
    C = ('choice', R, W, 'rep', None)
    words = ('list', ['w%d' % i for i in range(n)])
    long_ = ('choice', ('list', [n // 9, n // 10]), None, 'rep', None)
    word = ('word', ('choice', ('list', [3, 9]), None, 'rep', None),
            ('choice', ('str', 'abcd'), None, 'rep', None), 7)
    return {
        'rep': ('choice', R, W, 'rep', 7), 'norep': ('choice', R, W, 'norep', 7),
        'plain norep': ('choice', R, None, 'norep', 7),
        'roac': ('choice', R, W, 'roac', 7), 'plain roac': ('choice', R, None, 'roac', 7),
        'word': ('word', long_, C[:1] + (('str', 'abcdefgh'), None) + C[3:], 7),
        'text': ('text', long_, word, ('choice', ('list', [' ', '-']), None, 'rep', None), 7),
        'roac text': ('text', long_, ('choice', words, None, 'roac', None), None, 7),
        'one': ('one', ('choice', R, None, 'norep', None), 'roll', 7),
        'many': ('many', [('s%d' % i, C if i % 2 else ('seq', R, False)) for i in range(
            min(40, n // 9))], 'mroll', 7),
        'gauss': ('factory', 'gaussian', (R, n // 2, n // 9), 7),
        'seq': ('one', ('seq', R, False), 'roll', 7),
        'field': ('field', C, ('choice', ('list', [n // 3, 2, None]), None, 'rep', None),
                  None, 7),
        'schema': ('schema', [('plain', ('field', C, None, None, i), False)
                              for i in range(min(n, 60))]),
    }[name]


@st.composite
def long_cases(draw):
    n = draw(st.one_of(gen.big(400), gen.big(4000)))
    name = draw(st.sampled_from(['rep', 'norep', 'plain norep', 'roac', 'plain roac', 'word',
                                 'text', 'roac text', 'one', 'many', 'gauss', 'seq', 'field',
                                 'schema']))
    slow = name in ('text', 'word', 'roac text', 'many', 'schema', 'field')
    counts = st.one_of(st.integers(0, 9), st.integers(0, n), st.just(n),
                       st.just(n // 2)).map(lambda k: min(k, 40) if slow else k)
    ops = st.lists(st.one_of(st.just(('one',)), counts.map(lambda k: ('many', k))),
                   min_size=1, max_size=5)
    rounds = draw(st.sampled_from([1, 1, 30, 300]))
    if slow:
        rounds = min(rounds, 5)
    return (scaled(name, n, draw(st.lists(st.sampled_from([0, 1, 2, 5]), min_size=1,
                                          max_size=4))),
            draw(gen.seeds), draw(gen.seeds), draw(ops) + [('one',)] * rounds,
            draw(ops) + [('one',)] * rounds, draw(st.integers(0, 99)))


# ----------------------------------------------------------- seed/reset_source

@st.composite
def source_cases(draw):
    n = draw(st.integers(1, 3))
    return ([draw(trees.fields(1)) for _ in range(n)],
            draw(st.sampled_from(['copy', 'based'])), draw(gen.seeds), draw(gen.seeds),
            draw(st.integers(0, 5)), draw(st.integers(1, 6)))


def check_sources(case, obs):
    from fauxdoc import emitters as E
    specs, kind, seed, own, before, after = case

    def build(s):
        b = trees.Builder()
        fields = [b.field('f%d' % i, f, s) for i, f in enumerate(specs)]
        if kind == 'copy':
            em = E.CopyFields(list(fields))
        elif len(fields) == 1:
            em = E.BasedOnFields(fields[0], trees._roll, rng_seed=own)
        else:
            em = E.BasedOnFields(fields, trees.many_fn('mroll'), rng_seed=own)
        return fields, em

    def docs(fields, em, n):
        out = []
        for _ in range(n):
            out.append(repr([f() for f in fields] + [em()]))
        return out
    fields, em = build(trees.SPEC)
    docs(fields, em, before)
    if kind == 'copy':
        for f in fields:
            f.seed(seed)
        em.reset_source()
        ref = build(seed)
    else:
        em.seed_source(seed)
        em.reset_source()
        em.reset()
        ref = build(seed)
    first = docs(fields, em, after)
    eq(first, docs(*ref, after), 'documents after reseeding and resetting the sources')
    em.reset_source()
    em.reset()
    eq(docs(fields, em, after), first, 'documents after another reset of the sources')
    obs.tag(kind)
    obs.interesting(any(random_target(f) for f in specs) and after > 1)


@st.composite
def unseed_cases(draw):
    return (draw(st.sampled_from(sorted(UNSEED))), draw(gen.seeds),
            draw(st.lists(st.integers(1, 3), max_size=3)), draw(st.booleans()))


def _unseed(kind, seed):
    from fauxdoc import emitters as e
    from fauxdoc.profile import Field
    many = range(10 ** 12)
    if kind == 'choice':
        return e.Choice(many, rng_seed=seed)
    if kind == 'norep':
        return e.Choice(range(200), replace=False, rng_seed=seed)
    if kind == 'word':
        return e.Word(e.Static(30), e.Choice('abcdefgh'), rng_seed=seed)
    if kind == 'text':
        return e.Text(e.Static(40), e.Choice('abcdefgh'), rng_seed=seed)
    if kind == 'one':
        return e.WrapOne(e.Choice(many), str, rng_seed=seed)
    if kind == 'one rng':
        return e.WrapOne(e.Static(1), lambda v, rng: (v, rng.random()), rng_seed=seed)
    if kind == 'many':
        return e.WrapMany({'a': e.Choice(many)}, lambda a: a, rng_seed=seed)
    f = Field('f', e.Choice(many) if kind == 'field' else e.Static(1), rng_seed=seed)
    if kind == 'field':
        return f
    return e.BasedOnFields(f, lambda v, rng: (v, rng.random()), rng_seed=seed)


UNSEED = {'choice', 'norep', 'word', 'text', 'one', 'one rng', 'many', 'field', 'based'}


def check_unseed(case, obs):
    """Seeding with None takes the seed away."""
    kind, seed, uses, by_attribute = case
    if seed is None:
        return
    em = _unseed(kind, seed)

    def few():
        # all but all of the possible outputs
        return [em() for _ in range(20)]
    first = few()
    em.reset()
    eq(few(), first, 'output after reset')
    for n in uses:
        for _ in range(n):
            em.reset()
            em()
    if by_attribute:
        em.rng_seed = None
    else:
        em.seed(None)
        req(few() != first, 'output is that of the seed after seeding with None')
    eq(em.rng_seed, None, 'rng_seed')
    em.reset()
    a = few()
    em.reset()
    b = few()
    req(a != first and b != first, 'output is that of a seed that was taken away')
    req(a != b, 'reset repeats the output although there is no seed')
    obs.interesting()
    obs.tag(kind)


SUBS = [Sub('unseed', unseed_cases, check_unseed, 300),
        Sub('relations', cases, check, 3200),
        Sub('big', long_cases, check, 160, 2560),
        Sub('different', pairs, check_differ, 1200),
        Sub('sources', source_cases, check_sources, 1000)]
