from hypothesis import strategies as st

from .. import forms, gen, trees
from ..core import Sub, Violation, req

PROP = 'C01'
RULE = ('Random compositions (up to four levels) of all built-in emitters over item '
        'sequences of seven kinds, random mixes of single calls and calls with n from 0 to '
        '300, resets and reseedings; results judged against what each composition can '
        'emit; a twin whose returned lists are left alone must go on the same way. '
        'Non-trivial: at least two emitting calls, one of them with n.')
ASSUMPTIONS = ['Aliasing concerns the returned outer list; a mutable item that is emitted '
               'is the same object as the item.']


@st.composite
def cases(draw):
    spec = draw(trees.trees)
    ops = draw(trees.histories(2, 9, draw(st.sampled_from([20, 40, 100, 300]))))
    ops = draw(trees.brimming(spec, ops))
    return spec, draw(st.integers(0, 99)), ops, draw(st.booleans())


JUNK = object()


def wreck(lst, k):
    if k == 0:
        lst.clear()
    elif k == 1:
        lst.reverse()
        lst.append(JUNK)
    else:
        lst[:] = [JUNK] * (len(lst) + 1)


def check(case, obs):
    spec, seed, ops, share = case
    pool = {} if share else None
    b, b2 = trees.Builder(pool), trees.Builder(pool)
    em, twin = b.target(spec), b2.target(spec)
    can = trees.Can()
    for t in (em, twin):
        if t.seedable():
            t.seed(seed)
            t.reset()
    returned = []
    calls = multi = 0
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        got = em.run(op)
        other = twin.run(op)
        if op[0] in ('reset', 'seed') or (type(got) is str and got == 'skipped'):
            continue
        calls += 1
        vals = [got]
        if op[0] == 'many':
            n = op[1]
            req(type(got) is list, '%s: gave a %s', what, type(got).__name__)
            req(len(got) == n, '%s: gave %d values', what, len(got))
            req(all(got is not old for old in returned), '%s: not a new list', what)
            req(all(got is not o for o, _, _ in b.inputs), '%s: returned an input', what)
            vals = got
            multi += n != 1
            obs.tag('n=0' if n == 0 else 'n=1' if n == 1 else 'n<20' if n < 20 else 'n>=20')
        for v in vals:
            req(can(spec, v), '%s: emitted %.300r, which it cannot emit', what, v)
        req(repr(got) == repr(other), '%s: emitted %.300r, but %.300r where returned lists '
            'were not edited', what, got, other)
        req(b.unchanged(), '%s: an input was changed: %.300r', what,
            [o for o, t, k in b.inputs if repr(o) != t])
        if op[0] == 'many':
            wreck(got, i % 3)
            returned.append(got)
            req(b.unchanged(), '%s: editing the returned list changed an input', what)
    obs.tag(spec[0], 'size %d' % min(trees.size(spec), 5))
    obs.interesting(calls > 1 and multi)


@st.composite
def field_cases(draw):
    return (draw(trees.schemas()), draw(st.integers(0, 99)), draw(st.integers(1, 5)),
            draw(st.lists(st.sampled_from([None, 0, 1, 2, 3, 5, 20]), min_size=1,
                          max_size=5)))


def check_fields(case, obs):
    """CopyFields and BasedOnFields called directly with numbers."""
    from fauxdoc import emitters as E
    spec, seed, docs, calls = case
    both = []
    for _ in range(2):
        schema = trees.Builder().schema(spec, seed)
        schema.seed_fields(seed)
        schema.reset_fields()
        fields = list(schema.fields.values())
        ems = [f.emitter for f in fields if isinstance(f.emitter, (E.CopyFields,
                                                                   E.BasedOnFields))]
        ems += [E.CopyFields(fields), E.CopyFields(fields, ';'), E.CopyFields(fields[0]),
                E.BasedOnFields(fields[0], lambda v: ('based', v))]
        both.append((schema, ems))
    for d in range(docs):
        a, b = both[0][0](), both[1][0]()
        req(repr(a) == repr(b), 'document %d: %.300r and %.300r', d, a, b)
        for k, (em, twin) in enumerate(zip(both[0][1], both[1][1])):
            for n in calls:
                what = 'document %d, %s %d called with %r' % (d, type(em).__name__, k, n)
                got, other = (forms.ask(em, n), forms.again(twin, n))
                req(repr(got) == repr(other), '%s: %.300r where returned lists were edited, '
                    '%.300r where not', what, got, other)
                if n is not None:
                    req(type(got) is list and len(got) == n, '%s: gave %.300r', what, got)
                    wreck(got, (d + k) % 3)
    obs.interesting(len([n for n in calls if n != 1]) > 1)
    obs.tag('%d fields' % len(spec[1]))


BIG = ['choice', 'weighted', 'cum', 'roac', 'norep', 'weighted-roac', 'weighted-norep', 'chance',
       'static', 'seq', 'seq-again', 'iter', 'iter-again', 'word', 'text', 'one', 'many',
       'copy', 'based']


@st.composite
def big_cases(draw):
    return (draw(st.sampled_from(BIG)), draw(gen.vast(20000)),
            draw(st.lists(st.one_of(gen.vast(20000), st.integers(0, 3), st.none()),
                          min_size=1, max_size=3)), draw(st.integers(0, 99)))


def check_big(case, obs):
    """Calls for very many values; n values mean n values."""
    import itertools
    from fauxdoc import emitters as E
    from fauxdoc.profile import Field
    kind, size, calls, seed = case
    nums = range(size)
    w = [1 + i % 3 for i in nums]
    letters = E.Choice('abc', rng_seed=1)
    limit = total = None
    field = Field('f', E.Static('x'))
    field()
    if kind in ('roac', 'weighted-roac'):
        limit = size
    elif kind in ('norep', 'weighted-norep'):
        total = size
    em = {
        'choice': lambda: E.Choice(nums, rng_seed=seed),
        'weighted': lambda: E.Choice(nums, w, rng_seed=seed),
        'cum': lambda: E.Choice(nums, cum_weights=range(1, size + 1), rng_seed=seed),
        'roac': lambda: E.Choice(nums, replace_only_after_call=True, rng_seed=seed),
        'norep': lambda: E.Choice(nums, replace=False, rng_seed=seed),
        'weighted-roac': lambda: E.Choice(nums, w, replace_only_after_call=True,
                                          rng_seed=seed),
        'weighted-norep': lambda: E.Choice(nums, w, replace=False, rng_seed=seed),
        'chance': lambda: E.chance(.5, rng_seed=seed), 'static': lambda: E.Static(5),
        'seq': lambda: E.Sequential(nums),
        'seq-again': lambda: E.Sequential(nums, reset_after_call=True),
        'iter': lambda: E.Iterative(lambda: iter(nums)),
        'iter-again': lambda: E.Iterative(itertools.count, True),
        'word': lambda: E.Word(E.Choice([1, 2], rng_seed=2), letters, rng_seed=seed),
        'text': lambda: E.Text(E.Choice([0, 1, 3], rng_seed=2), letters, rng_seed=seed),
        'one': lambda: E.WrapOne(letters, lambda v, rng: v, rng_seed=seed),
        'many': lambda: E.WrapMany({'a': letters, 'b': E.Sequential(nums)},
                                   lambda a, b: (a, b), rng_seed=seed),
        'copy': lambda: E.CopyFields(field), 'based': lambda: E.BasedOnFields(field, str),
    }[kind]()
    ok = {'chance': lambda v: type(v) is bool, 'static': lambda v: v == 5,
          'iter-again': lambda v: 0 <= v < 140001, 'copy': lambda v: v == 'x',
          'word': lambda v: 1 <= len(v) <= 2 and set(v) <= set('abc'),
          'text': lambda v: len(v) in (0, 1, 5) and set(v) <= set('abc '),
          'one': lambda v: v in 'abc', 'based': lambda v: v == 'x',
          'many': lambda v: v[0] in 'abc' and v[1] in nums,
          }.get(kind, lambda v: v in nums)
    for n in calls:
        k = 1 if n is None else n
        if (limit is not None and k > limit) or (total is not None and k > total):
            k = n = limit if total is None else total
        if total is not None:
            total -= k
        got = forms.ask(em, n)
        if n is not None:
            req(type(got) is list and len(got) == n, '%s called with %d gave %d values',
                kind, n, len(got))
        else:
            got = [got]
        for v in got:
            req(ok(v), '%s called with %r: emitted %.200r, which it cannot emit', kind, n, v)
    obs.interesting()
    obs.tag(kind)


SUBS = [Sub('trees', cases, check, 4000),
        Sub('fromfields', field_cases, check_fields, 1200),
        Sub('big', big_cases, check_big, 400, 4000)]
