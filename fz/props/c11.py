import datetime as dt

from hypothesis import strategies as st

from .. import forms, gen
from ..core import Sub, eq, raises, req
from ..gen import make_seq, seq_values

PROP = 'C11'
RULE = ('Random sources (lists, tuples, strings, ranges, date ranges, groups, generator '
        'factories; falsy and unhashable values) and histories of single/list calls, '
        'resets, reset_after_call switches and valid or refused factory replacements, '
        'compared with a list-and-position model. Non-trivial: at least two emissions of '
        'a source with at least two values, or a Static value change between emissions.')

def same(got, want, what):
    eq([gen.key(v) for v in got], [gen.key(v) for v in want], what)


def factory(fspec):
    """fspec: (kind, seq spec)."""
    kind, spec = fspec
    seq = make_seq(spec)
    if kind == 'iter':
        return lambda: iter(seq)
    if kind == 'gen':
        return lambda: (x for x in seq)
    if kind == 'map':
        return lambda: map(lambda x: x, seq)
    if kind == 'def':
        def fac():
            for x in seq:
                yield x
        return fac
    raise ValueError(kind)


@st.composite
def seq_specs(draw):
    return draw(st.one_of(gen.sequences(mx=12), gen.sequences(mx=4),
                          st.just(('list', [None])), st.just(('list', [0, None, ''])),
                          st.just(('str', 'ab'))))


iter_kinds = st.sampled_from(['iter', 'gen', 'map', 'def'])


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(['Iterative', 'Sequential']))
    spec = draw(seq_specs())
    fspec = ('iter' if cls == 'Sequential' else draw(iter_kinds), spec)
    rac = draw(st.booleans())
    n = len(seq_values(spec))
    # list iterators have a length hint everywhere; ranges, strings, tuples too
    newspec = gen.sequences(mx=8).filter(lambda s: s[0] not in ('group', 'dtr'))
    fkind = st.just('iter') if cls == 'Sequential' else iter_kinds
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.just(('one',)),
        st.tuples(st.just('many'), st.integers(0, 2 * n + 2)),
        st.tuples(st.just('many'), st.integers(0, 3)),
        st.just(('reset',)), st.tuples(st.just('rac'), st.booleans()),
        st.tuples(st.just('fac'), st.tuples(fkind, newspec)),
        st.just(('samefac',)), st.just(('next',)),
        st.tuples(st.just('badfac'), st.sampled_from(['empty', 'emptygen', 'notseq']))),
        min_size=1, max_size=14))
    return cls, fspec, rac, ops


def check(case, obs):
    from fauxdoc.emitters import Iterative, Sequential
    cls, fspec, rac, ops = case
    vals = seq_values(fspec[1])
    if cls == 'Iterative':
        em = forms.make(Iterative, iterator_factory=factory(fspec), reset_after_call=rac)
    else:
        em = forms.make(Sequential, items=make_seq(fspec[1]), reset_after_call=rac)
    pos = 0
    emissions = 0
    unsized = fspec[1][0] in ('group', 'dtr')

    def emitted(k):
        return [vals[(pos + i) % len(vals)] for i in range(k)]
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] in ('one', 'many'):
            k = 1 if op[0] == 'one' else op[1]
            want = emitted(k)
            if op[0] == 'one':
                got = [forms.ask(em)]
            else:
                got = forms.ask(em, k)
                req(type(got) is list, '%s: not a list: %r', what, got)
            same(got, want, what)
            if pos + k > len(vals):
                obs.tag('wrapped')
            pos = 0 if rac else (pos + k) % len(vals)
            emissions += k
        elif op[0] == 'reset':
            em.reset()
            pos = 0
        elif op[0] == 'rac':
            em.reset_after_call = rac = op[1]
            obs.tag('switched reset_after_call')
        elif op[0] == 'fac':
            fac = factory(op[1])
            em.iterator_factory = fac
            req(em.iterator_factory is fac, '%s: iterator_factory is another', what)
            unsized = False
            vals = seq_values(op[1][1])
            pos = 0
            obs.tag('replaced factory')
        elif op[0] == 'next':
            # the active iterator is public
            same([next(em.iterator)], emitted(1), what + ': next of iterator')
            pos = (pos + 1) % len(vals)
        elif op[0] == 'samefac':
            if cls == 'Sequential' and unsized:
                continue  # its setter wants iterators with a length hint
            em.iterator_factory = em.iterator_factory
            if pos:
                obs.tag('same factory again')
            pos = 0
        elif op[0] == 'badfac':
            if op[1] == 'notseq':
                if cls == 'Iterative':
                    continue
                raises(ValueError, what, setattr, em, 'iterator_factory',
                       lambda: (x for x in [1, 2]))
            else:
                fac = ((lambda: iter([])) if op[1] == 'empty'
                       else (lambda: (x for x in ())))
                raises(ValueError, what, setattr, em, 'iterator_factory', fac)
            obs.tag('refused factory')
        if cls == 'Sequential':
            same(list(em.items), vals, what + ': items')
    want = emitted(len(vals) + 1)
    same(em(len(vals) + 1), want, 'final full round')
    em.reset()
    pos = 0
    same([em()], emitted(1), 'first value after reset')
    obs.interesting(len(vals) > 1 and emissions > 1)
    obs.tag(cls)


@st.composite
def static_cases(draw):
    val = gen.mixed
    v0 = draw(val)
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 5)),
        st.just(('reset',)), st.tuples(st.just('value'), val)),
        min_size=1, max_size=8))
    return v0, ops


def check_static(case, obs):
    from fauxdoc.emitters import Static
    v, ops = case
    em = Static(v)
    nset = nem = 0
    for i, op in enumerate(ops):
        what = 'op %d %r' % (i, op)
        if op[0] == 'one':
            same([em()], [v], what)
            nem += 1
        elif op[0] == 'many':
            same(em(op[1]), [v] * op[1], what)
            nem += 1
        elif op[0] == 'reset':
            em.reset()
        else:
            v = op[1]
            em.value = v
            nset += 1
        same([em.value], [v], what + ': value')
        same(list(em.items), [v], what + ': items')
        eq(em.num_unique_values, 1, what + ': num_unique_values')
        eq(em.emits_unique_values, False, what + ': emits_unique_values')
    obs.interesting(nset and nem)


@st.composite
def refuse_cases(draw):
    return draw(st.sampled_from(['list', 'tuple', 'str', 'range', 'iter', 'gen', 'group',
                                 'dtr'])), draw(st.booleans())


def check_refuse(case, obs):
    from fauxdoc.dtrange import DateOrTimeRange
    from fauxdoc.emitters import Iterative, Sequential
    from fauxdoc.group import ObjectGroup
    kind, rac = case
    obs.interesting()
    obs.tag(kind)
    if kind in ('iter', 'gen'):
        raises(ValueError, 'empty ' + kind, Iterative,
               (lambda: iter([])) if kind == 'iter' else (lambda: (x for x in '')), rac)
        return
    empty = {'list': [], 'tuple': (), 'str': '', 'range': range(0),
             'group': ObjectGroup(),
             'dtr': DateOrTimeRange(dt.date(2000, 1, 1), 0, dt.timedelta(1))}[kind]
    raises(ValueError, 'empty ' + kind, Sequential, empty, rac)


@st.composite
def infinite_cases(draw):
    a, s = draw(st.integers(-5, 5)), draw(st.sampled_from([1, -2, 3]))
    ops = draw(st.lists(st.one_of(
        st.just(None), st.integers(0, 40), st.just('reset')), min_size=2, max_size=10))
    return a, s, draw(st.booleans()), ops


def check_infinite(case, obs):
    """Endless and lazily produced sources are read no further than needed."""
    import itertools
    from fauxdoc.emitters import Iterative
    a, s, rac, ops = case
    em = Iterative(lambda: itertools.count(a, s), reset_after_call=rac)
    pos = 0
    for op in ops:
        if op == 'reset':
            em.reset()
            pos = 0
            continue
        k = 1 if op is None else op
        got = forms.values(em, op)
        eq(got, [a + s * (pos + i) for i in range(k)], 'values from %d' % pos)
        pos = 0 if rac else pos + k
    eq(em.num_unique_values, None, 'num_unique_values of an unknowable source')
    obs.interesting()


@st.composite
def big_cases(draw):
    n = draw(gen.vast(20000))
    ops = draw(st.lists(st.one_of(
        gen.vast(20000), st.just(n), st.just(n - 1), st.just(n + 1), st.none(),
        st.tuples(st.just('singles'), st.integers(100, 3000)), st.just('reset')),
        min_size=1, max_size=4))
    return (draw(st.sampled_from(['Sequential', 'Iterative', 'gen'])), n, draw(st.booleans()),
            ops, draw(st.sampled_from(['range', 'list', 'str'])))


def check_big(case, obs):
    """Long sources, long lists, very many calls."""
    from fauxdoc.emitters import Iterative, Sequential
    kind, n, rac, ops, how = case
    vals = {'range': range(n), 'list': ['v%d' % i for i in range(n)],
            'str': ''.join(chr(0x4e00 + i) for i in range(n))}[how]
    if kind == 'Sequential':
        em = forms.make(Sequential, items=vals, reset_after_call=rac)
    else:
        em = Iterative((lambda: iter(vals)) if kind == 'Iterative' else
                       (lambda: (v for v in vals)), rac)
    pos = 0
    for op in ops:
        if op == 'reset':
            em.reset()
            pos = 0
            continue
        singles = op is None or type(op) is tuple
        k = 1 if op is None else op[1] if singles else op
        got = [em() for _ in range(k)] if singles else em(k)
        eq(len(got), k, 'number of values')
        for i, v in enumerate(got):
            want = vals[0] if rac and singles else vals[(pos + i) % n]
            if v != want:
                eq(v, want, 'value %d of %r from position %d of %d' % (i, op, pos, n))
        pos = 0 if rac else (pos + k) % n
    obs.interesting()
    obs.tag(kind, how, 'starts over' if rac else 'goes on')


@st.composite
def round_cases(draw):
    sizes = draw(st.lists(st.integers(1, 5), min_size=1, max_size=4))
    ops = draw(st.lists(st.one_of(
        st.none(), st.none(), st.integers(0, 12), st.just('reset'), st.just('rac'),
        st.just('next')), min_size=2, max_size=12))
    return sizes, draw(st.booleans()), ops


def check_rounds(case, obs):
    """Each round replays what its own iterator gives, however the rounds differ."""
    from fauxdoc.emitters import Iterative
    sizes, rac, ops = case
    made = []

    def fac():
        made.append(0)
        k = len(made)
        return iter([(k, i, sizes[k % len(sizes)]) for i in range(sizes[k % len(sizes)])])
    em = Iterative(fac, reset_after_call=rac)
    last, at = 0, None          # round and place of the value before; None: start anew
    rounds = 0
    for j, op in enumerate(ops):
        if op == 'reset':
            em.reset()
            at = None
            continue
        if op == 'rac':
            em.reset_after_call = rac = not rac
            continue
        got = [next(em.iterator)] if op == 'next' else forms.values(em, op)
        eq(len(got), op if type(op) is int else 1, 'op %d %r: number of values' % (j, op))
        for k, i, size in got:
            if at is None:
                req(k > last and i == 0, 'op %d %r: value %d of iterator %d, expected the '
                    'first one of an iterator later than %d', j, op, i, k, last)
                rounds += 1
            else:
                eq((k, i), (last, at), 'op %d %r: iterator and place' % (j, op))
            last, at = k, i + 1 if i + 1 < size else None
        if rac and op != 'next':
            at = None
    obs.interesting(rounds > 1)


SUBS = [
    Sub('rounds', round_cases, check_rounds, 800),
    Sub('replay', cases, check, 6000),
    Sub('static', static_cases, check_static, 800),
    Sub('refused', refuse_cases, check_refuse, 64),
    Sub('endless', infinite_cases, check_infinite, 800),
    Sub('big', big_cases, check_big, 400, 4000),
]
