import itertools
import warnings

from hypothesis import strategies as st

from .. import forms, gen
from ..choicemodel import build_choice, distinct_count, emit, model_choice
from ..core import Sub, Violation, eq, raises, req
from ..gen import key, make_seq, seq_values
from ..rec import Feed, make_source
from .c05 import apply_setting, norep_specs

PROP = 'C19'
RULE = ('Random Choice/Static/Sequential emitters, and Word and Text emitters over small '
        'parts whose emittable strings are enumerated by brute force (or, for large parts, '
        'counted by exact integer arithmetic), unknowable parts, and histories of choices '
        'without replacement with questions in between. Non-trivial: at least two items '
        'or parts with more than one possibility.')
ASSUMPTIONS = ['Exact counts for Word and Text are only required where all parts replace '
               'their items, have positive weights, and different combinations give '
               'different strings; otherwise only an upper bound is required.']


def listish(x):
    return x if isinstance(x, list) else [x]


@st.composite
def fixed_cases(draw):
    cls = draw(st.sampled_from(['Choice', 'Choice', 'Sequential', 'Static', 'roac']))
    items = draw(gen.sequences(mx=40))
    n = len(seq_values(items))
    w = draw(st.one_of(st.none(), gen.weight_lists(n, zeros=False)))
    return cls, items, w, draw(gen.sequences(mx=8).filter(
        lambda s: s[0] not in ('group', 'dtr'))), draw(st.lists(st.one_of(
            st.none(), st.integers(0, 5)), max_size=5))


def check_fixed(case, obs):
    from fauxdoc.emitters import Choice, Sequential, Static
    cls, items, w, items2, calls = case
    vals = seq_values(items)
    if cls in ('Choice', 'roac'):
        em = Choice(make_seq(items), weights=w, replace_only_after_call=cls == 'roac',
                    rng_seed=1)
    elif cls == 'Sequential':
        em = Sequential(make_seq(items))
    else:
        vals = [vals[0]]
        em = Static(vals[0])
    eq(em.num_unique_values, distinct_count(vals), '%s: num_unique_values' % cls)
    seen = []
    for c in calls:
        if c is not None and cls == 'roac':
            c = min(c, len(vals))
        seen.extend(forms.values(em, c))
        eq(em.num_unique_values, distinct_count(vals), '%s: num_unique_values' % cls)
        req(distinct_count(seen) <= em.num_unique_values, 'more distinct values emitted '
            'than claimed: %r', seen)
        if em.emits_unique_values:
            raise Violation('%s over %d items claims never to repeat a value'
                            % (cls, len(vals)))
    if cls == 'Sequential':
        s2 = make_seq(items2)
        em.iterator_factory = lambda: iter(s2)
        eq(em.num_unique_values, distinct_count(seq_values(items2)),
           'num_unique_values with a new iterator_factory')
    elif cls == 'Static':
        em.value = items2
        eq(em.num_unique_values, 1, 'num_unique_values with a new value')
    obs.tag(cls)
    obs.interesting(len(vals) > 1)


@st.composite
def norep_cases(draw):
    spec = draw(norep_specs(mx=20))
    n = len(seq_values(spec['items']))
    ops = draw(st.lists(st.one_of(
        st.just(('one',)), st.just(('one',)),
        st.tuples(st.just('many'), st.integers(0, max(1, n // 2))),
        st.just(('reset',)), st.tuples(st.just('seed'), gen.int_seeds),
        st.tuples(st.just('replace'), st.booleans())), min_size=1, max_size=12))
    return spec, ops


def check_norep(case, obs):
    spec, ops = case
    em, model = build_choice(spec), model_choice(spec)
    quiet = build_choice(spec)      # never asked anything
    qmodel = model_choice(spec)
    since = None                    # values emitted since it claimed uniqueness
    emitted = 0
    for i, op in enumerate(ops):
        forms.stir('Choice Word Text Sequential Static')
        what = 'op %d %r' % (i, op)
        model.check_counts(em, 'before ' + what)
        if em.emits_unique_values and since is None:
            since = []
        if op[0] in ('one', 'many'):
            got = emit(em, model, op, what)
            want = emit(quiet, qmodel, op, what + ' (not asked)')
            eq(got, want, what + ': output of an emitter that was asked about '
               'uniqueness, compared to one that was not')
            if got is not None:
                emitted += len(got)
                if since is not None:
                    since.extend(got)
                    req(distinct_count(since) == len(since), '%s: repeated a value '
                        'although it claimed not to: %r', what, since)
        else:
            apply_setting(em, model, op)
            apply_setting(quiet, qmodel, op)
            since = None
    model.check_counts(em, 'end')
    obs.interesting(model.n > 1 and emitted > 1)
    if distinct_count(model.values) < model.n:
        obs.tag('duplicates')


# ------------------------------------------------------------ Word and Text

@st.composite
def part(draw, values):
    """(kind, values, weights) of a part emitter."""
    kind = draw(st.sampled_from(['choice', 'choice', 'static', 'seq', 'wchoice']))
    if kind == 'static':
        return kind, values[:1], None
    w = None
    if kind == 'wchoice':
        w = draw(gen.weight_lists(len(values), zeros=False))
    return kind, values, w


def build_part(p):
    from fauxdoc.emitters import Choice, Sequential, Static
    kind, values, w = p
    if kind == 'static':
        return Static(values[0])
    if kind == 'seq':
        return Sequential(values)
    return Choice(values, weights=w)


@st.composite
def word_cases(draw):
    lens = draw(st.lists(st.integers(0, 4), min_size=1, max_size=5))
    style = draw(st.sampled_from(['plain', 'plain', 'dups', 'long']))
    if style == 'plain':
        alph = list('abcd'[:draw(st.integers(1, 4))])
    elif style == 'dups':
        alph = draw(st.lists(st.sampled_from('abc'), min_size=1, max_size=6))
    else:
        alph = draw(st.lists(st.sampled_from(['a', 'b', 'aa', 'ab', 'bab', '']),
                             min_size=1, max_size=4))
    return draw(part(lens)), draw(part(alph)), draw(st.integers(0, 99)), draw(
        st.lists(st.one_of(st.none(), st.integers(0, 9)), max_size=5))


def strings(alphabet, n):
    return {''.join(t) for t in itertools.product(sorted(set(alphabet)), repeat=n)}


def observe(em, twin, num, exact, calls, what):
    """Emits from both; twin is never asked; checks num against what comes."""
    seen = set()
    for c in calls:
        got = forms.values(em, c)
        eq(forms.values_again(twin, c), got, what + ': output compared with an '
           'emitter that was not asked')
        seen.update(got)
        eq(em.num_unique_values, num, what + ': num_unique_values after emitting')
        req(num is None or len(seen) <= num, '%s: %d distinct strings emitted but '
            'num_unique_values is %r', what, len(seen), num)
        if em.emits_unique_values:
            req(len(set(got)) == len(got), '%s: repeats despite emits_unique_values', what)
    if exact is not None:
        bad = seen - exact
        if bad:
            raise Violation('%s: emitted %r, not among the possible strings'
                            % (what, sorted(bad)))


def check_word(case, obs):
    from fauxdoc.emitters import Word
    lp, ap, seed, calls = case
    em = Word(build_part(lp), build_part(ap), rng_seed=seed)
    twin = Word(build_part(lp), build_part(ap), rng_seed=seed)
    poss = set()
    for n in set(lp[1]):
        poss |= strings(ap[1], n)
    num = em.num_unique_values
    plain = all(len(c) == 1 for c in ap[1])
    what = 'Word of %r over %r' % (lp, ap)
    if plain and ap[0] != 'seq':
        eq(num, len(poss), what + ': num_unique_values')
        obs.tag('exact')
    else:
        req(num is None or num >= (len(poss) if ap[0] != 'seq' else 1),
            '%s: num_unique_values is %r, but %d strings can be emitted',
            what, num, len(poss))
    observe(em, twin, num, poss, calls, what)
    obs.interesting(len(poss) > 1)
    if len(set(lp[1])) < len(lp[1]):
        obs.tag('repeated lengths')


@st.composite
def text_cases(draw):
    cnts = draw(st.lists(st.integers(0, 3), min_size=1, max_size=4))
    style = draw(st.sampled_from(['plain', 'plain', 'dups', 'odd']))
    if style == 'plain':
        words = ['ab', 'c', 'b'][:draw(st.integers(1, 3))]
    elif style == 'dups':
        words = draw(st.lists(st.sampled_from(['ab', 'a', 'b']), min_size=1, max_size=5))
    else:
        words = draw(st.lists(st.sampled_from(['a', 'a-b', '', 'b', ' ']),
                              min_size=1, max_size=3))
    seps = draw(st.one_of(st.none(), st.lists(st.sampled_from([' ', '-', '--', ' -']),
                                              min_size=1, max_size=3),
                          st.lists(st.sampled_from(['', '-', 'a']),
                                   min_size=1, max_size=2)))
    return (draw(part(cnts)), draw(part(words)),
            None if seps is None else draw(part(seps)), draw(st.booleans()),
            draw(st.integers(0, 99)),
            draw(st.lists(st.one_of(st.none(), st.integers(0, 9)), max_size=5)))


def check_text(case, obs):
    from fauxdoc.emitters import Choice, Text, Word
    cp, wp, sp, nested, seed, calls = case

    def build():
        if nested:
            we = Word(Choice([1, 2]), Choice('ab'))
        else:
            we = build_part(wp)
        return Text(build_part(cp), we, None if sp is None else build_part(sp),
                    rng_seed=seed)
    em, twin = build(), build()
    vocab = {'a', 'b', 'aa', 'ab', 'ba', 'bb'} if nested else set(wp[1])
    sepset = {' '} if sp is None else set(sp[1])
    poss = set()
    for n in set(cp[1]):
        if n == 0:
            poss.add('')
            continue
        for ws in itertools.product(sorted(vocab), repeat=n):
            for ss in itertools.product(sorted(sepset), repeat=n - 1):
                poss.add(ws[0] + ''.join(s + w for s, w in zip(ss, ws[1:])))
    clear = (all(w.isalpha() for w in vocab) and
             all(s and not any(c.isalpha() for c in s) for s in sepset))
    replaying = (not nested and wp[0] == 'seq') or (sp is not None and sp[0] == 'seq')
    num = em.num_unique_values
    what = 'Text of %r, words %r, separators %r' % (cp, sorted(vocab), sp)
    if clear and not replaying:
        eq(num, len(poss), what + ': num_unique_values')
        obs.tag('exact')
    elif not replaying:
        req(num is None or num >= len(poss), '%s: num_unique_values is %r, but %d strings '
            'can be emitted', what, num, len(poss))
    observe(em, twin, num, poss, calls, what)
    obs.interesting(len(poss) > 1)
    if 0 in cp[1]:
        obs.tag('zero words possible')
    if len(set(cp[1])) < len(cp[1]):
        obs.tag('repeated counts')


live_lens = st.lists(st.integers(0, 3), min_size=1, max_size=3)
live_chars = st.lists(st.sampled_from('abc'), min_size=1, max_size=4)
live_kind = st.sampled_from(['static', 'seq', 'choice'])


@st.composite
def changed_cases(draw):
    what = draw(st.sampled_from(['word', 'text', 'nested']))
    parts = [(draw(live_kind), draw(live_lens)), (draw(live_kind), draw(live_chars)),
             (draw(live_kind), draw(live_lens))]
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('len'), live_lens), st.tuples(st.just('chars'), live_chars),
        st.tuples(st.just('count'), live_lens), st.just(('one',)),
        st.tuples(st.just('many'), st.integers(0, 9)), st.just(('reset',))),
        min_size=1, max_size=8))
    return what, parts, ops


def check_changed(case, obs):
    """The number follows changes made to the parts."""
    from fauxdoc.emitters import Choice, Sequential, Static, Text, Word
    what, parts, ops = case
    vals = {}
    ems = {}
    for label, (kind, v) in zip(('len', 'chars', 'count'), parts):
        v = v[:1] if kind == 'static' else v
        vals[label] = v
        ems[label] = {'static': lambda: Static(v[0]), 'seq': lambda: Sequential(list(v)),
                      'choice': lambda: Choice(list(v))}[kind]()
    kinds = dict(zip(('len', 'chars', 'count'), (k for k, _ in parts)))
    if what == 'word':
        em = Word(ems['len'], ems['chars'], rng_seed=1)
    elif what == 'text':
        em = Text(ems['count'], ems['chars'], rng_seed=1)
    else:
        em = Text(ems['count'], Word(ems['len'], ems['chars']), rng_seed=1)

    def count():
        a = len(set(vals['chars']))
        w = a if what == 'text' else sum(a ** n for n in set(vals['len']))
        return w if what == 'word' else sum(w ** n for n in set(vals['count']))
    changed = 0
    seen = set()
    for i, op in enumerate(ops):
        forms.stir('Choice Word Text Sequential Static')
        label = 'op %d %r' % (i, op)
        if op[0] in vals:
            kind = kinds[op[0]]
            if kind == 'choice':
                ems[op[0]].replace_only_after_call = bool(len(op[1]) % 2)
                ems[op[0]].replace_only_after_call = False
                continue
            new = op[1][:1] if kind == 'static' else list(op[1])
            if kind == 'static':
                ems[op[0]].value = new[0]
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')     # deprecated
                    ems[op[0]].iterator_factory = lambda new=new: iter(new)
            changed += new != vals[op[0]]
            vals[op[0]] = new
            seen = set()
        elif op[0] == 'reset':
            em.reset()
        else:
            seen.update(forms.values(em, None if op[0] == 'one' else op[1]))
        eq(em.num_unique_values, count(), label + ': num_unique_values with parts %r'
           % vals)
        req(len(seen) <= em.num_unique_values, '%s: %d distinct strings emitted', label,
            len(seen))
    obs.interesting(changed)
    obs.tag(what)


@st.composite
def big_cases(draw):
    lens = draw(st.lists(st.integers(0, 80), min_size=1, max_size=6))
    return draw(st.sampled_from(['word', 'text'])), lens, draw(st.integers(2, 95)), \
        draw(st.integers(1, 4))


def check_big(case, obs):
    from fauxdoc.emitters import Choice, Text, Word
    kind, lens, a, s = case
    alph = [chr(0x4e00 + i) for i in range(a)]
    if kind == 'word':
        em = Word(Choice(lens), Choice(alph))
        want = sum(a ** n for n in set(lens))
    else:
        em = Text(Choice(lens), Choice(alph), Choice(['-', '--', ' ', ', '][:s]))
        want = sum(a ** n * s ** max(0, n - 1) for n in set(lens))
    eq(em.num_unique_values, want, '%s with lengths %r over %d' % (kind, lens, a))
    obs.interesting()


@st.composite
def long_cases(draw):
    n = draw(gen.big(20000))
    k = draw(st.one_of(st.just(n), st.integers(1, n), st.sampled_from([1, 2, n - 1])))
    return {'n': n, 'k': k, 'hashable': draw(st.sampled_from([True, True, True, False])),
            'cls': draw(st.sampled_from(['norep', 'norep', 'Choice', 'Sequential', 'roac',
                                         'Word', 'Text'])),
            'weights': draw(st.booleans()),
            'calls': draw(st.lists(st.one_of(st.none(), st.integers(0, 9), st.integers(0, n),
                                             st.integers(n - k, n)), min_size=1,
                                   max_size=5))}


def check_long(case, obs):
    """Long lists with k different values, counted by arithmetic and sets."""
    from fauxdoc import emitters as E
    n, k, cls = case['n'], case['k'], case['cls']
    hashable = case['hashable'] or cls in ('Word', 'Text')
    if not hashable:
        n, k = min(n, 300), min(k, 300)     # fauxdoc compares these pair by pair
    vals = [chr(0x4e00 + i % k) if hashable else [i % k] for i in range(n)]
    w = [1 + i % 3 for i in range(n)] if case['weights'] else None
    if cls in ('Word', 'Text'):
        lens = [0, 1, 2, 1]
        alph = E.Choice(vals, w)
        em = E.Word(E.Choice(lens), alph) if cls == 'Word' else \
            E.Text(E.Choice(lens), alph, E.Choice(['-', '--']))
        want = 1 + k + k * k * (1 if cls == 'Word' else 2)
    elif cls == 'Sequential':
        em, want = E.Sequential(vals), k
    else:
        em = E.Choice(vals, w, replace=cls != 'norep', replace_only_after_call=cls == 'roac',
                      rng_seed=3)
        want = k
    seen = {}
    left = n
    for c in case['calls']:
        eq(em.num_unique_values, want, '%s of %d items (%d values): num_unique_values' % (
            cls, n, k))
        unique = cls == 'norep' and want == left
        eq(bool(em.emits_unique_values), unique, '%s of %d items (%d values): '
           'emits_unique_values' % (cls, n, k))
        if c is not None and cls == 'norep':
            c = min(c, left)
        elif c is not None and cls in ('Word', 'Text', 'roac'):
            c = min(c, n, 500)
        if cls == 'norep' and not left:
            break
        got = forms.values(em, c)
        if cls == 'norep':
            left -= len(got)
            for v in got:
                v = v if hashable else v[0]
                seen[v] = seen.get(v, 0) + 1
            full = {chr(0x4e00 + i) if hashable else i: n // k + (i < n % k)
                    for i in range(k)}
            over = [v for v, m in seen.items() if m > full.get(v, 0)]
            req(not over, 'emitted %r more often than it is listed', over[:3])
            want = k - sum(1 for v, m in seen.items() if m == full[v])
            if unique:
                req(len(got) == len(set(map(repr, got))), 'repeats')
    obs.interesting(n > 1)
    obs.tag(cls)


UNKNOWN = ['iter', 'gen', 'feed']


@st.composite
def unknown_cases(draw):
    return (draw(st.sampled_from(['word-len', 'word-alph', 'text-num', 'text-word',
                                  'text-sep', 'text-nested', 'Iterative', 'WrapOne',
                                  'WrapMany', 'CopyFields', 'BasedOnFields'])),
            draw(st.sampled_from(UNKNOWN)), draw(st.lists(
                st.one_of(st.none(), st.integers(0, 4)), max_size=4)))


def check_unknown(case, obs):
    from fauxdoc import emitters as E
    from fauxdoc.profile import Field
    how, kind, calls = case
    nums = make_source(kind, [1, 2, 0])
    strs = make_source(kind, ['a', 'bc', ''])
    C, S = E.Choice, E.Static

    def build(how):
        if how == 'word-len':
            return E.Word(nums, C('ab'))
        if how == 'word-alph':
            return E.Word(C([1, 2]), strs)
        if how == 'text-num':
            return E.Text(nums, C(['a', 'b']))
        if how == 'text-word':
            return E.Text(C([1, 2]), strs)
        if how == 'text-sep':
            return E.Text(C([1, 2]), C(['a', 'b']), strs)
        if how == 'text-nested':
            return E.Text(C([1, 2]), E.Word(nums, C('ab')))
        if how == 'Iterative':
            return E.Iterative(lambda: iter([1, 2]))
        if how == 'WrapOne':
            return E.WrapOne(C([1, 2]), lambda v: v)
        if how == 'WrapMany':
            return E.WrapMany({'a': C([1, 2])}, lambda a: a)
        f = Field('f', S(1))
        if how == 'CopyFields':
            return E.CopyFields(f)
        return E.BasedOnFields(f, lambda v: v)
    em = build(how)
    eq(em.num_unique_values, None, '%s over %s: num_unique_values' % (how, kind))
    for c in calls:
        got = forms.values(em, c)
        eq(em.num_unique_values, None, '%s over %s: num_unique_values' % (how, kind))
        if em.emits_unique_values:
            req(distinct_count(got + [em()]) == len(got) + 1, 'repeats a value')
    obs.interesting()
    obs.tag(how)


SUBS = [
    Sub('fixed', fixed_cases, check_fixed, 1600),
    Sub('norep', norep_cases, check_norep, 1800),
    Sub('word', word_cases, check_word, 1600),
    Sub('text', text_cases, check_text, 1800),
    Sub('changed', changed_cases, check_changed, 1200),
    Sub('big', big_cases, check_big, 300),
    Sub('long', long_cases, check_long, 160, 2560),
    Sub('unknown', unknown_cases, check_unknown, 400),
]
