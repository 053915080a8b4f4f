"""Long lists, many parts and long histories, with arithmetic oracles."""
from hypothesis import strategies as st

from . import gen
from .core import eq, raises, req

numbers = st.one_of(gen.vast(5000), gen.big(5000), st.integers(0, 9), st.none())


class Count:
    """A user-written source: 0, 1, 2, ... (modulo size); may start over per call."""
    num_unique_values = None
    emits_unique_values = False

    def __init__(self, size, again=False):
        self.size, self.again, self.pos, self.calls = size, again, 0, 0

    def __call__(self, number=None):
        k = 1 if number is None else number
        got = [(self.pos + i) % self.size for i in range(k)]
        self.pos = 0 if self.again else (self.pos + k) % self.size
        self.calls += 1
        return got[0] if number is None else got

    def reset(self):
        self.pos = 0


def count_source(kind, size):
    """(emitter, model) where the model is a Count."""
    from fauxdoc.emitters import Iterative, Sequential
    again = kind.endswith('again')
    model = Count(size, again)
    if kind.startswith('seq'):
        return Sequential(range(size), again), model
    if kind.startswith('iter'):
        return Iterative(lambda: iter(range(size)), again), model
    return Count(size, again), model


kinds = st.sampled_from(['seq', 'iter', 'own', 'seq again', 'iter again', 'own again'])


def differ(got, want, what):
    if got == want:
        return
    if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        i = [a == b for a, b in zip(got, want)].index(False)
        eq(got[i], want[i], '%s: value %d of %d' % (what, i, len(got)))
    eq(got, want, what)


# ------------------------------------------------------------------- wrappers

@st.composite
def wrap_cases(draw):
    many = draw(st.sampled_from([0, 0, 1, 2, 5, 30, 120]))
    return {'many': many, 'sources': draw(st.lists(st.tuples(kinds, gen.big(6000)),
                                                   min_size=1, max_size=3)),
            'rng': draw(st.booleans()), 'depth': draw(st.sampled_from([1, 1, 1, 2, 25])),
            'calls': draw(st.lists(numbers, min_size=1, max_size=4))}


def check_wrap(case, obs):
    from fauxdoc.emitters import WrapMany, WrapOne
    srcs = case['sources']
    if case['many']:
        names = ['s%d' % i for i in range(case['many'])]
        both = {n: count_source(*srcs[i % len(srcs)]) for i, n in enumerate(names)}

        def call(number=None):
            parts = {n: m(number) for n, (_, m) in both.items()}
            if number is None:
                return list(parts.items())
            return [[(n, p[i]) for n, p in parts.items()] for i in range(number)]
        em = WrapMany({n: e for n, (e, _) in both.items()},
                      (lambda rng, **kw: list(kw.items())) if case['rng'] else
                      (lambda **kw: list(kw.items())))
    else:
        em, call = count_source(*srcs[0])
        for _ in range(case['depth']):
            em = WrapOne(em, (lambda v, rng: v) if case['rng'] else (lambda v: v))
    for i, n in enumerate(case['calls']):
        if max(case['many'], case['depth'] // 2) * (n or 1) > 150000:
            n = 150000 // max(case['many'], case['depth'] // 2)
        got = em() if n is None else em(n)
        want = call() if n is None else call(n)
        differ(got, want, 'call %d for %r values' % (i, n))
    em.reset()
    obs.interesting()
    obs.tag('WrapMany' if case['many'] else 'WrapOne')


# --------------------------------------------------------------------- fields

@st.composite
def field_cases(draw):
    return {'source': (draw(kinds), draw(gen.big(6000))),
            'repeats': draw(st.lists(numbers, min_size=1, max_size=4)),
            'rkind': draw(st.sampled_from(['static', 'seq', 'own'])),
            'gates': draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=1,
                                                        max_size=9))),
            'calls': draw(st.one_of(st.integers(1, 9), gen.big(400)))}


def check_field(case, obs):
    from fauxdoc.emitters import Sequential, Static
    from fauxdoc.profile import Field
    from .rec import Feed, Stream
    em, model = count_source(*case['source'])
    reps = case['repeats'][:1] if case['rkind'] == 'static' else case['repeats']
    rep = {'static': lambda: Static(reps[0]), 'seq': lambda: Sequential(reps),
           'own': lambda: Feed(reps)}[case['rkind']]()
    gates = Stream(case['gates'] or [True])
    rmodel = Stream(reps)
    f = Field('f', em, repeat=rep,
              gate=None if case['gates'] is None else Sequential(case['gates']))
    total = calls = 0
    while calls < case['calls'] and total < 30000:
        calls += 1
        want = None
        if gates.one():
            n = rmodel.one()
            want = model() if n is None else model(n)
            total += n or 1
        got = f()
        differ(got, want, 'call %d' % calls)
        req(f.previous is got, 'previous after call %d', calls)
    obs.interesting(calls > 1)
    obs.tag(case['rkind'])


# -------------------------------------------------------------------- schemas

@st.composite
def schema_cases(draw):
    n = draw(gen.big(400, 17))
    return {'n': n, 'hide': draw(st.one_of(
                st.lists(st.booleans(), min_size=1, max_size=9),
                st.sampled_from([[True], [False], [True] * 30 + [False]]))),
            'own': draw(st.lists(st.booleans(), min_size=1, max_size=5)),
            'docs': draw(st.one_of(st.integers(1, 5), gen.big(150))),
            'ops': draw(st.lists(st.tuples(
                st.sampled_from(['reset', 'seed', 'hide', 'remove', 'add', 'replace']),
                st.integers(0, 10 ** 6)), max_size=5))}


def check_schema(case, obs):
    from fauxdoc.emitters import Sequential
    from fauxdoc.profile import Field, Schema
    from .props.c22 import StubField
    log = []
    size = 7

    def make(i, name=None):
        hide = case['hide'][i % len(case['hide'])]
        vals = [(i, k) for k in range(size)]
        if case['own'][i % len(case['own'])]:
            return StubField(name or 'f%d' % i, vals, hide, log, True)
        return Field(name or 'f%d' % i, Sequential(vals), hide=hide)
    model = {}              # name -> [field, number, position]
    for i in range(case['n']):
        f = make(i)
        model[f.name] = [f, i, 0]
    schema = Schema(*[r[0] for r in model.values()])

    def document(what):
        doc = schema()
        want = {}
        for name, r in model.items():
            v = (r[1], r[2] % size)
            r[2] += 1
            eq(r[0].previous, v, '%s: previous of %s' % (what, name))
            if not r[0].hide:
                want[name] = v
        eq(list(doc.items()), list(want.items()), what)

    docs = case['docs'] if case['docs'] * case['n'] < 20000 else 5
    for d in range(docs):
        document('document %d' % d)
    for k, (op, i) in enumerate(case['ops']):
        what = 'op %d %s' % (k, op)
        names = list(model)
        name = names[i % len(names)]
        if op == 'reset':
            schema.reset_fields()
            for r in model.values():
                r[2] = 0
                eq(r[0].previous, None, '%s: previous of %s' % (what, r[0].name))
        elif op == 'seed':
            del log[:]
            schema.seed_fields(i)
            seeded = [e[0] for e in log if e[1] == 'seed']
            for r in model.values():
                req(r[0] in seeded if isinstance(r[0], StubField) else
                    r[0].rng_seed == i, '%s: %s was not seeded', what, r[0].name)
        elif op == 'hide':
            for j, r in enumerate(model.values()):
                r[0].hide = (i >> j % 15) & 1 == 0
        elif op == 'remove':
            if len(model) > 1:
                del schema.fields[name]
                del model[name]
        elif op == 'add':
            new = [make(case['n'] + k * 100 + j) for j in range(i % 70)]
            schema.add_fields(*new)
            model.update({f.name: [f, case['n'] + k * 100 + j, 0]
                          for j, f in enumerate(new)})
        else:
            f = make(i, name)
            schema.add_fields(f)
            model[name] = [f, i, 0]
        del log[:]
        eq(list(schema.fields), list(model), what + ': fields')
        eq(list(schema.hidden_fields), [n for n, r in model.items() if r[0].hide],
           what + ': hidden fields')
        eq(list(schema.public_fields), [n for n, r in model.items() if not r[0].hide],
           what + ': public fields')
        document(what)
    obs.interesting(docs > 1)


# ------------------------------------------------------------- copy and based

@st.composite
def source_cases(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(9, 40), gen.big(150)))
    return {'n': n, 'sizes': draw(st.lists(
                st.one_of(st.none(), st.integers(0, 3), gen.big(1500)), min_size=1,
                max_size=6)),
            'shape': draw(st.sampled_from(['int', 'str', 'long', 'tuple', 'dict'])),
            'sep': draw(st.sampled_from([None, None, '', ' ', ', ', 'longer separator '])),
            'gates': draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=1,
                                                        max_size=4))),
            'docs': draw(st.integers(1, 4)), 'calls': draw(st.sampled_from([None, 1, 3, 200])),
            'rng': draw(st.booleans())}


def build_sources(case, names):
    """Fields and, per document, their values."""
    from fauxdoc.emitters import Sequential, Static
    from fauxdoc.profile import Field
    fields, values = [], []
    budget = 20000
    for i, name in enumerate(names):
        size = case['sizes'][i % len(case['sizes'])]
        if size is not None and size * case['n'] > budget:
            size = max(4, budget // case['n'])
        atom = {'int': i, 'str': 'v%d' % i, 'long': 'v%d ' % i * 20,
                'tuple': (i, 'x', i), 'dict': {'k': i}}[case['shape']]
        gates = case['gates']
        if gates is not None:
            gates = [gates[(i + j) % len(gates)] for j in range(len(gates))]
        fields.append(Field(name, Static(atom), repeat=Static(size),
                            gate=None if gates is None else Sequential(gates)))
        values.append([None if gates is not None and not gates[d % len(gates)] else
                       atom if size is None else [atom] * size
                       for d in range(case['docs'])])
    return fields, values


def check_copy(case, obs):
    from fauxdoc.emitters import CopyFields
    names = ['f%d' % i for i in range(case['n'])]
    fields, values = build_sources(case, names)
    em = CopyFields(fields, case['sep'])
    for d in range(case['docs']):
        for f in fields:
            f()
        vals = []
        for v in values:
            v = v[d]
            if v is not None:
                vals.extend(v if isinstance(v, (list, tuple)) else [v])
        if case['sep'] is not None:
            if not vals:
                continue
            want = case['sep'].join(map(str, vals))
        else:
            want = vals or None
        got = em() if case['calls'] is None else em(case['calls'])
        if case['calls'] is not None:
            eq(len(got), case['calls'], 'number of values')
            got = got[-1]
        if got != want and isinstance(want, str):
            req(False, 'document %d: joined %d characters, expected %d', d, len(got or ''),
                len(want))
        differ(got, want, 'document %d' % d)
    obs.interesting()
    obs.tag(case['shape'], 'joined' if case['sep'] is not None else 'list')


def check_based(case, obs):
    from fauxdoc.emitters import BasedOnFields
    names = ['f%d' % (i * 37 % 151) for i in range(min(case['n'], 151))]
    fields, values = build_sources(case, names)
    if len(fields) == 1:
        def plain(v):
            return v

        def with_rng(v, rng):
            return v
    else:
        def plain(**kw):
            return list(kw.items())

        def with_rng(rng, **kw):
            return list(kw.items())
    em = BasedOnFields(fields, with_rng if case['rng'] else plain, rng_seed=1)
    for d in range(case['docs']):
        for f in fields:
            f()
        want = [(n, v[d]) for n, v in zip(names, values)]
        if len(fields) == 1:
            want = want[0][1]
        got = em() if case['calls'] is None else em(case['calls'])
        if case['calls'] is not None:
            eq(len(got), case['calls'], 'number of values')
            got = got[-1]
        differ(got, want, 'document %d' % d)
    obs.interesting()
    obs.tag(case['shape'])


# --------------------------------------------------------------------- groups

@st.composite
def group_cases(draw):
    return (draw(gen.big(400, 17)), draw(st.booleans()),
            draw(st.lists(st.sampled_from(['plain', 'none', 'lacks', 'plain', 'slots']),
                          min_size=1, max_size=7)),
            draw(st.lists(st.one_of(
                st.tuples(st.just('call'), st.integers(0, 9)),
                st.tuples(st.just('set'), st.integers(0, 9)),
                st.tuples(st.just('grow'), gen.big(100)),
                st.tuples(st.just('cut'), st.integers(1, 60))), min_size=1, max_size=6)))


class Member:
    def __init__(self):
        self.value = 'old'
        self.got = []

    def act(self, *args, **kw):
        self.got.append((args, kw))


class Lacks:
    pass


class Slots:
    __slots__ = ('value', 'got')

    def __init__(self):
        self.value = 'old'
        self.got = []

    def act(self, *args, **kw):
        self.got.append((args, kw))


def check_group(case, obs):
    from fauxdoc import group
    n, mapped, pattern, ops = case
    ObjectGroup, ObjectMap = group.ObjectGroup, group.ObjectMap

    def make(i):
        return {'plain': Member, 'none': lambda: None, 'lacks': Lacks, 'slots': Slots}[
            pattern[i % len(pattern)]]()
    members = [make(i) for i in range(n)]
    if n % 3 == 1:
        # a user's own classes of groups
        ObjectGroup = type('OwnGroup', (ObjectGroup,), {})
        ObjectMap = type('OwnMap', (ObjectMap,), {})
    if mapped:
        g = ObjectMap({'m%d' % i: m for i, m in enumerate(members)})
        last = n
    else:
        g = ObjectGroup(*members)
    for op, arg in ops + [('call', 10), ('set', 10)]:
        if op == 'grow':
            new = [make(i) for i in range(arg)]
            if mapped:
                g.update({'m%d' % (last + i): m for i, m in enumerate(new)})
                last += arg
            else:
                g.extend(new)
            members = members + new
        elif op == 'cut':
            members = [m for i, m in enumerate(members) if i % 61 != arg]
            if mapped:
                for i, k in enumerate(list(g)):
                    if i % 61 == arg:
                        del g[k]
            else:
                for i in reversed(range(len(g))):
                    if i % 61 == arg:
                        del g[i]
        elif op == 'call':
            for m in members:
                if hasattr(m, 'got'):
                    del m.got[:]
            g.do_method('act', arg, key=arg)
            for i, m in enumerate(members):
                if hasattr(m, 'got'):
                    eq(m.got, [((arg,), {'key': arg})], 'calls of member %d of %d' % (
                        i, len(members)))
        else:
            g.setattr('value', ('new', arg))
            for i, m in enumerate(members):
                if hasattr(m, 'got'):
                    eq(m.value, ('new', arg), 'value of member %d of %d' % (
                        i, len(members)))
                elif m is not None:
                    req(not hasattr(m, 'value'), 'member %d was given a value', i)
        now = list(g.values()) if mapped else list(g)
        req(len(now) == len(members) and all(a is b for a, b in zip(now, members)),
            'members after %s', op)
    obs.interesting()
    obs.tag('map' if mapped else 'group')


# --------------------------------------------------------------- words, texts

@st.composite
def text_cases(draw):
    return {'lengths': draw(st.lists(st.one_of(st.integers(0, 3), st.integers(0, 3),
                                               gen.big(3000)), min_size=1, max_size=5)),
            'size': draw(gen.big(6000)), 'sepsize': draw(gen.big(3000)),
            'sep': draw(st.booleans()), 'kind': draw(kinds.filter(lambda k: 'a' not in k)),
            'calls': draw(st.lists(numbers, min_size=1, max_size=3))}


def limited(n, lengths, pos):
    """At most n texts, and not much more than 40000 (seldom 140000) words."""
    total, k = 0, 0
    while k < n:
        total += lengths[(pos + k) % len(lengths)]
        if total > (140000 if n > 40000 else 40000) and k:
            break
        k += 1
    return k


def check_word(case, obs):
    from fauxdoc.emitters import Sequential, Word
    from fauxdoc.emitters import Static
    lengths, size = case['lengths'], case['size']
    chars = [chr(0x4e00 + i) for i in range(size)]
    if case['kind'] == 'own':
        from .rec import Feed
        alphabet = Feed(chars)
    else:
        alphabet = Sequential(chars)
    em = Word(Static(lengths[0]) if len(lengths) == 1 else Sequential(lengths), alphabet)
    pos = at = 0
    for n in case['calls']:
        k = 1 if n is None else limited(n, lengths, pos)
        got = [em()] if n is None else em(k)
        want = []
        for i in range(k):
            ln = lengths[(pos + i) % len(lengths)]
            want.append(''.join(chars[(at + j) % size] for j in range(ln)))
            at += ln
        pos += k
        differ(got, want, 'call for %r words' % n)
    obs.interesting()


def check_text(case, obs):
    from fauxdoc.emitters import Sequential, Static, Text
    from .rec import Feed
    lengths, size = case['lengths'], case['size']
    make = Feed if case['kind'] == 'own' else Sequential
    words = make(['w%d' % i for i in range(size)])
    ns = case['sepsize']
    args = [make(['<%d>' % i for i in range(ns)])] if case['sep'] else []
    em = Text(Static(lengths[0]) if len(lengths) == 1 else Sequential(lengths), words, *args)
    pos = at = sat = 0
    for n in case['calls']:
        k = 1 if n is None else limited(n, lengths, pos)
        got = [em()] if n is None else em(k)
        want = []
        for i in range(k):
            parts = []
            for j in range(lengths[(pos + i) % len(lengths)]):
                if j:
                    parts.append('<%d>' % (sat % ns) if case['sep'] else ' ')
                    sat += 1
                parts.append('w%d' % (at % size))
                at += 1
            want.append(''.join(parts))
        pos += k
        differ(got, want, 'call for %r texts' % n)
    obs.interesting()
    obs.tag('separators' if case['sep'] else 'spaces')
