import random

from hypothesis import strategies as st

from .. import bigdocs, dress, forms, funcs
from ..core import Sub, Violation, eq, raises, req
from ..funcs import NO_RNG
from ..rec import Feed, Stream
from .c20 import ERRORS, Draws, Probe
from .c22 import StubField
from .c23 import FieldModel, build_field, field_specs, same

PROP = 'C24'
RULE = ('Random source fields (real and user-written), actions of about twenty shapes with '
        'and without rng, histories of field calls, emissions, new actions and sources, '
        'resets, source resets/reseeds and failing actions, every action call recorded and '
        'compared with a model of the fields\' last values. Non-trivial: at least two '
        'emissions or one refusal.')
ASSUMPTIONS = ['No source field is called "rng" (the name by which the generator is '
               'passed).']

NAMES = ['a', 'b', 'title', 'number', 'self', 'source', 'action']
ODD_NAMES = ['publication date', 'class', '', 'x-y', 'dc:title']


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    names = draw(st.lists(st.sampled_from(
        NAMES + ODD_NAMES * (draw(st.integers(0, 4)) == 0)), min_size=n, max_size=n,
        unique=True))
    fspecs = [draw(field_specs()) for _ in names]
    alone = st.tuples(st.just('alone'), st.integers(0, n - 1))
    several = st.tuples(st.sampled_from(['list', 'list', 'tuple', 'row', 'group', 'sources']), st.lists(
        st.integers(0, n - 1), min_size=min(2, n), max_size=n, unique=True))
    src = st.one_of(alone, several, several) if n > 1 else st.one_of(alone, several)
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        op = draw(st.sampled_from(['field', 'all', 'all', 'emit', 'emit', 'emit', 'many',
                                   'reset', 'reset_source', 'seed_source', 'seed',
                                   'action', 'src', 'error']))
        ops.append((op,) + draw({
            'field': st.tuples(st.integers(0, n - 1)),
            'many': st.tuples(st.integers(0, 3)),
            'seed': st.tuples(st.integers(0, 9)),
            'seed_source': st.tuples(st.integers(0, 9)),
            'action': st.tuples(st.integers(0, 99), st.sampled_from(
                ['function', 'wrapper', 'rebound', 'rebound wrapper', 'in place'])),
            'src': st.tuples(src, st.integers(0, 99)),
            'error': st.tuples(st.sampled_from(sorted(ERRORS))),
        }.get(op, st.just(()))))
    if draw(st.integers(0, 2)):
        ops += [('all',), ('emit',), ('emit',)]
    return (names, fspecs, draw(src), draw(st.integers(0, 99)),
            draw(st.one_of(st.none(), st.integers(0, 9))), ops,
            draw(st.integers(0, 3)) == 0)


def shape(names, k, probe):
    if len(names) == 1:
        kinds = funcs.ONE_PLAIN + funcs.ONE_RNG
        kind = kinds[k % len(kinds)]
        return kind, funcs.make_one(kind, probe)
    kinds = funcs.MANY_PLAIN + funcs.MANY_RNG
    kind = kinds[k % len(kinds)]
    return kind, funcs.make_many(kind, names, probe)


def check(case, obs):
    from fauxdoc.emitters import BasedOnFields
    from fauxdoc.emitters.fromfields import SourceFieldGroup
    from fauxdoc.emitters.wrappers import BoundWrapper
    from fauxdoc.group import ObjectGroup
    names, fspecs, src, akind, seed, ops, rebound = case
    fields = [build_field(nm, s) for nm, s in zip(names, fspecs)]
    models = [FieldModel(s) for s in fspecs]

    def indices(s):
        return [s[1]] if s[0] == 'alone' else s[1]

    def real_source(s):
        if s[0] == 'alone':
            return fields[s[1]]
        return {'list': list, 'tuple': tuple, 'row': dress.Row, 'sources': SourceFieldGroup,
                'group': lambda seq: ObjectGroup(*seq)}[s[0]]([fields[i] for i in s[1]])

    def src_names():
        return [names[i] for i in indices(src)]
    probe = Probe()
    kind, fn = shape(src_names(), akind, probe)

    def bound_elsewhere(fn):
        """The action of another emitter, to be bound to this one."""
        obs.tag('rebound')
        others = [StubField(nm, [0], False, [], False) for nm in src_names()]
        return BasedOnFields(others if len(others) > 1 else others[0], fn,
                             rng_seed=77).action
    em = forms.make(BasedOnFields, source=real_source(src),
                    action=bound_elsewhere(fn) if rebound else fn, rng_seed=seed)
    eq(len(probe.calls), 0, 'calls of the action while it is set')
    emissions = 0
    draws = Draws(seed)
    obs.tag('one source' if len(indices(src)) == 1 else 'several sources')

    def arguments():
        idx = indices(src)
        if len(idx) == 1:
            return {'v': models[idx[0]].previous}
        return {names[i]: models[i].previous for i in idx}

    def verify(got, call, what):
        values, rng = call
        want = arguments()
        same(sorted(values.items()), sorted(want.items()), what + ': arguments')
        if kind.startswith('rng'):
            req(rng is em.rng, '%s: the action got %r as rng, not the emitter\'s', what, rng)
            obs.tag('rng')
        else:
            req(rng is NO_RNG, '%s: unexpected rng %r', what, rng)
        req(type(got) is tuple and got[0] == 'made' and
            repr(got[2]) == repr(sorted(want.items())), '%s: emitted %.300r for %r', what,
            got, want)
    for i, op in enumerate(ops):
        what = 'op %d %r (%s)' % (i, op, kind)
        before = len(probe.calls)
        if op[0] == 'field':
            fields[op[1]]()
            models[op[1]].call()
        elif op[0] == 'all':
            for f, m in zip(fields, models):
                f()
                m.call()
        elif op[0] == 'emit':
            got = forms.ask(em)
            eq(len(probe.calls) - before, 1, what + ': calls of the action')
            eq(got[1], before + 1, what + ': result of the call')
            verify(got, probe.calls[-1], what)
            emissions += 1
        elif op[0] == 'many':
            got = forms.ask(em, op[1])
            req(type(got) is list and len(got) == op[1], '%s: got %r', what, got)
            for g in got:
                verify(g, probe.calls[g[1] - 1], what)
            emissions += op[1]
        elif op[0] == 'reset':
            em.reset()
            draws.restart(em.rng_seed)
        elif op[0] == 'reset_source':
            em.reset_source()
            for k in indices(src):
                models[k].reset()
            obs.tag('reset_source')
        elif op[0] == 'seed_source':
            em.seed_source(op[1])
            for k in indices(src):
                eq(fields[k].rng_seed, op[1], '%s: rng_seed of %s' % (what, names[k]))
            obs.tag('seed_source')
        elif op[0] == 'seed':
            em.seed(op[1])
            draws.restart(op[1])
            eq(em.rng_seed, op[1], what + ': rng_seed')
        elif op[0] in ('action', 'src'):
            if op[0] == 'src':
                src = op[1]
                em.set_source_fields(real_source(src))
            probe = Probe()
            kind, fn = shape(src_names(), op[-1] if op[0] == 'src' else op[1], probe)
            how = op[2] if op[0] == 'action' else 'function'
            if 'rebound' in how:
                fn = bound_elsewhere(fn)
            if how == 'in place':
                em.action.function = fn
                obs.tag('function replaced in place')
            elif 'wrapper' in how:
                em.action = BoundWrapper(fn, em)
            else:
                em.set_action_function(fn)
            if how != 'in place':
                draws.restart(None)
            before = 0
            eq(len(probe.calls), 0, what + ': calls of the action while it is set')
            req(em.action.bound_to is em, '%s: bound to %r', what, em.action.bound_to)
            eq(bool(em.action.wants_rng), kind.startswith('rng'), what + ': wants_rng')
            obs.tag('new action')
        elif op[0] == 'error':
            exc = ERRORS[op[1]]('raised by the action')
            probe.fail = (0, exc)
            try:
                em()
            except BaseException as e:
                req(e is exc, '%s: the action raised %r, the caller got %r', what, exc, e)
            else:
                raise Violation('%s: the error did not reach the caller' % what)
            probe.fail = None
        draws.add(probe.draws[before:], what)
        for f, m in zip(fields, models):
            same(f.previous, m.previous, '%s: previous of %s' % (what, f.name))
    # no source value was drawn behind our back
    for f, m in zip(fields, models):
        m.call()
        same(f(), m.previous, 'next value of %s' % f.name)
    obs.interesting(emissions > 1)


@st.composite
def grown_cases(draw):
    n = draw(st.integers(1, 4))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('more'), st.integers(0, 4)), st.tuples(st.just('fewer'),
                                                                 st.integers(0, 4)),
        st.just(('emit',)), st.just(('emit',)), st.just(('many',)), st.just(('all',)),
        st.just(('reset_source',)), st.just(('again',))), min_size=2, max_size=10))
    return n, draw(st.integers(1, n)), draw(st.booleans()), draw(st.booleans()), ops


def check_grown(case, obs):
    """The group of source fields is a list that may be edited in place."""
    from fauxdoc.emitters import BasedOnFields, Sequential
    from fauxdoc.profile import Field
    n, first, alone, rng, ops = case
    fields = [Field('f%d' % i, Sequential([i * 10 + j for j in range(3)])) for i in range(n)]
    now, spare = list(range(first)), list(range(first, n))
    place = {i: None for i in range(n)}
    if rng:
        def action(*args, rng=None, **kw):
            return args, kw, rng
    else:
        def action(*args, **kw):
            return args, kw, None
    em = BasedOnFields(fields[0] if alone and first == 1 else [fields[i] for i in now],
                       action)

    def value(i):
        return None if place[i] is None else i * 10 + place[i] % 3
    edits = 0
    for j, op in enumerate(ops + [('all',), ('emit',)]):
        what = 'op %d %r, sources %r' % (j, op, now)
        if op[0] == 'more' and spare:
            at = op[1] % (len(now) + 1)
            em.source.insert(at, fields[spare[0]])
            now.insert(at, spare.pop(0))
            edits += 1
        elif op[0] == 'fewer' and now:
            at = op[1] % len(now)
            em.source.pop(at)
            spare.append(now.pop(at))
            edits += 1
        elif op[0] == 'all':
            for i, f in enumerate(fields):
                f()
                place[i] = 0 if place[i] is None else place[i] + 1
        elif op[0] == 'reset_source':
            em.reset_source()
            for i in now:
                place[i] = None
        elif op[0] == 'again':
            em.set_action_function(action)
        elif op[0] in ('emit', 'many'):
            got = forms.ask(em) if op[0] == 'emit' else forms.ask(em, 2)[1]
            want = (((value(now[0]),), {}) if len(now) == 1 else
                    ((), {'f%d' % i: value(i) for i in now}))
            eq(got[:2], want, what + ': arguments of the action')
            if not got[0]:
                eq(list(got[1]), ['f%d' % i for i in now], what + ': order of arguments')
            req(got[2] is (em.rng if rng else None), '%s: rng is %r', what, got[2])
    obs.interesting(edits)
    obs.tag(*['emitted with %d sources' % len(now)])


@st.composite
def schema_cases(draw):
    n = draw(st.integers(1, 3))
    return ([draw(st.lists(st.integers(0, 99), min_size=2, max_size=5))
             for _ in range(n)], draw(st.integers(0, 99)), draw(st.integers(0, 99)),
            draw(st.integers(1, 5)), draw(st.booleans()), draw(st.booleans()))


def check_schema(case, obs):
    """The documents of a schema start with the sources' first values."""
    from fauxdoc.emitters import BasedOnFields, Choice
    from fauxdoc.profile import Field, Schema
    lists, akind, seed, docs, rand, reseed = case
    names = ['f%d' % i for i in range(len(lists))]

    def build(with_action):
        fs = [Field(nm, Choice(v) if rand else Feed(v), rng_seed=seed)
              for nm, v in zip(names, lists)]
        probe = Probe()
        kind, fn = shape(names, akind, probe)
        extra = []
        if with_action:
            em = BasedOnFields(fs if len(fs) > 1 else fs[0], fn, rng_seed=seed)
            extra = [Field('made', em, rng_seed=seed)]
        return Schema(*fs, *extra), probe
    (schema, probe), (plain, _) = build(True), build(False)
    for d in range(docs):
        if reseed and d == 1:
            for s in (schema, plain):
                s.seed_fields(seed + 1)
                s.reset_fields()
        doc, want = schema(), plain()
        made = doc.pop('made')
        eq(doc, want, 'document %d compared with a schema without the based-on field' % d)
        eq(len(probe.calls), d + 1, 'calls of the action after document %d' % d)
        args = {'v': want[names[0]]} if len(names) == 1 else want
        eq(made[2], sorted(args.items()), 'document %d: based-on value' % d)
    obs.interesting(docs > 1)


@st.composite
def refuse_cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    kinds = funcs.ONE_BAD if len(names) == 1 else funcs.MANY_BAD
    return names, draw(st.sampled_from(kinds)), draw(st.booleans()), draw(st.booleans())


def check_refuse(case, obs):
    from fauxdoc.emitters import BasedOnFields, Static
    from fauxdoc.emitters.wrappers import BoundWrapper
    from fauxdoc.profile import Field
    names, kind, later, alone = case
    fields = [Field(n, Static(5)) for n in names]
    source = fields[0] if len(fields) == 1 and alone else fields
    many = len(names) > 1
    fn = funcs.many_bad(kind, names) if many else funcs.one_bad(kind)
    what = '%s action for %r' % (kind, names)
    good = (lambda **kw: sorted(kw)) if many else (lambda v: 'ok')
    if later:
        em = BasedOnFields(source, good)
        raises(TypeError, what, em.set_action_function, fn)
        raises(TypeError, what, setattr, em, 'action', BoundWrapper(fn, em))
        em.set_action_function(good)
        eq(em(), sorted(names) if many else 'ok', 'value afterwards')
    else:
        raises(TypeError, what, BasedOnFields, source, fn)
    obs.interesting()
    obs.tag(kind)


@st.composite
def stub_cases(draw):
    return (draw(st.integers(1, 3)), draw(st.lists(st.sampled_from(
        ['reset', 'reset_source', 'seed_source', 'emit', 'seed']), min_size=1,
        max_size=6)), draw(st.lists(st.booleans(), min_size=3, max_size=3)))


def check_stub(case, obs):
    """User-written source fields: who is reset, seeded, called."""
    from fauxdoc.emitters import BasedOnFields
    n, ops, seedable = case
    log = []
    fields = [StubField('s%d' % i, [i], False, log, seedable[i]) for i in range(n)]
    em = BasedOnFields(fields[0] if n == 1 else fields,
                       (lambda v: v) if n == 1 else (lambda **kw: kw))
    req(not [e for e in log if e[1] == 'call'], 'fields were called: %r', log)
    for op in ops:
        del log[:]
        if op == 'emit':
            em()
        elif op == 'seed':
            em.seed(3)
        elif op == 'seed_source':
            em.seed_source(4)
        else:
            getattr(em, op)()
        if op == 'reset_source':
            want = [(f, 'reset') for f in fields]
        elif op == 'seed_source':
            want = [(f, 'seed', 4) for f, s in zip(fields, seedable) if s]
        else:
            want = []
        req(log == want, '%s did %r to the source fields, expected %r', op,
            [(e[0].name,) + e[1:] for e in log], [(e[0].name,) + e[1:] for e in want])
    obs.interesting(n > 1)


ANYTHING = {'str': str, 'repr': repr, 'bool': bool, 'type': type, 'id': id, 'hash': hash,
            'callable': callable, 'ascii': ascii, 'dict': dict}
builtin_cases = st.tuples(
    st.sampled_from(sorted(ANYTHING) + ['dict'] * 3), st.lists(st.one_of(
        st.integers(0, 9), st.none(), st.text('ab', max_size=2)), min_size=1, max_size=6),
    st.sampled_from([None, 'set', 'in place', 'set after rng', 'in place after rng']),
    st.lists(st.sampled_from(['emit', 'emit', 'doc', 'reset']), min_size=1, max_size=8),
    st.booleans())


def check_builtin(case, obs):
    """Actions whose signature may be unknown."""
    from fauxdoc.emitters import BasedOnFields, Sequential
    from fauxdoc.profile import Field
    name, vals, later, ops, used = case
    fn = ANYTHING[name]
    many = name == 'dict'
    fields = [Field('f%d' % i, Sequential(vals)) for i in range(1 + many)]
    if used:
        for f in fields:
            f()
    last, pos = vals[0] if used else None, int(used)
    if not later:
        first = fn
    elif 'rng' in later:
        first = (lambda rng, **k: rng.random()) if many else (lambda v, rng: rng.random())
    else:
        first = (lambda **k: None) if many else (lambda v: None)
    em = BasedOnFields(fields if many else fields[0], first)
    if later:
        em()
        if later.startswith('set'):
            em.set_action_function(fn)
        else:
            em.action.function = fn
    for i, op in enumerate(ops):
        what = 'op %d %s with %s (%s)' % (i, op, name, later)
        if op == 'emit':
            want = fn(f0=last, f1=last) if many else fn(last)
            got = forms.ask(em)
            req(type(got) is type(want) and got == want, '%s: %r, expected %r', what, got, want)
        elif op == 'reset':
            em.reset()
        else:
            for f in fields:
                eq(f(), vals[pos % len(vals)], what + ': value of the source')
            last, pos = vals[pos % len(vals)], pos + 1
    obs.interesting('emit' in ops)
    obs.tag(name, later or 'at once')


@st.composite
def none_cases(draw):
    return draw(st.sampled_from(['int', 'len'])), draw(st.integers(1, 3))


def check_none(case, obs):
    """Known finding: a built-in that cannot take None. Not part of the check."""
    from fauxdoc.emitters import BasedOnFields, Sequential
    from fauxdoc.profile import Field
    f = Field('f', Sequential(['1', '2', '3']))
    BasedOnFields(f, {'int': int, 'len': len}[case[0]])
    eq(f(), '1', 'first value of the source')


SUBS = [
    Sub('history', cases, check, 4200),
    Sub('schema', schema_cases, check_schema, 900),
    Sub('refused', refuse_cases, check_refuse, 400),
    Sub('builtin', builtin_cases, check_builtin, 800),
    Sub('grown', grown_cases, check_grown, 600),
    Sub('sources', stub_cases, check_stub, 500),
    Sub('big', bigdocs.source_cases, bigdocs.check_based, 240, 3840),
]
FINDING_SUBS = [Sub('none', none_cases, check_none, 1)]
