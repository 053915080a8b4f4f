from hypothesis import strategies as st

from .. import bigdocs, forms, gen
from ..core import Sub, Violation, eq, raises, req
from ..rec import Feed, LIVE_KINDS, Stream, change, live_source

PROP = 'C21'
RULE = ('Random gate, repeat and data streams (falsy data, None, lists, zero repeats) '
        'through recording, replaying and user-written emitters, random calls, resets and '
        'replacements of each emitter, compared with a model of the three streams after '
        'every call. Non-trivial: at least two calls.')

gates = st.one_of(st.none(), st.lists(st.booleans(), min_size=1, max_size=6),
                  st.lists(st.sampled_from([True, False, 1, 0, 'yes', '']),
                           min_size=1, max_size=5))
repeats = st.one_of(st.none(), st.lists(st.integers(0, 4), min_size=1, max_size=5),
                    st.lists(st.one_of(st.none(), st.integers(0, 3)),
                             min_size=1, max_size=4))
data = st.lists(st.one_of(st.integers(0, 9), st.sampled_from(
    ['', 'x', None, False, 0.0, [], [1], (2,), {}, 'yz']), gen.strange), min_size=1, max_size=7)
kinds = st.sampled_from(LIVE_KINDS)


@st.composite
def cases(draw):
    spec = {'gate': (draw(kinds), draw(gates)), 'repeat': (draw(kinds), draw(repeats)),
            'emitter': (draw(kinds), draw(data)),
            'seed': draw(st.one_of(st.none(), st.integers(0, 5))),
            'pre': draw(st.integers(0, 2))}
    ops = draw(st.lists(st.one_of(
        st.just(('call',)), st.just(('call',)), st.just(('call',)), st.just(('reset',)),
        st.just(('seed', 3)), st.tuples(st.just('gate'), kinds, gates),
        st.tuples(st.just('repeat'), kinds, repeats),
        st.tuples(st.just('emitter'), kinds, data),
        st.tuples(st.just('change'), st.one_of(
            st.tuples(st.just('gate'), gates.filter(bool)),
            st.tuples(st.just('repeat'), repeats.filter(bool)),
            st.tuples(st.just('emitter'), data))),
        st.tuples(st.just('hide'), st.booleans())), min_size=2, max_size=14))
    return spec, ops


DEFAULTS = {'gate': [True], 'repeat': [None]}


def same(got, want, what):
    req(repr(got) == repr(want), '%s: got %.400r, expected %.400r', what, got, want)


def check(case, obs):
    from fauxdoc.emitters import Static
    from fauxdoc.profile import Field
    spec, ops = case
    log = []
    model = {}
    parts = {}
    kinds_now = {}
    attrs = {'gate': 'gate_emitter', 'repeat': 'repeat_emitter', 'emitter': 'emitter'}

    def make(part, kind, vals):
        if vals is None:
            kinds_now[part] = 'static'
            model[part] = Stream(DEFAULTS[part])
            return None
        kinds_now[part] = kind
        em, model[part] = live_source(kind, vals, part, log)
        return em
    for part in ('gate', 'repeat', 'emitter'):
        parts[part] = make(part, *spec[part])
        if parts[part] is not None:
            for _ in range(spec['pre']):
                parts[part]()
    f = forms.make(Field, name='f', emitter=parts['emitter'], repeat=parts['repeat'],
                   gate=parts['gate'], rng_seed=spec['seed'])
    eq(f.previous, None, 'previous before the first call')
    eq(f.name, 'f', 'name')
    calls = 0
    last = None
    for i, op in enumerate(ops):
        forms.stir('Field')
        what = 'op %d %r' % (i, op)
        del log[:]
        if op[0] == 'call':
            got = f()
            uses = [e for e in log]
            rep = None
            if model['gate'].one():
                rep = model['repeat'].one()
                d = model['emitter']
                last = d.one() if rep is None else d.many(rep)
                obs.tag('single' if rep is None else 'list of %s' % min(rep, 2))
            else:
                last = None
                obs.tag('gated')
                req(not [e for e in uses if e[0] != 'gate'],
                    '%s: the gate said no, yet %r', what, uses)
            same(got, last, what)
            req(len([e for e in uses if e[0] == 'gate']) <= 1 and
                len([e for e in uses if e[0] == 'repeat']) <= 1,
                '%s: gate or repeat asked more than once: %r', what, uses)
            calls += 1
        elif op[0] == 'reset':
            f.reset()
            for m in model.values():
                m.reset()
            last = None
        elif op[0] == 'seed':
            f.seed(op[1])       # nothing here is random
        elif op[0] == 'hide':
            f.hide = op[1]
        elif op[0] == 'change':
            part, vals = op[1]
            change(kinds_now[part], getattr(f, attrs[part]), model[part], vals)
            obs.tag('changed ' + part)
        else:
            em = make(op[0], op[1], op[2])
            if em is None:
                em = Static(DEFAULTS[op[0]][0])
            attr = attrs[op[0]]
            if i % 3:
                setattr(f, attr, em)
            else:
                # the same through the public map
                label, = [k for k, v in f.emitters.items() if v is getattr(f, attr)]
                f.emitters[label] = em
                obs.tag('replaced in the map')
            req(getattr(f, attr) is em, '%s: %s is not the new one', what, attr)
            obs.tag('replaced ' + op[0])
        same(f.previous, last, what + ': previous')
        known = kinds_now['repeat'] in ('seq', 'static')
        eq(bool(f.multi_valued), not known or any(
            v is not None for v in model['repeat'].values), what + ': multi_valued')
    # everything is where the model says it is
    for part, m in model.items():
        same(getattr(f, attrs[part])(), m.one(), 'next value of the %s emitter' % part)
    obs.interesting(calls > 1)


@st.composite
def random_cases(draw):
    return (draw(st.lists(st.integers(0, 5), min_size=1, max_size=4)),
            draw(st.sampled_from([0.0, 0.3, 0.7, 1.0])), draw(st.integers(0, 999)),
            draw(st.lists(st.sampled_from(['call', 'call', 'call', 'reset', 'seed']),
                          min_size=2, max_size=10)))


def check_random(case, obs):
    """Random parts behind recorders: the field uses what they emitted."""
    from fauxdoc.emitters import Choice, chance
    from fauxdoc.profile import Field
    from ..rec import Recorder
    reps, p, seed, ops = case
    g, r, e = Recorder(chance(p)), Recorder(Choice(reps)), Recorder(Choice(range(100)))
    f = forms.make(Field, name='f', emitter=e, repeat=r, gate=g, rng_seed=seed)
    hist = []
    calls = 0
    for i, op in enumerate(ops):
        forms.stir('Field')
        what = 'op %d %s' % (i, op)
        for x in (g, r, e):
            del x.out[:]
        if op == 'call':
            got = f()
            eq(len(g.out), 1, what + ': gate answers drawn')
            if g.out[0]:
                eq(len(r.out), 1, what + ': repeats drawn')
                eq(got, list(e.out), what)
                eq(len(got), r.out[0], what + ': number of values')
            else:
                eq(got, None, what)
                eq((r.out, e.out), ([], []), what + ': drawn although gated')
            hist.append(got)
            eq(f.previous, got, what + ': previous')
            calls += 1
        elif op == 'reset':
            f.reset()
            eq(f.previous, None, 'previous after reset')
            again = [f() for _ in hist]
            eq(again, hist, 'values after a reset')
        else:
            f.seed(seed)
            f.reset()
            again = [f() for _ in hist]
            eq(again, hist, 'values after reseeding')
    obs.interesting(calls > 1)


MV = [('none-default', False), ('Static(None)', False), ('Static(0)', True),
      ('Static(1)', True), ('Choice', None), ('Sequential', None), ('Iterative', True),
      ('feed', True)]


@st.composite
def mv_cases(draw):
    return draw(st.sampled_from(MV)), draw(st.lists(
        st.one_of(st.none(), st.integers(0, 2)), min_size=1, max_size=5)), \
        draw(st.booleans()), draw(st.booleans())


def check_mv(case, obs):
    from fauxdoc.emitters import Choice, Iterative, Sequential, Static
    from fauxdoc.profile import Field
    (kind, want), items, later, allnone = case
    if allnone:
        items = [None] * len(items)
    if want is None:
        want = any(i is not None for i in items)
    rep = {'none-default': lambda: None, 'Static(None)': lambda: Static(None),
           'Static(0)': lambda: Static(0), 'Static(1)': lambda: Static(1),
           'Choice': lambda: Choice(items), 'Sequential': lambda: Sequential(items),
           'Iterative': lambda: Iterative(lambda: iter(items)),
           'feed': lambda: Feed(items)}[kind]()
    if later and rep is not None:
        f = Field('f', Static(1), repeat=Static(None if want else 3))
        f.repeat_emitter = rep
    else:
        f = Field('f', Static(1), repeat=rep)
    eq(bool(f.multi_valued), want, 'multi_valued with repeat %s %r' % (kind, items))
    v = f()
    if not want:
        req(not isinstance(v, list), 'single-valued field gave %r', v)
    obs.interesting()
    obs.tag(kind)


# Emitters that look at the field they feed: a running total, a repeat that grows,
# a gate that closes after a value.
OWN = {'next': lambda p: (p if type(p) is int else 0) + 1, 'again': lambda p: p,
       'pair': lambda p: ('p', str(p)[:40]), 'length': lambda p: len(p) if type(p) is list else 1,
       'was none': lambda p: p is None, 'grown': lambda p: min(
           len(p) + 1, 4) if type(p) is list else 0, 'none or two': lambda p: 2
       if p is None else None}


@st.composite
def own_cases(draw):
    return {'emitter': draw(st.sampled_from(['next', 'again', 'pair', 'length'])),
            'repeat': draw(st.sampled_from([None, None, 'grown', 'none or two'])),
            'gate': draw(st.sampled_from([None, None, 'was none'])),
            'how': draw(st.sampled_from(['based', 'own', 'wrapped'])),
            'ops': draw(st.lists(st.sampled_from(
                ['call', 'call', 'call', 'call', 'reset', 'fail', 'gatefail', 'repeatfail']),
                min_size=2, max_size=10))}


class Looker:
    """A user-written emitter computing from the previous value of a field."""
    num_unique_values = None
    emits_unique_values = False

    def __init__(self, fn, field=None):
        self.fn, self.field, self.fail = fn, field, None

    def __call__(self, number=None):
        if self.fail is not None:
            raise self.fail
        if number is None:
            return self.fn(self.field.previous)
        return [self.fn(self.field.previous) for _ in range(number)]

    def reset(self):
        pass


def check_own(case, obs):
    from fauxdoc.emitters import BasedOnFields, Static, WrapOne
    from fauxdoc.profile import Field
    fail = {'emitter': None, 'gate': None, 'repeat': None}

    def guarded(part, fn):
        def action(v):
            if fail[part] is not None:
                raise fail[part]
            return fn(v)
        return action
    f = Field('f', Static(None))
    for part, attr in (('emitter', 'emitter'), ('gate', 'gate_emitter'),
                       ('repeat', 'repeat_emitter')):
        if case[part] is None:
            continue
        fn = guarded(part, OWN[case[part]])
        if case['how'] == 'based':
            em = BasedOnFields(f, fn)
        elif case['how'] == 'own':
            em = Looker(fn, f)
        else:
            em = WrapOne(Looker(lambda v: v, f), fn)
        setattr(f, attr, em)
    f.reset()
    last = None
    calls = 0
    for i, op in enumerate(case['ops']):
        forms.stir('Field')
        what = 'op %d %s' % (i, op)
        if op == 'reset':
            f.reset()
            last = None
        elif op == 'call':
            if case['gate'] is not None and not OWN[case['gate']](last):
                last = None
            else:
                n = None if case['repeat'] is None else OWN[case['repeat']](last)
                v = OWN[case['emitter']](last)
                last = v if n is None else [v] * n
            same(f(), last, what)
            calls += 1
        else:
            part = {'fail': 'emitter', 'gatefail': 'gate', 'repeatfail': 'repeat'}[op]
            if case[part] is None:
                continue
            closed = case['gate'] is not None and not OWN[case['gate']](last)
            n = None if case['repeat'] is None else OWN[case['repeat']](last)
            if part != 'gate' and (closed or part == 'emitter' and n == 0):
                continue
            exc = KeyError(what)
            fail[part] = exc
            try:
                f()
            except BaseException as e:
                req(e is exc, '%s: the emitter raised %r, the caller got %r', what, exc, e)
            else:
                raise Violation('%s: the error did not reach the caller' % what)
            fail[part] = None
            obs.tag('failed ' + part)
        same(f.previous, last, what + ': previous')
    obs.interesting(calls > 1)
    obs.tag(case['how'])


SUBS = [
    Sub('own', own_cases, check_own, 600),
    Sub('model', cases, check, 4000),
    Sub('random', random_cases, check_random, 1000),
    Sub('multi_valued', mv_cases, check_mv, 600),
    Sub('big', bigdocs.field_cases, bigdocs.check_field, 300, 4800),
]
