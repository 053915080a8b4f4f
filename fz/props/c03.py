import json
import os
import random
import subprocess
import sys

from hypothesis import strategies as st

from .. import core, env, gen, hashrun, trees
from ..core import HarnessError, Sub, Violation, eq, req
from .c02 import FAMILIES, family, long_cases, random_target

PROP = 'C03'
RULE = ('Random emitters, fields and schemas; the global random state is compared around '
        'every operation; a seeded object is run alone and between operations on up to '
        'three others (some of the same make, some sharing item sequences, some unseeded) '
        'and on the random module; batches are run in interpreters with other hash seeds '
        'and after other work; unseeded objects of high entropy are built under equal '
        'global random states. Non-trivial: the object is random and emits at least three '
        'values, and something else happens in between.')
ASSUMPTIONS = ['Reading the global random state without changing it would only be noticed '
               'through unseeded objects becoming equal.']


@st.composite
def global_cases(draw):
    return (draw(trees.targets), draw(st.one_of(st.none(), st.integers(0, 99))),
            draw(trees.histories(1, 8)), draw(st.integers(0, 99)))


def check_global(case, obs):
    spec, seed, ops, start = case
    saved = random.getstate()
    try:
        random.seed(start)
        state = random.getstate()

        def same(what):
            req(random.getstate() == state, '%s changed the state of the random module',
                what)
        t = trees.Builder().target(spec, trees.SPEC if seed is None else seed)
        same('building it')
        for i, op in enumerate(ops):
            t.run(op)
            same('op %d %r' % (i, op))
        if seed is not None and t.seedable():
            t.seed(seed)
            t.reset()
            first = t.outputs(ops)
            t.seed(seed)
            t.reset()
            random.seed(start + 1)
            random.random()
            state = random.getstate()
            eq(t.outputs(ops), first, 'output after random.seed')
            same('emitting')
    finally:
        random.setstate(saved)
    obs.interesting(random_target(spec) and len(ops) > 2)
    obs.tag(t.kind, 'seeded' if seed is not None else 'unseeded')


# --------------------------------------------------------------- interference

@st.composite
def mixed_cases(draw):
    main = draw(trees.targets)
    seed = draw(st.one_of(st.integers(0, 99), gen.seeds))
    others = []
    for _ in range(draw(st.integers(1, 3))):
        others.append((draw(st.one_of(st.just(main), trees.targets)),
                       draw(st.one_of(st.none(), st.just(seed), st.integers(0, 99)))))
    sched = draw(st.lists(st.one_of(
        st.tuples(st.integers(0, len(others)), st.one_of(
            st.just(('one',)), st.tuples(st.just('many'), st.sampled_from([0, 1, 2, 5, 12])),
            st.just(('reset',)), st.tuples(st.just('seed'), st.one_of(
                st.just(seed), st.integers(0, 99))))),
        st.tuples(st.just(0), st.one_of(st.just(('one',)), st.tuples(
            st.just('many'), st.integers(1, 9)))),
        st.tuples(st.just('build'), st.integers(0, 3)),
        st.tuples(st.just('random'), st.sampled_from(['seed', 'random', 'shuffle',
                                                      'weighted_shuffle', 'choice']))),
        min_size=3, max_size=16))
    return main, seed, others, sched, draw(st.booleans())


def check_mixed(case, obs):
    from fauxdoc import mathtools
    main, seed, others, sched, share = case

    def started(b):
        t = b.target(main, seed)
        if t.kind == 'schema':
            t.seed(seed)
            t.reset()
        return t
    alone = started(trees.Builder())
    mine = [op for who, op in sched if who == 0 and not isinstance(who, str)]
    want = alone.outputs(mine)
    pool = {} if share else None

    def make(k):
        spec, s = others[k % len(others)]
        return trees.Builder(pool).target(spec, trees.SPEC if s is None else s)
    objs = [make(0)]
    real = started(trees.Builder(pool))
    objs += [make(k) for k in range(1, len(others))]
    got = []
    between = 0
    saved = random.getstate()
    try:
        for i, (who, op) in enumerate(sched):
            if who == 'build':
                objs[op % len(objs)] = make(op)
                between += 1
            elif who == 'random':
                between += 1
                if op == 'seed':
                    random.seed(i)
                elif op == 'random':
                    random.random()
                elif op == 'weighted_shuffle':
                    state = random.getstate()
                    n = 3 + i * 5
                    mathtools.weighted_shuffle(range(n), [1 + j % 3 for j in range(n)],
                                               **{'number': 1 + n // 4} if i % 2 else {})
                    req(random.getstate() == state, 'weighted_shuffle without a generator '
                        'changed the state of the global random module')
                elif op == 'shuffle':
                    random.shuffle([1, 2, 3])
                else:
                    random.choice('abc')
            elif who == 0:
                got.append(repr(real.run(op)))
            else:
                objs[who - 1].run(op)
                between += 1
    finally:
        random.setstate(saved)
    for i, (a, b) in enumerate(zip(got, want)):
        req(a == b, 'operation %d %.60r gave %.300s with others at work, %.300s alone', i,
            mine[i], a, b)
    obs.interesting(random_target(main) and between > 0 and
                    sum(op[0] in ('one', 'many') for op in mine) > 1)
    obs.tag(real.kind, 'shared items' if share else 'own items')
    if any(spec == main for spec, _ in others):
        obs.tag('same make')
    if any(s == seed for _, s in others):
        obs.tag('same seed')


@st.composite
def long_mixed_cases(draw):
    """Long requests and long item sequences, with others at work in between."""
    main, seed, other, ops, more, _ = draw(long_cases())
    spec2 = draw(long_cases())[0]
    sched = []
    for op in ops[:6]:
        sched.append((0, op))
        sched.append(draw(st.sampled_from(
            [('build', 0), ('build', 1), ('random', 'seed'), ('random', 'shuffle'),
             ('random', 'weighted_shuffle')] +
            [(k, o) for k in (1, 2) for o in more[:3] + [('seed', 3), ('reset',)]])))
    sched.append((0, ('one',)))
    return main, seed, [(main, draw(st.sampled_from([seed, other, None]))),
                        (spec2, draw(st.sampled_from([seed, None])))], sched, \
        draw(st.booleans())


# ------------------------------------------------------- other interpreter runs

@st.composite
def job(draw):
    return (draw(trees.targets), draw(st.one_of(st.integers(0, 99), st.sampled_from(
        ['seed', b'seed', 0.5]))), draw(trees.emissions(1, 5, 20)))


hash_cases = st.tuples(st.lists(job(), min_size=4, max_size=14),
                       st.lists(job(), max_size=4),
                       st.sampled_from(['0', '1', '2', '12345', '4294967295', 'random']))


def child(jobs, prelude, hashseed):
    e = core.child_env(PYTHONHASHSEED=hashseed)
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, 'fz', 'hashrun.py'),
                        env.VERIF],
                       input=json.dumps({'jobs': jobs, 'prelude': prelude}), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=100)
    if p.returncode:
        if env.SRC in p.stderr.split('Traceback')[-1]:
            raise Violation('fails in another interpreter run: ' + p.stderr[-1500:])
        raise HarnessError(p.stderr[-2000:])
    return json.loads(p.stdout)


def check_hash(case, obs):
    jobs, prelude, hashseed = case
    texts = [core.dump_case(j) for j in jobs]
    here = hashrun.run(texts, [])
    there = child(texts, [core.dump_case(j) for j in prelude], hashseed)
    for j, a, b in zip(jobs, here, there):
        req(a == b, '%.600r gives %.300r here and %.300r with PYTHONHASHSEED=%s after '
            'other work', j, a, b, hashseed)
    obs.evals = len(jobs)
    obs.interesting(any(random_target(s) for s, _, _ in jobs))
    obs.tag('PYTHONHASHSEED=' + hashseed, 'prelude' if prelude else 'no prelude')


# ------------------------------------------------------------------- unseeded

unseeded_cases = st.tuples(
    st.sampled_from([f for f in FAMILIES]), st.integers(0, 99),
    st.sampled_from(['built', 'reset', 'later', 'dropped'] * 2 + ['process']))


def check_unseeded(case, obs):
    name, start, how = case
    ops = [('many', 30), ('one',)] + [('one',)] * 29
    saved = random.getstate()
    out = []
    if how == 'process':
        # counted from the start of the interpreter run
        jobs = [core.dump_case((family(name, None), None, ops))]
        texts = [child(jobs, [], str(start))[0] for _ in range(2)]
        req(texts[0] != texts[1], 'the first unseeded objects of two interpreter runs give '
            'the same output %.300r', texts[0])
        obs.interesting()
        obs.tag(name, how)
        return
    try:
        for i in range(6 if how == 'dropped' else 2):
            random.seed(start)
            t = trees.Builder().target(family(name, None), None)
            if how == 'reset':
                random.seed(start)
                t.reset()
            elif how == 'later':
                random.seed(start)
            out.append(t.outputs(ops))
    finally:
        random.setstate(saved)
    req(all(a != b for i, a in enumerate(out) for b in out[:i]), 'two unseeded objects give the same output %.300r', out[0])
    obs.interesting()
    obs.tag(name, how)


# ----------------------------------------------- built without naming a seed

def _plain_makers():
    from fauxdoc import mixins
    from fauxdoc.emitter import Emitter
    from fauxdoc.emitters import (BasedOnFields, Choice, Static, Text, Word, WrapMany, WrapOne,
                                  chance, gaussian_choice, poisson_choice)
    from fauxdoc.profile import Field, Schema

    class Own(mixins.RandomMixin, Emitter):
        def emit(self):
            return self.rng.random()

        def emit_many(self, number):
            return [self.emit() for _ in range(number)]

    class Parent(mixins.RandomWithChildrenMixin, Own):
        def emit(self):
            return [e() for e in self.emitters.values()]
    n, r = range(10 ** 6), list(range(1, 101))

    def draw(v, rng):
        return rng.random()

    def draw_many(rng, **kw):
        return rng.random()
    return {
        'Choice': lambda: Choice(n), 'Choice cum_weights': lambda: Choice(
            r, cum_weights=r), 'Choice weights': lambda: Choice(r, [1] * 100),
        'Choice norep': lambda: Choice(r, replace=False),
        'Choice roac': lambda: Choice(r, replace_only_after_call=True),
        'chance': lambda: chance(0.5), 'poisson_choice': lambda: poisson_choice(r, 50),
        'gaussian_choice': lambda: gaussian_choice(r, 50, 20),
        'Word': lambda: Word(Static(9), Choice('abcdefgh')),
        'Text': lambda: Text(Static(5), Choice(r_texts)),
        'WrapOne': lambda: WrapOne(Static(1), draw),
        'WrapOne of Choice': lambda: WrapOne(Choice(n), lambda v: v),
        'WrapMany': lambda: WrapMany({'a': Static(1)}, draw_many),
        'WrapMany of Choice': lambda: WrapMany({'a': Choice(n)}, lambda a: a),
        'BasedOnFields': lambda: BasedOnFields(Field('f', Static(1)), draw),
        'BasedOnFields two': lambda: BasedOnFields(
            [Field('f', Static(1)), Field('g', Static(1))], draw_many),
        'Field': lambda: Field('f', Choice(n)),
        'Field gate': lambda: Field('f', Static(1), gate=chance(0.5)),
        'Field repeat': lambda: Field('f', Static(1), repeat=Choice(range(1, 99))),
        'Schema': lambda: Schema(Field('f', Choice(n)), Field('g', Choice(n))),
        'own': Own, 'own parent': lambda: Parent(children={'a': Own(), 'b': Choice(n)}),
    }


r_texts = ['t%d' % i for i in range(100)]
PLAIN = ['Choice', 'Choice cum_weights', 'Choice weights', 'Choice norep', 'Choice roac',
         'chance', 'poisson_choice', 'gaussian_choice', 'Word', 'Text', 'WrapOne',
         'WrapOne of Choice', 'WrapMany', 'WrapMany of Choice', 'BasedOnFields',
         'BasedOnFields two', 'Field', 'Field gate', 'Field repeat', 'Schema', 'own',
         'own parent']
plain_cases = st.tuples(
    st.sampled_from(PLAIN), st.integers(0, 99), st.lists(st.sampled_from(
        ['emit', 'list', 'reset', 'seed', 'other']), max_size=4))


def check_plain(case, obs):
    """Nobody mentioned a seed: two objects made alike are not alike."""
    name, start, before = case
    make = _plain_makers()[name]
    saved = random.getstate()
    out = []
    try:
        for i in range(2):
            random.seed(start)
            em = make()
            eq(getattr(em, 'rng_seed', None), None, 'rng_seed of a new %s' % name)
            for op in before:
                if op == 'emit' and name != 'Choice norep':
                    em()
                elif op == 'list' and name.partition(' ')[0] not in ('Field', 'Schema') \
                        and name != 'Choice norep':
                    em(3)
                elif op == 'reset':
                    em.reset_fields() if name == 'Schema' else em.reset()
                elif op == 'seed':
                    # and another one is seeded
                    other = make()
                    other.seed_fields(start) if name == 'Schema' else other.seed(start)
                elif op == 'other':
                    make()()
            random.seed(start)
            out.append(repr([em() for _ in range(100)]))
    finally:
        random.setstate(saved)
    req(out[0] != out[1], 'two of %s made without a seed give the same output %.300s', name,
        out[0])
    obs.interesting()
    obs.tag(name)


SUBS = [Sub('global', global_cases, check_global, 2400),
        Sub('mixed', mixed_cases, check_mixed, 2400),
        Sub('big', long_mixed_cases, check_mixed, 120, 1920),
        Sub('hash', hash_cases, check_hash, 40, 3000),
        Sub('unseeded', unseeded_cases, check_unseeded, 200),
        Sub('plain', plain_cases, check_plain, 600)]
