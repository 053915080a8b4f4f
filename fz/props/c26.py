import collections.abc
import json
import os
import pickle
import random
import re
import subprocess
import sys
import typing
import warnings

from hypothesis import strategies as st

from .. import core, depr, env, trees
from ..core import Sub, Violation, eq, raises, req

PROP = 'C26'
RULE = ('Random sequences of accesses (eleven ways: getattr, from-imports, star imports, '
        'hasattr, dir, ...) of deprecated, current and unknown names over all modules, in '
        'this process and in fresh interpreters, every warning recorded; user classes '
        'derived from the deprecated Wrap; random use of everything current, which must not '
        'warn. Non-trivial: the sequence accesses a deprecated '
        'name at least twice or next to other names.')
ASSUMPTIONS = ['A from-import of a deprecated name may warn more than once.']

_dep = st.sampled_from([(m, n) for m, names in sorted(depr.DEPRECATED.items())
                        for n in sorted(names)])
_cur = st.sampled_from([(m, n) for m, names in sorted(depr.CURRENT.items())
                        for n in names])


def _near(name):
    forms = ['_' + name, name + '_', '__%s__' % name, name.lower(), name.upper(), name[:-1],
             name[1:], name + 's', name.swapcase(), name * 2, 'deprecated_' + name]
    return [f for f in forms if f.isidentifier()]


_all_dep = sorted({n for names in depr.DEPRECATED.values() for n in names})
_near_unk = st.sampled_from(
    [(m, f) for m, names in sorted(depr.DEPRECATED.items())
     for n in _all_dep for f in [n] + _near(n) if f not in names])
_far_unk = st.tuples(st.sampled_from(sorted(depr.DEPRECATED)),
                     st.one_of(st.sampled_from(depr.UNKNOWN),
                               st.text('abWrapOne_', min_size=1, max_size=5).filter(
                                   str.isidentifier).map(lambda s: 'zz' + s)))
_unk = st.one_of(_near_unk, _far_unk)


@st.composite
def accesses(draw, mn, mx):
    ops = []
    for _ in range(draw(st.integers(mn, mx))):
        mod, name = draw(draw(st.sampled_from([_dep, _dep, _dep, _cur, _unk])))
        ops.append((draw(st.sampled_from(depr.HOWS)), mod, name))
    return ops


def judge(op, outcome, warned, what):
    how, mod, name = op
    dep = depr.DEPRECATED.get(mod, {})
    if how == 'star':
        # which names a star import brings is defined by __all__ where there is one
        if mod == 'fauxdoc.emitters' and name in dep:
            req(outcome == 'value', '%s: star import does not bring it', what)
        for is_dep, text in warned:
            req(is_dep and any(re.search(r'\b%s\b' % n, text) for n in dep),
                '%s: warned %r', what, text)
        if outcome == 'value' and name in dep:
            req(warned, '%s: no warning', what)
        return
    if name in dep:
        req(outcome in (('refused',) if how.startswith('strict') else ('value', 'yes')),
            '%s: gave %s', what, outcome)
        if how == 'dir':
            req(not warned, '%s: dir() warned %r', what, warned)
            return
        req(warned, '%s: no warning', what)
        for is_dep, text in warned:
            req(is_dep, '%s: warning is no DeprecationWarning: %r', what, text)
            req(re.search(r'\b%s\b' % name, text) and 'deprecated' in text,
                '%s: the warning does not name it: %r', what, text)
            for rep in dep[name]:
                req(re.search(r'(?<![\w\[])%s(?![\w\[])' % re.escape(rep), text),
                    '%s: the warning does not name %s: %r', what, rep, text)
    elif name in depr.CURRENT.get(mod, ()):
        req(outcome in ('value', 'yes'), '%s: gave %s', what, outcome)
        req(not warned, '%s: a current name warned %r', what, warned)
    else:
        req(outcome in ('missing', 'no'), '%s: gave %s', what, outcome)
        req(not warned, '%s: an unknown name warned %r', what, warned)


def usable(mod, name, value, what):
    if name == 'Number':
        req(value is float, '%s: is %r', what, value)
    elif name == 'Wrap':
        req(isinstance(value, type), '%s: is %r', what, value)
        eq((value.__name__, value.__qualname__), ('Wrap', 'Wrap'), what + ': name')
        req(pickle.loads(pickle.dumps(value)) is value, '%s: pickled and loaded, it is '
            'another object', what)
    elif name == 'EmitterLikeCallable':
        typing.Optional[value]
        from fauxdoc.typing import EmitterLike
        eq([typing.get_origin(a) for a in typing.get_args(value)],
           [collections.abc.Callable, EmitterLike], what + ': parts')
        req(value[int] == typing.Union[typing.Callable[[int], typing.Sequence[int]],
                                       EmitterLike[int]], '%s[int]: is %r', what, value[int])
    elif name in depr.DEPRECATED['fauxdoc.typing']:
        from fauxdoc.typing import EmitterLike
        want = {'StrEmitterLike': str, 'IntEmitterLike': int, 'BoolEmitterLike': bool}
        req(value == EmitterLike[want[name]], '%s: is %r', what, value)


_seen = {}


def check_here(case, obs):
    import fauxdoc.emitters.wrappers
    deps = 0
    for i, (op, outcome, value, warned) in enumerate(depr.run(case)):
        what = 'access %d %r' % (i, op)
        judge(op, outcome, warned, what)
        if outcome == 'value':
            req(_seen.setdefault(op[1:], value) is value, '%s: another object', what)
            if op[2] in depr.DEPRECATED.get(op[1], {}):
                usable(op[1], op[2], value, what)
        deps += op[2] in depr.DEPRECATED.get(op[1], {})
        obs.tag(op[0])
    a, b = (_seen.get((m, 'Wrap')) for m in ('fauxdoc.emitters',
                                             'fauxdoc.emitters.wrappers'))
    if a is not None and b is not None:
        req(a is b, 'fauxdoc.emitters.Wrap is not fauxdoc.emitters.wrappers.Wrap')
    obs.interesting(deps >= 2 or (deps and len(case) > 1))


@st.composite
def fresh_cases(draw):
    first = draw(st.lists(st.sampled_from(sorted(depr.CURRENT)), max_size=3, unique=True))
    return first, draw(accesses(3, 25))


def check_fresh(case, obs):
    first, ops = case
    e = core.child_env(PYTHONPATH=os.pathsep.join([env.SRC, os.path.join(
        env.VERIF, 'fz', 'meta')]), PYTHONWARNINGS='')
    p = subprocess.run([sys.executable, '-X', 'pycache_prefix=' + sys.pycache_prefix,
                        os.path.join(env.VERIF, 'fz', 'depr.py')],
                       input=json.dumps({'first': first, 'ops': ops}), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=100)
    if p.returncode:
        raise Violation('the program failed: %s' % p.stderr[-800:])
    out = json.loads(p.stdout)
    req(not out['import_warnings'], 'importing %r warned %r', first, out['import_warnings'])
    req(len(out['ops']) == len(ops), 'reported %d accesses', len(out['ops']))
    deps = 0
    for i, (op, outcome, _, same, warned) in enumerate(out['ops']):
        what = 'fresh interpreter, access %d %r' % (i, op)
        judge(op, outcome, warned, what)
        req(same, '%s: another object than before', what)
        deps += op[2] in depr.DEPRECATED.get(op[1], {})
    obs.interesting(deps >= 2)
    obs.tag('imported first: %d' % len(first))


# ---------------------------------------------- using the deprecated base class

wrap_cases = st.tuples(
    st.sampled_from(['fauxdoc.emitters', 'fauxdoc.emitters.wrappers']),
    st.lists(st.tuples(st.sampled_from(['a', 'b', 'c']),
                       st.lists(st.integers(0, 9), min_size=1, max_size=4)),
             min_size=1, max_size=3, unique_by=lambda t: t[0]),
    st.booleans(), st.integers(0, 99),
    st.lists(st.one_of(st.just(('one',)), st.tuples(st.just('many'), st.integers(0, 4)),
                       st.just(('reset',)), st.tuples(st.just('seed'), st.integers(0, 9))),
             min_size=1, max_size=8))


def check_wrap(case, obs):
    import importlib
    from fauxdoc.emitter import Emitter
    from fauxdoc.emitters import Choice, Sequential
    mod, sources, rng, seed, ops = case
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        Wrap = importlib.import_module(mod).Wrap

    class Mine(Wrap):
        def emit(self):
            return self.wrapper(**{k: em() for k, em in self.emitters.items()})

        def emit_many(self, number):
            return [self.emit() for _ in range(number)]
    with warnings.catch_warnings():
        warnings.simplefilter('error', DeprecationWarning)
        if rng:
            def fn(rng, **kw):
                return sorted(kw.items()), rng.random()
        else:
            def fn(**kw):
                return sorted(kw.items()), None
        raises(TypeError, 'the abstract class', Wrap, {}, fn)
        em = Mine({k: Sequential(v) for k, v in sources}, fn, rng_seed=seed)
        req(isinstance(em, Emitter), 'not an Emitter')
        ref = random.Random(seed)
        pos = 0

        def nxt():
            nonlocal pos
            kw = sorted((k, v[pos % len(v)]) for k, v in sources)
            pos += 1
            return kw, (ref.random() if rng else None)
        for i, op in enumerate(ops):
            what = 'op %d %r' % (i, op)
            if op[0] == 'one':
                eq(em(), nxt(), what)
            elif op[0] == 'many':
                eq(em(op[1]), [nxt() for _ in range(op[1])], what)
            elif op[0] == 'reset':
                em.reset()
                ref, pos = random.Random(seed), 0
            else:
                seed = op[1]
                em.seed(seed)
                ref = random.Random(seed)
    obs.interesting(sum(op[0] in ('one', 'many') for op in ops) > 1)
    obs.tag('rng' if rng else 'no rng')


# ------------------------------------------------------- current names stay quiet

quiet_cases = st.tuples(trees.targets, st.integers(0, 99), trees.histories(1, 8))


def check_quiet(case, obs):
    spec, seed, ops = case
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        t = trees.Builder().target(spec, seed)
        t.outputs(ops)
        if t.seedable():
            t.seed(seed)
        t.reset()
        dir(t.obj), repr(t.obj), hasattr(t.obj, 'no such attribute')
        for name in ('items', 'weights', 'cum_weights', 'emitters', 'iterator_factory',
                     'num_unique_values', 'emits_unique_values', 'multi_valued', 'fields',
                     'hidden_fields', 'public_fields', 'wrapper', 'previous', 'rng_seed'):
            getattr(t.obj, name, None)
    req(not caught, 'using %s warned %r', spec[0], [str(w.message) for w in caught])
    obs.interesting(trees.size(spec) > 1 or t.kind != 'emitter')
    obs.tag(t.kind)


# ----------------------------------------------------------- the deprecated setter

_vals = st.lists(st.integers(0, 9), min_size=1, max_size=5)
setter_cases = st.tuples(_vals, st.lists(st.tuples(st.sampled_from(
    ['one', 'many', 'set', 'set', 'same', 'reset', 'strict', 'refused', 'iterative']), _vals),
    min_size=1, max_size=8))


def check_setter(case, obs):
    from fauxdoc.emitters import Iterative, Sequential
    vals, ops = case
    em, pos, sets = Sequential(vals), 0, 0
    other = Iterative(lambda: iter(vals))

    def assign(target, fn, filt='always'):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter(filt)
            target.iterator_factory = fn
        return caught
    for i, (op, new) in enumerate(ops):
        what = 'op %d %s' % (i, op)
        if op in ('set', 'same'):
            fn = em.iterator_factory if op == 'same' else lambda new=new: iter(new)
            caught = assign(em, fn)
            req(any(issubclass(w.category, DeprecationWarning) and
                    'iterator_factory' in str(w.message) for w in caught),
                '%s: warned %r', what, [str(w.message) for w in caught])
            vals = vals if op == 'same' else new
            pos = 0
            sets += 1
        elif op == 'strict':
            raises(DeprecationWarning, what, assign, em, lambda: iter(new), 'error')
        elif op == 'refused':
            raises(ValueError, what, assign, em, lambda: iter([]))
        elif op == 'iterative':
            # not deprecated there
            req(not assign(other, lambda: iter(new)), '%s: warned', what)
            eq(other(len(new) + 1), new + new[:1], what)
        elif op == 'reset':
            em.reset()
            pos = 0
        else:
            n = 1 if op == 'one' else len(new)
            got = [em()] if op == 'one' else em(n)
            eq(got, [vals[(pos + j) % len(vals)] for j in range(n)], what)
            pos += n
        eq(list(em.items), vals, what + ': items')
    obs.interesting(sets)


SUBS = [Sub('here', lambda: accesses(1, 12), check_here, 4000),
        Sub('quiet', quiet_cases, check_quiet, 1200),
        Sub('wrap', wrap_cases, check_wrap, 1200),
        Sub('setter', setter_cases, check_setter, 800),
        Sub('fresh', fresh_cases, check_fresh, 80, 3000)]
