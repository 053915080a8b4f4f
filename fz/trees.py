"""Random compositions of the built-in emitters, as plain data.

Specs:
  ('choice', seqspec, weights|None, mode, seed)   mode: 'rep', 'norep', 'roac'
  ('factory', 'chance'|'poisson'|'gaussian', args, seed)
  ('static', value) ('seq', seqspec, reset_after_call) ('iter', values, how, same)
  ('word', length, alphabet, seed) ('text', numwords, word, sep|None, seed)
  ('one', source, fn, seed) ('many', [(name, source)...], fn, seed)
Fields and schemas:
  ('field', emitter, repeat|None, gate|None, seed)
  ('schema', [('plain', fieldspec, hide) | ('copy', indices, sep, hide) |
              ('based', indices, fn, hide, seed)])
"""
import itertools
import zlib

from hypothesis import strategies as st

from . import forms, gen

INF = float('inf')
SPEC = object()       # the seed that the spec names

# ------------------------------------------------------------------ functions
# name -> (maker for WrapOne, wants rng)


def _pair(v):
    return ('p', v)


def _roll(v, rng):
    return (v, rng.random())


def _dice(v, *, rng=None):
    return '%s%d' % (v, rng.randrange(10))


def _bracket(v):
    return '<%s>' % (v,)


def _same(v):
    return v


ONE_FNS = {'pair': _pair, 'roll': _roll, 'same': _same}
STR_FNS = {'bracket': _bracket, 'dice': _dice, 'same': _same, 'str': str}


def many_fn(fn):
    if fn == 'items':
        return lambda **kw: ('m', sorted(kw.items(), key=lambda t: t[0]))
    if fn == 'mroll':
        def mroll(rng, **kw):
            return (sorted(kw.items(), key=lambda t: t[0]), rng.random())
        return mroll
    if fn == 'order':
        # shows the order in which the values arrive
        return lambda **kw: ('o', list(kw.items()))
    if fn == 'join':
        return lambda **kw: '|'.join('%s' % (kw[k],) for k in sorted(kw))
    raise ValueError(fn)


# --------------------------------------------------------------------- build

class Builder:
    """Builds real emitters; remembers every input object it passed.

    With `pool`, equal sequences are the same object in everything built.
    """

    def __init__(self, pool=None):
        self.inputs = []
        self.pool = pool

    def seq(self, spec):
        if self.pool is not None:
            k = repr(spec)
            if k not in self.pool:
                self.pool[k] = gen.make_seq(spec)
            obj = self.pool[k]
        else:
            obj = gen.make_seq(spec)
        return self.note(obj)

    def note(self, obj):
        self.inputs.append((obj, repr(obj), type(obj)))
        return obj

    def unchanged(self):
        return all(repr(o) == text and type(o) is t for o, text, t in self.inputs)

    def emitter(self, spec, seed=SPEC):
        """Builds an emitter; `seed` replaces the root's seed."""
        from fauxdoc import emitters as E
        kind = spec[0]
        if kind in ('choice', 'factory', 'word', 'text', 'one', 'many'):
            s = spec[-1] if seed is SPEC else seed
        if kind == 'choice':
            _, seq, weights, mode, _ = spec
            kw = {'norep': {'replace': False}, 'roac': {'replace_only_after_call': True},
                  'rep': {}}[mode]
            if weights is not None:
                kw['weights'] = self.note(list(weights))
            return forms.make(E.Choice, items=self.seq(seq), rng_seed=s, **kw)
        if kind == 'factory':
            if spec[1] == 'chance':
                return E.chance(*spec[2], rng_seed=s)
            f = {'poisson': E.poisson_choice, 'gaussian': E.gaussian_choice}[spec[1]]
            return f(self.seq(spec[2][0]), *spec[2][1:], rng_seed=s)
        if kind == 'static':
            return E.Static(self.note(gen.make_seq(spec[1]) if isinstance(spec[1], tuple)
                                      and spec[1] and spec[1][0] == 'list' else spec[1]))
        if kind == 'seq':
            return E.Sequential(self.seq(spec[1]), reset_after_call=spec[2])
        if kind == 'iter':
            vals = self.note(list(spec[1]))
            if spec[2] == 'iter':
                return E.Iterative(lambda: iter(vals), spec[3])
            if spec[2] == 'gen':
                return E.Iterative(lambda: (v for v in vals), spec[3])
            return E.Iterative(lambda: itertools.cycle(vals), spec[3])
        if kind == 'word':
            return forms.make(E.Word, length_emitter=self.emitter(spec[1]),
                              alphabet_emitter=self.emitter(spec[2]), rng_seed=s)
        if kind == 'text':
            args = [self.emitter(spec[1]), self.emitter(spec[2])]
            if spec[3] is not None:
                args.append(self.emitter(spec[3]))
            return E.Text(*args, rng_seed=s)
        if kind == 'one':
            fn = ONE_FNS.get(spec[2]) or STR_FNS[spec[2]]
            return forms.make(E.WrapOne, source=self.emitter(spec[1]), wrapper=fn, rng_seed=s)
        if kind == 'many':
            srcs = {k: self.emitter(v) for k, v in spec[1]}
            em = forms.make(E.WrapMany, sources=srcs, wrapper=many_fn(spec[2]), rng_seed=s)
            self.note_keys(srcs)
            return em
        raise ValueError(spec)

    def note_keys(self, mapping):
        self.inputs.append((list(mapping), repr(list(mapping)), list))

    def field(self, name, spec, seed=SPEC, hide=False):
        from fauxdoc.profile import Field
        _, em, rep, gate, s = spec
        return forms.make(Field, name=name, emitter=self.emitter(em),
                          repeat=None if rep is None else self.emitter(rep),
                          gate=None if gate is None else self.emitter(gate), hide=hide,
                          rng_seed=s if seed is SPEC else seed)

    def schema(self, spec, seed=SPEC):
        from fauxdoc import emitters as E
        from fauxdoc.profile import Field, Schema
        fields = []
        for i, f in enumerate(spec[1]):
            name = 'f%d' % i
            if f[0] == 'plain':
                fields.append(self.field(name, f[1], seed, f[2]))
                continue
            src = [fields[j] for j in f[1]]
            src = src[0] if len(src) == 1 and f[0] == 'based' else src
            s = f[4] if f[0] == 'based' and seed is SPEC else (
                None if seed is SPEC else seed)
            if f[0] == 'copy':
                em = E.CopyFields(src, f[2]) if f[2] is not None else E.CopyFields(src)
            elif len(f[1]) == 1:
                em = E.BasedOnFields(src, ONE_FNS[f[2]], rng_seed=s)
            else:
                em = E.BasedOnFields(src, many_fn(f[2]), rng_seed=s)
            fields.append(forms.make(Field, name=name, emitter=em, hide=f[3], rng_seed=s))
        return Schema(*fields)

    def target(self, spec, seed=SPEC):
        if spec[0] == 'schema':
            return Target(self.schema(spec, seed), 'schema', spec)
        if spec[0] == 'field':
            return Target(self.field('name', spec, seed), 'field', spec)
        return Target(self.emitter(spec, seed), 'emitter', spec)


class Target:
    """An emitter, field or schema, driven by the same operations."""

    def __init__(self, obj, kind, spec):
        self.obj, self.kind, self.spec = obj, kind, spec
        self.total, self.percall = capacity(spec)
        self.used = 0
        self.text = repr(spec)[:200]

    def seedable(self):
        return self.kind != 'emitter' or hasattr(self.obj, 'seed')

    def allowed(self, n):
        return n <= self.percall and self.used + n <= self.total

    def run(self, op):
        """Performs one op; returns its output ('skipped' where not possible)."""
        if op[0] == 'reset':
            self.reset()
            return 'reset'
        if op[0] == 'seed':
            if self.seedable():
                self.seed(op[1])
            return 'seed'
        n = 1 if op[0] == 'one' or self.kind != 'emitter' else op[1]
        if not self.allowed(n):
            return 'skipped'
        self.used += n
        if self.kind != 'emitter':
            return self.obj()
        n = None if op[0] == 'one' else n
        # equal operations are made in equal ways, whatever went before
        return forms.ask(self.obj, n, zlib.crc32(('%s %r' % (self.text, n)).encode()) >> 28)

    def outputs(self, ops):
        """repr, so that later changes of emitted objects cannot matter."""
        return [repr(self.run(op)) for op in ops]

    def reset(self):
        self.used = 0
        (self.obj.reset_fields if self.kind == 'schema' else self.obj.reset)()

    def seed(self, s):
        if self.spec[0] == 'choice' and self.spec[3] == 'norep':
            self.used = 0           # a new shuffle of all items
        (self.obj.seed_fields if self.kind == 'schema' else self.obj.seed)(s)


# ------------------------------------------------------------------- analysis

def capacity(spec):
    """(values in all, values per call) before it runs out."""
    kind = spec[0]
    if kind == 'choice':
        n = len(gen.seq_values(spec[1]))
        return {'rep': (INF, INF), 'norep': (n, n), 'roac': (INF, n)}[spec[3]]
    if kind == 'one':
        return capacity(spec[1])
    if kind == 'many':
        caps = [capacity(s) for _, s in spec[1]]
        return min(c[0] for c in caps), min(c[1] for c in caps)
    return INF, INF


def has_norep(spec):
    if spec[0] == 'choice':
        return spec[3] == 'norep'
    if spec[0] == 'one':
        return has_norep(spec[1])
    if spec[0] == 'many':
        return any(has_norep(s) for _, s in spec[1])
    return False


def values_of(spec):
    """The list of values a leaf can emit."""
    kind = spec[0]
    if kind == 'choice':
        vals = gen.seq_values(spec[1])
        if spec[2] is not None and spec[3] == 'rep':
            vals = [v for v, w in zip(vals, spec[2]) if w]
        return vals
    if kind == 'factory':
        return [True, False] if spec[1] == 'chance' else gen.seq_values(spec[2][0])
    if kind == 'static':
        v = spec[1]
        return [v[1] if isinstance(v, tuple) and v and v[0] == 'list' else v]
    if kind == 'seq':
        return gen.seq_values(spec[1])
    if kind == 'iter':
        return list(spec[1])
    return None


def ends(spec, text, starts):
    """Where a string emitter's value can end in text if it begins at one of starts.

    Works on sets of positions, so it takes polynomial time whatever the nesting.
    """
    if not starts:
        return set()
    vals = values_of(spec)
    if vals is not None:
        strs = {str(v) for v in vals}
        return {i + len(v) for i in starts for v in strs if text.startswith(v, i)}
    kind = spec[0]
    if kind in ('word', 'text'):
        out = set()
        counts = set(values_of(spec[1]))
        here = set(starts)
        for k in range(max(counts) + 1):
            if k:
                if k > 1 and kind == 'text':
                    here = ({i + 1 for i in here if text.startswith(' ', i)}
                            if spec[3] is None else ends(spec[3], text, here))
                here = ends(spec[2], text, here)
            if k in counts:
                out |= here
        return out
    if kind == 'one':
        if spec[2] == 'bracket':
            inner = ends(spec[1], text, {i + 1 for i in starts if text.startswith('<', i)})
            return {i + 1 for i in inner if text.startswith('>', i)}
        inner = ends(spec[1], text, starts)
        if spec[2] == 'dice':
            return {i + 1 for i in inner if text[i:i + 1] in DIGITS and text[i:i + 1]}
        return inner
    if kind == 'many':
        here = set(starts)
        for k, (_, s) in enumerate(sorted(spec[1])):
            if k:
                here = {i + 1 for i in here if text.startswith('|', i)}
            here = ends(s, text, here)
        return here
    raise ValueError(spec)


DIGITS = '0123456789'


def is_str(spec):
    return spec[0] in ('word', 'text') or (spec[0] == 'one' and spec[2] in STR_FNS and
                                           spec[2] != 'same') or (
        spec[0] == 'many' and spec[2] == 'join')


class Can:
    """Decides whether a spec can emit a value."""

    def __init__(self):
        self.cache = {}

    def __call__(self, spec, value):
        vals = self.leaf(spec)
        if vals is not None:
            return any(type(v) is type(value) and v == value for v in vals)
        if is_str(spec):
            return type(value) is str and len(value) in ends(spec, value, {0})
        kind = spec[0]
        if kind == 'one':
            if spec[2] == 'same':
                return self(spec[1], value)
            if not (type(value) is tuple and len(value) == 2):
                return False
            if spec[2] == 'pair':
                return value[0] == 'p' and self(spec[1], value[1])
            return self(spec[1], value[0]) and type(value[1]) is float and 0 <= value[1] < 1
        if kind == 'many':
            if not (type(value) is tuple and len(value) == 2):
                return False
            if spec[2] in ('items', 'order'):
                tag, items = value
                if tag != {'items': 'm', 'order': 'o'}[spec[2]] or type(items) is not list:
                    return False
            else:
                items, r = value
                if not (type(r) is float and 0 <= r < 1):
                    return False
            names = [k for k, _ in items]
            if spec[2] == 'order':
                names.sort()
            return names == sorted(k for k, _ in spec[1]) and all(
                self(self.sources(spec)[k], v) for k, v in items)
        raise ValueError(spec)

    def sources(self, spec):
        k = id(spec), 'sources'
        if k not in self.cache:
            self.cache[k] = (spec, dict(spec[1]))
        return self.cache[k][1]

    def leaf(self, spec):
        k = id(spec)
        if k not in self.cache:
            self.cache[k] = (spec, values_of(spec))
        return self.cache[k][1]


def size(spec):
    if spec[0] in ('word', 'text'):
        return 1 + sum(size(s) for s in spec[1:4] if isinstance(s, tuple))
    if spec[0] == 'one':
        return 1 + size(spec[1])
    if spec[0] == 'many':
        return 1 + sum(size(s) for _, s in spec[1])
    return 1


def is_random(spec):
    """Whether anything below draws random numbers."""
    if spec[0] in ('choice', 'factory'):
        return True
    if spec[0] == 'one':
        return spec[2] in ('roll', 'dice') or is_random(spec[1])
    if spec[0] == 'many':
        return spec[2] == 'mroll' or any(is_random(s) for _, s in spec[1])
    if spec[0] in ('word', 'text'):
        return any(is_random(s) for s in spec[1:4] if isinstance(s, tuple))
    return False


def positionless(spec):
    """Whether nothing but random generators carries state between calls."""
    kind = spec[0]
    if kind in ('seq', 'iter'):
        return False
    if kind == 'one':
        return positionless(spec[1])
    if kind == 'many':
        return all(positionless(s) for _, s in spec[1])
    if kind in ('word', 'text', 'field'):
        return all(positionless(s) for s in spec[1:4] if isinstance(s, tuple))
    if kind == 'schema':
        return all(positionless(f[1]) for f in spec[1] if f[0] == 'plain')
    return True


def reseeded(spec, mark):
    """The same spec with every seed below the root replaced."""
    def go(s, root):
        kind = s[0]
        if kind == 'choice':
            return s[:4] + ((s[4] if root else mark),)
        if kind == 'factory':
            return s[:3] + ((s[3] if root else mark),)
        if kind == 'word':
            return ('word', go(s[1], 0), go(s[2], 0), s[3] if root else mark)
        if kind == 'text':
            return ('text', go(s[1], 0), go(s[2], 0), s[3] and go(s[3], 0),
                    s[4] if root else mark)
        if kind == 'one':
            return ('one', go(s[1], 0), s[2], s[3] if root else mark)
        if kind == 'many':
            return ('many', [(k, go(v, 0)) for k, v in s[1]], s[2], s[3] if root else mark)
        if kind == 'field':
            return ('field', go(s[1], 0), s[2] and go(s[2], 0), s[3] and go(s[3], 0),
                    s[4] if root else mark)
        if kind == 'schema':
            return ('schema', [('plain', go(f[1], 0), f[2]) if f[0] == 'plain' else (
                f if f[0] == 'copy' else f[:4] + (mark,)) for f in s[1]])
        return s
    return go(spec, True)


# ----------------------------------------------------------------- strategies

node_seeds = st.one_of(st.none(), st.integers(0, 99))
letters = st.sampled_from(['a', 'b', 'c', 'd', 'e', 'X', '1', '\u00e9', '\U0001f600', '.'])
words = st.sampled_from(['the', 'cat', 'sat', 'on', 'a', 'mat', 'dog', 'ran', 'far', 'off',
                         '', 'x-y', '(z)', 'a b'])


@st.composite
def leaf_of(draw, values, mx=8, modes=('rep',), distinct=False):
    """A leaf emitter over drawn values."""
    kind = draw(st.sampled_from(['choice', 'choice', 'choice', 'wchoice', 'static', 'seq',
                                 'iter']))
    if kind == 'static':
        return ('static', draw(values))
    vals = draw(st.lists(values, min_size=1, max_size=mx))
    spec = (draw(st.sampled_from(['list', 'tuple'])), vals)
    if kind == 'seq':
        if all(type(v) is str and len(v) == 1 for v in vals) and draw(st.booleans()):
            spec = ('str', ''.join(vals))
        return ('seq', spec, draw(st.sampled_from([False, False, True])))
    if kind == 'iter':
        return ('iter', vals, draw(st.sampled_from(['iter', 'gen', 'cycle'])),
                draw(st.sampled_from([False, False, True])))
    mode = draw(st.sampled_from(list(modes)))
    w = None
    if kind == 'wchoice':
        w = draw(gen.weight_lists(len(vals), zeros=None if mode == 'rep' else False))
    return ('choice', spec, w, mode, draw(node_seeds))


def ints(mx):
    return leaf_of(st.integers(0, mx), 5)


@st.composite
def str_trees(draw, depth):
    kind = draw(st.sampled_from(['leaf', 'leaf', 'word', 'word', 'one', 'join', 'text']
                                if depth else ['leaf']))
    if kind == 'leaf':
        return draw(leaf_of(draw(st.sampled_from([letters, words]))))
    if kind == 'word':
        return ('word', draw(ints(4)), draw(str_trees(depth - 1)), draw(node_seeds))
    if kind == 'text':
        w = draw(st.one_of(str_trees(depth - 1), leaf_of(words, 8, ('rep', 'roac'))))
        return ('text', draw(ints(4)), w,
                draw(st.one_of(st.none(), leaf_of(st.sampled_from([' ', ', ', '', '-'])))),
                draw(node_seeds))
    if kind == 'one':
        return ('one', draw(str_trees(depth - 1)),
                draw(st.sampled_from(sorted(STR_FNS))), draw(node_seeds))
    return ('many', [('a', draw(str_trees(depth - 1))), ('b', draw(str_trees(depth - 1)))],
            'join', draw(node_seeds))


@st.composite
def any_leaf(draw, limited):
    kind = draw(st.sampled_from(['choice', 'choice', 'choice', 'static', 'seq', 'iter',
                                 'chance', 'poisson', 'gaussian']))
    if kind == 'static':
        return ('static', draw(st.one_of(gen.mixed, st.tuples(st.just('list'), st.lists(
            st.integers(0, 3), max_size=3)))))
    if kind == 'seq':
        return ('seq', draw(gen.sequences(1, 12)), draw(st.sampled_from([False, False, True])))
    if kind == 'iter':
        return ('iter', draw(st.lists(gen.mixed, min_size=1, max_size=5)),
                draw(st.sampled_from(['iter', 'gen', 'cycle'])),
                draw(st.sampled_from([False, False, True])))
    s = draw(node_seeds)
    if kind == 'chance':
        return ('factory', 'chance', (draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])),), s)
    seq = draw(gen.sequences(1, 30))
    if kind in ('poisson', 'gaussian'):
        n = len(gen.seq_values(seq))
        mu = draw(st.integers(1, n))
        return ('factory', kind, (seq, mu) + ((draw(st.sampled_from([1, 2.5, 5])),)
                                              if kind == 'gaussian' else ()), s)
    mode = draw(st.sampled_from(['rep', 'rep', 'norep', 'roac'] if limited else ['rep']))
    n = len(gen.seq_values(seq))
    w = draw(st.one_of(st.none(), gen.weight_lists(n, zeros=None if mode == 'rep'
                                                   else False)))
    return ('choice', seq, w, mode, s)


@st.composite
def any_trees(draw, depth, limited=True):
    kind = draw(st.sampled_from(['leaf', 'str', 'str', 'one', 'one', 'many'] if depth
                                else ['leaf']))
    if kind == 'leaf':
        return draw(any_leaf(limited))
    if kind == 'str':
        return draw(str_trees(depth))
    if kind == 'one':
        return ('one', draw(any_trees(depth - 1, limited)),
                draw(st.sampled_from(sorted(ONE_FNS))), draw(node_seeds))
    names = draw(st.one_of(
        st.sampled_from([['a'], ['a', 'b'], ['b', 'a'], ['c', 'a', 'b']]),
        st.lists(st.sampled_from(SOURCE_NAMES), min_size=2, max_size=5, unique=True)))
    srcs = [(n, draw(any_trees(depth - 1 if len(names) < 4 else 0, limited)))
            for n in names]
    return ('many', srcs, draw(st.sampled_from(['items', 'mroll', 'order'])),
            draw(node_seeds))


SOURCE_NAMES = ['a', 'b', 'c', 'd', 'width', 'height', 'first_name', 'x1', 'Z', '_y', 'key',
                'data', 'number', 'name']
trees = any_trees(3)
endless = any_trees(2, limited=False)


@st.composite
def fields(draw, depth=2):
    rep = draw(st.one_of(st.none(), ints(3), leaf_of(st.sampled_from([None, 1, 2]), 3)))
    gate = draw(st.one_of(st.none(), leaf_of(st.booleans(), 4), st.just(
        ('factory', 'chance', (0.5,), 3))))
    return ('field', draw(any_trees(depth, limited=False)), rep, gate, draw(node_seeds))


@st.composite
def schemas(draw):
    out = []
    for i in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['plain', 'plain', 'copy', 'based'])) if i else 'plain'
        hide = draw(st.integers(0, 3)) == 0
        if kind == 'plain':
            out.append(('plain', draw(fields(1)), hide))
            continue
        idx = draw(st.lists(st.integers(0, i - 1), min_size=1, max_size=2, unique=True))
        if kind == 'copy':
            out.append(('copy', idx, draw(st.sampled_from([None, None, ', '])), hide))
        else:
            fn = draw(st.sampled_from(sorted(ONE_FNS) if len(idx) == 1
                                      else ['items', 'mroll', 'order']))
            out.append(('based', idx, fn, hide, draw(node_seeds)))
    return ('schema', out)


targets = st.one_of(trees, trees, fields(), schemas())


@st.composite
def emissions(draw, mn=1, mx=8, big=40):
    out = []
    for _ in range(draw(st.integers(mn, mx))):
        if draw(st.integers(0, 2)) == 0:
            out.append(('one',))
        else:
            out.append(('many', draw(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 10, big]))))
    return out


def lengths(spec):
    """The lengths of the item sequences inside."""
    if spec[0] in ('choice', 'seq'):
        return {len(gen.seq_values(spec[1]))}
    if spec[0] == 'iter':
        return {len(spec[1])}
    if spec[0] == 'factory':
        return set() if spec[1] == 'chance' else {len(gen.seq_values(spec[2][0]))}
    subs = []
    if spec[0] in ('word', 'text'):
        subs = [s for s in spec[1:4] if isinstance(s, tuple)]
    elif spec[0] == 'one':
        subs = [spec[1]]
    elif spec[0] == 'many':
        subs = [s for _, s in spec[1]]
    return set().union(*map(lengths, subs))


@st.composite
def brimming(draw, spec, ops):
    """The operations, some of them asking for all a call can give, or for exactly as many
    values as there are items."""
    if spec[0] in ('field', 'schema'):
        return ops
    top = capacity(spec)[1]
    sizes = sorted(lengths(spec))
    if top == INF:
        more = [n * k for n in sizes for k in (1, 1, 1, 2)]
        if not more or draw(st.booleans()):
            return ops
    else:
        more = [top, top, max(top - 1, 0)] + [n for n in sizes if n < top]
    return [('many', draw(st.sampled_from([op[1], op[1]] + more)))
            if op[0] == 'many' else op for op in ops]


@st.composite
def histories(draw, mn=1, mx=10, big=40):
    out = []
    for _ in range(draw(st.integers(mn, mx))):
        k = draw(st.integers(0, 9))
        if k == 0:
            out.append(('reset',))
        elif k == 1:
            out.append(('seed', draw(st.integers(0, 99))))
        elif k < 5:
            out.append(('one',))
        else:
            out.append(('many', draw(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 10, big]))))
    return out
