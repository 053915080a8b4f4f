"""Generators of plain-data cases shared by the property modules."""
import copy
import datetime as dt

from hypothesis import strategies as st

from . import odd

# ------------------------------------------------------------------ sequences
# A sequence is described as ('list'|'tuple', [values]), ('str', text),
# ('range', a, b, step), ('group', [values]), ('dtr', start, length, step_s) or
# ('alike', n).


class Alike:
    """Equal to all others of its kind, and yet each its own value."""

    def __init__(self, i):
        self.i = i

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'alike%d' % self.i


def make_seq(spec):
    kind = spec[0]
    if kind == 'list':
        return list(spec[1])
    if kind == 'tuple':
        return tuple(spec[1])
    if kind == 'str':
        return spec[1]
    if kind == 'range':
        return range(*spec[1:])
    if kind == 'group':
        from fauxdoc.group import ObjectGroup
        return ObjectGroup(*spec[1])
    if kind == 'dtr':
        from fauxdoc.dtrange import DateOrTimeRange
        return DateOrTimeRange(spec[1], spec[2], dt.timedelta(seconds=spec[3]))
    if kind == 'alike':
        return [Alike(i) for i in range(spec[1])]
    raise ValueError(spec)


def seq_values(spec):
    """The values of a sequence spec, without using fauxdoc."""
    if spec[0] == 'dtr':
        return [spec[1] + dt.timedelta(seconds=spec[3]) * i for i in range(spec[2])]
    if spec[0] == 'group':
        return list(spec[1])
    return list(make_seq(spec))


def key(value):
    return '%s:%r' % (type(value).__name__, value)


small_text = st.text('abcxyz', max_size=3)
atoms = st.one_of(st.integers(-3, 9), small_text, st.none())
unhashable = st.one_of(
    st.lists(st.integers(0, 2), max_size=2),
    st.dictionaries(st.sampled_from(['a', 'b']), st.integers(0, 2), max_size=2))
strange = st.integers(0, len(odd.VALUES) - 1).map(lambda i: copy.deepcopy(odd.VALUES[i]))
mixed = st.one_of(atoms, st.tuples(st.integers(0, 2), st.integers(0, 2)), unhashable, strange)

FACES = '\u00e9\u4e2d\U0001f600'


def sizes(mn=1, mx=60):
    """Sequence lengths: mostly small, often around interesting limits."""
    cands = [n for n in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 20, 21, 22, 25, 31,
                         32, 33, 50, 64, 65, 100) if mn <= n <= mx]
    return st.one_of(st.integers(mn, min(mx, max(mn, 9))), st.sampled_from(cands),
                     st.integers(mn, mx))


def big(mx=10000, mn=65):
    """Sizes that pass any limit somebody may have thought nobody reaches."""
    cands = [n for n in (65, 100, 101, 128, 129, 200, 256, 257, 300, 500, 501, 512, 513,
                         1000, 1001, 1024, 1025, 2000, 2049, 4096, 5000, 8193, 10000,
                         10001, 20000, 65537, 100001, 131073) if mn <= n <= mx]
    return st.one_of(st.sampled_from(cands), st.integers(mn, mx),
                     st.integers(max(mn, mx - mx // 4), mx))


def vast(mx, top=140000):
    """Mostly `big(mx)`, now and then very many."""
    return st.integers(0, 15).flatmap(lambda k: big(mx) if k else big(top, mx + 1))


@st.composite
def sequences(draw, mn=1, mx=60, hashable=None, distinct=False):
    kinds = ['ints', 'dups', 'str', 'range', 'tuple', 'dtr', 'twins']
    if hashable is not True:
        kinds += ['mixed', 'lists', 'group']
    if distinct:
        kinds = ['ints', 'str', 'range', 'dtr', 'tuple']
    kind = draw(st.sampled_from(kinds))
    if kind == 'mixed':
        return (draw(st.sampled_from(['list', 'tuple'])),
                draw(st.lists(mixed, min_size=mn, max_size=min(mx, 10))))
    if kind == 'lists':
        n = draw(sizes(mn, min(mx, 40)))
        k = draw(st.integers(1, max(1, n)))
        return ('list', [[i % k] for i in range(n)])
    n = draw(sizes(mn, mx))
    if kind == 'ints':
        off = draw(st.integers(-5, 100))
        return ('list', [off + i for i in range(n)])
    if kind == 'tuple':
        return ('tuple', ['v%d' % i for i in range(n)])
    if kind == 'dups':
        k = draw(st.integers(1, max(1, n)))
        return ('list', ['d%d' % (i * 7 % k) for i in range(n)])
    if kind == 'twins':
        three = draw(st.sampled_from([[0, False, 0.0], [1, True, 1.0], ['', 0, ()]]))
        return ('list', (three * (n // 3 + 1))[:n])
    if kind == 'str':
        base = ''.join(chr(c) for c in range(33, 33 + n)) if n <= 90 else None
        if base is None:
            base = ''.join(chr(0x100 + i) for i in range(n))
        if n >= 3 and draw(st.booleans()):
            base = base[:-3] + FACES
        return ('str', base)
    if kind == 'group':
        return ('group', list(range(n)))
    if kind == 'dtr':
        d = draw(st.dates(dt.date(1900, 1, 1), dt.date(2100, 1, 1)))
        step = draw(st.sampled_from([1, 7, -1]))
        return ('dtr', d, n, step * 86400)
    a = draw(st.integers(-3, 5))
    s = draw(st.sampled_from([1, 2, -1]))
    return ('range', a, a + s * n, s)


_w_int = st.integers(0, 10)
_w_dyadic = st.integers(0, 64).map(lambda i: i / 8)
_w_pos = st.integers(1, 10)
_w_ext = st.sampled_from([0, 1e-9, 1e-3, 1, 1e3, 1e9])
_w_tiny = st.sampled_from([0, 5e-324, 1e-320, 2e-310, 1e-300, 1e-290, 1])


@st.composite
def weight_lists(draw, n, zeros=None, tiny=False):
    """n weights with at least one positive one."""
    style = draw(st.sampled_from(
        ['int', 'dyadic', 'pos', 'sparse', 'ext', 'equal'] + ['tiny'] * tiny
        if zeros is not False else ['pos', 'equal', 'posfloat']))
    if style == 'sparse':
        # mostly zeros
        w = [0] * n
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)):
            w[i] = draw(_w_pos)
        return w
    if style == 'equal':
        return [draw(st.sampled_from([1, 2, 0.5, 100]))] * n
    if style == 'posfloat':
        base = st.sampled_from([0.25, 0.5, 1.0, 3.5, 7.75])
    else:
        base = {'int': _w_int, 'dyadic': _w_dyadic, 'pos': _w_pos, 'ext': _w_ext,
                'tiny': _w_tiny}[style]
    if n > 24:
        # keep the case small: repeat a drawn pattern
        pat = draw(st.lists(base, min_size=3, max_size=12))
        w = [pat[i % len(pat)] for i in range(n)]
    else:
        w = draw(st.lists(base, min_size=n, max_size=n))
    if not any(w):
        w[draw(st.integers(0, n - 1))] = draw(_w_pos)
    if style == 'tiny' and max(w) < 1e-300:
        # random.choices cannot work with a total below the normal floats
        w[draw(st.integers(0, n - 1))] = 1e-300
    return w


def cum(weights):
    out, tot = [], 0
    for w in weights:
        tot = tot + w
        out.append(tot)
    return out


exact_weights = st.integers(0, 64).map(lambda i: i / 8)


@st.composite
def exact_weight_lists(draw, n):
    """Weights whose running sums and differences are exact in floats."""
    pat = draw(st.lists(st.one_of(_w_int, exact_weights),
                        min_size=min(n, 12), max_size=min(n, 12)))
    w = [pat[i % len(pat)] for i in range(n)]
    if not any(w):
        w[draw(st.integers(0, n - 1))] = draw(_w_pos)
    # all weights may be tiny or huge; powers of two keep the sums exact
    scale = draw(st.sampled_from([1, 1, 1, 2.0 ** -36, 2.0 ** -70, 2.0 ** 50, 'ints']))
    if scale == 'ints':
        # whole numbers beyond the exact range of floats: their sums are exact, too
        more = draw(st.integers(1, 1000))
        big = draw(st.sampled_from([2 ** 53, 10 ** 18, 2 ** 70]))
        return [int(x * 8) * big + more if x else 0 for x in w]
    return w if scale == 1 else [x * scale for x in w]


int_seeds = st.one_of(st.integers(0, 20), st.integers(0, 2 ** 70))
seeds = st.one_of(
    st.sampled_from([0, 1, -1, '', 'seed', b'', b'x', 0.0, -0.5, 2 ** 64, 1e300,
                     True, False, bytearray(b''), bytearray(b'ab')]),
    st.integers(-10, 10 ** 6), st.text(max_size=5), st.binary(max_size=4),
    st.floats(allow_nan=False, allow_infinity=False))
