from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

from ..core import Sub, req

PROP = 'C27'
RULE = ('Random lists of inclusive code-point ranges (adjacent, overlapping, repeated, one '
        'character long, up to U+10FFFF, surrogates included) given as lists, tuples or '
        'generators of pairs; random numbers of five types with bounds at, next to and far '
        'from them. Non-trivial: at least two ranges or a range of several characters; a '
        'clamp with at least one bound.')

# ------------------------------------------------------------------ alphabet

EDGES = [0, 1, 9, 10, 0x20, 0x21, 0x22, 0x41, 0x5a, 0x7e, 0x7f, 0xa0, 0xad, 0xff, 0x100,
         0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10fffe, 0x10ffff]
points = st.one_of(st.sampled_from(EDGES), st.integers(0x21, 0x7e), st.integers(0, 0x10ffff))


@st.composite
def ranges(draw):
    out = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 6]))):
        how = draw(st.sampled_from(['new', 'new', 'one', 'again', 'next', 'inside', 'over',
                                    'backward']))
        size = draw(st.sampled_from([1, 2, 3, 10, 26, 95]))
        a = draw(points)
        if out and how != 'new':
            s, e = out[draw(st.integers(0, len(out) - 1))]
            a = {'one': a, 'backward': a, 'again': s, 'next': e + 1, 'inside': s + (e - s) // 2,
                 'over': max(0, s - 1)}[how]
            size = {'one': 1, 'again': e - s + 1, 'inside': 1, 'over': e - s + 3}.get(how,
                                                                                  size)
        a = min(a, 0x10ffff)
        if how == 'backward':
            # no code point lies between the bounds
            out.append((a, max(0, a - draw(st.sampled_from([1, 1, 2, 30])))))
            continue
        out.append((a, min(a + size - 1, 0x10ffff)))
    return draw(st.sampled_from(['list', 'tuple', 'lists', 'group'])), out


@st.composite
def many_ranges(draw):
    if draw(st.booleans()):
        a = draw(points)
        b = draw(st.one_of(st.just(0x10ffff), points, st.just(a + 65536),
                           st.integers(100, 9000).map(lambda k: a + k)))
        out = [(min(a, b, 0x10ffff), min(max(a, b), 0x10ffff))]
    else:
        n = draw(st.one_of(st.integers(7, 64), st.integers(65, 700)))
        step, size = draw(st.integers(-3, 40)), draw(st.sampled_from([1, 1, 2, 30]))
        a = draw(st.integers(200 * 40, 0x8000))
        out = [(a + i * step, a + i * step + size - 1) for i in range(n)]
    return draw(st.sampled_from(['list', 'tuple', 'lists', 'group'])), out


DEFAULT = [(0x21, 0x21), (0x23, 0x26), (0x28, 0x7e), (0xa1, 0xac), (0xae, 0xff)]


def expected(rs):
    out = []
    for s, e in rs:
        code = s
        while code <= e:
            out.append(chr(code))
            code += 1
    return out


def check_alphabet(case, obs):
    from fauxdoc.emitters import make_alphabet
    from fauxdoc.group import ObjectGroup
    how, rs = case
    arg = {'list': list, 'tuple': tuple, 'lists': lambda r: [list(p) for p in r],
           'group': lambda r: ObjectGroup(*r)}[how](rs)
    before = repr(arg)
    got = make_alphabet(arg)
    req(type(got) is list, 'made a %s', type(got).__name__)
    want = expected(rs or DEFAULT)
    if got != want:
        for i, (a, b) in enumerate(zip(got, want)):
            req(a == b, '%.300r: character %d is %r, expected %r', rs, i, a, b)
        req(False, '%.300r: %d characters, expected %d', rs, len(got), len(want))
    req(repr(arg) == before, 'the ranges were changed')
    got.append('more')
    req(make_alphabet(arg) == want, 'a second alphabet differs')
    default = make_alphabet()
    req(default == expected(DEFAULT) and make_alphabet(None) == default, 'default alphabet')
    default.clear()
    req(make_alphabet() == expected(DEFAULT), 'the default alphabet can be changed')
    obs.interesting(len(rs) > 1 or any(e > s for s, e in rs))
    obs.tag(how, 'default' if not rs else '%d ranges' % min(len(rs), 3))


# --------------------------------------------------------------------- clamp

ints = st.one_of(st.integers(-5, 5), st.integers(-10 ** 20, 10 ** 20))
floats = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, 1e308, -1e308, 5e-324,
                                    float('inf'), float('-inf')]),
                   st.floats(-10, 10), st.floats(allow_nan=False))
plain = st.one_of(ints, floats, st.booleans())
exact = st.one_of(st.tuples(st.just('F'), st.integers(-9, 9), st.integers(1, 9)), ints)
decs = st.one_of(st.tuples(st.just('D'), st.integers(-99, 99), st.integers(-3, 3)), ints)


@st.composite
def clamps(draw):
    pool = draw(st.sampled_from([plain, plain, exact, decs]))
    num = draw(pool)

    def bound():
        how = draw(st.sampled_from(['none', 'any', 'any', 'same', 'near', 'zero']))
        if how == 'none':
            return None
        if how == 'any':
            return draw(pool)
        if how == 'zero':
            return 0
        if how == 'same' or isinstance(num, tuple) or abs(num) > 1e300:
            return num
        return num + draw(st.sampled_from([1, -1]))
    mn, mx = bound(), bound()
    return num, mn, mx, draw(st.sampled_from(['pos', 'kw', 'swap', 'leave']))


def make(x):
    if isinstance(x, tuple):
        return Fraction(x[1], x[2]) if x[0] == 'F' else Decimal(x[1]).scaleb(x[2])
    return x


def check_clamp(case, obs):
    from fauxdoc.mathtools import clamp
    num, mn, mx = (make(x) for x in case[:3])
    if mn is not None and mx is not None and mn > mx:
        mn, mx = mx, mn
    how = case[3]
    if how == 'pos':
        got = clamp(num, mn, mx)
    elif how == 'kw':
        got = clamp(number=num, mn=mn, mx=mx)
    elif how == 'swap':
        got = clamp(num, mx=mx, mn=mn)
    else:
        got = clamp(num, **{k: v for k, v in (('mn', mn), ('mx', mx)) if v is not None})
    if mn is not None and num < mn:
        want, where = mn, 'below'
    elif mx is not None and num > mx:
        want, where = mx, 'above'
    else:
        want, where = num, 'within'
    req(got is want or (type(got) is type(want) and repr(got) == repr(want)),
        'clamp(%r, %r, %r) is %r, expected %r', num, mn, mx, got, want)
    obs.interesting(mn is not None or mx is not None)
    obs.tag(where, type(num).__name__)
    if num in (mn, mx):
        obs.tag('at a bound')


SUBS = [Sub('alphabet', ranges, check_alphabet, 4000),
        Sub('many', many_ranges, check_alphabet, 60, 600),
        Sub('clamp', clamps, check_clamp, 8000)]
