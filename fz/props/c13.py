import datetime as dt
import itertools

from hypothesis import assume
from hypothesis import strategies as st

from .. import dress, dtm
from ..core import Sub, Violation, eq, raises, req
from ..dtm import DAY

PROP = 'C13'
RULE = ('Random ranges (date, datetime, time; naive and aware; forward and backward; empty, '
        'one value, up to 40 values, and up to 10**16 values) and random chains of slices '
        'with index, membership, index-with-limits, count and iteration questions about '
        'members, near misses and values of other types, compared with the list of values '
        '(short ranges) or with an integer range (long ones). Non-trivial: at least two '
        'values at the start of the chain.')
ASSUMPTIONS = ['Time ranges span at most 24 hours (longer ones are a known finding).']


@st.composite
def range_specs(draw, mx=40):
    start = draw(dtm.starts())
    kind = dtm.kind_of(start)
    step, unit = draw(dtm.steps(kind))
    su = dtm.td_us(dtm.step_td(step, unit, kind))
    assume(su and not (kind == 'date' and su % DAY) and
           not (kind == 'time' and abs(su) >= DAY))
    n = draw(st.one_of(st.integers(0, 3), st.integers(0, mx), st.just(mx)))
    if kind == 'time':
        n = min(n, DAY // abs(su))
    else:
        room = ((dtm.MAX_US - dtm.wall(start)) if su > 0
                else dtm.wall(start) - dtm.MIN_US) // abs(su)
        n = min(n, room)
    return start, n, dtm.us_td(su)


@st.composite
def slices(draw, n):
    bound = st.one_of(st.none(), st.integers(-n - 2, n + 2), st.integers(-n - 2, n + 2),
                      st.sampled_from([10 ** 6, -10 ** 6, 10 ** 20]))
    step = draw(st.one_of(st.none(), st.none(), st.sampled_from(
        [1, -1, 2, -2, 3, -3, 7, -50, 100, 10 ** 6, -10 ** 9, 10 ** 20])))
    return draw(bound), draw(bound), step


@st.composite
def probes(draw, start, n, step):
    """Something to look for."""
    kind = dtm.kind_of(start)
    su = dtm.td_us(step)
    how = draw(st.sampled_from(['member', 'member', 'member', 'near', 'outside',
                                'other kind', 'other type', 'other zone']))
    first = dtm.wall(start)
    if how in ('member', 'near', 'outside', 'other zone', 'other kind'):
        i = draw(st.integers(0, max(0, n - 1)))
        if how == 'outside':
            i = draw(st.sampled_from([-1, n, n + 1, -2]))
        us = first + su * i
        if how == 'near':
            q = DAY if kind == 'date' else 1
            us += draw(st.sampled_from([q, -q, su // 2 // q * q]))
        if not dtm.fits(us, kind):
            return start
        v = dtm.build(us, start)
        if how == 'other kind':
            if kind == 'date':
                return draw(st.sampled_from(
                    [dt.datetime.combine(v, dt.time(0)),
                     dt.datetime.combine(v, dt.time(0), dt.timezone.utc), dt.time(0)]))
            if kind == 'datetime':
                return draw(st.sampled_from([v.date(), v.timetz(), v.time()]))
            return draw(st.sampled_from([dt.date(99, 1, 1), dt.datetime.combine(
                dt.date(99, 1, 1), v)]))
        if how == 'other zone' and kind != 'date':
            if v.tzinfo is None:
                return v.replace(tzinfo=dt.timezone.utc)
            if kind == 'datetime' and draw(st.booleans()):
                try:
                    return v.astimezone(dt.timezone(dt.timedelta(hours=3)))
                except OverflowError:
                    return v
            if kind == 'time' and draw(st.booleans()):
                hours = draw(st.sampled_from([3, -5, 14, -12, 0]))
                return dtm.us_time(dtm.absolute(v) + hours * (DAY // 24),
                                   dt.timezone(dt.timedelta(hours=hours)))
            return v.replace(tzinfo=None)
        return v
    return draw(st.sampled_from([None, 0, 1, 1.5, '', 'x', str(start), [], (),
                                 {}, dt.timedelta(1), True]))


@st.composite
def list_cases(draw):
    spec = draw(range_specs())
    start, n, step = spec
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('slice'), slices(n)), st.tuples(st.just('slice'), slices(n)),
        st.tuples(st.just('get'), st.integers(-n - 2, n + 1)),
        st.tuples(st.just('get'), st.sampled_from(['a', None, 1.0, (0,), True, False])),
        st.tuples(st.just('get object'), st.integers(-n - 2, n + 1)),
        st.tuples(st.just('slice objects'), slices(n)),
        st.tuples(st.just('in'), probes(*spec)), st.tuples(st.just('in'), probes(*spec)),
        st.tuples(st.just('index'), probes(*spec), st.lists(
            st.one_of(st.none(), st.integers(-n - 2, n + 2)), max_size=2)),
        st.tuples(st.just('count'), probes(*spec)),
        st.just(('reversed',)), st.just(('iter',)), st.just(('zero',))),
        min_size=1, max_size=10))
    return spec, ops


def same(got, want, what):
    g, w = [dtm.ident(v) for v in got], [dtm.ident(v) for v in want]
    req(g == w, '%s: got %.400r, expected %.400r', what, got, want)


def outcome(fn, *args):
    try:
        return 'value', fn(*args)
    except (IndexError, TypeError, ValueError) as e:
        for t in (IndexError, TypeError, ValueError):
            if isinstance(e, t):
                return 'error', t


def make(spec):
    from fauxdoc.dtrange import DateOrTimeRange
    return DateOrTimeRange(*spec)


class Index:
    """Not an int, but to be used as one."""

    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i

    def __repr__(self):
        return 'Index(%d)' % self.i


def check_list(case, obs):
    spec, ops = case
    r = make(spec)
    vals = dtm.values(*spec)
    depth = 0
    obs.interesting(spec[1] > 1)
    obs.tag(dtm.kind_of(spec[0]))
    same(list(r), vals, 'values of %r' % (spec,))
    for i, op in enumerate(ops):
        what = 'op %d %r on %d values' % (i, op, len(vals))
        if op[0] in ('slice', 'slice objects'):
            s = slice(*op[1])
            if op[0] == 'slice objects':
                s = slice(*[x if x is None else Index(x) for x in op[1]])
            r2 = r[s]
            req(type(r2) is type(r), '%s: a slice is a %s', what, type(r2).__name__)
            r, vals = r2, vals[s]
            same(list(r), vals, what)
            depth += 1
            if depth > 1 and len(vals) > 1:
                obs.tag('slice of slice')
        elif op[0] in ('get', 'get object'):
            if op[0] == 'get object':
                op = ('get object', Index(op[1]))
            a, b = outcome(r.__getitem__, op[1]), outcome(vals.__getitem__, op[1])
            eq(a[0], b[0], what)
            if a[0] == 'value':
                same([a[1]], [b[1]], what)
            else:
                eq(a[1], b[1], what + ': kind of error')
                obs.tag(b[1].__name__)
        elif op[0] == 'in':
            want = any(op[1] == v for v in vals)
            eq(op[1] in r, want, what)
            obs.tag('in: %s' % want)
        elif op[0] == 'count':
            eq(r.count(op[1]), sum(op[1] == v for v in vals), what)
        elif op[0] == 'index':
            lim = op[2]
            llim = [(0 if j == 0 else len(vals)) if x is None else x
                    for j, x in enumerate(lim)]
            a = outcome(r.index, op[1], *lim)
            eq(outcome(lambda: r.index(**dict(zip(('value', 'start', 'stop'), (op[1], *lim))))),
               a, what + ': with arguments by name')
            b = outcome(vals.index, op[1], *llim)
            eq(a, b, what)
            obs.tag('index: %s' % b[0])
        elif op[0] == 'reversed':
            same(list(reversed(r)), vals[::-1], what)
        elif op[0] == 'iter':
            same([v for v in r], vals, what)
            same(sorted(r, key=dtm.wall), sorted(vals, key=dtm.wall), what)
        elif op[0] == 'zero':
            raises(ValueError, what + ': slice step 0', r.__getitem__, slice(None, None, 0))
        eq(len(r), len(vals), what + ': len')
        eq(bool(r), bool(vals), what + ': truth value')


@st.composite
def limit_cases(draw):
    spec = draw(range_specs(25))
    n = spec[1]
    # where to look, in terms of the place of what is looked for
    lim = st.one_of(
        st.none(), st.tuples(st.sampled_from(['abs', 'back', 'end', 'round', 'far back']),
                             st.integers(-2, 2)),
        st.tuples(st.just('abs'), st.sampled_from([10 ** 20, -10 ** 20, 3 * n, -3 * n])),
        st.tuples(st.just('plain'), st.integers(-2 * n - 3, 2 * n + 3)))
    asks = draw(st.lists(st.tuples(st.integers(-1, n), st.booleans(), lim, lim,
                                   st.integers(1, 3), st.integers(0, 3)),
                         min_size=8, max_size=14))
    return spec, draw(st.one_of(st.none(), slices(n))), asks


def check_limits(case, obs):
    """index with limits on both sides of what is looked for, counted from both ends."""
    spec, slc, asks = case
    r = make(spec)
    vals = dtm.values(*spec)
    su = dtm.td_us(spec[2])
    if slc is not None:
        r, vals = r[slice(*slc)], vals[slice(*slc)]
    n = len(vals)
    found = 0
    for i, odd, lo, hi, given, objects in asks:
        us = dtm.wall(spec[0]) + su * i
        if dtm.fits(us, dtm.kind_of(spec[0])):
            v = dtm.build(us, spec[0])
        else:
            v = spec[0]
        if odd and vals:
            v = vals[i % n]
        at = vals.index(v) if v in vals else n // 2
        lims = []
        for lim in (lo, hi)[:given - 1]:
            if lim is not None:
                base = {'abs': at, 'back': at - n, 'end': n, 'round': at + n,
                        'far back': at - 2 * n, 'plain': 0}[lim[0]]
                lim = base + lim[1]
            lims.append(lim)
        full = [(0, n)[k] if x is None else x for k, x in enumerate(lims)]
        used = [Index(x) if objects == 0 and x is not None else x for x in lims]
        a = outcome(r.index, v, *used)
        b = outcome(vals.index, v, *full)
        eq(a, b, 'index of %s, limits %r, among %d values' % (v, lims, n))
        found += b[0] == 'value'
    obs.interesting(found)
    obs.tag(dtm.kind_of(spec[0]))


@st.composite
def own_cases(draw):
    spec = draw(range_specs(20))
    return (spec, draw(st.sampled_from([True, True, True, False])),
            draw(st.one_of(st.none(), slices(spec[1]))),
            draw(st.lists(st.tuples(probes(*spec), st.booleans()), min_size=1, max_size=8)))


def check_own(case, obs):
    """Dates and times of classes derived from the standard ones."""
    spec, own, slc, asks = case
    start, n, step = spec
    r, vals = make((dtm.as_own(start) if own else start, dress.number(n) if n % 2 else n,
                    dress.delta(step) if len(asks) % 2 else step)), dtm.values(*spec)
    if slc is not None:
        r, vals = r[slice(*slc)], vals[slice(*slc)]
    listed = list(r)
    eq(listed, vals, 'values')
    eq([r[i] for i in range(len(vals))], vals, 'values by index')
    for i, v in enumerate(listed):
        eq(r.index(v), i, 'index of its own value %r of type %s' % (v, type(v).__name__))
    for v, v_own in asks:
        if v_own:
            v = dtm.as_own(v)
        what = '%s %s in %s values' % (type(v).__name__, v, type(r.start).__name__)
        eq(v in r, v in vals, what)
        eq(r.count(v), vals.count(v), 'count: ' + what)
        eq(outcome(r.index, v), outcome(vals.index, v), 'index: ' + what)
    obs.interesting(own and vals)
    obs.tag('own class: ' + dtm.kind_of(start))


@st.composite
def huge_cases(draw):
    """Ranges too long to list."""
    kind = draw(st.sampled_from(['datetime', 'datetime', 'time', 'date']))
    if kind == 'time':
        start = draw(dtm.times(draw(dtm.tzs)))
        su = draw(st.sampled_from([1, -1, 7, 1000, -999]))
        n = DAY // abs(su)
    elif kind == 'date':
        start = draw(st.sampled_from([dt.date.min, dt.date.max]))
        su = DAY * draw(st.sampled_from([1, 3, 7]))
        if start == dt.date.max:
            su = -su
        n = 3_652_058 * DAY // abs(su)
    else:
        tz = draw(dtm.tzs)
        start = draw(st.sampled_from([dt.datetime(1, 1, 2), dt.datetime(9999, 12, 30)])
                     ).replace(tzinfo=tz)
        su = draw(st.sampled_from([1, 3, 1000, 1_000_000, 86_399_999_999]))
        if start.year > 1:
            su = -su
        n = 3_652_055 * DAY // abs(su)
    frac = st.one_of(st.fractions(0, 1, max_denominator=1000), st.sampled_from([0, 1]))

    def idx():
        f = draw(frac)
        return int(f * (n - 1)) + draw(st.sampled_from([0, 0, 1, -1, -n, 2 - n]))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['get', 'in', 'near', 'index', 'slice', 'slice', 'ends']))
        if k == 'slice':
            ops.append((k, draw(st.one_of(st.none(), st.just(idx()))),
                        draw(st.one_of(st.none(), st.just(idx()))),
                        draw(st.sampled_from([None, 1, -1, 2, -3, 1000, 10 ** 7, 10 ** 18]))))
        else:
            ops.append((k, idx()))
    return start, n, dtm.us_td(su), ops


def check_huge(case, obs):
    start, n, step, ops = case
    r = make((start, n, step))
    su = dtm.td_us(step)
    model = range(dtm.wall(start), dtm.wall(start) + su * n, su)
    obs.interesting()
    obs.tag(dtm.kind_of(start))
    q = DAY if dtm.kind_of(start) == 'date' else 1

    def at(us):
        return dtm.build(us, start)
    for i, op in enumerate(ops):
        what = 'op %d %r on %d values' % (i, op, len(model))
        eq(len(r), len(model), what + ': len')
        eq(bool(r), bool(model), what + ': truth value')
        if not model:
            break
        if op[0] == 'slice':
            s = slice(*op[1:])
            r, model = r[s], model[s]
        elif op[0] == 'ends':
            same(list(itertools.islice(iter(r), 3)), [at(u) for u in model[:3]], what)
            same(list(itertools.islice(reversed(r), 3)),
                 [at(u) for u in model[::-1][:3]], what)
        elif op[0] == 'get':
            j = op[1]
            try:
                want = at(model[j])
            except IndexError:
                raises(IndexError, what, r.__getitem__, j)
            else:
                same([r[j]], [want], what)
        else:
            j = op[1] % len(model)
            us = model[j]
            if op[0] == 'near':
                us += q
                if not dtm.fits(us, dtm.kind_of(start)):
                    continue
                if dtm.kind_of(start) == 'time':
                    want = None
                    for u in (us, us + DAY, us - DAY, us + 2 * DAY, us - 2 * DAY):
                        if u in model:
                            want = model.index(u)
                else:
                    want = model.index(us) if us in model else None
            else:
                want = j
            v = at(us)
            eq(v in r, want is not None, what + ': in')
            eq(r.count(v), 0 if want is None else 1, what + ': count')
            if want is None:
                raises(ValueError, what + ': index', r.index, v)
            else:
                eq(r.index(v), want, what + ': index')
                eq(r.index(v, want), want, what + ': index from there')
                raises(ValueError, what + ': index after it', r.index, v, want + 1)
                raises(ValueError, what + ': index before it', r.index, v, 0, want)


@st.composite
def zone_cases(draw):
    first, step = draw(dtm.near_changes), draw(dtm.zone_steps)
    n = draw(st.integers(0, 30))
    probe = st.tuples(st.one_of(st.integers(-2, n + 1), st.integers(0, max(0, n - 1))),
                      st.sampled_from([0, 0, 0, 30, 60, -60, -30, 120]),
                      st.one_of(st.none(), dtm.zone_names), st.sampled_from([0, 0, 1]))
    return (first, draw(st.sampled_from(dtm.CHANGING)), step, n,
            draw(st.one_of(st.none(), slices(n))),
            draw(st.lists(probe, min_size=1, max_size=6)))


def check_zone(case, obs):
    """Zones with changing offsets, asked about values in this and other zones."""
    first, zname, step, n, slc, probes_ = case
    tz = dtm.zone(zname)
    r = make((first.replace(tzinfo=tz), n, step))
    vals = [(first + step * i).replace(tzinfo=tz) for i in range(n)]
    if slc is not None:
        r, vals = r[slice(*slc)], vals[slice(*slc)]
    same(list(r), vals, 'values')
    for i, extra, other, fold in probes_:
        v = (first + step * i + dt.timedelta(minutes=extra)).replace(tzinfo=tz, fold=fold)
        if other is not None:
            v = v.astimezone(dtm.zone(other))
            obs.tag('other zone')
        what = 'looking for %s (fold %d) in %s' % (v, v.fold, list(map(str, vals)))
        eq(v in r, v in vals, what + ': in')
        eq(r.count(v), vals.count(v), what + ': count')
        eq(outcome(r.index, v), outcome(vals.index, v), what + ': index')
        if v in vals:
            obs.tag('found')
    if len({v.utcoffset() for v in vals}) > 1:
        obs.tag('offset changes')
    obs.interesting(len(vals) > 1)


@st.composite
def multiday_cases(draw):
    return draw(range_specs())


def check_multiday(case, obs):
    """Known finding: time ranges of more than 24 hours. Not part of the check."""
    r = make(case[0])
    vals = dtm.values(*case[0])
    if case[1][0] == 'in':
        eq(r[case[1][1]] in r, True, 'value %d in the range' % case[1][1])
    else:
        s = slice(*case[1][1])
        same(list(r[s]), vals[s], 'slice %r' % (s,))


SUBS = [
    Sub('list', list_cases, check_list, 4800),
    Sub('limits', limit_cases, check_limits, 1200),
    Sub('own', own_cases, check_own, 700),
    Sub('huge', huge_cases, check_huge, 1200),
    Sub('zones', zone_cases, check_zone, 1500),
]
FINDING_SUBS = [Sub('multiday', multiday_cases, check_multiday, 1)]
