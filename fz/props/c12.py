import datetime as dt

from hypothesis import assume
from hypothesis import strategies as st

from .. import dress, dtm
from ..core import Sub, eq, req
from ..dtm import DAY

PROP = 'C12'
RULE = ('Random start values (dates, datetimes and times, naive and with fixed or changing '
        'time zones, edges of the calendar and of the day), steps in every unit and both '
        'directions (fractions included) and stops at, just before, just after and on the '
        'wrong side of a step boundary; contents are compared with whole-microsecond '
        'arithmetic. Non-trivial: at least two values.')
ASSUMPTIONS = ['Times with stop in another time zone are generated unless start and stop '
               'are the same instant of different days (01:00+05:00 and 20:00+00:00).']


@st.composite
def cases(draw, kinds):
    start = draw(dtm.starts(kinds))
    kind = dtm.kind_of(start)
    step, unit = draw(dtm.steps(kind))
    if kind == 'datetime' and draw(st.integers(0, 7)) == 0:
        step, unit = draw(st.sampled_from([1, -1, 2, -3, 7, 10])), 'microseconds'
    su = dtm.td_us(dtm.step_td(step, unit, kind))
    assume(su and not (kind == 'date' and su % DAY))
    assume(kind != 'time' or abs(su) < DAY)
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 60), st.integers(0, 10 ** 6),
                       st.builds(lambda a, b: a + b, st.sampled_from(
                           [2 ** 31, 2 ** 32, 10 ** 12, 2 ** 53, 10 ** 16, 10 ** 17]),
                           st.integers(0, 10 ** 6))))
    if kind == 'time':
        how = draw(st.sampled_from(['same', 'steps', 'free', 'free']))
        if how == 'same':
            stop = start
        elif how == 'free':
            stop = draw(dtm.times(start.tzinfo))
        else:
            d = draw(st.sampled_from([0, 1, -1, 0, abs(su) // 2]))
            stop = dtm.us_time(dtm.wall(start) + su * n + d, start.tzinfo)
        if start.tzinfo is not None and draw(st.booleans()):
            tz = draw(dtm.tzs.filter(lambda z: z is not None))
            stop = stop.replace(tzinfo=tz)
            # An instant equal to start's, though not an equal time, is unclear.
            assume(start == stop or (dtm.absolute(stop) - dtm.absolute(start)) % DAY)
        return start, stop, step, unit
    q = DAY if kind == 'date' else 1
    off = draw(st.sampled_from([0, 0, q, -q, (abs(su) // 2) // q * q]))
    if draw(st.integers(0, 5)) == 0:
        n = -n                   # on the wrong side
    us = dtm.wall(start) + su * n + off
    us = max(dtm.MIN_US, min(dtm.MAX_US // q * q, us))
    stop = dtm.build(us, start)
    if kind == 'datetime' and start.tzinfo is not None and draw(st.booleans()):
        tz = draw(dtm.tzs.filter(lambda z: z is not None))
        try:
            stop = stop.astimezone(tz)
        except OverflowError:
            pass
    return start, stop, step, unit


def expected_length(start, stop, su):
    if dtm.kind_of(start) == 'time':
        d = dtm.absolute(stop) - dtm.absolute(start)
        d = (d if su > 0 else -d) % DAY or DAY
        return -(-d // abs(su))
    d = dtm.absolute(stop) - dtm.absolute(start)
    return max(0, -(-d // su))


def check(case, obs):
    from fauxdoc.dtrange import dtrange
    start, stop, step, unit = case
    kind = dtm.kind_of(start)
    su = dtm.td_us(dtm.step_td(step, unit, kind))
    n = expected_length(start, stop, su)
    if unit is None:
        r = dtrange(start, stop) if step == 1 else dtrange(start, stop, step)
    else:
        r = dtrange(start, stop, step, unit)
    eq(len(r), n, 'length')
    first = dtm.wall(start)
    if n <= 200:
        got = list(r)
        idx = range(n)
    else:
        idx = sorted({0, 1, 2, n // 3, n // 2, n - 2, n - 1})
        got = [r[i] for i in idx]
    want = [dtm.build(first + su * i, start) for i in idx]
    for g, w, i in zip(got, want, idx):
        req(dtm.ident(g) == dtm.ident(w), 'value %d is %r, expected %r', i, g, w)
    eq(len(got), len(want), 'number of values')
    if n:
        # the next value would be at or past stop
        last = first + su * (n - 1)
        if kind != 'time' and n <= 200:
            past = [v for v in got if (v >= stop if su > 0 else v <= stop)]
            req(not past, 'values %r reach stop %r', past, stop)
    obs.interesting(n > 1)
    obs.tag(kind, 'backward' if su < 0 else 'forward')
    if n == 0:
        obs.tag('empty')
    if kind == 'time':
        if start == stop:
            obs.tag('24 hours')
        elif (start < stop) != (su > 0):
            obs.tag('past midnight')
        if start.utcoffset() != stop.utcoffset():
            obs.tag('times in two zones')
    if getattr(start, 'tzinfo', None) is not None:
        obs.tag('aware')
    if n > 200:
        obs.tag('long')
    if n > 2 ** 53:
        obs.tag('longer than 2**53')


def check_own(case, obs):
    """Start and stop of a user's own classes of dates and times."""
    from fauxdoc.dtrange import dtrange
    start, stop, step, unit = case
    kind = dtm.kind_of(start)
    n = expected_length(start, stop, dtm.td_us(dtm.step_td(step, unit, kind)))
    plain = dtrange(start, stop, step, unit)
    r = dtrange(dtm.as_own(start), dtm.as_own(stop), dress.any_of(step), dress.any_of(unit))
    eq(len(r), n, 'length')
    idx = range(n) if n <= 200 else sorted({0, 1, n // 3, n // 2, n - 2, n - 1})
    for i in idx:
        req(r[i] == plain[i], 'value %d of %d is %r, expected %r', i, n, r[i], plain[i])
    if n <= 200:
        eq(list(r), list(plain), 'values')
    obs.interesting(n > 1)
    obs.tag(kind, '24 hours' if kind == 'time' and start == stop else 'not a whole day')


@st.composite
def zone_cases(draw):
    return (draw(dtm.near_changes), draw(st.sampled_from(dtm.CHANGING)),
            draw(dtm.zone_steps), draw(st.integers(-3, 60)),
            draw(st.sampled_from([0, 0, 1, -1, 7])),
            draw(st.one_of(st.none(), dtm.zone_names)))


def check_zone(case, obs):
    """Zones with changing offsets: values keep to local time."""
    from fauxdoc.dtrange import dtrange
    first, zname, step, n, off, other = case
    tz = dtm.zone(zname)
    start = first.replace(tzinfo=tz)
    local_stop = first + step * n + dt.timedelta(minutes=off)
    stop = local_stop.replace(tzinfo=tz)
    su, span = dtm.td_us(step), dtm.td_us(local_stop - first)
    num = max(0, -(-span // su))
    want = [(first + step * i).replace(tzinfo=tz) for i in range(num)]
    if other is not None:
        stop = stop.astimezone(dtm.zone(other))
        # Only stops which are clear: local time and instants must agree.
        ahead = [first + step * i for i in range(num + 200)]
        key = stop.timestamp()
        sign = 1 if su > 0 else -1
        inst = sum(sign * v.replace(tzinfo=tz).timestamp() < sign * key for v in ahead)
        same_wall = stop.astimezone(tz).replace(tzinfo=None) == local_stop
        if inst != num or not same_wall or any(
                sign * (v.replace(tzinfo=tz).timestamp() - key) < 0 for v in ahead[num:]):
            return
        obs.tag('stop in another zone')
    r = dtrange(start, stop, su, 'microseconds')
    what = 'dtrange from %s to %s step %s' % (start, stop, step)
    eq(len(r), num, what + ': length')
    got = list(r)
    eq([v.replace(tzinfo=None) for v in got], [v.replace(tzinfo=None) for v in want],
       what + ': local times')
    req(all(v.tzinfo is tz for v in got), '%s: zones are %r', what,
        [v.tzinfo for v in got])
    if num and len({v.utcoffset() for v in want}) > 1:
        obs.tag('offset changes')
    obs.interesting(num > 1)


SUBS = [
    Sub('zones', zone_cases, check_zone, 1500),
    Sub('own', lambda: cases(('time', 'time', 'date', 'datetime')), check_own, 900),
    Sub('dates', lambda: cases(('date',)), check, 1800),
    Sub('datetimes', lambda: cases(('datetime',)), check, 2400),
    Sub('times', lambda: cases(('time',)), check, 3000),
]
