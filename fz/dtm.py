"""Integer (microsecond) arithmetic for dates and times, used as the oracle.

Nothing here uses fauxdoc: values are turned into whole microseconds on the
wall clock and back.
"""
import datetime as dt
import zoneinfo

from hypothesis import strategies as st

DAY = 86_400_000_000
MIN_US = dt.date.min.toordinal() * DAY
MAX_US = dt.date.max.toordinal() * DAY + DAY - 1


def td_us(td):
    return (td.days * 86400 + td.seconds) * 1_000_000 + td.microseconds


def us_td(us):
    return dt.timedelta(microseconds=us)


def time_us(t):
    return ((t.hour * 60 + t.minute) * 60 + t.second) * 1_000_000 + t.microsecond


def kind_of(v):
    if isinstance(v, dt.datetime):
        return 'datetime'
    return 'date' if isinstance(v, dt.date) else 'time'


def wall(v):
    """Wall-clock microseconds of a date, datetime or time."""
    k = kind_of(v)
    if k == 'time':
        return time_us(v)
    us = v.toordinal() * DAY
    return us + time_us(v.timetz()) if k == 'datetime' else us


def absolute(v):
    us = wall(v)
    off = v.utcoffset() if kind_of(v) != 'date' else None
    return us - (td_us(off) if off is not None else 0)


def us_time(us, tz=None):
    s, micro = divmod(us % DAY, 1_000_000)
    m, sec = divmod(s, 60)
    h, mi = divmod(m, 60)
    return dt.time(h, mi, sec, micro, tzinfo=tz)


def build(us, like):
    """The value of the same kind (and time zone) as `like` at us."""
    k = kind_of(like)
    if k == 'time':
        return us_time(us, like.tzinfo)
    o, rem = divmod(us, DAY)
    d = dt.date.fromordinal(o)
    if k == 'date':
        assert rem == 0, (us, like)
        return d
    return dt.datetime.combine(d, us_time(rem, like.tzinfo))


def values(start, length, step):
    """The values of a range, by integer arithmetic."""
    s, d = wall(start), td_us(step)
    return [build(s + i * d, start) for i in range(length)]


def ident(v):
    """Everything there is to a value, for exact comparison."""
    tz = getattr(v, 'tzinfo', None)
    return (type(v), wall(v), None if tz is None else (type(tz), tz.utcoffset(None)))


def fits(us, kind):
    return kind == 'time' or MIN_US <= us <= MAX_US


# Zones whose offset changes during the year; named in cases, made by zone().
CHANGING = ['America/New_York', 'Europe/London', 'Australia/Lord_Howe', 'Pacific/Apia']


def zone(name):
    """A zone from its name, or from a fixed offset in minutes."""
    if isinstance(name, int):
        return dt.timezone(dt.timedelta(minutes=name))
    try:
        return zoneinfo.ZoneInfo(name)
    except zoneinfo.ZoneInfoNotFoundError:
        return dt.timezone(dt.timedelta(hours=-5), name)    # no zone data here


# ------------------------------------------------------------------ strategies

zone_names = st.one_of(st.sampled_from(CHANGING), st.sampled_from([0, 330, -300]))
_near_changes = st.sampled_from(
    [dt.datetime(2024, 3, 9), dt.datetime(2024, 11, 2), dt.datetime(2024, 10, 26),
     dt.datetime(2024, 3, 30), dt.datetime(2024, 4, 6), dt.datetime(2024, 10, 5),
     dt.datetime(2011, 12, 29), dt.datetime(2024, 7, 1)])
near_changes = st.builds(lambda d, m: d + dt.timedelta(minutes=15 * m), _near_changes,
                         st.integers(0, 192))
zone_steps = st.builds(
    lambda m, s: dt.timedelta(minutes=m * s),
    st.one_of(st.sampled_from([30, 60, 1440, 15, 90, 10080, 720]),
              st.integers(1, 5000)), st.sampled_from([1, 1, -1]))

tzs = st.one_of(st.none(), st.none(), st.just(dt.timezone.utc),
                st.sampled_from([dt.timezone(dt.timedelta(hours=5, minutes=30)),
                                 dt.timezone(dt.timedelta(hours=-6)),
                                 dt.timezone(dt.timedelta(hours=14)),
                                 dt.timezone(dt.timedelta(seconds=-4521))]))

_edge_dates = st.sampled_from([dt.date(1, 1, 1), dt.date(9999, 12, 31),
                               dt.date(2000, 2, 28), dt.date(2024, 12, 31),
                               dt.date(1999, 12, 31), dt.date(1900, 2, 28),
                               dt.date(1970, 1, 1)])
dates = st.one_of(st.dates(dt.date(1990, 1, 1), dt.date(2030, 1, 1)), st.dates(),
                  _edge_dates)


@st.composite
def times(draw, tz=None):
    style = draw(st.sampled_from(['edge', 'hour', 'sec', 'any']))
    if style == 'edge':
        t = draw(st.sampled_from([dt.time(0), dt.time(23), dt.time(23, 59, 59),
                                  dt.time(23, 59, 59, 999999), dt.time(0, 0, 0, 1),
                                  dt.time(12)]))
    elif style == 'hour':
        t = dt.time(draw(st.integers(0, 23)), draw(st.sampled_from([0, 0, 30])))
    elif style == 'sec':
        t = us_time(draw(st.integers(0, 86399)) * 1_000_000)
    else:
        t = us_time(draw(st.integers(0, DAY - 1)))
    return t.replace(tzinfo=tz)


@st.composite
def datetimes(draw, tz=None):
    return dt.datetime.combine(draw(dates), draw(times(tz)))


@st.composite
def starts(draw, kinds=('date', 'datetime', 'time')):
    k = draw(st.sampled_from(list(kinds)))
    if k == 'date':
        return draw(dates)
    tz = draw(tzs)
    return draw(datetimes(tz) if k == 'datetime' else times(tz))


UNIT_US = {'weeks': 7 * DAY, 'days': DAY, 'hours': DAY // 24, 'minutes': 60_000_000,
           'seconds': 1_000_000, 'milliseconds': 1000, 'microseconds': 1}


@st.composite
def steps(draw, kind):
    """(number, unit or None) valid for a range of this kind."""
    sign = draw(st.sampled_from([1, 1, -1]))
    if kind == 'date':
        unit = draw(st.sampled_from([None, None, 'days', 'weeks', 'hours', 'minutes',
                                     'seconds', 'milliseconds', 'microseconds']))
        n = draw(st.one_of(st.integers(1, 9), st.integers(1, 400)))
        u = unit or 'days'
        if u == 'weeks' and draw(st.booleans()):
            return sign * n / 7, 'weeks'     # rounds to whole microseconds
        if u in ('days', 'weeks'):
            return sign * n, unit
        return sign * n * (DAY // UNIT_US[u]), unit
    units = [None, 'hours', 'minutes', 'seconds', 'milliseconds', 'microseconds']
    if kind == 'datetime':
        units += ['days', 'weeks']
    unit = draw(st.sampled_from(units))
    u = unit or 'seconds'
    top = {'weeks': 60, 'days': 400, 'hours': 100, 'minutes': 5000, 'seconds': 200_000,
           'milliseconds': 10 ** 8, 'microseconds': 10 ** 11}[u]
    if kind == 'time':
        top = (DAY - 1) // UNIT_US[u]
    n = draw(st.one_of(st.integers(1, min(9, top)), st.integers(1, top),
                       st.sampled_from([x for x in (15, 30, 59, 60, 61, 90, 3600, 3601,
                                                    43200, 86399) if x <= top] or [1])))
    if draw(st.integers(0, 4)) == 0:
        n = draw(st.sampled_from([0.5, 1.5, 0.1, 2.25, 0.75])) * 1.0
        if u == 'microseconds':
            n = 2.0
    return sign * n, unit


def step_td(step, unit, kind):
    return dt.timedelta(**{unit or ('days' if kind == 'date' else 'seconds'): step})


class Date(dt.date):
    pass


class Datetime(dt.datetime):
    pass


class Time(dt.time):
    pass


def as_own(v):
    """The same date or time as an instance of a user's own class of them."""
    if isinstance(v, dt.datetime):
        return Datetime(v.year, v.month, v.day, v.hour, v.minute, v.second,
                        v.microsecond, v.tzinfo, fold=v.fold)
    if isinstance(v, dt.date):
        return Date(v.year, v.month, v.day)
    if isinstance(v, dt.time):
        return Time(v.hour, v.minute, v.second, v.microsecond, v.tzinfo, fold=v.fold)
    return v
