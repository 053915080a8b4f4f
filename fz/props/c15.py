import datetime as dt

from hypothesis import assume
from hypothesis import strategies as st

from .. import dress, dtm
from ..core import Sub, eq, raises, req
from ..dtm import DAY
from .c12 import cases as dtrange_cases

PROP = 'C15'
RULE = ('Random ranges given once as objects and once as ISO strings (either or both ends, '
        'several ISO spellings), steps in every unit against the equivalent timedelta, '
        'default units, and generated invalid arguments for dtrange and DateOrTimeRange. '
        'Non-trivial: every case (each compares two constructions or one refusal).')
ASSUMPTIONS = ['Strings that several of the three fromisoformat methods accept are only '
               'generated where the first accepted meaning is the shortest one (a plain '
               'date is a date).']


def spellings(v):
    out = [v.isoformat()]
    k = dtm.kind_of(v)
    if k == 'datetime':
        out += [v.isoformat(' '), str(v)]
        if not v.microsecond:
            out.append(v.isoformat(timespec='microseconds'))
            if not v.second:
                out.append(v.isoformat(timespec='minutes'))
    elif k == 'time':
        if not v.microsecond:
            out.append(v.isoformat(timespec='milliseconds'))
            if not v.second:
                out.append(v.isoformat(timespec='minutes'))
    return out + [s for s in unusual(v, k) if means(s, v)]


def unusual(v, k):
    """Further ISO spellings; which of them are known depends on the Python."""
    if k == 'date':
        iso = v.isocalendar()
        out = ['%04d%02d%02d' % (v.year, v.month, v.day),
               '%04d-W%02d-%d' % tuple(iso), '%04dW%02d%d' % tuple(iso)]
        return out + ['%04d-W%02d' % tuple(iso[:2])] if iso[2] == 1 else out
    t = v.timetz() if k == 'datetime' else v
    zone = t.isoformat()[len(t.replace(tzinfo=None).isoformat()):]
    hms = '%02d:%02d:%02d' % (t.hour, t.minute, t.second)
    forms = []
    if t.microsecond:
        forms += [hms + '.%06d' % t.microsecond, hms + ',%06d' % t.microsecond,
                  hms.replace(':', '') + '.%06d' % t.microsecond]
        if t.microsecond % 1000 == 0:
            forms += [hms + '.%03d' % (t.microsecond // 1000)]
    else:
        forms += [hms.replace(':', ''), hms + '.000', hms]
        if not t.second:
            forms += [hms[:5], hms[:5].replace(':', '')]
            if not t.minute:
                forms += [hms[:2], hms[:2]]
    zones = [zone]
    if zone:
        zones.append(zone.replace(':', ''))
        if zone == '+00:00':
            zones.append('Z')
        if zone.endswith(':00') and len(zone) == 6:
            zones.append(zone[:3])
    ends = [f + z for z in zones for f in forms]
    if k == 'time':
        return ['T' + e for e in ends] + ends
    d = v.date()
    return [p + e for p in [d.isoformat() + 'T', d.isoformat() + ' ',
                            d.isoformat() + 'x', '%04d%02d%02dT' % (v.year, v.month,
                                                                    v.day),
                            '%04d-W%02d-%dT' % tuple(d.isocalendar())] for e in ends]


def means(s, v):
    """True if the first fromisoformat that accepts s makes v of it."""
    for cls in (dt.date, dt.time, dt.datetime):
        try:
            got = cls.fromisoformat(s)
        except ValueError:
            continue
        return dtm.ident(got) == dtm.ident(v)
    return False


@st.composite
def string_cases(draw):
    start, stop, step, unit = draw(dtrange_cases(('date', 'datetime', 'time')))
    return (start, stop, step, unit, draw(st.integers(0, 119)), draw(st.integers(0, 119)),
            draw(st.sampled_from(['start', 'stop', 'both', 'both'])))


def check_string(case, obs):
    from fauxdoc.dtrange import dtrange
    start, stop, step, unit, i, j, which = case
    args = (step,) if unit is None else (step, unit)
    a, b = start, stop
    if which in ('start', 'both'):
        sp = spellings(start)
        a = sp[i % len(sp)]
    if which in ('stop', 'both'):
        sp = spellings(stop)
        b = sp[j % len(sp)]
    r = dtrange(start, stop, *args)
    if (i + j) % 4 == 0:
        # texts and numbers of derived classes
        a, b = dress.text(a), dress.text(b)
        args = tuple(map(dress.any_of, args))
        obs.tag('texts of a derived class')
    s = dtrange(a, b, *args)
    what = 'dtrange(%r, %r, ...)' % (a, b)
    eq(dtm.ident(s.start), dtm.ident(start), what + ': start')
    eq(s.step, r.step, what + ': step')
    eq(len(s), len(r), what + ': length')
    eq(s == r, True, what + ': equal to the range of the parsed objects')
    for k in {0, len(r) // 2, len(r) - 1} if len(r) else ():
        eq(dtm.ident(s[k]), dtm.ident(r[k]), what + ': value %d' % k)
    # units: the same range as with the equivalent timedelta in microseconds
    su = dtm.td_us(dtm.step_td(step, unit, dtm.kind_of(start)))
    eq(r.step, dtm.us_td(su), 'step %r %r' % (step, unit))
    u = dtrange(start, stop, su, 'microseconds')
    eq((u.step, len(u), u == r), (r.step, len(r), True),
       'step %r %r against %d microseconds' % (step, unit, su))
    if step == 1:
        d = dtrange(start, stop, step_unit=unit) if unit else dtrange(start, stop)
        eq((d.step, len(d)), (r.step, len(r)), 'default step of 1')
    obs.interesting()
    obs.tag(dtm.kind_of(start), 'strings: ' + which, 'unit %s' % unit)


NOT_DATES = ['', 'x', 'today', '2024-13-01', '2023-02-29', '25:00', '10:60', '2024-01-01T',
             '2024-01-01T25:00', '01/02/2024', '2024-1-1', 12, 0, 1.5, None, True,
             [], (), {}, (2024, 1, 1), b'2024-01-01', '2024-01-01 garbage', '-']
BAD_UNITS = ['day', 'month', 'months', 'years', '', 'Days', 'sec', 'us', 'second',
             'fortnights', 'max', 'resolution', ' days', 'nanoseconds', 'weekdays']


def readable(text):
    for cls in (dt.date, dt.time, dt.datetime):
        try:
            cls.fromisoformat(text)
            return True
        except ValueError:
            pass
    return False


@st.composite
def spoilt(draw, value):
    """A spelling with something added, changed or taken away, which is no date any more."""
    text = draw(st.sampled_from(spellings(value)))
    i = draw(st.one_of(st.just(0), st.just(len(text)), st.integers(0, len(text))))
    what = draw(st.sampled_from([' ', '\n', '\t', '\u00a0', '"', '0', 'x', 'Z', '-', ':', '.',
                                 '\u0661', '/', '(UTC)', ' UTC', '+', '\ufeff', '']))
    text = text[:i] + what + text[i + (1 if draw(st.integers(0, 2)) == 0 else 0):]
    assume(not readable(text))
    return text


@st.composite
def refuse_cases(draw):
    how = draw(st.sampled_from(['bad start', 'bad stop'] * 2 + ['types', 'unit', 'date step',
                                'date step', 'time step', 'time step', 'zero step']))
    start = draw(dtm.starts())
    kind = dtm.kind_of(start)
    if how in ('bad start', 'bad stop'):
        return how, start, draw(st.one_of(st.sampled_from(NOT_DATES), spoilt(start))), None
    if how == 'types':
        other = draw(dtm.starts().filter(lambda v: dtm.kind_of(v) != kind))
        s = draw(st.sampled_from(['', 'a', 'b', 'ab']))
        return how, start, other, s
    if how == 'unit':
        return how, start, draw(st.sampled_from(BAD_UNITS)), None
    if how == 'zero step':
        unit = draw(st.sampled_from(['td', None] + sorted(dtm.UNIT_US)))
        num = draw(st.sampled_from([0, 0.0, -0.0, 0, 1e-14, -1e-15]))
        if kind == 'date' and draw(st.booleans()):
            return how, start, num, unit, draw(dtm.dates)
        other = draw(dtm.dates if kind == 'date' else st.just(start) | (
            dtm.times(start.tzinfo) if kind == 'time' else dtm.datetimes(start.tzinfo)))
        return how, start, num, unit, other
    if how == 'date step':
        start = draw(dtm.dates)
        days = draw(st.one_of(st.integers(-5, 5), st.integers(-200_000, 200_000)))
        rest = draw(st.one_of(st.integers(1, DAY - 1), st.sampled_from(
            [1, DAY - 1, DAY // 2, DAY // 24, 1_000_000, 1000])))
        unit = draw(st.sampled_from(['microseconds', 'td', 'hours', 'days', 'minutes']))
        us = days * DAY + rest
        if unit in ('hours', 'minutes'):
            us = (us // dtm.UNIT_US[unit]) * dtm.UNIT_US[unit]
        if unit == 'days':
            us = days * DAY + draw(st.sampled_from([DAY // 2, DAY // 4]))
        assume(us % DAY)
        return how, start, us, unit
    start = draw(dtm.times(draw(dtm.tzs)))
    us = draw(st.one_of(st.sampled_from([DAY, DAY + 1, 2 * DAY, 7 * DAY, DAY + DAY // 24]),
                        st.integers(DAY, 50 * DAY)))
    if draw(st.booleans()):
        us = -us
    unit = draw(st.sampled_from(['microseconds', 'td', 'hours', 'days', 'weeks']))
    if unit in ('hours', 'days', 'weeks'):
        us = (abs(us) // dtm.UNIT_US[unit] + 1) * dtm.UNIT_US[unit] * (1 if us > 0 else -1)
    return how, start, us, unit


def check_refuse(case, obs):
    from fauxdoc.dtrange import DateOrTimeRange, dtrange
    how, start, x, y = case[:4]
    obs.interesting()
    obs.tag(how)
    what = '%s: %r' % (how, case[1:])
    if how == 'bad start':
        raises(ValueError, what, dtrange, x, start)
        return
    if how == 'bad stop':
        raises(ValueError, what, dtrange, start, x)
        return
    if how == 'types':
        a = start.isoformat() if 'a' in y else start
        b = x.isoformat() if 'b' in y else x
        raises(ValueError, what, dtrange, a, b)
        raises(ValueError, what, dtrange, b, a, -1)
        return
    if how == 'unit':
        raises(ValueError, what, dtrange, start, start, 1, x)
        raises(ValueError, what, dtrange, start, start, step_unit=x)
        return
    if how == 'zero step':
        if y == 'td':
            for n in (0, 1, 3):
                raises(ValueError, what, DateOrTimeRange, start, n, dt.timedelta(0))
        elif y is None:
            raises(ValueError, what, dtrange, start, case[4], x)
        else:
            raises(ValueError, what, dtrange, start, case[4], x, y)
        return
    td = dtm.us_td(x)
    if y == 'td':
        for n in (0, 1, 3):
            raises(ValueError, what + ' length %d' % n, DateOrTimeRange, start, n, td)
        return
    num = x // dtm.UNIT_US[y] if x % dtm.UNIT_US[y] == 0 else x / dtm.UNIT_US[y]
    if how == 'date step':
        stops = [dt.date(2020, 5, 5), start]
    else:
        stops = [dt.time(5, tzinfo=start.tzinfo), start]
    for stop in stops:
        raises(ValueError, what + ' to %r' % stop, dtrange, start, stop, num, y)


@st.composite
def direct_cases(draw):
    how = draw(st.sampled_from(['start', 'step', 'length str', 'length num', 'length num']))
    start = draw(dtm.starts())
    step = dt.timedelta(days=1) if dtm.kind_of(start) == 'date' else dt.timedelta(seconds=7)
    if dtm.kind_of(start) == 'datetime':
        start = start.replace(year=2000)
    if how == 'start':
        return how, draw(st.sampled_from(['2000-01-01', '10:00', 5, None, 1.5, (), [],
                                          dt.timedelta(1), ''])), step, 3
    if how == 'step':
        return how, start, draw(st.sampled_from([1, 0, 86400, 1.5, None, '1', (), 'days',
                                                 dt.time(1), dt.date(1, 1, 2)])), 3
    if how == 'length str':
        return how, start, step, draw(st.sampled_from(
            ['', 'x', 'five', '1.5', '1e3', '0x10', '--1', '1 2', 'None', '3 days']))
    n = draw(st.integers(0, 20))
    return how, start, step, draw(st.sampled_from(
        [str(n), ' %d ' % n, '+%d' % n, '0%d' % n if n else '0', str(n)]))


def check_direct(case, obs):
    from fauxdoc.dtrange import DateOrTimeRange
    how, start, step, length = case
    obs.interesting()
    obs.tag(how)
    if how == 'length num':
        n = int(length)
        if dtm.kind_of(start) == 'date' and not dtm.fits(dtm.wall(start) + n * DAY, 'date'):
            return
        r = DateOrTimeRange(start, dress.text(length) if n % 2 else length, step)
        eq(len(r), n, 'len with length %r' % length)
        eq(r.length, n, 'length attribute with length %r' % length)
        eq([dtm.ident(v) for v in r], [dtm.ident(v) for v in dtm.values(start, n, step)],
           'values')
        return
    raises(ValueError, '%s: %r' % (how, case[1:]), DateOrTimeRange, start, length, step)


SUBS = [
    Sub('strings', string_cases, check_string, 4000),
    Sub('refusals', refuse_cases, check_refuse, 3000),
    Sub('direct', direct_cases, check_direct, 900),
]
