"""Date arithmetic follows the calendar."""
import datetime
from fractions import Fraction

from vlib import gen, prog, sut, units
from vlib.pbt import Discard
from vlib.sut import check, Err, Number, frac

RULE = ('dates of the years 1 to 9999 with and without time of day, fraction and zone, biased to month ends, leap days, century years and the ends of the range; periods in every unit of time and '
        'compound units of time, of both signs, from fractions of a microsecond to thousands of years; oracle is integer arithmetic on microseconds of the proleptic Gregorian calendar. '
        'Non-trivial: the period crosses a month end, or the dates differ.')
ASSUMPTIONS = ['zones are whole minutes', 'a period is rounded to whole microseconds']

US = 10 ** 6
DAY = 86400 * US
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
NAMES = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


# -- the calendar ---------------------------------------------------------------

def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def length(y, m):
    return 29 if m == 2 and leap(y) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def day_number(y, m, d):
    """Days since 0001-01-01."""
    n = y - 1
    return n * 365 + n // 4 - n // 100 + n // 400 + CUM[m - 1] + (1 if m > 2 and leap(y) else 0) + d - 1


LAST = day_number(9999, 12, 31)


def from_number(n):
    y = max(1, min(9999, n * 400 // 146097 + 1))
    while day_number(y, 1, 1) > n:
        y -= 1
    while y < 9999 and day_number(y + 1, 1, 1) <= n:
        y += 1
    m = 1
    while m < 12 and day_number(y, m + 1, 1) <= n:
        m += 1
    return y, m, n - day_number(y, m, 1) + 1


class Date:
    def __init__(self, us, zone):
        self.us, self.zone = us, zone  # microseconds since 0001-01-01T00:00 local, minutes east or None

    def parts(self):
        n, r = divmod(self.us, DAY)
        y, m, d = from_number(n)
        return y, m, d, r // (3600 * US), r // (60 * US) % 60, r // US % 60, r % US

    def text(self):
        """The shortest format that shows it fully."""
        y, m, d, hh, mm, ss, f = self.parts()
        out = '%04d-%02d-%02d' % (y, m, d)
        if hh or mm or ss or f:
            out += 'T%02d:%02d:%02d' % (hh, mm, ss)
        if f:
            out += '.%06d' % f
        return out + self.zonetext()

    def zonetext(self):
        if self.zone is None:
            return ''
        return ('-' if self.zone < 0 else '+') + '%02d%02d' % divmod(abs(self.zone), 60)

    def any_text(self, s):
        """Any way to write it."""
        y, m, d, hh, mm, ss, f = self.parts()
        k = s.draw(3)
        if k:
            out = '%04d-%02d-%02d' % (y, m, d)
        else:
            out = '%04d-%d-%d' % (y, m, d)
        if hh or mm or ss or f or s.bool(1, 3):
            out += 'T%02d:%02d:%02d' % (hh, mm, ss)
            if f:
                out += '.' + ('%06d' % f if s.bool() else ('%06d' % f).rstrip('0'))
            elif s.bool(1, 4):
                out += '.0' + '0' * s.int(0, 5)
        if self.zone is not None:
            if self.zone == 0 and s.bool(1, 3):
                return out + 'Z'
            z = self.zonetext()
            return out + (z if s.bool(2, 3) else z[:3] + ':' + z[3:])
        return out

    def utc(self):
        return self.us - (self.zone or 0) * 60 * US


def a_date(s, zone='any'):
    k = s.draw(9)
    if k == 0:
        n = s.pick([0, 1, LAST, LAST - 1, 58, 59, 364, 365])
    elif k < 4:
        y = s.pick([1, 4, 100, 400, 999, 1000, 1582, 1600, 1700, 1752, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2019, 2020, 2021, 2023, 2024, 2038, 2100, 2400, 9996, 9999])
        m = s.int(1, 12)
        n = day_number(y, m, s.pick([1, 2, 28, length(y, m), length(y, m)]))
    elif k < 7:
        n = day_number(s.int(1990, 2030), s.int(1, 12), s.int(1, 28))
    else:
        n = s.int(0, LAST)
    k = s.draw(7)
    if k < 3:
        r = 0
    elif k == 3:
        r = s.pick([1, 86399, 43200, 3600, 60, 86340]) * US
    elif k == 4:
        r = s.int(0, 86399) * US
    elif k == 5:
        r = s.pick([0, 0, 43200, 86399]) * US + s.pick([1, 500000, 999999, 100000, 10, 123456])
    else:
        r = s.int(0, DAY - 1)
    if zone == 'any':
        zone = zone_of(s)
    return Date(n * DAY + r, zone)


def zone_of(s):
    k = s.draw(3)
    if k < 2:
        return None
    return s.weighted([(3, 0), (3, 60 * s.int(-12, 14)), (2, s.int(-23 * 60 - 59, 23 * 60 + 59)), (2, s.pick([330, -210, 345, -30, 30, -1, 1, -60, -59, 1439, -1439]))])


TIMES = [u for u in units.QUANTITIES['time']]
COMMON = [u for u in TIMES if u.stem in ('second', 'minute', 'hour', 'day', 'week', 'month', 'year')] or TIMES
assert len(TIMES) >= 12 and all(u.tol == 0 for u in TIMES)


def value_text(s, v):
    """A number written in some notation, if it can be."""
    k = s.draw(5)
    if v.denominator == 1 and k == 0:
        return s.pick(['0x{:X}', '0b{:b}', '0o{:o}']).format(v.numerator) if v >= 0 else '-0x{:X}'.format(-v.numerator)
    if k == 1:
        return '({}/{})'.format(v.numerator, v.denominator)
    x = prog.num_text(v)
    if Fraction(x) != v:
        return '({}/{})'.format(v.numerator, v.denominator)
    if k == 2 and v:
        return '({} * {})'.format(prog.num_text(v / 4) if Fraction(prog.num_text(v / 4)) == v / 4 else '({}/4)'.format(x), 4)
    return x


def period(s, neg=True):
    """(text, exact seconds)"""
    k = s.draw(9)
    if k >= 8:
        a, x = simple(s, neg)
        b, y = simple(s, neg)
        op = s.pick('+-')
        return '({} {} {})'.format(a, op, b), x + y if op == '+' else x - y
    if k == 7:
        # a time made of other quantities
        n, d = s.sint(1, 5000), s.int(1, 60)
        if not neg:
            n = abs(n)
        form, f = s.pick([('({} km / ({} km/hour))', 3600), ('({} / ({} Hz))', 1), ('({} m / ({} m/s))', 1), ('({} minutes^2 / ({} minutes))', 60), ('({} Wh / ({} W))', 3600)][:4])
        return form.format(n, d), Fraction(n, d) * f
    a, x = simple(s, neg)
    return a if s.bool(3, 4) else '({})'.format(a), x


def simple(s, neg):
    u = s.pick(COMMON if s.bool(2, 3) else TIMES)
    k = s.draw(9)
    if k < 5:
        v = Fraction(s.pick([1, 1, 2, 3, 7, 12, 23, 24, 25, 28, 29, 30, 31, 52, 59, 60, 61, 365, 366, 400, 1000, 86399, 86400, 86401, 0]))
    elif k < 7:
        v = Fraction(s.int(0, 10 ** s.int(1, 6)), 10 ** s.int(0, 8))
    else:
        # some number of microseconds, whatever it is in this unit
        v = Fraction(s.int(0, 10 ** s.int(1, 17)), s.pick([1, 1, 1, 3, 7])) / US / u.scale
    if neg and s.bool(1, 4):
        v = -v
    return '{} {}'.format(value_text(s, v), units.word(s, u)), v * u.scale


def near_us(x):
    """The whole numbers of microseconds a period may be taken as."""
    x *= US
    lo = x.numerator // x.denominator
    d = x - lo
    if d < Fraction(1, 2):
        return [lo]
    if d > Fraction(1, 2):
        return [lo + 1]
    return [lo, lo + 1]


class Prog:
    def __init__(self, s, t):
        self.s, self.t, self.setup, self.n = s, t, '', 0
        self.calc = t.env.calc()

    def put(self, x):
        """An operand, sometimes held in a variable."""
        if self.s.bool(1, 5):
            self.n += 1
            self.setup += 'hold{} = {}\n'.format(self.n, x)
            return 'hold{}'.format(self.n)
        return x

    def last(self, expr):
        full = self.setup + expr
        self.t.show(full)
        self.calc.vars = {}
        return sut.last(self.calc, full), full


def add_text(s, p, a, d, sign):
    """Adding (or subtracting) the period."""
    if s.bool():
        return '{} {} {}'.format(a, '+%' if sign > 0 else '-%', d)
    return '{}({}, {})'.format('dateadd' if sign > 0 else 'datesubtract', a, d)


def check_date(got, wants, full):
    check(not isinstance(got, Err), '{} fails: {}', full, got)
    check(got[1] is None, '{} has the unit {}', full, got[1])
    check(got[0] in wants, '{} is {} instead of {}', full, got[0], wants[0])


def after(date, sign, sec):
    """The texts date + sec may have; None if outside the calendar."""
    out = []
    for n in near_us(sec):
        us = date.us + sign * n
        out.append(Date(us, date.zone).text() if 0 <= us < (LAST + 1) * DAY else None)
    return out


def adding(s, t):
    """Adding and subtracting periods."""
    date = a_date(s)
    p = Prog(s, t)
    d, sec = period(s)
    sign = s.pick([1, 1, -1])
    a = p.put(prog.quote(date.any_text(s)))
    d = p.put(d)
    wants = after(date, sign, sec)
    got, full = p.last(add_text(s, p, a, d, sign))
    if None in wants:
        check(isinstance(got, Err) or got[0] in wants, '{} is {} although it is outside the calendar', full, got)
        return
    if wants[0][:7] != date.text()[:7]:
        t.nt()
    check_date(got, wants, full)


def difference(s, t):
    """The time between two dates, in a unit."""
    zone = zone_of(s)
    a = a_date(s, zone)
    zone2 = zone if zone is None else s.pick([zone, 0, zone_of(s) or 0])
    if s.bool():
        b = a_date(s, zone2)
    else:
        us = a.us + s.sint(0, 10 ** s.int(0, 15))
        if not 0 <= us < (LAST + 1) * DAY:
            raise Discard()
        b = Date(us, zone2)
    want = Fraction(abs(a.utc() - b.utc()), US)
    if want:
        t.nt()
    p = Prog(s, t)
    x, y = p.put(prog.quote(a.any_text(s))), p.put(prog.quote(b.any_text(s)))
    u = s.pick(TIMES)
    if s.bool(1, 3):
        got, full = p.last('datedifference({}, {})'.format(x, y))
        scale, powers = 1, units.BY_NAME['second'].power1 if 'second' in units.BY_NAME else {'second': Fraction(1)}
    else:
        got, full = p.last('datedifference({}, {}, {})'.format(x, y, units.word(s, u)))
        scale, powers = u.scale, u.power1
    check(not isinstance(got, Err), '{} fails: {}', full, got)
    check(isinstance(got[0], Number), '{} is {}', full, got)
    check(frac(got[0]) * scale == want, '{} is {} instead of {}', full, got[0], float(want / scale))
    check(sut.unitpowers(got[1]) == powers, '{} has the unit {}', full, sut.unitpowers(got[1]))


def inverse(s, t):
    """Adding the difference to the earlier date gives the later one; what was added can be subtracted."""
    zone = zone_of(s)
    a, b = a_date(s, zone), a_date(s, zone)
    if a.us > b.us:
        a, b = b, a
    if a.us != b.us:
        t.nt()
    p = Prog(s, t)
    x, y = p.put(prog.quote(a.any_text(s))), p.put(prog.quote(b.any_text(s)))
    diff = 'datedifference({}, {}{})'.format(*s.pick([(x, y), (y, x)]), '' if s.bool(1, 3) else ', ' + units.word(s, s.pick(TIMES)))
    diff = p.put(diff)
    k = s.draw(2)
    if k == 0:
        got, full = p.last(add_text(s, p, x, diff, 1))
        check_date(got, [b.text()], full)
    elif k == 1:
        got, full = p.last(add_text(s, p, y, diff, -1))
        check_date(got, [a.text()], full)
    else:
        got, full = p.last(add_text(s, p, '({})'.format(add_text(s, p, x, diff, 1)), diff, -1))
        check_date(got, [a.text()], full)


def chain(s, t):
    """Several periods one after the other."""
    date = a_date(s)
    p = Prog(s, t)
    e = p.put(prog.quote(date.any_text(s)))
    us = date.us
    for _ in range(s.int(2, 5)):
        d, sec = period(s)
        n = near_us(sec)
        if len(n) > 1:
            raise Discard()
        sign = s.pick([1, -1])
        us += sign * n[0]
        if not 0 <= us < (LAST + 1) * DAY:
            raise Discard()
        e = '{} {} {}'.format(e, '+%' if sign > 0 else '-%', p.put(d)) if s.bool() else '{}({}, {})'.format('dateadd' if sign > 0 else 'datesubtract', e, p.put(d))
        if s.bool(1, 3):
            p.setup += 'when = {}\n'.format(e)
            e = 'when'
    t.nt()
    got, full = p.last(e)
    check_date(got, [Date(us, date.zone).text()], full)


def formatting(s, t):
    """dateformat names the weekday and shows everything."""
    date = a_date(s)
    y, m, d, hh, mm, ss, f = date.parts()
    if y < 1000:
        raise Discard()
    t.nt()
    want = '{}, {:02d}-{}-{}'.format(NAMES[date.us // DAY % 7], d, MONTHS[m - 1], y)
    if hh or mm or ss or f:
        want += ' at %02d:%02d:%02d' % (hh, mm, ss)
    if f:
        want += '.%06d' % f
    if date.zone is not None:
        want += ' ({})'.format(date.zonetext())
    p = Prog(s, t)
    got, full = p.last('dateformat({})'.format(p.put(prog.quote(date.any_text(s)))))
    check_date(got, [want], full)


def arrays(s, t):
    """Arrays of dates and periods, each on its own."""
    n = s.int(1, 4)
    dates = [a_date(s) for _ in range(n)]
    periods = [period(s) for _ in range(n)]
    sign = s.pick([1, -1])
    one_date, one_period = s.pick([(False, False), (True, False), (False, True)])
    p = Prog(s, t)
    a = prog.quote(dates[0].any_text(s)) if one_date else '[{}]'.format(', '.join(prog.quote(x.any_text(s)) for x in dates))
    d = periods[0][0] if one_period else '[{}]'.format(', '.join(x[0] for x in periods))
    got, full = p.last(add_text(s, p, p.put(a), p.put(d), sign))
    t.nt()
    check(not isinstance(got, Err), '{} fails: {}', full, got)
    check(isinstance(got[0], list) and len(got[0]) == n, '{} is {}', full, got[0])
    for i, e in enumerate(got[0]):
        wants = after(dates[0 if one_date else i], sign, periods[0 if one_period else i][1])
        if None in wants:
            check(isinstance(e.value, Exception) or e.value in wants, '{}: element {} is {} although it is outside the calendar', full, i + 1, e.value)
        else:
            check(e.value in wants, '{}: element {} is {} instead of {}', full, i + 1, e.value, wants[0])


NOT_DATES = ["''", "'today'", "'2020'", "'2020-01'", "'20200101'", "'2020/01/01'", "'01-01-2020'", "'2020-01-01T'", "'2020-01-01 10:00:00'", "'2020-01-01T10:00'", "'2020-01-01T10:00:00.'", "'2020-01-01T10:00:00.1234567'",
             "'2020-01-01x'", "'x2020-01-01'", '20200101', '2020', 'true', "'2020-01-01T10:00:00+'", "'2020-01-01+1'", "'+2020-01-01'", "'-2020-01-01'", "'12020-01-01'", "'0000-01-01'", '3 days', "'3 days'"]
NOT_PERIODS = ['1', '-3', '1 m', '2 s^2', '1 / (2 s)', '3 m/s', '1 Hz', '3 days / (2 hours)', "'3 days'", "'2020-01-01'", 'true', '5 kelvin', '1 s^-1', '2 bytes', '1 day^2', '4 m s']


def wrong_date(s):
    k = s.draw(2)
    if k == 0:
        return s.pick(NOT_DATES)
    y, m, d = s.int(1, 9999), s.int(1, 12), s.int(1, 28)
    hh, mm, ss = s.int(0, 23), s.int(0, 59), s.int(0, 59)
    which = s.pick(['d', 'd', 'm', 'h', 'min', 's'])
    if which == 'd':
        if s.bool():
            m = 2
        d = length(y, m) + s.int(1, 2) if s.bool(3, 4) else 0
    elif which == 'm':
        m = s.pick([0, 13, 20, 99])
    elif which == 'h':
        hh = s.int(24, 99)
    elif which == 'min':
        mm = s.int(60, 99)
    else:
        ss = s.int(60, 99)
    out = '%04d-%02d-%02d' % (y, m, d)
    if which in ('h', 'min', 's') or s.bool():
        out += 'T%02d:%02d:%02d' % (hh, mm, ss)
        if s.bool(1, 3):
            out += '.%d' % s.int(0, 999)
    if s.bool(1, 3):
        out += s.pick(['Z', '+0100', '-05:30'])
    return prog.quote(out)


def refused(s, t):
    """No dates, no periods, dates that cannot be compared."""
    p = Prog(s, t)
    good = prog.quote(a_date(s).any_text(s))
    k = s.draw(5)
    if k == 0:
        e = add_text(s, p, p.put(wrong_date(s)), '1 day', s.pick([1, -1]))
    elif k == 1:
        e = add_text(s, p, p.put(good), p.put('({})'.format(s.pick(NOT_PERIODS))), s.pick([1, -1]))
    elif k == 2:
        bad = wrong_date(s)
        e = 'datedifference({}, {})'.format(*s.pick([(good, bad), (bad, good), (bad, bad)]))
    elif k == 3:
        e = 'dateformat({})'.format(p.put(wrong_date(s)))
    elif k == 4:
        a, b = prog.quote(a_date(s, None).any_text(s)), prog.quote(a_date(s, s.int(-600, 600)).any_text(s))
        e = 'datedifference({}, {}{})'.format(*s.pick([(a, b), (b, a)]), s.pick(['', ', hours']))
    else:
        other = prog.quote(a_date(s, None).any_text(s))
        good = prog.quote(a_date(s, None).any_text(s))
        e = 'datedifference({}, {}, {})'.format(good, other, s.pick(['m', 'Hz', 's^2', 'kelvin', '1', "'hours'", 'hours^-1', 'm/s']))
    got, full = p.last(e)
    t.nt()
    check(isinstance(got, Err), '{} is {}', full, got)


def now(s, t):
    """now() is a date and time between the clock before and after."""
    lo = datetime.datetime.now()
    got = sut.last(t.env.calc(), 'now()')
    hi = datetime.datetime.now()
    t.show('now()')
    check(not isinstance(got, Err) and isinstance(got[0], str), 'now() is {}', got)
    texts = [Date(day_number(x.year, x.month, x.day) * DAY + ((x.hour * 60 + x.minute) * 60 + x.second) * US + x.microsecond, None).text() for x in (lo, hi)]
    full = [x if 'T' in x else x + 'T00:00:00' for x in (texts[0], got[0], texts[1])]
    full = [x if '.' in x else x + '.000000' for x in full]
    check(full[0] <= full[1] <= full[2], 'now() is {} between {} and {}', got[0], texts[0], texts[1])
    t.nt()


GROUPS = [('adding', adding, 5), ('difference', difference, 4), ('inverse', inverse, 3), ('chain', chain, 2), ('formatting', formatting, 2), ('arrays', arrays, 2), ('refused', refused, 2), ('now', now, 1)]
