"""C25: Excel serial numbers and calendar dates."""
import datetime

BOUNDS = ('every calendar day of both date systems in the 20th to 23rd and '
          '100th centuries (thorough: to the end of year 9999), as symbolic '
          '(year of century, day) per century and month; every millisecond of the day as a symbolic fraction, '
          'a quarter unit or less from the exact value; every (year, month, '
          'day) and (hour, minute, second) near the valid range for the '
          'inverse')
OUTSIDE = 'fractions closer to a rounding boundary (binary floating point)'
ASSUMPTIONS = ['real arithmetic stands for binary floating point away from '
               'rounding boundaries']

MAX = (2958466, 2958466 - 1462)
BASE = (datetime.date(1899, 12, 30).toordinal(),
        datetime.date(1904, 1, 1).toordinal())
FIRST = (1900, 1904)
BEFORE = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
DAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
DAYUS = 86400 * 10 ** 6


def anyday(env, mode, g, c, r, m, lo=61):
    """A symbolic day of month m of a year 400 g + 100 c + 4 k + r.  The
    result is (year, day of month, serial number)."""
    k = env.int('k', 0, 24)
    d = env.int('d', 1, 31)
    y = g * 400 + 100 * c + k * 4 + r
    env.assume(y >= FIRST[mode])
    some = r > 0 or bool(k > 0)
    leap = r == 0 and (c == 0 or some)
    env.assume(d <= DAYS[m - 1] + (1 if leap and m == 2 else 0))
    # leap years from year 0 and before year y
    n = g * 97 + 25 * c + k + (1 if r else 0) - c - (1 if some else 0) + \
        (1 if c or some else 0)
    n = n + y * 365 - 365                    # ordinal of 1 January
    n = n + BEFORE[m - 1] + (1 if leap and m > 2 else 0) + d - 1
    n = n - BASE[mode]
    env.assume(n >= (lo if mode == 0 else 1))
    return y, d, n


def as_tuple(env, mode, g, c, r, m):
    D = env.load('channelpack.xlrd.xldate')
    y, d, n = anyday(env, mode, g, c, r, m)
    got = D.xldate_as_tuple(n * 1.0, mode)
    env.check_same(got, (y, m, d, 0, 0, 0), 'the date of a day number')
    got = D.xldate_as_datetime(n * 1.0, mode)
    want = env.datetime_us(datetime.datetime(1, 1, 1),
                           (n + BASE[mode] - 1) * DAYUS)
    env.check_same(got, want, 'the datetime of a day number')
    env.check_same(D.xldate_from_date_tuple((y, m, d), mode), n * 1.0,
                   'the number of a date')


def timed(env, mode, n, kind):
    """The time of day, on some days."""
    D = env.load('channelpack.xlrd.xldate')
    hh, mm, ss = env.int('h', 0, 23), env.int('m', 0, 59), \
        env.int('s', 0, 59)
    sec = (hh * 60 + mm) * 60 + ss
    off = env.choice('off', (0, 1, -1)) * env.div(1, 4)
    if kind == 'tuple':
        x = n + (sec + off) / 86400.0
        env.assume(x >= n)
        env.assume(x > 0)
        day = D.xldate_as_tuple(n * 1.0, mode)[:3]
        env.check_same(D.xldate_as_tuple(x, mode), day + (hh, mm, ss),
                       'the time of day')
        return
    ms = env.int('ms', 0, 999)
    ms = sec * 1000 + ms
    x = n + (ms + off) / 86400000.0
    env.assume(x >= n)
    base = datetime.datetime(1904, 1, 1) if mode else \
        datetime.datetime(1899, 12, 31) if n < 60 else \
        datetime.datetime(1899, 12, 30)
    env.check_same(D.xldate_as_datetime(x, mode),
                   env.datetime_us(base, n * DAYUS + ms * 1000),
                   'the date and time')


def midnight(env, mode, g, c, r, m):
    """A fraction that rounds to midnight is the next day."""
    D = env.load('channelpack.xlrd.xldate')
    y, d, n = anyday(env, mode, g, c, r, m)
    env.check_same(D.xldate_as_tuple(n - 1 + 0.9999999, mode),
                   (y, m, d, 0, 0, 0), 'midnight is the next day')


def edges(env, mode):
    D = env.load('channelpack.xlrd.xldate')
    n = env.int('n', MAX[mode] - 2, MAX[mode] + 3)
    r, e = env.attempt(D.xldate_as_tuple, n * 1.0, mode)
    env.check((e is None) == bool(n < MAX[mode]), 'year 10000 is too large')
    if e is not None:
        env.check(isinstance(e, D.XLDateTooLarge), 'the error')


def low(env, mode):
    D = env.load('channelpack.xlrd.xldate')
    k = env.int('k', 0, 62)
    r, e = env.attempt(D.xldate_as_tuple, k * 1.0, mode)
    if k == 0:
        env.check_same(r, (0,) * 6, 'zero')
    elif mode == 0 and k < 61:
        env.check(isinstance(e, D.XLDateAmbiguous), 'the leap year problem')
    else:
        env.check(e is None, 'a date')
    r, e = env.attempt(D.xldate_as_datetime, k * 1.0, mode)
    base = datetime.datetime(1904, 1, 1) if mode else \
        datetime.datetime(1899, 12, 31) if k < 60 else \
        datetime.datetime(1899, 12, 30)
    env.check_same(r, env.datetime_us(base, k * DAYUS), 'early days')


def wrong(env, mode):
    D = env.load('channelpack.xlrd.xldate')
    neg = env.int('neg', -1000, -1)
    env.raises(D.XLDateNegative, D.xldate_as_tuple, neg * 1.0, mode)
    bad = env.int('bad', 2, 50)
    env.raises(D.XLDateBadDatemode, D.xldate_as_tuple, 100.0, bad)
    env.raises(D.XLDateBadDatemode, D.xldate_from_date_tuple, (2001, 1, 1),
               bad)


def invalid(env, mode, lo, hi):
    """What is not a date has no number."""
    D = env.load('channelpack.xlrd.xldate')
    y, m, d = env.int('y', lo, hi), env.int('m', 0, 13), env.int('d', 0, 32)
    leap = env.land(y % 4 == 0, env.lor(y % 100 != 0, y % 400 == 0))
    r, e = env.attempt(D.xldate_from_date_tuple, (y, m, d), mode)
    ok = bool(y >= 1900) and bool(y <= 9999) and bool(m >= 1) and \
        bool(m <= 12) and bool(d >= 1) and bool(d <= 31)
    if ok and d > 28:
        if m == 2:
            ok = bool(d == 29) and bool(leap)
        elif m == 4 or m == 6 or m == 9 or m == 11:
            ok = bool(d <= 30)
    if not ok:
        env.check(isinstance(e, D.XLDateBadTuple), 'not a date')
    elif y < FIRST[mode] or (mode == 0 and y == 1900 and m <= 2) or (
            mode == 1 and y == 1904 and m == 1 and d == 1):
        env.check(isinstance(e, D.XLDateError), 'before the first day')
    else:
        env.check(e is None, 'a date has a number')


def leapday(env, mode, cent):
    """The 29th of February of every year of a century."""
    D = env.load('channelpack.xlrd.xldate')
    k = env.int('k', 0, 99)
    y = cent * 100 + k
    env.assume(y > FIRST[mode])
    leap = k % 4 == 0 if cent % 4 == 0 else env.land(k % 4 == 0, k > 0)
    r, e = env.attempt(D.xldate_from_date_tuple, (y, 2, 29), mode)
    if leap:
        env.check(e is None, 'a leap day has a number')
    else:
        env.check(isinstance(e, D.XLDateBadTuple), 'no leap day')


def from_time(env):
    D = env.load('channelpack.xlrd.xldate')
    h, m, s = env.int('h', -1, 25), env.int('m', -1, 61), env.int('s', -1, 61)
    r, e = env.attempt(D.xldate_from_time_tuple, (h, m, s))
    if not (h >= 0 and h < 24 and m >= 0 and m < 60 and s >= 0 and s < 60):
        env.check(isinstance(e, D.XLDateBadTuple), 'not a time')
        return
    env.check(e is None, 'a time')
    diff = r * 86400.0 - ((h * 60 + m) * 60 + s)
    env.check(env.land(diff < 0.001, diff > -0.001), 'the fraction')


def from_both(env, mode):
    D = env.load('channelpack.xlrd.xldate')
    h, m, s = env.int('h', 0, 23), env.int('m', 0, 59), env.int('s', 0, 59)
    d = env.int('d', 1, 28)
    r = D.xldate_from_datetime_tuple((2021, 3, d, h, m, s), mode)
    n = datetime.date(2021, 3, 1).toordinal() - BASE[mode] + d - 1
    diff = (r - n) * 86400.0 - ((h * 60 + m) * 60 + s)
    env.check(env.land(diff < 0.001, diff > -0.001), 'day and fraction')


def cases(tier):
    out = []
    q = tier == 'quick'
    for mode in (0, 1):
        for cent in (19, 20, 21, 22, 99) if q else range(19, 100):
            for r in range(4):
                for m in range(1, 13):
                    p = dict(mode=mode, g=cent // 4, c=cent % 4, r=r, m=m)
                    i = '%d:%d:%d:%d' % (mode, cent, r, m)
                    out.append(dict(name='day:' + i, fn=as_tuple, params=p))
                    if not q or m in (2, 3, 12):
                        out.append(dict(name='midnight:' + i, fn=midnight,
                                        params=p))
        for n in (0, 1, 58, 59, 60, 61, 62, 1000, 43831, 44196, 45000,
                  MAX[mode] - 1):
            if n >= 61 or mode == 1 or n == 0:
                out.append(dict(name='time:%d:%d' % (mode, n), fn=timed,
                                params=dict(mode=mode, n=n, kind='tuple')))
            out.append(dict(name='ms:%d:%d' % (mode, n), fn=timed,
                            params=dict(mode=mode, n=n, kind='datetime')))
        for fn in (edges, low, wrong, from_both):
            out.append(dict(name='%s:%d' % (fn.__name__, mode), fn=fn,
                            params=dict(mode=mode)))
        for cent in range(19, 100):
            out.append(dict(name='leap:%d:%d' % (mode, cent), fn=leapday,
                            params=dict(mode=mode, cent=cent)))
        for a, b in ((1890, 1910), (1996, 2004), (2098, 2102), (9990, 10010)):
            out.append(dict(name='from:%d:%d' % (mode, a), fn=invalid,
                            params=dict(mode=mode, lo=a, hi=b)))
    out.append(dict(name='fromtime', fn=from_time))
    return out
