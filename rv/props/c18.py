"""C18: time conversions follow the Gregorian calendar and invert each other."""
import calendar
import datetime as dt
from fractions import Fraction

import numpy as np

from ..core import cp, Family
from .. import refs as R

du = cp.data_utils
REQUIRED = ['numbers', 'datetime', 'datetime64', 'leap day', 'century year',
            '400-year', 'before 1678', 'after 2262', 'broadcast', 'sub-day',
            'negative sub-day', 'impossible date', 'impossible in an array',
            'leap years', '365.25-day years', 'year boundary',
            'last instant of a year', 'non-integer rejected', 'unsigned years',
            'unit Y', 'unit M', 'unit D', 'unit h', 'unit s', 'unit ms',
            'unit us', 'unit ns', 'scalar', 'list', 'negative mjd',
            'default leap_year']
ASSUMPTIONS = ['years 1000-9999 (the documented ISO date strings)']


def year(ctx):
    u = ctx.rng.random()
    if u < 0.25:
        y = ctx.pick(1600, 1700, 1900, 2000, 2100, 2400, 4000, 1000)
    elif u < 0.6:
        y = ctx.int(1900, 2100)
    else:
        y = ctx.int(1000, 9999)
    if y % 100 == 0:
        ctx.hit('400-year' if y % 400 == 0 else 'century year')
    if y < 1678:
        ctx.hit('before 1678')
    if y > 2262:
        ctx.hit('after 2262')
    return y


def date(ctx):
    y = year(ctx)
    m = ctx.pick(1, 2, 3, 12, ctx.int(1, 12))
    d = ctx.pick(1, R.dim(y, m), ctx.int(1, R.dim(y, m)))
    if (m, d) == (2, 29):
        ctx.hit('leap day')
    return y, m, d


def sp(x, k=2):
    return k * float(np.spacing(abs(float(x)) + 1.0))


NS = dict(h=3600 * 10**9, min=60 * 10**9, s=10**9, us=1000, ns=1)
DAY = 86400 * 10**9


def exact(y, m, d, ns=0):
    return R.days_from_civil(int(y), int(m), int(d)) + Fraction(int(ns), DAY)


def judge(ctx, got, want, what):
    """want: array of Fractions."""
    got = np.asarray(got)
    ctx.equal(got.shape, want.shape, f'shape of {what}')
    for i in np.ndindex(want.shape):
        e = abs(Fraction(float(got[i])) - want[i])
        ctx.check(e <= sp(float(want[i])),
                  f'{what} at {i}: {got[i]!r}, expected {float(want[i])!r}')


def numbers(ctx):
    """mjd2000 from numbers: exact day count plus sub-day parts, broadcast"""
    ctx.hit('numbers')
    shape = ctx.pick((), (), (4,), (2, 3))
    n = int(np.prod(shape)) if shape else 1
    dates = [date(ctx) for _ in range(n)]
    if shape and ctx.chance(0.4):
        # broadcast month and day against the years
        ctx.hit('broadcast')
        m, d = ctx.int(1, 12), ctx.int(1, 28)
        dates = [(y, m, d) for y, _, _ in dates]
        cols = [np.array([x[0] for x in dates]).reshape(shape), m, d]
        if d == 1 and ctx.chance(0.5):
            cols = cols[:2]
            if m == 1:
                cols = cols[:1]
    elif shape:
        cols = [np.array([x[i] for x in dates]).reshape(shape)
                for i in range(3)]
        if ctx.chance(0.3):
            dtp = ctx.pick(np.int16, np.int32, np.uint16, np.int64)
            cols = [c.astype(dtp) for c in cols]
        elif len(shape) == 1 and ctx.chance(0.4):
            cols = [c.tolist() for c in cols]
            ctx.hit('list')
    else:
        cols = list(dates[0])
        ctx.hit('scalar')
        if ctx.chance(0.3):
            cols = [np.int64(c) for c in cols]
    args, ns = [], np.zeros(shape, dtype=object)
    kw = {}
    if len(cols) == 3 and ctx.chance(0.7):
        ctx.hit('sub-day')
        hi = dict(hour=23, minute=59, second=59, microsecond=999999,
                  nanosecond=999)
        unit = dict(hour='h', minute='min', second='s', microsecond='us',
                    nanosecond='ns')
        k = ctx.int(1, 5)
        for i, name in enumerate(list(hi)[:k]):
            lo = 0
            if ctx.chance(0.05):
                lo = -hi[name]
                ctx.hit('negative sub-day')
            if shape and ctx.chance(0.4):
                v = ctx.rng.integers(lo, hi[name] + 1, shape)
                ctx.hit('broadcast')
            else:
                v = ctx.int(lo, hi[name])
            ns = ns + np.asarray(v, dtype=object) * NS[unit[name]]
            args.append((name, v))
        if ctx.chance(0.5):
            kw = dict(args)
            args = []
        else:
            args = [v for _, v in args]
    ctx.describe(dates=[str(x) for x in dates], args=args, **kw)
    got = ctx.call(du.mjd2000, *cols, *args, **kw)
    want = np.empty(shape, dtype=object)
    nsb = np.broadcast_to(ns, shape)
    for k, i in enumerate(np.ndindex(shape)):
        want[i] = exact(*dates[k], nsb[i])
    judge(ctx, got, want, 'mjd2000')
    # the standard library agrees with the oracle on whole days
    y, m, d = dates[0]
    ctx.equal(R.days_from_civil(y, m, d), dt.date(y, m, d).toordinal()
              - dt.date(2000, 1, 1).toordinal(), 'oracle')


def datetimes(ctx):
    """mjd2000 from datetime and datetime64 of every unit; timestamp inverts it"""
    shape = ctx.pick((), (), (3,), (2, 2))
    n = int(np.prod(shape)) if shape else 1
    out, want = [], []
    if ctx.chance(0.5):
        ctx.hit('datetime')
        for _ in range(n):
            x = dt.datetime(*date(ctx), ctx.int(0, 23), ctx.int(0, 59),
                            ctx.int(0, 59), ctx.pick(0, ctx.int(0, 999999)))
            delta = x - dt.datetime(2000, 1, 1)
            out.append(x)
            want.append(Fraction(delta.days) + Fraction(
                delta.seconds * 10**6 + delta.microseconds, 86400 * 10**6))
        arg = np.array(out, dtype=object).reshape(shape) if shape else out[0]
        if len(shape) == 1 and ctx.chance(0.5):
            arg = out
            ctx.hit('list')
    else:
        ctx.hit('datetime64')
        unit = ctx.pick('Y', 'M', 'D', 'h', 'm', 's', 'ms', 'us', 'ns')
        ctx.hit(f'unit {unit}')
        per = dict(Y=0, M=0, D=0, h=24, m=1440, s=86400, ms=86400 * 10**3,
                   us=86400 * 10**6, ns=86400 * 10**9)[unit]
        for _ in range(n):
            y, m, d = date(ctx)
            if unit == 'ns':
                y = 1678 + y % (2262 - 1678)
                d = min(d, R.dim(y, m))
            if unit in 'YM':
                d = 1
                if unit == 'Y':
                    m = 1
            k = ctx.pick(0, per - 1, ctx.int(0, max(per - 1, 0))) if per else 0
            x = np.datetime64(f'{y:04d}-{m:02d}-{d:02d}', 'D').astype(
                f'datetime64[{unit}]')
            if per:
                x = x + np.timedelta64(k, unit)
            out.append(x)
            want.append(R.days_from_civil(y, m, d) + (
                Fraction(k, per) if per else 0))
        arg = np.array(out).reshape(shape) if shape else out[0]
    w = np.array(want + [None], dtype=object)[:-1].reshape(shape)
    ctx.describe(times=[str(x) for x in out])
    got = ctx.call(du.mjd2000, arg)
    judge(ctx, got, w, 'mjd2000')
    lo, hi = R.days_from_civil(1678, 1, 1), R.days_from_civil(2262, 1, 1)
    inside = [lo <= x <= hi for x in want]
    if all(inside):
        ts = ctx.call(du.timestamp, got)
        ctx.equal(np.shape(ts), shape, 'shape of timestamp')
        t = np.atleast_1d(np.asarray(ts))
        ctx.equal(str(t.dtype), 'datetime64[ns]', 'timestamp type')
        for g, x in zip(t.ravel(), want):
            ns = int(g.astype(np.int64)) - 10957 * DAY
            e = abs(ns - x * DAY)
            tol = 2 + 2 * float(np.spacing(abs(float(x)) + 1e-9)) * DAY
            ctx.check(e <= tol, f'timestamp off by {float(e)} ns at {g}')


def timestamps(ctx):
    """timestamp of any mjd2000 between 1678 and 2262; mjd2000 inverts it"""
    shape = ctx.pick((), (1,), (5,), (2, 2))
    lo, hi = R.days_from_civil(1678, 1, 1), R.days_from_civil(2262, 1, 1)
    t = np.asarray(ctx.uni(lo, hi, shape))
    if ctx.chance(0.3):
        t = np.round(t * 24) / 24
    if ctx.chance(0.2):
        t = np.round(t)
    if np.any(t < 0):
        ctx.hit('negative mjd')
    ctx.describe(time=t)
    a = t.item() if shape == () and ctx.chance(0.5) else t
    got = ctx.call(du.timestamp, a)
    ctx.equal(np.shape(got), shape, 'shape')
    back = np.asarray(ctx.call(du.mjd2000, got))
    g = np.asarray(got)
    for i in np.ndindex(shape):
        ns = int(g[i].astype(np.int64)) - 10957 * DAY
        x = Fraction(float(t[i])) * DAY
        ctx.check(abs(ns - x) <= 2 + 2.3e-16 * abs(float(x)),
                  f'timestamp({t[i]!r}) = {g[i]}')
        y, m, d = R.civil_from_days(int(np.floor(float(ns) / DAY)))
        if abs(float(ns) / DAY % 1 - 0.5) < 0.49:
            ctx.equal(str(g[i])[:10], f'{y:04d}-{m:02d}-{d:02d}', 'date')
        ctx.check(abs(back[i] - t[i]) <= 3e-14 + 4 * np.spacing(abs(t[i])),
                  f'mjd2000(timestamp({t[i]!r})) = {back[i]!r}')


def impossible(ctx):
    """impossible dates are rejected"""
    y, m, d = date(ctx)
    k = ctx.int(0, 3)
    if k == 0:
        m = ctx.pick(0, 13, -1, 99, 100, 112, 123)
    elif k == 1:
        d = ctx.pick(0, 32, -1, R.dim(y, m) + 1, 99, 100, 128, 301)
    elif k == 2:
        while R.is_leap(y):
            y = ctx.pick(1900, 2100, ctx.int(1000, 9999))
        m, d = 2, 29
    else:
        m, d = ctx.pick(4, 6, 9, 11), 31
    ctx.hit('impossible date')
    ctx.describe(date=(y, m, d))
    if ctx.chance(0.4):
        ctx.hit('impossible in an array')
        g = [(2000, 1, 1), (y, m, d), (2020, 2, 29)]
        ctx.rejects(du.mjd2000, *(np.array([x[i] for x in g])
                                  for i in range(3)))
    else:
        ctx.rejects(du.mjd2000, y, m, d)


def leap(ctx):
    """is_leap_year is the Gregorian rule for every integer type, others rejected"""
    ys = np.array([year(ctx) for _ in range(ctx.int(1, 12))])
    ctx.describe(years=ys)
    if ctx.chance(0.3):
        ys[0] = ctx.pick(-4, -100, -400, 0, 4, 100, 400, -1)
    a = ys
    k = ctx.int(0, 5)
    if k == 0:
        a = int(ys[0])
        ctx.hit('scalar')
    elif k == 1:
        a = ys.tolist()
    elif k == 2:
        a = ys.astype(ctx.pick(np.int16, np.int32, np.int64))
    elif k == 3:
        a = np.abs(ys).astype(ctx.pick(np.uint16, np.uint32, np.uint64))
        ctx.hit('unsigned years')
    elif k == 4:
        a = ys.reshape(-1, 1)
    got = ctx.call(du.is_leap_year, a)
    b = np.asarray(a)
    ctx.equal(np.shape(got), b.shape, 'shape')
    for i in np.ndindex(b.shape):
        ctx.equal(bool(np.asarray(got)[i]), calendar.isleap(int(b[i])),
                  f'leap year {b[i]}')
    ctx.hit('non-integer rejected')
    ctx.rejects(du.is_leap_year, ctx.pick(2000.0, 2000.5, np.array([2000.]),
                                          '2000', np.float32(2004)),
                exc=TypeError)


def dyears(ctx):
    """dyear_to_mjd and mjd_to_dyear: exact conversion, mutual inverse, strictly increasing, whole years on 1 January"""
    lp = ctx.pick(True, False, None)
    kw = {} if lp is None and ctx.chance(0.5) else dict(leap_year=lp)
    leap_year = lp is not False
    if lp is None:
        ctx.hit('default leap_year')
    ctx.hit('leap years' if leap_year else '365.25-day years')
    n = ctx.int(1, 8)
    y = np.array([year(ctx) for _ in range(n)])
    f = ctx.uni(0, 1, n)
    for i in range(n):
        u = ctx.rng.random()
        if u < 0.25:
            f[i] = 0.0
            ctx.hit('year boundary')
        elif u < 0.4:
            f[i] = 1 - ctx.pick(1e-9, 1e-6, 1 / 366., 1 / 365., 1e-12)
            ctx.hit('last instant of a year')
        elif u < 0.5:
            f[i] = ctx.pick(0.5, 0.25, 59 / 365., 60 / 366.)
    t = np.unique(y + f)
    t = t[t < 9999.9]
    if t.size == 0:
        t = np.array([2000.0])
    shape = ctx.pick((t.size,), (t.size, 1), (1, t.size))
    a = t.reshape(shape)
    if ctx.chance(0.2):
        a = t.tolist()
        ctx.hit('list')
    elif ctx.chance(0.25):
        t = t[:1]
        a = float(t[0])
        ctx.hit('scalar')
    ctx.describe(dyear=t, **kw)
    got = ctx.call(du.dyear_to_mjd, a, **kw)
    ctx.equal(np.shape(got), np.shape(a), 'shape')
    g = np.asarray(got).ravel()
    for x, v in zip(t, g):
        w = R.dyear_to_mjd(x, leap_year)
        ctx.check(abs(Fraction(float(v)) - w) <= sp(float(w), 3) + 1e-12,
                  f'dyear_to_mjd({x!r}) = {v!r}, expected {float(w)!r}')
        if leap_year and x == np.floor(x):
            ctx.equal(float(v), float(R.days_from_civil(int(x), 1, 1)),
                      f'1 January {x}')
    gap = np.diff(t) > 1e-11
    ctx.check(np.all(np.diff(g)[gap] > 0), 'strictly increasing')
    back = np.asarray(ctx.call(du.mjd_to_dyear, got, **kw)).ravel()
    for x, v in zip(t, back):
        ctx.check(abs(x - v) <= 4 * np.spacing(x), f'mjd_to_dyear('
                  f'dyear_to_mjd({x!r})) = {v!r}')
    # the other direction from mjd
    lo, hi = R.days_from_civil(1000, 1, 2), R.days_from_civil(9999, 12, 30)
    m = np.asarray(ctx.uni(lo, hi, 4) if ctx.chance(0.4)
                   else ctx.uni(-40000, 40000, 4))
    for i in range(4):
        if ctx.chance(0.4):
            k = ctx.int(1001, 9998) if ctx.chance(0.3) else ctx.int(1900, 2100)
            m[i] = R.days_from_civil(k, 1, 1) + ctx.pick(0, -1e-6, 59, -1, 365,
                                                         1e-6)
    m = np.unique(m)
    if np.any(m < 0):
        ctx.hit('negative mjd')
    got = ctx.call(du.mjd_to_dyear, m if ctx.chance(0.8) else m.tolist(), **kw)
    g = np.asarray(got)
    ctx.equal(g.shape, m.shape, 'shape')
    for x, v in zip(m, g):
        w = R.mjd_to_dyear(x, leap_year)
        ctx.check(abs(Fraction(float(v)) - w) <= sp(float(w)),
                  f'mjd_to_dyear({x!r}) = {v!r}, expected {float(w)!r}')
        if leap_year and x == np.floor(x) and w.denominator == 1:
            ctx.equal(float(v), float(w), '1 January')
    gap = np.diff(m) > 1e-8
    ctx.check(np.all(np.diff(g)[gap] > 0), 'strictly increasing')
    back = np.asarray(ctx.call(du.dyear_to_mjd, got, **kw))
    for x, v in zip(m, back):
        ctx.check(abs(x - v) <= 4e-9 + 1e-15 * abs(x),
                  f'dyear_to_mjd(mjd_to_dyear({x!r})) = {v!r}')


FAMILIES = [Family('numbers', numbers, 12000, 160000),
            Family('datetimes', datetimes, 8000, 120000),
            Family('timestamps', timestamps, 4000, 60000),
            Family('impossible', impossible, 1600, 16000),
            Family('leap', leap, 2400, 24000),
            Family('dyears', dyears, 12000, 160000)]
