"""Summaries, rounding and dates."""
import datetime as real_datetime
from fractions import Fraction

import pandas as pd

import radvel.utils
from .common import *

U = radvel.utils

EXPLANATION = ('geterr, round_sig, sigfig, date2jd and jd2date run on symbolic values (datetime is replaced by a stand-in that counts microseconds); z3 decides that the summaries are the order statistics '
               'of the (unwrapped) sample, that rounding moves a number by at most half a unit of its last kept digit and that dates convert to the same instant.')
BOUNDS = ('samples of every size up to 13 (thorough: 40) in a fixed shuffled order and of 2-4 values in any order; angles: all samples of 1-3 values (thorough: 4); '
          'numbers up to 1e5 in size (thorough: 1e9), down to 1e-4 (1e-7), to 1-4 digits; errors of 14 forms for sigfig; instants over 4000 years, to the microsecond')
OUTSIDE = 'binary rounding (samples within 1e-9 of the edge of a histogram bin, ties in rounding, the 40 microsecond resolution of a double-precision Julian date)'


def summary(ctx, order, got, label):
    """order: the sorted sample"""
    n = len(order)
    med = order[n // 2] if n % 2 else (order[n // 2 - 1] + order[n // 2]) / 2
    ctx.check_eq(got[0], med, label + ': median')
    ctx.check_eq(got[1], med - order[int(0.159 * n)], label + ': lower error')
    ctx.check_eq(got[2], order[int(0.841 * n)] - med, label + ': upper error')


def sample(ctx, n):
    """a strictly increasing sample of n values"""
    v = [ctx.real('x0', -1e3, 1e3, sample=(-5, 5))]
    for i in range(1, n):
        v.append(v[-1] + ctx.real('d%d' % i, 0, 100, open_lo=True, sample=(0.01, 1)))
    return v


def container(ctx, v, kind):
    if kind == 'series':
        return pd.Series(v, index=[3 + 2 * i for i in range(len(v))], dtype=object if ctx.symbolic else float)
    return ctx.array(v)


def sizes(n, kind):
    def h(ctx):
        order = sample(ctx, n)
        perm = np.random.RandomState(n).permutation(n)
        v = [order[i] for i in perm]
        x = container(ctx, v, kind)
        summary(ctx, order, U.geterr(x), 'sample of %d' % n)
        ctx.check_all_eq(list(x), v, 'sample unchanged')
    return h


def insertion(ctx, v):
    out = []
    for r in v:
        i = 0
        while i < len(out) and ctx.decide_bool(out[i] <= r):
            i += 1
        out.insert(i, r)
    return out


def orders(n):
    def h(ctx):
        v = [ctx.real('x%d' % i, -1e3, 1e3, sample=(-5, 5)) for i in range(n)]
        got = U.geterr(ctx.array(v))
        summary(ctx, insertion(ctx, v), got, 'any order')
    return h


HALF = PI / 2


def angles(n, kind, lo=-PI, hi=PI):
    def h(ctx):
        order = [ctx.real('a0', lo, hi, sample=(lo, hi))]
        for i in range(1, n):
            order.append(ctx.real('a%d' % i, lo, hi, sample=(lo, hi)))
            ctx.assume(order[i] > order[i - 1] + 1e-6)
        # the most populated fiftieth of the range (the first of equals)
        if n == 1:
            width, first, counts = 1.0 / 50, order[0] - 0.5, [25]
        else:
            width, first = (order[-1] - order[0]) / 50, order[0]
            counts = [0]
            for v in order[1:-1]:
                a, b = 0, 49
                while a < b:
                    m = (a + b + 1) // 2
                    edge = first + m * width
                    ctx.assume(F.abs(v - edge) > 1e-9)
                    if ctx.decide_bool(v >= edge):
                        a = m
                    else:
                        b = m - 1
                counts.append(a)
            counts.append(49)
        best = max(counts, key=lambda c: (counts.count(c), -c))
        mode = first + best * width
        for x in (mode - HALF, mode + HALF):
            ctx.assume(F.abs(x) > 1e-9)
        for v in order:
            ctx.assume(F.abs(v) > 1e-9)
        turned = list(order)
        if ctx.decide_bool(mode > HALF):
            turned = [v + 2 * PI if ctx.decide_bool(v < 0) else v for v in order]
        elif ctx.decide_bool(mode < -HALF):
            turned = [v - 2 * PI if ctx.decide_bool(v >= 0) else v for v in order]
        perm = np.random.RandomState(n).permutation(n)
        v = [order[i] for i in perm]
        x = container(ctx, v, kind)
        got = U.geterr(x, angular=True)
        summary(ctx, insertion(ctx, turned), got, 'angles')
        ctx.check_all_eq(list(x), v, 'sample unchanged')
    return h


def rounded(sig, lo, hi):
    def h(ctx):
        x = ctx.real('x', 10.0 ** lo, 10.0 ** hi, sample=(10.0 ** lo, 10.0 ** hi))
        k = ctx.choice('decade', hi - lo)
        unit = Fraction(10) ** (lo + k)
        ctx.assume(sand(x > unit * (1 + Fraction(1, 10 ** 9)), x < unit * 10 * (1 - Fraction(1, 10 ** 9))))
        step = unit / 10 ** (sig - 1)
        for s in (1, -1):
            y = U.round_sig(s * x) if sig == 2 else U.round_sig(s * x, sig)
            ctx.check(F.abs(y - s * x) <= step * Fraction(500001, 10 ** 6), 'moved by at most half a unit of the last digit')
            q = F.floor(y / step + 0.5)
            ctx.check(F.abs(y - q * step) <= step / 10 ** 6, 'no further digits kept')
        ctx.check(U.round_sig(0, sig) == 0, 'zero')
    return h


ERRORS = [0.00012, 1.2e-05, 0.012, 0.01, 0.12, 0.5, 0.0, 1.2, 1.0, 3.5, 10.0, 12.0, 99.0, 120.0]


def decimals(x):
    s = repr(float(x))
    if 'e' in s:
        m, ex = s.split('e')
        return (len(m.split('.')[1]) if '.' in m else 0) - int(ex)
    d = s.split('.')[1]
    return len(d)


def formatted(low, highs, hi):
    def h(ctx):
        med = ctx.real('med', -hi, hi, sample=(-hi, hi))
        ctx.assume(F.abs(med) > 1e-3)
        up = highs[ctx.choice('high', len(highs))]
        m, a, b = U.sigfig(med, low) if up is None else U.sigfig(med, low, up)
        up = low if up is None else up
        whole = low == int(low) and up == int(up)
        d = 0 if whole else max(decimals(low), decimals(up))
        unit = Fraction(1, 10 ** d)
        ctx.check(F.abs(m - med) <= unit * Fraction(500001, 10 ** 6), 'value to the last digit of its errors')
        q = F.floor(m / unit + 0.5)
        if not (d > 1 and ctx.decide_bool(F.abs(med) <= unit * Fraction(500001, 10 ** 6))):
            ctx.check(F.abs(m - q * unit) <= unit / 10 ** 6, 'value has no more digits than its errors')
        if whole:
            ctx.check(abs(a - low) < 10.0 ** (max(0, len(str(int(low))) - 2)), 'errors kept')
            ctx.check(abs(b - up) < 1, 'errors kept')
        else:
            ctx.check(a == low and b == up, 'errors kept')
    return h


US = 86400 * 10 ** 6
J2000 = real_datetime.datetime(2000, 1, 1, 12)


class Span(object):
    """timedelta stand-in: us, a whole number of microseconds"""
    def __init__(self, days=0, seconds=0, microseconds=0, us=None, **kw):
        if us is None:
            us = days * US + seconds * 10 ** 6 + microseconds
            for k, f in (('minutes', 60 * 10 ** 6), ('hours', 3600 * 10 ** 6), ('milliseconds', 1000), ('weeks', 7 * US)):
                us = us + kw.get(k, 0) * f
            us = F.floor(us + 0.5)
        self.us = us

    @property
    def days(self):
        return F.floor(self.us / US)

    @property
    def seconds(self):
        return F.floor((self.us - self.days * US) / 10 ** 6)

    @property
    def microseconds(self):
        return self.us - self.days * US - self.seconds * 10 ** 6

    def total_seconds(self):
        return self.us / 10 ** 6

    def __truediv__(self, o):
        return self.us / o.us if isinstance(o, Span) else Span(us=F.floor(self.us / o + 0.5))

    def __add__(self, o):
        return o + self if isinstance(o, Instant) else Span(us=self.us + o.us)

    def __neg__(self):
        return Span(us=-self.us)


class Instant(object):
    def __init__(self, *a, us=None, **kw):
        if us is None:
            td = real_datetime.datetime(*a, **kw) - J2000
            us = td.days * US + td.seconds * 10 ** 6 + td.microseconds
        self.us = us

    def __sub__(self, o):
        return Span(us=self.us - o.us) if isinstance(o, Instant) else Instant(us=self.us - o.us)

    def __add__(self, o):
        return Instant(us=self.us + o.us)
    __radd__ = __add__


def calendar(ctx):
    if ctx.symbolic:
        ctx.stub(U, 'datetime', Instant)
        ctx.stub(U, 'timedelta', Span)


def instant(ctx, us):
    return Instant(us=us) if ctx.symbolic else J2000 + real_datetime.timedelta(microseconds=int(us))


def since(ctx, d):
    """microseconds since J2000"""
    if ctx.symbolic:
        return d.us
    td = d - J2000
    return td.days * US + td.seconds * 10 ** 6 + td.microseconds


TOL = 100                                   # microseconds: resolution of a Julian date in doubles


def whole(ctx, name, lo, hi):
    x = ctx.real(name, lo, hi, sample=(lo, hi))
    return F.floor(x) if ctx.symbolic else float(math.floor(x))


def there(ctx):
    calendar(ctx)
    us = whole(ctx, 'day', -700000, 700000) * US + whole(ctx, 'us', 0, US - 1)
    d = instant(ctx, us)
    jd = U.date2jd(d)
    x = (jd - 2451545) * US - us
    ctx.check(sand(x <= TOL, x >= -TOL), 'Julian date of an instant')
    back = U.jd2date(jd)
    x = since(ctx, back) - us
    ctx.check(sand(x <= TOL, x >= -TOL), 'and back')


def back(ctx):
    calendar(ctx)
    jd = ctx.real('jd', 1751545, 3151545, sample=(2400000, 2500000))
    d = U.jd2date(jd)
    x = since(ctx, d) - (jd - 2451545) * US
    ctx.check(sand(x <= TOL, x >= -TOL), 'instant of a Julian date')
    x = (U.date2jd(d) - jd) * US
    ctx.check(sand(x <= TOL, x >= -TOL), 'and back')


def cases(tier):
    big = tier != 'quick'
    out = []
    for n in range(1, 41 if big else 14):
        out.append(Case('sample of %d' % n, sizes(n, 'series' if n % 2 else 'array'), 'any %d different values' % n))
    for n in (2, 3, 4):
        out.append(Case('orders of %d' % n, orders(n), 'any order, ties included'))
    for n in (1, 2, 3) if not big else (1, 2, 3, 4):
        for kind in ('array', 'series') if n < 3 or big else ('series',):
            out.append(Case('angles %d %s' % (n, kind), angles(n, kind), 'angles between -180 and 180 degrees'))
    out.append(Case('angles 2 wide', angles(2, 'array', -2 * PI, 2 * PI), 'angles between -360 and 360 degrees'))
    for sig in (1, 2, 3, 4):
        out.append(Case('round_sig %d' % sig, rounded(sig, -4 if not big else -7, 5 if not big else 9), 'all numbers of the decades', opts=dict(decades=(-8, 11), int_range=(-8, 11))))
    for low in ERRORS:
        wide = low in (0.0, 1.0, 10.0, 12.0, 99.0, 120.0)       # rounding to a whole number: one path per number
        highs = [None] + ([h for h in ERRORS if h != low] if big else [h for h in ERRORS if h != low][::3])
        out.append(Case('sigfig %s' % low, formatted(low, highs, (20 if wide else 1e4) if not big else (100 if wide else 1e7)),
                        'all values with these errors', opts=dict(int_range=(-101, 101))))
    out.append(Case('date to JD', there, 'all instants'))
    out.append(Case('JD to date', back, 'all Julian dates'))
    return out
