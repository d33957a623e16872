"""Binning."""
import itertools

from .common import *
import radvel.utils

U = radvel.utils

EXPLANATION = ('timebin and bintels run on symbolic times, values, errors and bin widths; every ordering of the times and every pattern of gaps is a path. The bins are compared with '
               'those found from the definition (a bin starts at the earliest measurement not yet in one and takes everything within its width), with weights 1/err^2.')
BOUNDS = '1-3 points (thorough: 4) in any order including ties; for binning by instrument, every assignment of 2-3 points (thorough: 4) to one, two or three instruments; fastbin with 4 points (thorough: 5) in two bins'
OUTSIDE = 'measurements whose distance from the start of a bin is within 1e-6 of the bin width; bin widths <= 0; for fastbin, empty bins, and bins of equal values'


def sort_rows(ctx, rows):
    out = []
    for r in rows:
        i = 0
        while i < len(out) and ctx.decide_bool(out[i][0] <= r[0]):
            i += 1
        out.insert(i, r)
    return out


def bins_of(ctx, rows, width):
    rows = sort_rows(ctx, rows)
    bins = []
    for r in rows:
        if bins and ctx.decide_bool(r[0] - bins[-1][0][0] < width):
            bins[-1].append(r)
        else:
            bins.append([r])
    return bins


def draw(ctx, n):
    T = [ctx.real('t%d' % i, -100, 100, sample=(0, 5)) for i in range(n)]
    Y = [ctx.real('y%d' % i, sample=(-10, 10)) for i in range(n)]
    S = [ctx.real('s%d' % i, 0, None, open_lo=True, sample=(0.2, 4)) for i in range(n)]
    w = ctx.real('width', 0, None, open_lo=True, sample=(0.3, 3))
    for a, b in itertools.combinations(T, 2):
        ctx.assume(F.abs(F.abs(a - b) - w) > 1e-6)
    return T, Y, S, w


def compare(ctx, bins, t, y, s):
    ok = len(t) == len(y) == len(s) == len(bins)
    ctx.check(ok, 'every measurement is in exactly one bin')
    if not ok:
        return
    for b, tb, yb, sb in zip(bins, t, y, s):
        W = sum(1 / (r[2] * r[2]) for r in b)
        ctx.check_eq(tb * W, sum(r[0] / (r[2] * r[2]) for r in b), 'time of a bin')
        ctx.check_eq(yb * W, sum(r[1] / (r[2] * r[2]) for r in b), 'value of a bin')
        ctx.check_eq(sb * sb * W, 1, 'error of a bin')
        ctx.check(sb > 0, 'error of a bin is positive')


def binned(n):
    def h(ctx):
        T, Y, S, w = draw(ctx, n)
        a, b, c = ctx.array(T), ctx.array(Y), ctx.array(S)
        out = U.timebin(a, b, c, w)
        compare(ctx, bins_of(ctx, list(zip(T, Y, S)), w), *out)
        for got, want in ((a, T), (b, Y), (c, S)):
            ctx.check_all_eq(list(got), want, 'measurements unchanged')
    return h


def instruments(n, names, assignment=None):
    def h(ctx):
        T, Y, S, w = draw(ctx, n)
        a = assignment or [ctx.choice('inst%d' % i, len(names)) for i in range(n)]
        tel = [names[i] for i in a]
        t, y, s, g = U.bintels(ctx.array(T), ctx.array(Y), ctx.array(S), np.array(tel), binsize=w)
        ok = len(g) == len(t) == len(y) == len(s)
        ctx.check(ok, 'every bin has a label')
        if not ok:
            return
        ctx.check(set(str(x) for x in g) == set(tel), 'labels are those of the instruments')
        for name in sorted(set(tel)):
            pos = [i for i in range(len(g)) if str(g[i]) == name]
            rows = [(T[i], Y[i], S[i]) for i in range(n) if tel[i] == name]
            compare(ctx, bins_of(ctx, rows, w), [t[i] for i in pos], [y[i] for i in pos], [s[i] for i in pos])
    return h


def default_width(ctx):
    T = [ctx.real('t%d' % i, -100, 100, sample=(0, 2)) for i in range(2)]
    ctx.assume(F.abs(F.abs(T[0] - T[1]) - 0.5) > 1e-6)
    Y, S = [ctx.real('y0'), ctx.real('y1')], [1.0, 2.0]
    t, y, s, g = U.bintels(ctx.array(T), ctx.array(Y), np.array(S), np.array(['k', 'k']))
    compare(ctx, bins_of(ctx, list(zip(T, Y, S)), 0.5), t, y, s)
    ctx.check([str(x) for x in g] == ['k'] * len(t), 'every bin has a label')


def quick_bins(n, m):
    """fastbin: equal bins between the extremes; those of 3 points or more, with the standard error of their mean"""
    def h(ctx):
        T = [ctx.real('t%d' % i, -100, 100, sample=(-1, 5)) for i in range(n)]
        Y = [ctx.real('y%d' % i, sample=(-10, 10)) for i in range(n)]
        lo, hi = T[0], T[0]
        for t in T[1:]:
            lo, hi = (t if ctx.decide_bool(t < lo) else lo), (t if ctx.decide_bool(t > hi) else hi)
        ctx.assume(hi - lo > 1e-3)
        edges = [lo + (hi - lo) * i / m for i in range(m + 1)]
        for t in T:
            for b in edges[1:-1]:
                ctx.assume(F.abs(t - b) > 1e-6)
        bins = [[] for i in range(m)]
        for t, y in zip(T, Y):
            k = 0
            while k < m - 1 and ctx.decide_bool(t > edges[k + 1]):
                k += 1
            bins[k].append(y)
        ctx.assume(sand(*[len(b) > 0 for b in bins]))
        want = []
        for k, b in enumerate(bins):
            mid = (edges[k] + edges[k + 1]) / 2
            if len(b) >= 3:
                ctx.assume(F.abs(mid) > 1e-6)
                var = sum(v * v for v in b) / len(b) - (sum(b) / len(b)) * (sum(b) / len(b))
                ctx.assume(var > 1e-3)
                if ctx.decide_bool(mid > 0):
                    want.append((mid, b, var))
        x, y, e = U.fastbin(ctx.array(T), ctx.array(Y), nbins=m)
        ok = len(x) == len(y) == len(e) == len(want)
        ctx.check(ok, 'every bin of three points or more')
        if ok:
            for a, b, c, (mid, v, var) in zip(x, y, e, want):
                ctx.check_eq(a, mid, 'middle of a bin')
                ctx.check_eq(b * len(v), sum(v), 'mean of a bin')
                ctx.check_eq(c * c * len(v), var, 'error of the mean of a bin')
                ctx.check(c >= 0, 'error of a bin is positive')
    return h


def cases(tier):
    out = [Case('fastbin %d points %d bins' % nm, quick_bins(*nm)) for nm in (((4, 2),) if tier == 'quick' else ((4, 2), (5, 2)))]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        out.append(Case('timebin %d points' % n, binned(n), 'all orders and gaps of %d points, any width' % n))
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        out.append(Case('bintels %d points' % n, instruments(n, ('hires_j', 'apf')), 'every assignment of %d points to two instruments' % n))
    for nm in (('harps', 'har'), ('k', 'kj'), ('hires_rk', 'hires_rj')):
        out.append(Case('bintels %s' % ' '.join(nm), instruments(2, nm), 'every assignment of 2 points to two instruments'))
    if tier != 'quick':
        out.append(Case('bintels three instruments', instruments(3, ('k', 'j', 'a')), 'every assignment of 3 points to three instruments'))
    out.append(Case('bintels default width', default_width, 'half a day when no width is given'))
    return out
