"""Prior transforms as inverse distribution functions."""
from .common import *
from .C14 import vector, bounds

EXPLANATION = ('transform() of each prior runs on symbolic unit coordinates and settings; z3 decides that the documented distribution function of the returned value is the unit '
               'coordinate, that the transform is monotone and maps the ends to the bounds, that the value lies where the real prior is finite, and that priors without a proper '
               'transform raise. The normal quantile function of SciPy is a function constrained to be the inverse of the normal distribution function.')
BOUNDS = 'scalars and arrays of 2 unit coordinates, all real settings'
OUTSIDE = 'accuracy of the normal quantile function; the histogram approximation in NumericalPrior beyond monotonicity and range'


def unit(ctx, n):
    u = [ctx.real('u%d' % i, 0, 1, open_lo=True, open_hi=True) for i in range(n)]
    return u


def transforms(ctx, p, cdf, lo, hi, inside):
    """cdf(x) of the documented distribution"""
    P, V = vector(ctx)
    u = unit(ctx, 2)
    ctx.assume(u[0] < u[1])
    x = [p.transform(a) for a in u]
    both = p.transform(ctx.array(u))
    for i in range(2):
        ctx.check_eq(both[i], x[i], 'arrays element by element')
        ctx.check_eq(cdf(x[i]), u[i], 'probability below the value is the unit coordinate')
        ctx.check(inside(x[i]), 'inside the support')
    ctx.check(x[0] < x[1], 'monotone')
    if lo is not None:
        ctx.check_eq(p.transform(0.0), lo, 'lower end')
        ctx.check_eq(p.transform(1.0), hi, 'upper end')
    # the real density is finite there
    V.vector[V.indices[p.param]][0] = x[0]
    got = p(P, V)
    ctx.check(not (isinstance(got, (float, np.floating)) and math.isinf(got)), 'prior is finite at the value')
    return x, u


def gaussian(ctx):
    mu, s = ctx.real('mu'), ctx.real('sigma', 0, None, open_lo=True, sample=(0.2, 3))
    import scipy.special
    if ctx.symbolic:
        def ppf(q, loc=0, scale=1):
            if isinstance(q, np.ndarray):
                return np.array([ppf(a, loc, scale) for a in q])
            return loc + scale * ctx.uf('probit', q, fn=scipy.special.ndtri)

        import scipy.stats
        from ..shim import NormShim
        ctx.stub(radvel.prior, 'norm', NormShim(scipy.stats.norm, ppf))
    p = radvel.prior.Gaussian('per1', mu, s)
    P, V = vector(ctx)
    u = unit(ctx, 2)
    both = p.transform(ctx.array(u))
    for i in range(2):
        z = ctx.uf('probit', u[i], fn=scipy.special.ndtri)
        ctx.check_eq(p.transform(u[i]), mu + s * z, 'standard normal quantile, scaled and shifted')
        ctx.check_eq(both[i], mu + s * z, 'arrays element by element')
    # with the standard quantile increasing, so is the transform
    z = [ctx.uf('probit', a, fn=scipy.special.ndtri) for a in u]
    if ctx.symbolic:
        ctx.assume(implies(u[0] < u[1], z[0] < z[1]))
    if ctx.decide_bool(u[0] < u[1]):
        ctx.check(p.transform(u[0]) < p.transform(u[1]), 'monotone')
    # density of the value times the derivative of the quantile is one
    V.vector[V.indices['per1']][0] = both[0]
    ctx.check_eq(p(P, V), -z[0] * z[0] / 2 - F.log(F.sqrt(2 * PI)) - F.log(s), 'density of the value')


def uniform(ctx):
    a, b = bounds(ctx)
    p = radvel.prior.HardBounds('gamma_j', a, b)
    transforms(ctx, p, lambda x: (x - a) / (b - a), a, b, lambda x: sand(a < x, x < b))


def jeffreys(ctx):
    a = ctx.real('min', 0, None, open_lo=True, sample=(0.1, 3))
    r = ctx.real('ratio', 1, None, open_lo=True, sample=(1.2, 9))
    b = a * r
    p = radvel.prior.Jeffreys('per1', a, b)
    transforms(ctx, p, lambda x: F.log(x / a) / F.log(r), a, b, lambda x: sand(a < x, x < b))


def modified(ctx):
    knee = ctx.real('knee', sample=(-2, 0.5))
    d = ctx.real('above', 0, None, open_lo=True, sample=(0.1, 1))
    r = ctx.real('ratio', 1, None, open_lo=True, sample=(1.2, 9))
    a, b = knee + d, knee + d * r
    p = radvel.prior.ModifiedJeffreys('jit_j', a, b, knee)
    transforms(ctx, p, lambda x: F.log((x - knee) / d) / F.log(r), a, b, lambda x: sand(a < x, x < b))


def refuse(make):
    def h(ctx):
        import warnings
        u = unit(ctx, 1)[0]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = make(ctx)
        for q in (u, ctx.array([u]), 0.0, 1.0):
            try:
                p.transform(q)
                ctx.check(False, 'refuses')
            except (NotImplementedError, TypeError, ValueError):
                ctx.check(True, 'refuses')
    return h


def user(ctx):
    u = unit(ctx, 2)
    fn = lambda q: ctx.uf('quantile', q, fn=lambda q: q * q + 1)    # noqa: E731
    p = radvel.prior.UserDefinedPrior(['per1'], lambda v: 0.0, '', transform_func=fn)
    for a in u:
        ctx.check_eq(p.transform(a), fn(a), "the user's transform")


def numerical(ctx):
    """the histogram transform stays within the samples and is monotone"""
    v = np.array([[1.0, 1.5, 2.0, 2.2, 2.3, 2.9, 3.5, 5.0]])

    class KDE(object):
        def __init__(self, values, bw_method=None):
            pass
    ctx.stub(radvel.prior, 'gaussian_kde', KDE)
    p = radvel.prior.NumericalPrior(['per1'], v, bins=4)
    u = unit(ctx, 2)
    ctx.assume(u[0] <= u[1])
    x = [p.transform(a) for a in u]
    edges = np.histogram_bin_edges(v, bins=4)
    cum = np.cumsum(np.histogram(v, bins=4)[0]) / 8.0
    for i in range(2):
        ctx.check(sand(x[i] >= 1.0, x[i] <= 5.0), 'within the samples')
        for j in range(4):
            # no further from the quantile of the histogram than its bin
            lo = 0.0 if j == 0 else cum[j - 1]
            ctx.check(implies(sand(u[i] >= lo, u[i] <= cum[j]), sand(x[i] >= edges[max(j - 1, 0)], x[i] <= edges[j + 1])), 'in the bin of the quantile')
    ctx.check(x[0] <= x[1], 'monotone')


def cases(tier):
    pr = radvel.prior
    out = [Case('normal', gaussian), Case('uniform', uniform), Case('one over x', jeffreys), Case('one over x - knee', modified),
           Case('user', user), Case('numerical', numerical)]

    def kde(ctx, keys):
        class KDE(object):
            def __init__(self, values, bw_method=None):
                pass
        ctx.stub(pr, 'gaussian_kde', KDE)
        return pr.NumericalPrior(keys, np.array([[0.0, 1.0, 2.0, 4.0], [5.0, 6.0, 6.5, 9.0], [1.0, 2.0, 3.0, 3.5]])[:len(keys)])
    for name, make in [('eccentricity', lambda c: pr.EccentricityPrior(2)), ('positive amplitude', lambda c: pr.PositiveKPrior(1)),
                       ('secondary eclipse', lambda c: pr.SecondaryEclipsePrior(1, c.real('ts'), 0.1)),
                       ('baseline', lambda c: pr.InformativeBaselinePrior('per1', c.real('B', 0, None))),
                       ('user without transform', lambda c: pr.UserDefinedPrior(['per1'], lambda v: 0.0, '')),
                       ('unbounded above', lambda c: pr.HardBounds('per1', c.real('a'), np.inf)),
                       ('unbounded below', lambda c: pr.HardBounds('per1', -np.inf, c.real('a'))),
                       ('unbounded', lambda c: pr.HardBounds('per1', -np.inf, np.inf)),
                       ('joint numerical', lambda c: kde(c, ['per1', 'tc1'])),
                       ('joint numerical 3', lambda c: kde(c, ['per1', 'tc1', 'k1']))]:
        out.append(Case('refuses: ' + name, refuse(make)))
    return out
