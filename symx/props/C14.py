"""Densities and supports of the one-parameter priors."""
from .common import *

EXPLANATION = ('Each prior of radvel/prior.py is called with a symbolic parameter vector and symbolic settings; every branch is a path on which z3 compares the value with the '
               'documented log-density and decides that the branch is taken exactly inside or outside the documented support. Normalisation: the documented density is the '
               'derivative of the documented distribution function, which runs from 0 to 1 over the support and which C15 shows to be the inverse of the real transform.')
BOUNDS = 'the parameter names listed per case, all real settings within their legal ranges; sums of several priors on one parameter'
OUTSIDE = 'values exactly on a bound (a set of measure zero); the kernel density estimate of NumericalPrior, a stand-in function here'

NAMES = ['per1', 'logk2', 'gamma_j', 'curv', 'user', 'tc2']


def vector(ctx, basis='per tc secosw sesinw logk', npl=2):
    P = radvel.Parameters(npl, basis=basis)
    for k in list(P):
        P[k] = radvel.Parameter(value=ctx.real('v_' + k))
    for k in ('gamma_j', 'jit_j', 'user', 'curv'):
        P[k] = radvel.Parameter(value=ctx.real('v_' + k))
    m = radvel.model.RVModel(P)
    return P, m.vector


def bounds(ctx, lo=None):
    a = ctx.real('min', lo, None, open_lo=True, sample=(0.1, 3)) if lo is not None else ctx.real('min', sample=(-4, 1))
    w = ctx.real('width', 0, None, open_lo=True, sample=(0.3, 6))
    return a, a + w


def value(ctx, P, V, key):
    return V.vector[V.indices[key]][0]


def same(ctx, P, V, before, label='parameters unchanged'):
    for k in P:
        ctx.check_eq(V.vector[V.indices[k]][0], before[k], label)
        ctx.check_eq(P[k].value, before[k], label)


def run(ctx, key, prior, inside, dens):
    """inside: condition strictly inside / strictly outside the support"""
    P, V = vector(ctx)
    before = {k: P[k].value for k in P}
    x = value(ctx, P, V, key)
    p = prior(x)
    ins, outs = inside(x)
    got = p(P, V)
    if not ctx.symbolic:
        got = float(got)
    isinf = isinstance(got, (float, np.floating)) and math.isinf(got)
    if isinf:
        ctx.check(snot(ins), 'never minus infinity inside the support')
        ctx.check(got < 0, 'minus infinity')
    else:
        ctx.check(snot(outs), 'minus infinity outside the support')
        if ctx.decide_bool(ins):
            ctx.check_eq(got, dens(x), 'log-density')
    ctx.check(p.param == key, 'own parameter')
    same(ctx, P, V, before)
    # it reads the vector, not a stale copy
    if not isinf:
        j = V.indices[key]
        for k in P:
            if k != key:
                V.vector[V.indices[k]][0] = ctx.real('other_' + k)
        again = p(P, V)
        ctx.check_eq(again, got, 'depends on its own parameter only')
        V.vector[j][0] = y = ctx.real('second')
        ins, outs = inside(y)
        if ctx.decide_bool(ins):
            ctx.check_eq(p(P, V), dens(y), 'log-density at the new value')


def gaussian(key):
    def h(ctx):
        mu, sig = ctx.real('mu'), ctx.real('sigma', 0, None, open_lo=True, sample=(0.2, 3))
        run(ctx, key, lambda x: radvel.prior.Gaussian(key, mu, sig), lambda x: (True, False),
            lambda x: -(x - mu) * (x - mu) / (2 * sig * sig) - F.log(F.sqrt(2 * PI * sig * sig)))
    return h


def hard(key):
    def h(ctx):
        a, b = bounds(ctx)
        run(ctx, key, lambda x: radvel.prior.HardBounds(key, a, b), lambda x: (sand(a < x, x < b), sor(x < a, x > b)), lambda x: F.log(1 / (b - a)))
    return h


def half(key, side):
    """one bound infinite: no normalisation, but the other bound holds"""
    def h(ctx):
        a = ctx.real('bound')
        args = (a, np.inf) if side == 'lower' else (-np.inf, a)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = radvel.prior.HardBounds(key, *args)
        run(ctx, key, lambda x: p, lambda x: (x > a, x < a) if side == 'lower' else (x < a, x > a), lambda x: 0.0)
    return h


def jeffreys(key):
    def h(ctx):
        a, b = bounds(ctx, 0)
        run(ctx, key, lambda x: radvel.prior.Jeffreys(key, a, b), lambda x: (sand(a < x, x < b), sor(x < a, x > b)),
            lambda x: F.log(1 / (F.log(b / a) * x)))
    return h


def modified(key):
    def h(ctx):
        knee = ctx.real('knee', sample=(-2, 0.5))
        d = ctx.real('above', 0, None, open_lo=True, sample=(0.1, 1))
        w = ctx.real('width', 0, None, open_lo=True, sample=(0.3, 6))
        a, b = knee + d, knee + d + w
        run(ctx, key, lambda x: radvel.prior.ModifiedJeffreys(key, a, b, knee), lambda x: (sand(a < x, x < b), sor(x < a, x > b)),
            lambda x: F.log(1 / (F.log((d + w) / d) * (x - knee))))
    return h


def modified_refused(ctx):
    knee = ctx.real('knee', sample=(-2, 2))
    a = ctx.real('min', sample=(-2, 2))
    b = ctx.real('max', sample=(3, 4))
    ctx.assume(sand(b > a, b > knee))
    ctx.assume(a < knee)
    try:
        radvel.prior.ModifiedJeffreys('per1', a, b, knee)
        ctx.check(False, 'lower bound below the knee is refused')
    except (AssertionError, ValueError):
        pass


def baseline(key):
    def h(ctx):
        B = ctx.real('baseline', 0, None, open_lo=True, sample=(0.2, 3))
        D = ctx.real('duration', 0, None, sample=(0.0, 2))
        P, V = vector(ctx, basis='logper tc secosw sesinw logk' if key.startswith('logper') else 'per tc secosw sesinw logk') \
            if not key.startswith('logper') else vector(ctx, 'logper tc secosw sesinw k')
        p = radvel.prior.InformativeBaselinePrior(key, B, duration=D)
        x = value(ctx, P, V, key)
        per = F.exp(x) if key.startswith('logper') else x
        before = {k: P[k].value for k in P}
        got = p(P, V)
        if ctx.decide_bool(per - D <= B):
            ctx.check_eq(got, 0.0, 'flat within the baseline')
        else:
            ctx.check_eq(got, F.log((B + D) / per), 'falls as one over the period')
        same(ctx, P, V, before)
        q = radvel.prior.InformativeBaselinePrior(key, B)
        got = q(P, V)
        if ctx.decide_bool(per <= B):
            ctx.check_eq(got, 0.0, 'flat within the baseline, no duration')
        else:
            ctx.check_eq(got, F.log(B / per), 'falls as one over the period, no duration')
    return h


def user(keys):
    def h(ctx):
        P, V = vector(ctx)
        before = {k: P[k].value for k in P}
        fn = lambda v: ctx.uf('density', *v, fn=lambda *a: sum(math.sin(x * (i + 1)) for i, x in enumerate(a)))    # noqa: E731
        p = radvel.prior.UserDefinedPrior(list(keys), fn, 'tex')
        ctx.check_eq(p(P, V), fn([P[k].value for k in keys]), 'user density of its own parameters, in order')
        same(ctx, P, V, before)
        # the density estimate of a numerical prior is asked at the same point
        kde = {}

        class KDE(object):
            def __init__(self, values, bw_method=None):
                kde['values'] = values

            def __call__(self, x):
                x = np.asarray(x, dtype=object).ravel()
                return np.array([F.exp(fn(list(x)))])
        ctx.stub(radvel.prior, 'gaussian_kde', KDE)
        vals = np.array([[0.0, 1.0, 2.0, 4.0]] * len(keys))
        q = radvel.prior.NumericalPrior(list(keys), vals)
        ctx.check(kde['values'] is vals, 'estimate built from the given values')
        ctx.check_eq(q(P, V), fn([P[k].value for k in keys]), 'numerical density of its own parameters, in order')
        same(ctx, P, V, before)
    return h


BASES = ['per tp e w k', 'per tc secosw sesinw logk', 'logper tc e w k', 'logper tp e w logk', 'per tc ecosw esinw k', 'per tc se w k']


def any_name(kind):
    """the density of a prior does not depend on what its parameter is called"""
    def h(ctx):
        npl = 2
        P = radvel.Parameters(npl, basis=BASES[ctx.choice('basis', len(BASES))])
        keys = sorted(P)
        key = (keys + ['gamma_j', 'jit_j', 'gp_per', 'dvdt'])[ctx.choice('key', len(keys) + 4)]
        for k in keys + ['gamma_j', 'jit_j', 'gp_per', 'dvdt', 'curv']:
            P[k] = radvel.Parameter(value=ctx.real('v') if k == key else 1.0)
        V = radvel.model.RVModel(P).vector
        x = P[key].value
        a, w = ctx.real('a', 0, None, open_lo=True, sample=(0.1, 3)), ctx.real('w', 0, None, open_lo=True, sample=(0.3, 6))
        p, want = {
            'normal': lambda: (radvel.prior.Gaussian(key, a, w), -(x - a) * (x - a) / (2 * w * w) - F.log(F.sqrt(2 * PI * w * w))),
            'uniform': lambda: (radvel.prior.HardBounds(key, a, a + w), F.log(1 / w)),
            'one over x': lambda: (radvel.prior.Jeffreys(key, a, a + w), F.log(1 / (F.log((a + w) / a) * x)))}[kind]()
        if kind != 'normal':
            ctx.assume(sand(a < x, x < a + w))
        ctx.check_eq(p(P, V), want, 'log-density')
    return h


def several(ctx):
    """two priors of the same kind do not share settings"""
    P, V = vector(ctx)
    mu, s = ctx.reals('mu', 2), [ctx.real('s%d' % i, 0, None, open_lo=True, sample=(0.2, 2)) for i in range(2)]
    g = [radvel.prior.Gaussian(k, m, x) for k, m, x in zip(('per1', 'tc2'), mu, s)]
    for p, k, m, x in zip(g, ('per1', 'tc2'), mu, s):
        v = P[k].value
        ctx.check_eq(p(P, V), -0.5 * ((v - m) / x) ** 2 - F.log(F.sqrt(2 * PI * x * x)), 'each with its own settings')


def cases(tier):
    q = tier == 'quick'
    names = NAMES[:3] if q else NAMES
    out = []
    for k in names:
        out += [Case('normal ' + k, gaussian(k)), Case('uniform ' + k, hard(k)), Case('one over x ' + k, jeffreys(k)), Case('one over x - knee ' + k, modified(k))]
    out += [Case('half bounded %s' % s, half('per1', s)) for s in ('lower', 'upper')]
    out.append(Case('knee above the bound', modified_refused, expect_reach=False))
    out += [Case('baseline ' + k, baseline(k)) for k in ('per1', 'per2', 'logper1', 'logper2')]
    out += [Case('user ' + ' '.join(k), user(k)) for k in (('per1',), ('tc2', 'per1'), ('secosw1', 'sesinw1', 'gamma_j'))]
    out += [Case('any name ' + k, any_name(k)) for k in ('normal', 'uniform', 'one over x')]
    out.append(Case('several', several))
    return out
