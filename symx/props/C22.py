"""Convergence of MCMC chains."""
import sys
import types

from .common import *

MCMC = sys.modules['radvel.mcmc']

EXPLANATION = ('convergence_calculate runs on symbolic chains, thresholds and autocorrelation times (emcee\'s estimator is replaced by arbitrary positive values); statistics are compared with '
               'their definitions and the flag with the conjunction of the criteria over all parameters. convergence_check runs on symbolic histories of samplers with arbitrary verdicts.')
BOUNDS = '1-3 ensembles of 1-2 walkers and 2-3 steps with 1-2 parameters for the statistics; 1-3 parameters (fixed chains, all thresholds and autocorrelation times) for the verdict; 1-3 (thorough: 5) consecutive checks'
OUTSIDE = 'the autocorrelation estimate itself; chains that do not move at all (statistics undefined)'


def variance(v):
    n = len(v)
    m = sum(v) / n
    return sum((x - m) * (x - m) for x in v) / n


def statistics(chains, nd):
    """chains: [ensemble][parameter] -> list of draws"""
    M, L = len(chains), len(chains[0][0])
    gr, tz = [], []
    for d in range(nd):
        W = sum(variance(c[d]) for c in chains) / M
        means = [sum(c[d]) / L for c in chains]
        B = variance(means) * L
        V = (1 - 1.0 / L) * W + B / L
        gr.append((V, W))
        b = variance(means) / (M - 1) * L if M > 1 else None
        tz.append((V, b, M * L))
    return gr, tz


def draw_chains(ctx, E, nd, nw, ns, first_only=False):
    """first_only: one free draw per parameter and ensemble, the others fixed"""
    rng = np.random.RandomState(3)

    def draws(e, d, w):
        if not first_only:
            return ctx.reals('x%d_%d_%d_' % (e, d, w), ns)
        v = [float(x) for x in rng.randint(-8, 8, ns)]
        if w == 0:
            v[0] = ctx.real('x%d_%d' % (e, d))
        return v
    X = [np.array([[draws(e, d, w) for w in range(nw)] for d in range(nd)],
                  dtype=object if ctx.symbolic else float) for e in range(E)]
    flat = [[list(X[e][d].reshape(-1)) for d in range(nd)] for e in range(E)]
    return X, flat


def autocorr(ctx, nd, expected, tag=''):
    tau = [ctx.real('tau%s_%d' % (tag, d), 0, None, open_lo=True, sample=(0.5, 20)) for d in range(nd)]

    def integrated_time(x, c=5, tol=50, quiet=False, **kw):
        x = np.asarray(x)
        E, nd, nw, ns = expected[1:]
        ctx.check(x.shape == (ns * E, nw, nd), 'autocorrelation is estimated from steps, walkers and parameters')
        if x.shape == (ns * E, nw, nd):
            for e in range(E):
                for d in range(nd):
                    for w in range(nw):
                        for s in range(ns):
                            ctx.check_eq(x[e * ns + s][w][d], expected[0][e][d][w][s], 'autocorrelation is estimated from the chains')
        return np.array(tau, dtype=object if ctx.symbolic else float)
    ctx.stub(MCMC, 'emcee', types.SimpleNamespace(autocorr=types.SimpleNamespace(integrated_time=integrated_time)))
    return tau


def calculated(E, nd, nw, ns, verdict=True, first_only=False):
    def h(ctx):
        X, flat = draw_chains(ctx, E, nd, nw, ns, first_only)
        tau = autocorr(ctx, nd, (X, E, nd, nw, ns))
        old = [ctx.real('old_%d' % d, 0, None, open_lo=True, sample=(0.5, 20)) for d in range(nd)]
        th = dict(minAfactor=ctx.real('minAfactor', 0, None, sample=(0, 5)), maxArchange=ctx.real('maxArchange', 0, None, sample=(0, 3)),
                  minTz=ctx.real('minTz', 0, None, sample=(0, 20)), maxGR=ctx.real('maxGR', 0, None, open_lo=True, sample=(0.8, 3)))
        if not verdict:
            th = dict(minAfactor=1e9, maxArchange=0.0, minTz=1e9, maxGR=0.0)
        gr, tz = statistics(flat, nd)
        for V, W in gr:
            ctx.assume(W > 0)
        for V, b, n in tz:
            if b is not None:
                ctx.assume(b > 0)
        ismixed, af, ac, oac, g, t = MCMC.convergence_calculate([x.copy() for x in X], np.array(old, dtype=object if ctx.symbolic else float), **th)
        want = []
        for d in range(nd):
            V, W = gr[d]
            ctx.check_eq(g[d] * g[d], V / W, 'Gelman-Rubin statistic')
            ctx.check(g[d] >= 0, 'Gelman-Rubin statistic positive')
            want.append(g[d] < th['maxGR'])
            if E > 1:
                ctx.check(len(t) == nd, 'independent draws of every parameter')
                V, b, n = tz[d]
                if ctx.decide_bool(V < b):
                    ctx.check_eq(t[d], n * V / b, 'independent draws')
                else:
                    ctx.check_eq(t[d], n, 'independent draws')
                want.append(t[d] > th['minTz'])
            n = ns * E
            ctx.check_eq(np.ravel(af)[d], n / tau[d], 'autocorrelation factor')
            ctx.check_eq(np.ravel(ac)[d], F.abs(tau[d] - old[d]) / old[d], 'change of the autocorrelation time')
            ctx.check_eq(np.ravel(oac)[d], tau[d], 'autocorrelation time')
            want += [n / tau[d] > th['minAfactor'], F.abs(tau[d] - old[d]) / old[d] < th['maxArchange']]
        if verdict:
            ctx.check(ctx.decide_bool(ismixed) == ctx.decide_bool(sand(*want)), 'converged exactly when every criterion is met')
        else:
            ctx.check(not ctx.decide_bool(ismixed), 'not converged')
    return h


def verdict(E, nd):
    """fixed chains of several parameters; thresholds and autocorrelation times are free"""
    def h(ctx):
        nw, ns = 2, 3
        rng = np.random.RandomState(5 + nd)
        X = [rng.normal(size=(nd, nw, ns)) + 0.4 * e * (np.arange(nd)[:, None, None] - 0.5) for e in range(E)]
        flat = [[list(X[e][d].reshape(-1)) for d in range(nd)] for e in range(E)]
        tau = autocorr(ctx, nd, (X, E, nd, nw, ns))
        old = [1.0 + d for d in range(nd)]
        th = dict(minAfactor=ctx.real('minAfactor', 0, None, sample=(0, 2)), maxArchange=ctx.real('maxArchange', 0, None, sample=(0, 30)),
                  minTz=ctx.real('minTz', 0, None, sample=(0, 2)), maxGR=ctx.real('maxGR', 0, None, open_lo=True, sample=(0.8, 3)))
        gr, tz = statistics(flat, nd)
        got = MCMC.convergence_calculate([x.copy() for x in X], np.array(old), **th)[0]
        want = []
        for d in range(nd):
            want.append(th['maxGR'] > math.sqrt(gr[d][0] / gr[d][1]))
            if E > 1:
                want.append(th['minTz'] < tz[d][2] * min(1.0, tz[d][0] / tz[d][1]))
            want += [ns * E / tau[d] > th['minAfactor'], F.abs(tau[d] - old[d]) < th['maxArchange'] * old[d]]
        for x in [math.sqrt(V / W) for V, W in gr]:
            ctx.assume(F.abs(th['maxGR'] - x) > 1e-9)
        for V, b, n in tz:
            if b is not None:
                ctx.assume(F.abs(th['minTz'] - n * min(1.0, V / b)) > 1e-9)
        ctx.check(ctx.decide_bool(got) == ctx.decide_bool(sand(*want)), 'converged exactly when every criterion is met')
    return h


class Sampler(object):
    def __init__(self, chain, lp):
        self.chain, self.lp = chain, lp
        self.acceptance_fraction = np.array([0.25, 0.75])

    def get_chain(self, flat=False, **kw):
        return self.chain.reshape(-1, self.chain.shape[2]) if flat else self.chain

    def get_log_prob(self, flat=False, **kw):
        return self.lp.reshape(-1) if flat else self.lp


def flag(ctx, b):
    return ctx.decide_bool(b)


def checked(E, n, nd=2, nw=2, ns=2):
    """a history of checks: every one counted, consecutive ones required"""
    def h(ctx):
        v = MCMC.statevars
        v.reset()
        ctx.at_end(v.reset)
        v.nburn, v.ensembles, v.nwalkers, v.totsteps, v.checkinterval, v.interval = 0, E, nw, 1000, ns, 1.0
        v.burn_complete, v.mixcount = nd == 1, 0
        count, old = 0, 0
        for i in range(n):
            S = []
            for e in range(E):
                c = np.array([[ctx.reals('x%d_%d_%d_%d_' % (i, e, s, w), nd) for w in range(nw)] for s in range(ns)], dtype=object if ctx.symbolic else float)
                lp = np.array([ctx.reals('lp%d_%d_%d_' % (i, e, s), nw) for s in range(ns)], dtype=object if ctx.symbolic else float)
                S.append(Sampler(c, lp))
            v.samplers = S
            th = dict(minAfactor=ctx.real('minAfactor%d' % i), maxArchange=ctx.real('maxArchange%d' % i), maxGR=ctx.real('maxGR%d' % i), minTz=ctx.real('minTz%d' % i))
            mixed = flag(ctx, ctx.boolean('mixed%d' % i))
            stats = {k: ctx.reals('%s%d_' % (k, i), nd) for k in ('af', 'ac', 'oac', 'gr', 'tz')}
            called = []

            def calculate(chains, oldautocorrelation, minAfactor, maxArchange, minTz, maxGR):
                called.append(1)
                for e in range(E):
                    ctx.check(np.shape(chains[e]) == (nd, nw, ns), 'chains by parameter, walker and step')
                    for d in range(nd):
                        for w in range(nw):
                            for s in range(ns):
                                ctx.check_eq(chains[e][d][w][s], S[e].chain[s][w][d], 'chains of this check')
                for k, x in (('minAfactor', minAfactor), ('maxArchange', maxArchange), ('minTz', minTz), ('maxGR', maxGR)):
                    ctx.check_eq(x, th[k], 'threshold ' + k)
                if i == 0:
                    ctx.check(np.all(np.asarray(oldautocorrelation) == 0), 'no earlier autocorrelation time')
                else:
                    ctx.check_all_eq(list(oldautocorrelation), old, 'autocorrelation time of the previous check')
                a = {k: np.array(x, dtype=object if ctx.symbolic else float) for k, x in stats.items()}
                return mixed, a['af'], a['ac'], a['oac'], a['gr'], a['tz']
            ctx.stub(MCMC, 'convergence_calculate', calculate)
            MCMC.convergence_check(minsteps=0, minpercent=0, headless=True, **th)
            ctx.check(len(called) == 1, 'criteria evaluated')
            old = stats['oac']
            count = count + 1 if mixed else 0
            ctx.check(v.mixcount == count, 'consecutive checks counted')
            ctx.check(bool(v.ismixed) == mixed, 'verdict kept')
            for got, k, worst in ((v.mintz, 'tz', 'min'), (v.minafactor, 'af', 'min'), (v.maxgr, 'gr', 'max'), (v.maxarchange, 'ac', 'max')):
                for x in stats[k]:
                    ctx.check(got <= x if worst == 'min' else got >= x, 'worst %s' % k)
                ctx.check(sor(*[got == x for x in stats[k]]), 'worst %s is one of them' % k)
            ctx.check(v.ncomplete == E * nw * ns, 'steps counted')
    return h


def too_early(ctx):
    """before minsteps and minpercent nothing counts as converged"""
    v = MCMC.statevars
    v.reset()
    ctx.at_end(v.reset)
    E, nw, ns, nd = 2, 2, 2, 1
    minsteps, minpercent = ctx.real('minsteps', 0, 10), ctx.real('minpercent', 0, 100)
    total = ctx.real('totsteps', 8, 1000)
    v.nburn, v.ensembles, v.nwalkers, v.totsteps, v.checkinterval, v.interval = 0, E, nw, total, ns, 1.0
    v.burn_complete, v.mixcount = False, 0
    v.samplers = [Sampler(np.ones((ns, nw, nd)), np.ones((ns, nw))) for e in range(E)]
    ctx.stub(MCMC, 'convergence_calculate', lambda *a, **k: (True, np.ones(nd), np.ones(nd), np.ones(nd), np.ones(nd), np.ones(nd)))
    MCMC.convergence_check(1, 1, 1, 1, minsteps, minpercent, True)
    early = sand(800 / total < minpercent, nw * ns <= minsteps * nw)
    ctx.check(bool(v.ismixed) != ctx.decide_bool(early), 'checked once either threshold is reached')
    ctx.check(v.mixcount == int(bool(v.ismixed)), 'counted')


def cases(tier):
    q = tier == 'quick'
    sizes = ((2, 1, 1, 2), (1, 1, 1, 2)) + (() if q else ((3, 1, 2, 1), (3, 1, 1, 2)))
    out = [Case('%d ensembles %d parameters %d walkers %d steps' % s, calculated(*s)) for s in sizes]
    for s in ((2, 2, 1, 2), (3, 1, 2, 2), (2, 1, 2, 2)):
        out.append(Case('one free draw each, %d ensembles %d parameters %d walkers %d steps' % s, calculated(*s, verdict=s[1] == 1, first_only=True)))
    for s in ((1, 2, 2, 1),) + (() if q else ((2, 2, 1, 2), (2, 2, 2, 1))):
        out.append(Case('statistics of %d ensembles %d parameters %d walkers %d steps' % s, calculated(*s, verdict=False)))
    for E, nd in ((2, 2), (3, 2), (1, 2), (2, 3)) + (() if q else ((3, 3), (3, 4))):
        out.append(Case('verdict for %d ensembles %d parameters' % (E, nd), verdict(E, nd)))
    for E, n, nd in ((1, 1, 3), (2, 1, 2), (2, 2, 1), (3, 3, 1)) + (() if q else ((2, 5, 1),)):
        out.append(Case('history of %d checks of %d ensembles, %d parameters' % (n, E, nd), checked(E, n, nd)))
    out.append(Case('before the thresholds', too_early))
    return out
