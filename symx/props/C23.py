"""Maximum-a-posteriori fitting."""
import types

import radvel.fitting
import radvel.likelihood
import radvel.posterior
import radvel.prior
import scipy.optimize

from .common import *
from .C10 import build_model, data, expected, loglike

EXPLANATION = ('maxlike_fitting runs with scipy.optimize.minimize replaced by an optimiser with an arbitrary history: it evaluates the objective at arbitrary points and reports an '
               'arbitrary one of them, or another point, as best. The objective at every point, the starting point and the posterior afterwards are compared with the documented values.')
BOUNDS = '1-4 evaluations, 1-3 free parameters in every combination of the listed ones, one or two instruments of 1-2 points, with and without priors, fitted once or twice'
OUTSIDE = 'whether the optimiser finds the maximum; analytically marginalised offsets'
FREE = ['k1', 'gamma_j', 'jit_j', 'w1']


def post_mu(ctx):
    return ctx.real('mu')


def post_sd(ctx):
    return ctx.real('sd', 0, None, open_lo=True, sample=(0.5, 3))


def build(ctx, free, n, instruments, priors):
    P, m = build_model(ctx)
    P['w1'].value = ctx.real('w1')
    suffixes = ['_j', '_h'][:instruments]
    D = {}
    for s in suffixes:
        P['gamma' + s] = radvel.Parameter(value=ctx.real('gamma' + s))
        P['jit' + s] = radvel.Parameter(value=ctx.real('jit' + s, nonzero=True))
        D[s] = data(ctx, n, s)
    for k in P:
        P[k].vary = k in free
    m = radvel.GeneralRVModel(P, m._forward_model, time_base=0)
    likes = [radvel.likelihood.RVLikelihood(m, *[ctx.array(v) for v in D[s]], suffix=s) for s in suffixes]
    like = likes[0] if instruments == 1 else radvel.likelihood.CompositeLikelihood(likes)
    post = radvel.posterior.Posterior(like)
    mu, sd = post_mu(ctx), post_sd(ctx)
    if priors:
        post.priors = [radvel.prior.Gaussian('k1', mu, sd), radvel.prior.Gaussian('w1', mu + 1, 2 * sd)]
    m.vector.dict_to_vector()
    post.list_vary_params()

    def logpost(values):
        """log-posterior when the free parameters have these values"""
        Q = {k: types.SimpleNamespace(value=P[k].value) for k in P}
        for k in start:
            Q[k] = types.SimpleNamespace(value=start[k])
        for k, v in values.items():
            Q[k] = types.SimpleNamespace(value=v)
        out = 0
        for s in suffixes:
            r, var = expected(ctx, Q, s, D[s], {}, {})
            out = out + loglike(r, var)
        if priors:
            for k, a, b in (('k1', mu, sd), ('w1', mu + 1, 2 * sd)):
                z = (Q[k].value - a) / b
                out = out - z * z / 2 - 0.5 * F.log(b * b * 2 * PI)
        return out
    start = {k: P[k].value for k in P}
    return P, m, post, logpost


def optimiser(ctx, steps, names, logpost, log):
    def minimize(fun, x0, args=(), method=None, **kw):
        turn = len(log)
        log.append(dict(x0=list(x0), method=method))
        points = []
        for i in range(steps):
            x = [ctx.real('try%d_%d_%s' % (turn, i, k), nonzero=k.startswith('jit')) for k in names]
            v = fun(np.array(x, dtype=object if ctx.symbolic else float), *args)
            ctx.check_eq(v, -logpost(dict(zip(names, x))), 'objective is the negative log-posterior of its argument')
            points.append(x)
        j = ctx.choice('best%d' % turn, steps + 1)
        best = points[j] if j < steps else [ctx.real('best%d_%s' % (turn, k), nonzero=k.startswith('jit')) for k in names]
        log[-1]['best'] = best
        return types.SimpleNamespace(x=np.array(best, dtype=object if ctx.symbolic else float), fun=-logpost(dict(zip(names, best))),
                                     success=ctx.decide_bool(ctx.boolean('success%d' % turn)), status=0, message='', nit=1, nfev=steps)
    ctx.stub(scipy.optimize, 'minimize', minimize)


def fit(free, n, instruments, priors, steps, times=1, method=None, verbose=False):
    def h(ctx):
        P, m, post, logpost = build(ctx, free, n, instruments, priors)
        names = post.name_vary_params()
        ctx.check(sorted(names) == sorted(free), 'free parameters')
        log = []
        optimiser(ctx, steps, names, logpost, log)
        others = {k: P[k].value for k in P if k not in free}
        at = {k: P[k].value for k in names}
        for t in range(times):
            kw = {} if method is None else dict(method=method)
            got = radvel.fitting.maxlike_fitting(post, verbose=verbose, **kw)
            ctx.check(len(log) == t + 1, 'one optimisation')
            ctx.check_all_eq(log[t]['x0'], [at[k] for k in names], 'starts from the current values')
            ctx.check(log[t]['method'] == (method or 'Powell'), 'method')
            best = dict(zip(names, log[t]['best']))
            for k in names:
                ctx.check_eq(got.params[k].value, best[k], 'parameter set at the optimum')
                ctx.check_eq(got.vector.vector[got.vector.indices[k]][0], best[k], 'vector at the optimum')
                ctx.check_eq(got.likelihood.params[k].value, best[k], 'likelihood parameters at the optimum')
            ctx.check_all_eq(got.get_vary_params(), [best[k] for k in names], 'free values at the optimum')
            for k in others:
                ctx.check_eq(got.params[k].value, others[k], 'fixed parameter unchanged')
                ctx.check_eq(got.vector.vector[got.vector.indices[k]][0], others[k], 'fixed parameter unchanged in the vector')
            ctx.check_eq(got.logprob(), logpost(best), 'log-posterior of the result')
            ctx.check(sorted(k for k in got.params if got.params[k].vary) == sorted(free), 'vary flags unchanged')
            at = best
    return h


def reevaluated(dim):
    """the objective depends on nothing but the posterior as it is now"""
    def h(ctx):
        free = ['k1', 'gamma_j'][:dim]
        P, m, post, logpost = build(ctx, free, 1, 1, True)
        names = post.name_vary_params()
        x = {k: ctx.real('x_' + k) for k in names}
        arr = lambda: np.array([x[k] for k in names], dtype=object if ctx.symbolic else float)     # noqa: E731
        for turn in range(2):
            ctx.check_eq(post.neglogprob_array(arr()), -logpost(x), 'objective')
            ctx.check_eq(post.logprob_array(arr()), logpost(x), 'log-posterior')
        jit, w = ctx.real('other_jit', nonzero=True), ctx.real('other_w')
        m.vector.vector[m.vector.indices['jit_j']][0] = jit
        P['w1'].value = w
        m.vector.vector[m.vector.indices['w1']][0] = w
        ctx.check_eq(post.neglogprob_array(arr()), -logpost(dict(x, jit_j=jit, w1=w)), 'objective after a fixed parameter changed')
        post.priors = post.priors[:1]
        z = (w - post_mu(ctx) - 1) / (2 * post_sd(ctx))
        ctx.check_eq(post.neglogprob_array(arr()), -logpost(dict(x, jit_j=jit, w1=w)) - z * z / 2 - 0.5 * F.log(4 * post_sd(ctx) * post_sd(ctx) * 2 * PI), 'objective after a prior was taken away')
    return h


def cases(tier):
    q = tier == 'quick'
    out = []
    i = 0
    for a in range(1, 2 ** len(FREE)):
        free = [f for b, f in enumerate(FREE) if a >> b & 1]
        if q and len(free) > 2 and a % 2:
            continue
        i += 1
        out.append(Case('free %s' % ' '.join(free), fit(free, 1 + i % 2, 1, i % 2 == 0, 1 + i % 3)))
    out.append(Case('two instruments', fit(['k1', 'gamma_h', 'jit_j'], 1, 2, True, 2)))
    out.append(Case('two instruments all free', fit(['k1', 'w1', 'gamma_h', 'jit_j', 'gamma_j', 'jit_h'], 1, 2, False, 2)))
    out.append(Case('fitted twice', fit(['k1', 'gamma_j'], 1, 1, True, 2, times=2)))
    out += [Case('evaluated again %d' % d, reevaluated(d)) for d in (1, 2)]
    out.append(Case('another method', fit(['k1', 'w1'], 1, 1, True, 2, method='Nelder-Mead')))
    if not q:
        out.append(Case('long history', fit(['k1', 'gamma_j', 'jit_j'], 2, 1, True, 4)))
        out.append(Case('two instruments fitted twice', fit(['k1', 'gamma_h', 'jit_j'], 2, 2, True, 2, times=2)))
    return out
