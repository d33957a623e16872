"""The log-likelihood of a data set."""
from .common import *

EXPLANATION = ('The real likelihood runs on symbolic data, errors, jitters, offsets and decorrelation coefficients with the velocity model an uninterpreted '
               'function of time and one parameter; log-likelihood, residuals and error bars are compared with the documented formula.')
BOUNDS = '1-3 (thorough: 4) points, 0-2 (thorough: 3) decorrelation variables, 1-2 instruments; the names and suffixes listed per case'
OUTSIDE = 'offsets marginalised analytically (C11); non-finite decorrelation columns'


def signal(ctx):
    """an arbitrary signal that depends on one parameter of the vector"""
    def f(t, params, vector):
        a = vector.vector[vector.indices['k1']][0]
        return np.array([ctx.uf('signal', x, a, fn=lambda x, a: math.sin(x) + 0.3 * a) for x in t])
    return f


def build_model(ctx, extra=(), a=None):
    P = radvel.Parameters(1, basis='per tp e w k')
    for n in 'per tp e w'.split():
        P[n + '1'] = radvel.Parameter(value=1.0)
    P['k1'] = radvel.Parameter(value=ctx.real('k1') if a is None else a)
    for n, v in extra:
        P[n] = radvel.Parameter(value=v)
    return P, radvel.GeneralRVModel(P, signal(ctx), time_base=0)


def data(ctx, n, s=''):
    return (ctx.reals('t' + s, n), ctx.reals('y' + s, n),
            [ctx.real('err%s%d' % (s, i), 0, None, open_lo=True, sample=(0.2, 3)) for i in range(n)])


def loglike(r, var):
    out = 0
    for x, v in zip(r, var):
        out = out - (x * x / (2 * v) + F.log(F.sqrt(2 * PI * v)))
    return out


def expected(ctx, P, suffix, d, cols, coef):
    t, y, err = d
    n = len(t)
    g, j = P['gamma' + suffix].value, P['jit' + suffix].value
    r = []
    for i in range(n):
        x = y[i] - g - ctx.uf('signal', t[i], P['k1'].value, fn=lambda x, a: math.sin(x) + 0.3 * a)
        for v in cols:
            mean = sum(cols[v]) / n
            x = x - coef[v] * (cols[v][i] - mean)
        r.append(x)
    var = [e * e + j * j for e in err]
    return r, var


def one(n, suffix, dvars, order=None):
    def h(ctx):
        P, m = build_model(ctx)
        P['gamma' + suffix] = radvel.Parameter(value=ctx.real('gamma'), linear=ctx.boolean('linear'))
        P['jit' + suffix] = radvel.Parameter(value=ctx.real('jit'))
        d = data(ctx, n)
        cols = {v: ctx.reals('col_%s_' % v, n) for v in dvars}
        coef = {}
        L = radvel.likelihood.RVLikelihood(
            m, ctx.array(d[0]), ctx.array(d[1]), ctx.array(d[2]), suffix=suffix,
            decorr_vars=list(dvars), decorr_vectors={v: ctx.array(cols[v]) for v in (order or dvars)})
        for v in dvars:
            coef[v] = ctx.real('coef_' + v)
            P['c1_%s%s' % (v, suffix)].value = coef[v]
        m.vector.dict_to_vector()
        r, var = expected(ctx, P, suffix, d, cols, coef)
        for k in range(2):
            res, eb, lp = L.residuals(), L.errorbars(), L.logprob()
            ctx.check(len(res) == n and len(eb) == n, 'one residual and error bar per point')
            for i in range(n):
                ctx.check_eq(res[i], r[i], 'residual')
                ctx.check_eq(eb[i], F.sqrt(var[i]), 'error bar')
            ctx.check_eq(lp, loglike(r, var), 'log-likelihood')
            ctx.check_eq(L.neglogprob(), -lp, 'negative log-likelihood')
        ctx.check_all_eq(L.y, d[1], 'data unchanged')
        ctx.check_all_eq(L.x, d[0], 'times unchanged')
        ctx.check_all_eq(L.yerr, d[2], 'errors unchanged')
        for v in dvars:
            ctx.check_all_eq(L.decorr_vectors[v], cols[v], 'decorrelation columns unchanged')
        ctx.check_eq(m.vector.vector[m.vector.indices['gamma' + suffix]][0], P['gamma' + suffix].value, 'offset unchanged')
        # another point in parameter space
        for k in ['k1', 'gamma' + suffix, 'jit' + suffix]:
            P[k].value = ctx.real('second_' + k)
        for v in dvars:
            coef[v] = P['c1_%s%s' % (v, suffix)].value = ctx.real('second_coef_' + v)
        m.vector.dict_to_vector()
        r, var = expected(ctx, P, suffix, d, cols, coef)
        ctx.check_eq(L.logprob(), loglike(r, var), 'log-likelihood elsewhere')
        # a point handed over as an array of the free values, as optimisers and samplers do
        names = L.name_vary_params()
        here = {k: ctx.real('third_' + k) for k in ['k1', 'gamma' + suffix, 'jit' + suffix] + ['c1_%s%s' % (v, suffix) for v in dvars]}
        ctx.check(set(here) <= set(names), 'the parameters of the likelihood are free')
        lp = L.logprob_array(ctx.array([here.get(k, P[k].value) for k in names]))
        for k in here:
            P[k].value = here[k]
        r, var = expected(ctx, P, suffix, d, cols, {v: here['c1_%s%s' % (v, suffix)] for v in dvars})
        ctx.check_eq(lp, loglike(r, var), 'log-likelihood at an array of free values')
    return h


def two(na, nb, dvars):
    """two instruments sharing the model keep to their own parameters"""
    def h(ctx):
        P, m = build_model(ctx)
        L, D, C, K = [], [], [], []
        for s, n, dv in (('_a', na, dvars[:1]), ('_b', nb, dvars)):
            d = data(ctx, n, s)
            cols = {v: ctx.reals('col%s_%s_' % (s, v), n) for v in dv}
            L.append(radvel.likelihood.RVLikelihood(
                m, ctx.array(d[0]), ctx.array(d[1]), ctx.array(d[2]), suffix=s,
                decorr_vars=list(dv), decorr_vectors={v: ctx.array(cols[v]) for v in dv}))
            D.append(d)
            C.append(cols)
        for s, dv in (('_a', dvars[:1]), ('_b', dvars)):
            P['gamma' + s] = radvel.Parameter(value=ctx.real('gamma' + s))
            P['jit' + s] = radvel.Parameter(value=ctx.real('jit' + s))
            K.append({})
            for v in dv:
                K[-1][v] = P['c1_%s%s' % (v, s)].value = ctx.real('coef_%s%s' % (v, s))
        m.vector.dict_to_vector()
        for i, s in enumerate(('_a', '_b')):
            r, var = expected(ctx, P, s, D[i], C[i], K[i])
            ctx.check_eq(L[i].logprob(), loglike(r, var), 'log-likelihood' + s)
            ctx.check_all_eq(L[i].residuals(), r, 'residuals' + s)
    return h


def bare(n):
    """the formula itself"""
    def h(ctx):
        r = ctx.reals('r', n)
        e = [ctx.real('e%d' % i, 0, None, open_lo=True, sample=(0.2, 3)) for i in range(n)]
        j = ctx.real('j')
        out = radvel.likelihood.loglike_jitter(ctx.array(r), ctx.array(e), j)
        ctx.check_eq(out, loglike(r, [x * x + j * j for x in e]), 'Gaussian log-likelihood')
    return h


def cases(tier):
    q = tier == 'quick'
    out = [Case('formula %d' % n, bare(n), '%d points' % n) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    for n, s, v in [(1, '', ()), (2, '_j', ()), (3, 'k', ()), (2, '', ('bis',)), (2, '_j', ('bis', 'fwhm')), (2, '_harps', ('a', 'ab')),
                    (2, '_bis', ('bis', 'c')), (2, 'x', ('s_index', 'rhk')), (2, '_a_b', ('log_rhk', 'log')), (3, '_j', ('bis',))] + \
            ([] if q else [(4, '_j', ()), (3, '_j', ('bis', 'fwhm', 'b')), (3, 'w', ('ab', 'a'))]):
        out.append(Case('likelihood %d %s %s' % (n, s or '-', ' '.join(v)), one(n, s, v, v[::-1] if len(v) > 1 else None), '%d points' % n))
    out.append(Case('two instruments', two(2, 1, ()), '2+1 points'))
    out.append(Case('two instruments decorrelated', two(2, 2, ('bis', 'b')), '2+2 points'))
    return out
