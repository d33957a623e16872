"""Analytic marginalisation of offsets."""
from .common import *
from .C10 import build_model, data, expected, loglike

EXPLANATION = ('With a linear, fixed offset the real likelihood is compared with the ordinary one at an arbitrary offset g: the difference must be the normal '
               'log-density of g about the weighted-mean optimum, which integrates to one over g - so the reported value is the logarithm of the integral. In the other flag '
               'combinations the offset and the ordinary likelihood must be untouched.')
BOUNDS = '1-3 (thorough: 4) points, 0-1 (thorough: 2) decorrelation variables, all four flag combinations, 1-2 instruments'
OUTSIDE = 'errors and jitter both zero; GP likelihoods, which do not marginalise'


def build(ctx, n, dvars, vary, linear, s='_a', m=None, P=None, total=False):
    if m is None:
        P, m = build_model(ctx)
    P['gamma' + s] = radvel.Parameter(value=ctx.real('gamma' + s), vary=vary, linear=linear)
    P['jit' + s] = radvel.Parameter(value=ctx.real('jit' + s, sample=(-1.5, 1.5)), vary=False, linear=ctx.boolean('jit_linear' + s))
    d = data(ctx, n, s)
    if total:
        # the same errors, written in terms of the total variances
        j = P['jit' + s].value
        v = [ctx.real('var%s%d' % (s, i), 0, None, open_lo=True, sample=(4, 30)) for i in range(n)]
        for x in v:
            ctx.assume(x > j * j)
        d = (d[0], d[1], [F.sqrt(x - j * j) for x in v])
    cols = {v: ctx.reals('col%s_%s_' % (s, v), n) for v in dvars}
    L = radvel.likelihood.RVLikelihood(m, ctx.array(d[0]), ctx.array(d[1]), ctx.array(d[2]), suffix=s, decorr_vars=list(dvars),
                                       decorr_vectors={v: ctx.array(cols[v]) for v in dvars})
    coef = {}
    for v in dvars:
        coef[v] = P['c1_%s%s' % (v, s)].value = ctx.real('coef%s_%s' % (s, v))
    m.vector.dict_to_vector()
    return P, m, L, d, cols, coef


def optimum(ctx, P, s, d, cols, coef):
    keep = P['gamma' + s].value
    P['gamma' + s].value = 0.0
    r0, var = expected(ctx, P, s, d, cols, coef)
    P['gamma' + s].value = keep
    w = 0
    z = 0
    for x, v in zip(r0, var):
        w = w + 1 / v
        z = z + x / v
    return z / w, w, r0, var


def marginal(n, dvars):
    def h(ctx):
        P, m, L, d, cols, coef = build(ctx, n, dvars, False, True, total=n > 1)
        g = ctx.real('any_offset')
        z, w, r0, var = optimum(ctx, P, '_a', d, cols, coef)
        i = m.vector.indices['gamma_a']
        lp = L.logprob()
        ctx.check_eq(m.vector.vector[i][0], z, 'offset is the weighted-mean optimum')
        ordinary = loglike([r - g for r in r0], var)
        normal = -0.5 * (g - z) * (g - z) * w - 0.5 * F.log(2 * PI / w)
        ctx.check_eq(ordinary, lp + normal, 'marginal likelihood')
        res = L.residuals()
        for k in range(n):
            ctx.check_eq(res[k], r0[k] - z, 'residual about the optimum')
        # the result does not depend on the offset that was in the vector
        m.vector.vector[i][0] = g
        ctx.check_eq(L.logprob(), lp, 'independent of the stored offset')
        ctx.check(sand(m.vector.vector[i][1] == 0, m.vector.vector[i][3] == 1), 'flags unchanged')
        ctx.check_eq(P['jit_a'].value, m.vector.vector[m.vector.indices['jit_a']][0], 'jitter unchanged')
        # ... and follows the parameters
        if n == 1:
            P['jit_a'].value = ctx.real('second_jit')
        P['k1'].value = ctx.real('second_k1')
        m.vector.dict_to_vector()
        z, w, r0, var = optimum(ctx, P, '_a', d, cols, coef)
        normal = -0.5 * (g - z) * (g - z) * w - 0.5 * F.log(2 * PI / w)
        ctx.check_eq(loglike([r - g for r in r0], var), L.logprob() + normal, 'marginal likelihood elsewhere')
    return h


def untouched(n, dvars, vary, linear):
    def h(ctx):
        P, m, L, d, cols, coef = build(ctx, n, dvars, vary, linear)
        r, var = expected(ctx, P, '_a', d, cols, coef)
        for k in range(2):
            ctx.check_eq(L.logprob(), loglike(r, var), 'ordinary likelihood')
            ctx.check_eq(m.vector.vector[m.vector.indices['gamma_a']][0], P['gamma_a'].value, 'offset unchanged')
            ctx.check_all_eq(L.residuals(), r, 'ordinary residuals')
    return h


def mixed(na, nb):
    """one instrument marginalised, the other not"""
    def h(ctx):
        P, m, A, dA, cA, kA = build(ctx, na, (), False, True, '_a', total=True)
        P, m, B, dB, cB, kB = build(ctx, nb, (), True, ctx.decide_bool(ctx.boolean('lin')), '_b', m, P, total=True)
        g = ctx.real('any_offset')
        z, w, r0, var = optimum(ctx, P, '_a', dA, cA, kA)
        rB, vB = expected(ctx, P, '_b', dB, cB, kB)
        C = radvel.likelihood.CompositeLikelihood([A, B])
        lp = C.logprob()
        normal = -0.5 * (g - z) * (g - z) * w - 0.5 * F.log(2 * PI / w)
        ctx.check_eq(lp + normal, loglike([r - g for r in r0], var) + loglike(rB, vB), 'combined marginal likelihood')
        ctx.check_all_eq(C.residuals(), [r - z for r in r0] + rB, 'combined residuals')
        ctx.check_eq(m.vector.vector[m.vector.indices['gamma_b']][0], P['gamma_b'].value, 'free offset unchanged')
    return h


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(Case('marginal %d' % n, marginal(n, ()), '%d points' % n))
    for n, v in [(2, ('bis',))] if q else [(2, ('bis',)), (3, ('bis',)), (2, ('bis', 'b'))]:
        out.append(Case('marginal decorrelated %d %s' % (n, ' '.join(v)), marginal(n, v), '%d points' % n))
    for vary, linear in ((True, True), (True, False), (False, False)):
        out.append(Case('flags %d%d' % (vary, linear), untouched(2, (), vary, linear), '2 points'))
        out.append(Case('flags decorrelated %d%d' % (vary, linear), untouched(2, ('bis',), vary, linear), '2 points'))
    out.append(Case('mixed', mixed(2, 1), '2+1 points'))
    return out
