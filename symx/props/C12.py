"""Combined likelihoods and information criteria."""
from .common import *
from .C10 import build_model, data, expected, loglike

EXPLANATION = ('Real likelihoods of several instruments with symbolic data are combined by the real CompositeLikelihood; its log-likelihood, data, residuals, error bars and '
               'labels are compared element by element with those of the instruments (and with the documented formulas). BIC and AICc run with symbolic data and symbolic vary '
               'flags (every subset of free parameters is a path) and are compared with their definitions.')
BOUNDS = '2-3 instruments with 1-3 points each, 0-1 decorrelation variables, offsets free, fixed or marginalised; criteria: n = 1..6 data, k = 0..6 free parameters'
OUTSIDE = 'GP likelihoods (C19); likelihoods of different models combined'


def instruments(ctx, sizes, dvars=(), linear=None, symbolic_flags=()):
    P, m = build_model(ctx)
    out = []
    for i, n in enumerate(sizes):
        s = '_' + ('x' if len(sizes) == 1 else 'zxy'[i])              # not in alphabetical order
        lin = linear and linear[i]
        P['gamma' + s] = radvel.Parameter(value=ctx.real('gamma' + s), vary=not lin, linear=bool(lin))
        P['jit' + s] = radvel.Parameter(value=ctx.real('jit' + s, sample=(0.3, 2)))
        d = data(ctx, n, s)
        cols = {v: ctx.reals('col%s_%s_' % (s, v), n) for v in dvars}
        out.append((s, d, cols))
    L = []
    for s, d, cols in out:
        L.append(radvel.likelihood.RVLikelihood(m, ctx.array(d[0]), ctx.array(d[1]), ctx.array(d[2]), suffix=s, decorr_vars=list(dvars),
                                                decorr_vectors={v: ctx.array(cols[v]) for v in dvars}))
    coefs = []
    for s, d, cols in out:
        c = {}
        for v in dvars:
            c[v] = P['c1_%s%s' % (v, s)].value = ctx.real('coef%s_%s' % (s, v))
        coefs.append(c)
    m.vector.dict_to_vector()
    return P, m, L, out, coefs


def combine(sizes, dvars, linear):
    def h(ctx):
        P, m, L, spec, coefs = instruments(ctx, sizes, dvars, linear)
        C = radvel.likelihood.CompositeLikelihood(L)
        post = radvel.posterior.Posterior(C)
        post.priors.append(radvel.prior.Gaussian('k1', 1.0, 2.0))
        n = sum(sizes)
        ctx.check_all_eq(C.x, sum((d[0] for s, d, c in spec), []), 'times one instrument after another')
        ctx.check_all_eq(C.y, sum((d[1] for s, d, c in spec), []), 'data one instrument after another')
        ctx.check_all_eq(C.yerr, sum((d[2] for s, d, c in spec), []), 'errors one instrument after another')
        ctx.check(list(C.telvec) == sum(([s[1:]] * len(d[0]) for s, d, c in spec), []), 'instrument labels')
        ctx.check(list(C.suffixes) == [s[1:] for s, d, c in spec], 'suffixes')
        for turn in range(2):
            lp = [l.logprob() for l in L]
            ctx.check_eq(C.logprob(), sum(lp), 'sum of the log-likelihoods')
            res, eb = C.residuals(), C.errorbars()
            ctx.check(len(res) == n and len(eb) == n, 'one residual per point')
            ctx.check_all_eq(res, [x for l in L for x in l.residuals()], 'residuals one instrument after another')
            ctx.check_all_eq(eb, [x for l in L for x in l.errorbars()], 'error bars one instrument after another')
            ctx.check_all_eq(post.residuals(), list(res), 'residuals of the posterior')
            if not (linear and any(linear)):
                r, v, ll = [], [], 0
                for (s, d, cols), c in zip(spec, coefs):
                    a, b = expected(ctx, P, s, d, cols, c)
                    ll = ll + loglike(a, b)
                    r += a
                    v += b
                ctx.check_eq(C.logprob(), ll, 'documented log-likelihood')
                ctx.check_all_eq(res, r, 'documented residuals')
                ctx.check_all_eq(eb, [F.sqrt(x) for x in v], 'documented error bars')
            k = len(post.name_vary_params())
            ctx.check_eq(C.bic(), k * F.log(n) - 2 * C.logprob(), 'BIC')
            if n > k + 1:
                ctx.check_eq(C.aic(), 2 * k - 2 * C.logprob() + 2.0 * k * (k + 1) / (n - k - 1), 'AICc')
            else:
                ctx.check(C.aic() == np.inf, 'AICc infinite')
            # the single instruments still stand alone
            for (s, d, cols), l in zip(spec, L):
                ctx.check_all_eq(l.y, d[1], 'data of one instrument')
            if turn == 0:
                P['k1'].value = ctx.real('second_k1')
                P['jit_x'].value = ctx.real('second_jit', sample=(0.3, 2))
                m.vector.dict_to_vector()
    return h


def criteria(sizes, which, free):
    """n data, every subset of `free` free"""
    def h(ctx):
        P, m, L, spec, coefs = instruments(ctx, sizes)
        for k in P:
            P[k].vary = ctx.decide_bool(ctx.boolean('free_' + k)) if k in free else False
        m.vector.dict_to_vector()
        C = L[0] if len(L) == 1 else radvel.likelihood.CompositeLikelihood(L)
        obj = C
        if which == 'posterior':
            obj = radvel.posterior.Posterior(C)
            obj.priors.append(radvel.prior.Gaussian('k1', 1.0, 2.0))
            obj.priors.append(radvel.prior.HardBounds('jit_x', 0.0, 2.5))
        n = sum(sizes)
        k = sum(1 for x in P if P[x].vary)
        lp = C.logprob()
        ctx.check_eq(obj.bic(), k * F.log(n) - 2 * lp, 'BIC')
        a = obj.aic()
        if n > k + 1:
            ctx.check_eq(a, 2 * k - 2 * lp + 2.0 * k * (k + 1) / (n - k - 1), 'AICc')
        else:
            ctx.check(a == np.inf, 'AICc infinite')
        # other free parameters, other values
        P['k1'].vary = not P['k1'].vary
        P['k1'].value = ctx.real('second_k1')
        m.vector.dict_to_vector()
        obj.list_vary_params()
        k += 1 if P['k1'].vary else -1
        ctx.check_eq(obj.bic(), k * F.log(n) - 2 * C.logprob(), 'BIC after a flag changed')
        a = obj.aic()
        if n > k + 1:
            ctx.check_eq(a, 2 * k - 2 * C.logprob() + 2.0 * k * (k + 1) / (n - k - 1), 'AICc after a flag changed')
        else:
            ctx.check(a == np.inf, 'AICc infinite after a flag changed')
    return h


FREE = ('k1', 'jit_x', 'gamma_x', 'per1')


def cases(tier):
    q = tier == 'quick'
    out = []
    for sizes, dv, lin in [((2, 1), (), None), ((1, 2), ('bis',), None), ((2, 1, 2), (), None), ((2, 1), (), (True, False)), ((1, 2), (), (False, True)),
                           ((1, 1), (), (True, True))] + ([] if q else [((3, 2, 3), ('bis', 'b'), None), ((2, 2, 1), (), (True, False, True)), ((4, 4), (), None), ((6, 5), (), None)]):
        out.append(Case('combined %s%s%s' % (' '.join(map(str, sizes)), ' decorrelated' if dv else '',
                                             ' marginalised ' + ''.join(str(int(x)) for x in lin) if lin else ''),
                        combine(sizes, dv, lin), '%s points' % '+'.join(map(str, sizes))))
    for sizes in [(1,), (2,), (3,), (5,), (2, 1), (2, 4)] if q else [(1,), (2,), (3,), (4,), (5,), (6,), (7,), (2, 1), (2, 4), (4, 4), (1, 2, 3)]:
        for w in ('likelihood', 'posterior'):
            free = FREE + (('dvdt',) if False else ()) + (('gamma_y', 'jit_y') if len(sizes) > 1 and not q else ())
            out.append(Case('criteria %s %s' % (' '.join(map(str, sizes)), w), criteria(sizes, w, free), '%d data' % sum(sizes)))
    return out
