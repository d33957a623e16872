"""The posterior is likelihood plus priors."""
from .common import *
from .C10 import build_model, data, expected, loglike

EXPLANATION = ('The real Posterior runs with symbolic parameter arrays, symbolic vary flags, prior objects that return arbitrary functions of the parameters they see (or '
               'minus infinity) and either an arbitrary likelihood function or the real one; z3 decides that the value is the sum, that everyone saw the new array, and that '
               'minus infinity in the priors wins whatever the likelihood says.')
BOUNDS = '0-3 (thorough: 4) priors, each finite or minus infinite, of stand-in and real kinds; 1-2 instruments; 4-6 parameters with every subset free'
OUTSIDE = 'priors returning NaN'


class AnyPrior(radvel.prior.Prior):
    """an arbitrary function of what it is shown; minus infinity if told so"""

    def __init__(self, ctx, i, key, infinite):
        self.ctx, self.i, self.key, self.infinite, self.seen = ctx, i, key, infinite, []

    def __call__(self, params, vector):
        x = vector.vector[vector.indices[self.key]][0]
        self.seen.append(x)
        if self.infinite:
            return -np.inf
        return self.value(x)

    def value(self, x):
        i = self.i
        return self.ctx.uf('prior%d' % i, x, fn=lambda x: math.sin(x + i) - i)


def model(ctx, free, inst=('_a',)):
    P, m = build_model(ctx)
    for s in inst:
        P['gamma' + s] = radvel.Parameter(value=ctx.real('gamma' + s), vary=False)
        P['jit' + s] = radvel.Parameter(value=ctx.real('jit' + s, sample=(0.2, 2)), vary=False)
    for k in P:
        P[k].vary = ctx.decide_bool(ctx.boolean('free_' + k)) if k in free else False
    L = []
    D = []
    for s in inst:
        d = data(ctx, 2, s)
        D.append(d)
        L.append(radvel.likelihood.RVLikelihood(m, ctx.array(d[0]), ctx.array(d[1]), ctx.array(d[2]), suffix=s))
    m.vector.dict_to_vector()
    return P, m, L, D


def names_of(V):
    return [k for i, k in sorted((V.indices[k], k) for k in V.params) if V.params[k].vary]


KEYS = ['k1', 'gamma_a', 'jit_a', 'tp1']


def stand_in(npriors, free):
    """arbitrary priors, arbitrary likelihood values (also infinite)"""
    def h(ctx):
        P, m, L, D = model(ctx, free)
        V = m.vector
        seen = []
        kind = ['finite', '-inf', 'inf', 'nan'][ctx.choice('likelihood', 4)]

        def logprob(self):
            v = [self.vector.vector[self.vector.indices[k]][0] for k in KEYS]
            seen.append(v)
            if kind != 'finite':
                return float(kind)
            return ctx.uf('loglike', *v, fn=lambda *a: -sum((x - 1) ** 2 for x in a))
        ctx.stub(radvel.likelihood.RVLikelihood, 'logprob', logprob)
        post = radvel.posterior.Posterior(L[0])
        priors = [AnyPrior(ctx, i, KEYS[i % len(KEYS)], ctx.decide_bool(ctx.boolean('infinite%d' % i))) for i in range(npriors)]
        post.priors = list(priors)
        ninf = any(p.infinite for p in priors)
        names = names_of(V)
        for step in range(3):
            if step:
                x = ctx.reals('x%d_' % step, len(names))
                for p in priors:
                    p.seen[:] = []
                seen[:] = []
                now = {k: V.vector[V.indices[k]][0] for k in KEYS}
                now.update(zip(names, x))
                neg = step == 2
                got = post.neglogprob_array(ctx.array(x)) if neg else post.logprob_array(ctx.array(x))
            else:
                now = {k: P[k].value for k in KEYS}
                neg = False
                got = post.logprob()
            want = 0
            for p in priors:
                ctx.check(len(p.seen) == 1, 'every prior is asked once')
                ctx.check_eq(p.seen[-1], now[p.key], 'prior sees the new value')
                if not ninf:
                    want = want + p.value(now[p.key])
            if ninf:
                ctx.check(bool(got == (np.inf if neg else -np.inf)), 'minus infinity in the priors wins')
            elif kind != 'finite':
                ctx.check(bool(np.isnan(got)) if kind == 'nan' else bool(got == (-float(kind) if neg else float(kind))), 'infinite likelihood')
            else:
                for a, k in zip(seen[-1], KEYS):
                    ctx.check_eq(a, now[k], 'likelihood sees the new values')
                want = want + ctx.uf('loglike', *[now[k] for k in KEYS], fn=lambda *a: -sum((x - 1) ** 2 for x in a))
                ctx.check_eq(got, -want if neg else want, 'sum of priors and likelihood')
            for p in priors:
                p.seen[:] = []
            for k in P:
                if k not in names:
                    ctx.check_eq(V.vector[V.indices[k]][0], P[k].value, 'fixed parameters stay')
        ctx.check(len(post.priors) == npriors and all(a is b for a, b in zip(post.priors, priors)), 'priors unchanged')
    return h


def repeated(ctx):
    """a prior that is listed twice counts twice, and equal priors are not merged"""
    P, m, L, D = model(ctx, ('k1', 'gamma_a'))
    V = m.vector
    ctx.stub(radvel.likelihood.RVLikelihood, 'logprob', lambda self: 0.0)
    post = radvel.posterior.Posterior(L[0])
    a, b = AnyPrior(ctx, 0, 'k1', False), AnyPrior(ctx, 1, 'gamma_a', False)
    g = [radvel.prior.Gaussian('k1', 1.0, 2.0) for _ in range(2)]
    post.priors = [a, g[0], b, a, g[1]]
    for turn in range(2):
        if turn:
            got = post.logprob_array(ctx.array(ctx.reals('x', len(names_of(V)))))
        else:
            got = post.logprob()
        k, z = (V.vector[V.indices[n]][0] for n in ('k1', 'gamma_a'))
        want = 2 * a.value(k) + b.value(z) + 2 * (-0.5 * ((k - 1.0) / 2.0) ** 2 - 0.5 * math.log(8 * PI))
        ctx.check_eq(got, want, 'sum over the list of priors')


def real(inst, which, free, basis='per tp e w k'):
    """real priors and real likelihoods"""
    def h(ctx):
        P, m, L, D = model(ctx, free, inst)
        V = m.vector
        like = L[0] if len(L) == 1 else radvel.likelihood.CompositeLikelihood(L)
        post = radvel.posterior.Posterior(like)
        lo, hi = -3.0, 4.0
        pri = {
            'gauss': radvel.prior.Gaussian('k1', ctx.real('mu'), ctx.real('sig', 0, None, open_lo=True, sample=(0.5, 2))),
            'bounds': radvel.prior.HardBounds('gamma_a', lo, hi),
            'jeffreys': radvel.prior.Jeffreys('jit_a', 0.1, 1.5),
            'ecc': radvel.prior.EccentricityPrior(1, 0.9),
            'posk': radvel.prior.PositiveKPrior(1),
            'user': radvel.prior.UserDefinedPrior(['k1', 'jit_a'], lambda v: ctx.uf('user', v[0], v[1], fn=lambda a, b: math.cos(a * b)), '')}
        post.priors += [pri[k] for k in which]
        names = names_of(V)
        for step in range(2):
            if step == 0:
                got = post.logprob()
            else:
                x = ctx.reals('x', len(names), )
                got = post.logprob_array(ctx.array(x))
            v = {k: V.vector[V.indices[k]][0] for k in P}
            if step:
                for i, k in enumerate(names):
                    ctx.check_eq(v[k], x[i], 'new value')
            bad = False
            want = 0
            for k in which:
                if k == 'gauss':
                    p = pri[k]
                    want = want - 0.5 * ((v['k1'] - p.mu) / p.sigma) ** 2 - 0.5 * F.log(p.sigma ** 2 * 2.0 * PI)
                elif k == 'bounds':
                    bad = ctx.decide_bool(sor(v['gamma_a'] <= lo, v['gamma_a'] >= hi)) or bad
                    want = want - math.log(hi - lo)
                elif k == 'jeffreys':
                    out = ctx.decide_bool(sor(v['jit_a'] < 0.1, v['jit_a'] > 1.5))
                    bad = bad or out
                    if not out:
                        want = want + math.log(1 / math.log(15.0)) - F.log(v['jit_a'])
                elif k == 'ecc':
                    bad = ctx.decide_bool(sor(v['e1'] < 0, v['e1'] > 0.9)) or bad
                    want = want - math.log(0.9)
                elif k == 'posk':
                    bad = ctx.decide_bool(v['k1'] < 0) or bad
                elif k == 'user':
                    want = want + ctx.uf('user', v['k1'], v['jit_a'], fn=lambda a, b: math.cos(a * b))
            if bad:
                ctx.check(bool(got == -np.inf), 'minus infinity outside the support')
                continue
            for s, d in zip(inst, D):
                Q = {k: radvel.Parameter(value=v[k]) for k in P}
                r, var = expected(ctx, Q, s, d, {}, {})
                want = want + loglike(r, var)
            ctx.check_eq(got, want, 'sum of priors and likelihood')
            ctx.check_eq(post.neglogprob(), -got, 'negation')
    return h


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        out.append(Case('any priors %d' % n, stand_in(n, ('k1', 'gamma_a') if q and n > 1 else ('k1', 'gamma_a', 'tp1')), '%d priors' % n))
    out.append(Case('repeated priors', repeated, '5 priors'))
    for inst, which, free in [(('_a',), ('gauss',), ('k1',)), (('_a',), ('bounds', 'gauss'), ('k1', 'gamma_a')), (('_a',), ('gauss', 'bounds', 'user'), ('k1', 'gamma_a', 'jit_a')),
                              (('_a',), ('jeffreys', 'posk'), ('jit_a', 'k1')), (('_a', '_b'), ('ecc', 'gauss'), ('e1', 'k1')),
                              (('_a', '_b'), ('posk', 'ecc', 'bounds'), ('gamma_a', 'e1', 'k1'))]:
        out.append(Case('real priors %s, %d instruments' % (' '.join(which), len(inst)), real(inst, which, free), '%d instruments' % len(inst)))
    return out
