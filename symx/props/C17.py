"""The nested-sampling interface of the posterior."""
import itertools

from .common import *
from .C10 import build_model, data, expected, loglike
from .C13 import model, names_of

EXPLANATION = ('The real unit-cube transform, prior checks and nested-sampling likelihood run with symbolic cubes, parameter values, vary flags and constraint outcomes; prior '
               'transforms and densities are arbitrary functions. z3 decides that coordinate i is transformed by the prior of the i-th free parameter, that the likelihood is '
               'log-likelihood plus constraints with a finite floor, that transform density plus that is the log-posterior, and that a configuration is accepted exactly when every '
               'free parameter has one proper prior and no fixed one has any.')
BOUNDS = '2-4 free parameters, every subset free, all orders of up to 3 (thorough: 4) priors, 0-2 proper or constraint priors per parameter, cubes with 1-2 columns'
OUTSIDE = 'samplers themselves (C31)'

KEYS = ['k1', 'gamma_a', 'jit_a', 'tp1']


class Stand(radvel.prior.Prior):
    """arbitrary density and transform of one parameter"""

    def __init__(self, ctx, param, tag='', constraint=False, infinite=False):
        self.ctx, self.param, self.tag = ctx, param, tag
        self.extra_constraint = constraint
        self.infinite = infinite

    def density(self, x):
        return self.ctx.uf('density_%s%s' % (self.param, self.tag), x, fn=lambda x: math.sin(x) - len(self.tag))

    def __call__(self, params, vector, finite=False):
        if self.infinite:
            return -1e100 if finite else -np.inf
        return self.density(vector.vector[vector.indices[self.param]][0])

    def transform(self, u):
        if isinstance(u, np.ndarray) and u.shape:
            return np.array([self.transform(a) for a in u])
        n = sum(map(ord, self.param))
        return self.ctx.uf('transform_' + self.param, u, fn=lambda u: n + math.tan(u - 0.5))


def transform(order, free):
    def h(ctx):
        P, m, L, D = model(ctx, free)
        V = m.vector
        post = radvel.posterior.Posterior(L[0])
        names = names_of(V)
        n = len(names)
        mk = {k: Stand(ctx, k) for k in KEYS}
        post.priors = [mk[k] for k in order if k in names]
        post.priors.insert(1, Stand(ctx, names[0] if names else 'k1', 'c', constraint=True))
        post.priors.insert(0, radvel.prior.EccentricityPrior(1))
        post.priors.append(radvel.prior.PositiveKPrior(1))
        post.check_proper_priors()
        before = {k: P[k].value for k in P}
        u = ctx.array([ctx.real('u%d' % i, 0, 1) for i in range(n)])
        keep = list(u)
        x = post.prior_transform(u)
        ctx.check(len(x) == n, 'one value per coordinate')
        for i, k in enumerate(names):
            ctx.check_eq(x[i], mk[k].transform(keep[i]), 'transform of its own prior')
        ctx.check_all_eq(u, keep, 'cube unchanged')
        two = np.array([[ctx.real('c%d_%d' % (i, j), 0, 1) for j in range(2)] for i in range(n)], dtype=object if ctx.symbolic else float)
        if n:
            y = post.prior_transform(two)
            for i, k in enumerate(names):
                for j in range(2):
                    ctx.check_eq(y[i][j], mk[k].transform(two[i][j]), 'transform of a table')
        z = post.prior_transform(u, inplace=True)
        for i, k in enumerate(names):
            ctx.check_eq(u[i], mk[k].transform(keep[i]), 'in place')
            ctx.check_eq(z[i], mk[k].transform(keep[i]), 'in place, returned')
        for k in P:
            ctx.check_eq(V.vector[V.indices[k]][0], before[k], 'parameters untouched')
    return h


def likelihood(ncon, free, kind='finite'):
    """ncon stand-in constraints, each satisfied or violated"""
    def h(ctx):
        P, m, L, D = model(ctx, free)
        V = m.vector

        def logprob(self):
            if kind != 'finite':
                return float(kind)
            v = [self.vector.vector[self.vector.indices[k]][0] for k in KEYS]
            return ctx.uf('loglike', *v, fn=lambda *a: -sum((x - 1) ** 2 for x in a))
        ctx.stub(radvel.likelihood.RVLikelihood, 'logprob', logprob)
        post = radvel.posterior.Posterior(L[0])
        names = names_of(V)
        n = len(names)
        proper = [Stand(ctx, k) for k in names]
        cons = [Stand(ctx, KEYS[i % 3], 'con%d' % i, constraint=True, infinite=ctx.decide_bool(ctx.boolean('violated%d' % i))) for i in range(ncon)]
        post.priors = cons[:1] + proper + cons[1:]
        post.check_proper_priors()
        for turn in range(2):
            x = ctx.reals('x%d_' % turn, n)
            now = {k: V.vector[V.indices[k]][0] for k in KEYS}
            now.update(zip(names, x))
            got = post.likelihood_ns_array(ctx.array(x))
            bad = any(c.infinite for c in cons)
            ctx.check(not (isinstance(got, (float, np.floating)) and not np.isfinite(got)), 'finite')
            if bad or kind != 'finite':
                if ctx.symbolic:
                    # the floor lies below every realistic value
                    for z in [ctx.uf('loglike', *[now[k] for k in KEYS], fn=lambda *a: -sum((x - 1) ** 2 for x in a))] + [c.density(now[c.param]) for c in cons]:
                        ctx.assume(sand(z < 1e50, z > -1e50))
                ctx.check(got <= -1e99, 'floor')
            else:
                want = ctx.uf('loglike', *[now[k] for k in KEYS], fn=lambda *a: -sum((x - 1) ** 2 for x in a))
                con = 0
                for c in cons:
                    con = con + c.density(now[c.param])
                ctx.check_eq(got, want + con, 'log-likelihood plus constraints')
                ctx.check_eq(post.extra_likelihood_array(ctx.array(x)), con, 'constraints')
                dens = 0
                for p in proper:
                    dens = dens + p.density(now[p.param])
                ctx.check_eq(post.logprob_array(ctx.array(x)), got + dens, 'transform density plus likelihood is the log-posterior')
            for k in P:
                if k not in names:
                    ctx.check_eq(V.vector[V.indices[k]][0], P[k].value, 'fixed parameters stay')
    return h


def real_constraints(which):
    """real priors used as constraints"""
    def h(ctx):
        P, m, L, D = model(ctx, ('k1', 'gamma_a', 'e1'))
        V = m.vector
        post = radvel.posterior.Posterior(L[0])
        names = names_of(V)
        con = {'ecc': radvel.prior.EccentricityPrior(1, 0.9), 'posk': radvel.prior.PositiveKPrior(1), 'bounds': radvel.prior.HardBounds('gamma_a', -2.0, 2.5),
               'gauss': radvel.prior.Gaussian('k1', 1.0, 2.0),
               'user': radvel.prior.UserDefinedPrior(['k1', 'gamma_a'], lambda v: ctx.uf('user', v[0], v[1], fn=lambda a, b: math.cos(a * b)), '')}
        for k in ('bounds', 'gauss', 'user'):
            con[k].extra_constraint = True
        proper = [Stand(ctx, k) for k in names]
        post.priors = proper + [con[k] for k in which]
        post.check_proper_priors()
        x = ctx.reals('x', len(names))
        got = post.likelihood_ns_array(ctx.array(x))
        v = {k: V.vector[V.indices[k]][0] for k in P}
        add = 0
        bad = False
        for k in which:
            if k == 'ecc':
                bad = ctx.decide_bool(sor(v['e1'] < 0, v['e1'] > 0.9)) or bad
                add = add - math.log(0.9)
            elif k == 'posk':
                bad = ctx.decide_bool(v['k1'] < 0) or bad
            elif k == 'bounds':
                bad = ctx.decide_bool(sor(v['gamma_a'] <= -2.0, v['gamma_a'] >= 2.5)) or bad
                add = add - math.log(4.5)
            elif k == 'gauss':
                add = add - 0.5 * ((v['k1'] - 1.0) / 2.0) ** 2 - 0.5 * math.log(8 * PI)
            else:
                add = add + ctx.uf('user', v['k1'], v['gamma_a'], fn=lambda a, b: math.cos(a * b))
        ctx.check(not (isinstance(got, (float, np.floating)) and not np.isfinite(got)), 'finite')
        if bad:
            if ctx.symbolic:
                for z in [L[0].logprob(), add]:
                    ctx.assume(z < 1e50)
            ctx.check(got <= -1e99, 'floor')
        else:
            ctx.check_eq(got, L[0].logprob() + add, 'log-likelihood plus constraints')
            ctx.check_eq(post.logprob(), got + sum([p(P, V) for p in proper]), 'transform density plus likelihood is the log-posterior')
    return h


def accepted(kind):
    """every combination of 0-2 proper priors, 0-1 constraints and free flags of three parameters"""
    def h(ctx):
        free = ('k1', 'gamma_a') if kind != 'stand' else ('k1', 'gamma_a', 'jit_a')
        P, m, L, D = model(ctx, free)
        post = radvel.posterior.Posterior(L[0])
        names = names_of(m.vector)
        make = {'stand': lambda k: Stand(ctx, k), 'gauss': lambda k: radvel.prior.Gaussian(k, 0.0, 1.0),
                'user': lambda k: radvel.prior.UserDefinedPrior([k], lambda v: 0.0, '', transform_func=lambda u: u),
                'mixed': None}[kind]
        good = True
        for i, k in enumerate(free):
            if kind == 'mixed':
                ways = [lambda k: radvel.prior.HardBounds(k, 0.0, 1.0), lambda k: radvel.prior.UserDefinedPrior([k], lambda v: 0.0, '', transform_func=lambda u: u)]
                make2 = ways[ctx.choice('first_' + k, 2)], ways[1 - i % 2]
            else:
                make2 = make, make
            c = ctx.choice('proper_' + k, 3)
            for j in range(c):
                post.priors.append(make2[j](k))
            if ctx.decide_bool(ctx.boolean('constraint_' + k)):
                q = make2[0](k)
                q.extra_constraint = True
                post.priors.insert(0, q)
            good = good and c == (1 if k in names else 0)
        try:
            post.check_proper_priors()
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == good, 'accepted exactly when every free parameter has one proper prior', detail='accepted' if ok else 'refused')
        if ok:
            u = ctx.array([ctx.real('u%d' % i, 0, 1, open_lo=True, open_hi=True) for i in range(len(names))])
            if kind in ('stand', 'user'):
                x = post.prior_transform(u)
                for i, k in enumerate(names):
                    ctx.check_eq(x[i], Stand(ctx, k).transform(u[i]) if kind == 'stand' else u[i], 'transform of the accepted prior')
    return h


def joint(ctx):
    """a joint prior is neither ignored nor used for one of its parameters"""
    P, m, L, D = model(ctx, ('k1', 'gamma_a'))
    for extra in (False, True):
        post = radvel.posterior.Posterior(L[0])
        names = names_of(m.vector)
        q = radvel.prior.UserDefinedPrior(['k1', 'gamma_a'], lambda v: 0.0, '', transform_func=lambda u: u)
        q.extra_constraint = extra
        single = ctx.decide_bool(ctx.boolean('single%d' % extra))
        post.priors = [q] + ([Stand(ctx, k) for k in names] if single else [])
        try:
            post.check_proper_priors()
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == (extra and (single or not names)), 'joint prior refused unless it is a constraint', detail='accepted' if ok else 'refused')


def cases(tier):
    q = tier == 'quick'
    out = []
    if q:
        for o in itertools.permutations(KEYS[:3]):
            out.append(Case('transform ' + ' '.join(o), transform(o, KEYS[:3])))
    else:
        for o in itertools.permutations(KEYS):
            out.append(Case('transform ' + ' '.join(o), transform(o, KEYS)))
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        out.append(Case('likelihood %d constraints' % n, likelihood(n, KEYS[:3])))
    for k in ('-inf', 'nan'):
        out.append(Case('likelihood ' + k, likelihood(1, KEYS[:1], k)))
    for w in [('ecc',), ('posk',), ('bounds', 'gauss'), ('user', 'ecc'), ('ecc', 'posk', 'bounds')]:
        out.append(Case('constraints ' + ' '.join(w), real_constraints(w)))
    for k in ('stand', 'gauss', 'user', 'mixed'):
        out.append(Case('accepted ' + k, accepted(k)))
    out.append(Case('joint', joint))
    return out
