"""Model comparison."""
import itertools

import radvel.fitting
import radvel.likelihood
import radvel.posterior
import radvel.prior

from .common import *
from .C18 import cdist

EXPLANATION = ('model_comp runs with the fitter replaced by one that returns arbitrary (symbolic) optima and statistics, for every choice of free and fixed parameters; the fits requested are '
               'compared with the list of combinations derived from the definition of the components, entries with the statistics of their fit, and the posterior afterwards with itself before.')
BOUNDS = '1-3 planets, one or two instruments, every list of one or two components and the full one, all choices of vary flags of the parameters concerned, one or two comparisons'
OUTSIDE = 'the fits themselves (C23); user-defined parameters whose names begin like orbital ones'
COMPONENTS = ['nplanets', 'e', 'trend', 'jit', 'gp']


def build(ctx, npl, basis, instruments, gp, comps):
    cdist(ctx)
    P = radvel.Parameters(npl, basis=basis)
    val = {'per': 10.0, 'logper': 1.0, 'tc': 1.0, 'tp': 2.0, 'k': 5.0, 'logk': 1.5, 'e': 0.1, 'w': 0.3, 'secosw': 0.1, 'sesinw': 0.2, 'ecosw': 0.1, 'esinw': 0.05, 'se': 0.3}
    ecc = P.basis.get_eparams()
    free = lambda name, c: ctx.decide_bool(ctx.boolean('free_' + name)) if c in comps else True
    for i in range(1, npl + 1):
        fk, fe = free('k%d' % i, 'nplanets'), free('e%d' % i, 'e')
        for n in basis.split():
            vary = fe if n in ecc else (fk if n in ('k', 'logk') else False)
            P['%s%d' % (n, i)] = radvel.Parameter(value=val[n] + 0.01 * i, vary=vary)
    P['dvdt'] = radvel.Parameter(value=0.3, vary=free('dvdt', 'trend'))
    P['curv'] = radvel.Parameter(value=0.02, vary=free('curv', 'trend'))
    S = ['_j', '_h'][:instruments]
    for s in S:
        P['gamma' + s] = radvel.Parameter(value=1.0, vary=True)
        P['jit' + s] = radvel.Parameter(value=2.0, vary=free('jit' + s, 'jit'))
    if gp:
        for k in ('gp_length', 'gp_amp'):
            P[k] = radvel.Parameter(value=3.0, vary=free(k, 'gp'))
    m = radvel.RVModel(P, time_base=0)
    likes = []
    for i, s in enumerate(S):
        t = np.arange(30.) + i
        kw = dict(hnames=['gp_length', 'gp_amp'], kernel_name='SqExp') if gp else {}
        likes.append((radvel.likelihood.GPLikelihood if gp else radvel.likelihood.RVLikelihood)(m, t, np.sin(t), t * 0 + 1, suffix=s, **kw))
    like = likes[0] if instruments == 1 else radvel.likelihood.CompositeLikelihood(likes)
    post = radvel.posterior.Posterior(like)
    post.priors = [radvel.prior.Gaussian(P.basis.get_circparams()[2] + '1', 1.0, 2.0)]
    return P, post, S


class Fits(object):
    def __init__(self, ctx):
        self.ctx, self.log = ctx, []

    def __call__(self, post, verbose=False, method='Powell'):
        ctx, i = self.ctx, len(self.log)
        vec = post.vector
        rec = {'value': {n: vec.vector[j][0] for j, n in enumerate(vec.names)}}
        rec['flags'] = sorted(n for j, n in enumerate(vec.names) if vec.vector[j][1])
        rec['names'] = sorted(post.name_vary_params())
        rec['likenames'] = sorted(post.likelihood.name_vary_params())
        post.set_vary_params(np.array([ctx.real('fit%d_%s' % (i, n)) for n in post.name_vary_params()], dtype=object if ctx.symbolic else float))
        vec.vector_to_dict()
        st = {k: ctx.real('%s%d' % (k, i), sample=(-50, 50)) for k in ('lnp', 'bic', 'aic', 'r0', 'r1')}
        n = len(post.likelihood.y)
        res = np.array([st['r0'], st['r1']] + [1.0] * (n - 2), dtype=object if ctx.symbolic else float)
        post.likelihood.residuals = lambda: res.copy()
        post.likelihood.errorbars = lambda: np.ones(n)
        post.likelihood.bic = lambda: st['bic']
        post.likelihood.aic = lambda: st['aic']
        post.bic, post.aic = post.likelihood.bic, post.likelihood.aic
        post.logprob = lambda: st['lnp']
        rec.update(stats=st, n=n, res=res, post=post)
        self.log.append(rec)
        return post


def combinations(P, S, comps, npl, gp):
    """the free parameters and excluded values of every combination"""
    basis = P.basis
    ecc, circ = basis.get_eparams(), basis.get_circparams()
    free0 = frozenset(k for k in P if P[k].vary)
    out = [(free0, {})]

    def extend(options):
        new = []
        for f, v in out:
            new += options(f, v)
        return new

    if 'gp' in comps and gp:
        h = ['gp_length', 'gp_amp']
        out = extend(lambda f, v: [(f, v)] + ([(f - set(h), dict(v, gp_amp=0.0))] if any(x in f for x in h) else []))
    if 'jit' in comps:
        j = ['jit' + s for s in S]
        out = extend(lambda f, v: [(f, v)] + ([(f - set(j), dict(v, **{x: 1e-6 for x in j if x in f}))] if any(x in f for x in j) else []))
    if 'trend' in comps:
        def trend(f, v):
            new = [(f, v)]
            for x in ('curv', 'dvdt'):          # the quadratic term goes first
                if x in f:
                    f, v = f - {x}, dict(v, **{x: 0.0})
                    new.append((f, v))
            return new
        out = extend(trend)

    def planets(names, excluded):
        def opt(f, v):
            new = []
            able = [i for i in range(1, npl + 1) if any('%s%d' % (n, i) in f for n in names)]
            for r in range(len(able) + 1):
                for g in itertools.combinations(able, r):
                    gone = {'%s%d' % (n, i) for n in names for i in g}
                    new.append((f - gone, dict(v, **{'%s%d' % (k, i): x for i in g for k, x in excluded.items()})))
            return new
        return opt
    if 'nplanets' in comps:
        k = circ[2]
        out = extend(planets(ecc + circ, {k: 0.0 if k == 'k' else -math.inf}))
    if 'e' in comps:
        out = extend(planets(ecc, {n: 0.0 for n in ecc}))
    return out


def labels(free, P, npl, gp):
    ecc, circ = P.basis.get_eparams(), P.basis.get_circparams()
    letters = P.planet_letters or {i: 'abcdefgh'[i] for i in range(1, npl + 1)}
    out = []
    for i in range(1, npl + 1):
        if '%s%d' % (circ[2], i) in free:
            out.append('$K_{%s}$' % letters[i])
        if '%s%d' % (ecc[0], i) in free:
            out.append('$e_{%s}$' % letters[i])
    if 'dvdt' in free:
        out.append(r'$\dot{\gamma}$')
    if 'curv' in free:
        out.append(r'$\ddot{\gamma}$')
    if any(k.startswith('jit') for k in free):
        out.append(r'{$\sigma$}')
    if 'gp_amp' in free:
        out.append(r'GP$_{\rm }$')
    return sorted(out)


def state(post):
    return ([list(r) for r in post.vector.vector], [(k, post.params[k].value, bool(post.params[k].vary)) for k in post.params], list(post.vary_params),
            list(post.likelihood.vary_params), list(post.name_vary_params()))


def silent(k, excluded):
    return k[-1].isdigit() and any(x[:-1] in ('k', 'logk') and x[-1] == k[-1] for x in excluded)


def match_count(want, f):
    return sum(g == f for g, v in want)


def compare(ctx, comps, npl=1, basis='per tc secosw sesinw k', instruments=1, gp=False, calls=1, given=False):
    def h(ctx):
        P, post, S = build(ctx, npl, basis, instruments, gp, comps)
        fits = Fits(ctx)
        ctx.stub(radvel.fitting, 'maxlike_fitting', fits)
        before = state(post)
        all_entries = []
        for call in range(calls):
            fits.log = []
            start = len(fits.log)
            kw = dict(mc_list=all_entries) if given else {}
            entries = radvel.fitting.model_comp(post, params=list(comps), **kw)
            want = combinations(P, S, comps, npl, gp)
            log = fits.log
            if given:
                ctx.check(entries is all_entries or len(entries) == len(all_entries), 'entries added to the list given')
                new = entries[-len(log):]
                ctx.check(len(entries) == (call + 1) * len(want), 'entries added to the list given')
                all_entries = entries
            else:
                new = entries
            ctx.check(len(log) == len(want), 'one fit per combination')
            ctx.check(len(new) == len(want), 'one entry per combination')
            got = sorted(r['names'] for r in log)
            ctx.check(got == sorted(sorted(f) for f, v in want), 'free parameters are those of the combinations')
            for r in log:
                ctx.check(r['names'] == r['flags'] == r['likenames'], 'flags, posterior and likelihood agree on what is free')
                match = [v for f, v in want if sorted(f) == r['names']]
                # parameters of a planet without amplitude do not matter
                if match:
                    ctx.check(any(all(r['value'][k] == x.get(k, P[k].value) for k in P if k not in r['names'] and (k in x or not silent(k, x)))
                                  for x in match), 'values of fixed parameters')
            if all(match_count(want, f) == 1 for f, v in want):
                ctx.check(len(set(map(tuple, got))) == len(got), 'no combination twice')
            for e, r in zip(new, log):
                st = r['stats']
                ctx.check(e[r'$N_{\rm free}$'][0] == len(r['names']), 'number of free parameters')
                ctx.check(e[r'$N_{\rm data}$'][0] == r['n'], 'number of data')
                ctx.check(sorted(e['Free Params'][0]) == labels(r['names'], P, npl, gp), 'labels')
                for k, x in ((r'$\ln{\mathcal{L}}$', st['lnp']), ('BIC', st['bic']), ('AICc', st['aic']), ('RMS', F.std(r['res']))):
                    ctx.check(F.abs(e[k][0] - x) <= 0.005 + 1e-9, 'statistic ' + k)
            after = state(post)
            ctx.check(after == before, 'posterior left as it was')
    return h


def refused(ctx):
    P, post, S = build(ctx, 1, 'per tc secosw sesinw k', 1, False, [])
    ctx.stub(radvel.fitting, 'maxlike_fitting', Fits(ctx))
    for bad in (['nonsense'], ['e', 'nonsense'], 'e1'):
        try:
            radvel.fitting.model_comp(post, params=bad)
            ctx.check(False, 'unknown component refused')
        except AssertionError:
            ctx.check(True, 'unknown component refused')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, comps, **kw):
        out.append(Case(name, compare(None, comps, **kw)))
    add('no components', [], npl=1)
    add('no components, twice', [], npl=1, calls=2)
    for c in COMPONENTS:
        add('%s, 1 planet' % c, [c], npl=1, gp=c == 'gp', instruments=2 if c == 'jit' else 1)
        add('%s, twice' % c, [c], npl=1, gp=c == 'gp', calls=2)
    for c in ('nplanets', 'e', 'gp'):
        add('%s, 2 planets' % c, [c], npl=2, gp=c == 'gp', instruments=2)
    for i, (a, b) in enumerate(itertools.permutations(COMPONENTS, 2)):
        if not q or i % 2 == 0:
            add('%s and %s' % (a, b), [a, b], npl=1, gp='gp' in (a, b))
    add('planets and eccentricities of 2', ['nplanets', 'e'], npl=2)
    add('three components', ['nplanets', 'e', 'jit'], npl=1)
    add('list given', ['e'], npl=1, calls=2, given=True)
    add('gp without GP', ['gp'], npl=1, gp=False)
    for b in FIT_BASES:
        if not q or b in ('per tc secosw sesinw logk', 'per tp e w k', 'per tc se w k'):
            add('planets and eccentricities, %s' % b, ['nplanets', 'e'], npl=1, basis=b)
    if not q:
        add('everything', COMPONENTS, npl=1, gp=True)
    add('e of 3', ['e'], npl=3)
    add('planets of 3', ['nplanets'], npl=3)
    out.append(Case('unknown components', refused))
    return out
