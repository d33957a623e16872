"""Saved posteriors and run state."""
import copy
import pickle
import shutil

import radvel.driver
import radvel.posterior
import radvel.prior
from .. import env
from .common import *
from .C18 import cdist

EXPLANATION = ('Posteriors and parameter sets with symbolic values and flags go through the real save/load, pickle and deepcopy routes; z3 decides that the copy has the same numbers and log-probability and '
               'follows the same later changes, and identities decide what is shared. The run state goes through histories of saves chosen by the solver.')
BOUNDS = '1-2 planets, 1-2 instruments, all values and flags, all ten parameterisations for parameter sets, one Gaussian-process case; run state: 2 saves (thorough: 3) of 1-2 entries in 3 sections'
OUTSIDE = 'reading files written by another version; celerite likelihoods; entry names or values with line breaks'


def directory(ctx):
    d = env.scratch('c30')
    ctx.at_end(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


def through(ctx, obj, route):
    if route == 'file':
        name = directory(ctx) + '/post.pkl'
        obj.writeto(name)
        return radvel.posterior.load(name)
    if route == 'pickle':
        return pickle.loads(pickle.dumps(obj))
    return copy.deepcopy(obj)


def same_parameters(ctx, a, b, label):
    ctx.check(list(a) == list(b), label + ': names and order')
    ctx.check(a.basis.name == b.basis.name, label + ': parameterisation')
    ctx.check(a.basis.num_planets == b.basis.num_planets and a.num_planets == b.num_planets, label + ': planets')
    ctx.check(a.planet_letters == b.planet_letters, label + ': planet letters')
    ctx.check(list(a.planet_parameters) == list(b.planet_parameters), label + ': planet parameters')
    for k in a:
        if k not in b:
            continue
        p, q = a[k], b[k]
        if p.value is None or q.value is None:
            ctx.check(p.value is q.value, label + ': value')
        else:
            ctx.check_eq(p.value, q.value, label + ': value')
        ctx.check(ctx.decide_bool(p.vary) == ctx.decide_bool(q.vary), label + ': flag')
        ctx.check(p.linear == q.linear, label + ': analytic flag')
        if p.mcmcscale is None or q.mcmcscale is None:
            ctx.check(p.mcmcscale is q.mcmcscale, label + ': step scale')
        else:
            ctx.check_eq(p.mcmcscale, q.mcmcscale, label + ': step scale')
        ctx.check(p is not q, label + ': independent objects')


def alone(basis, npl, route):
    def h(ctx):
        P = radvel.Parameters(npl, basis=basis, planet_letters={1: 'd', 2: 'b'})
        for k in list(P):
            P[k] = radvel.Parameter(value=ctx.real(k), vary=ctx.boolean('free_' + k) if k[-1] == '1' else False, mcmcscale=ctx.real('scale_' + k))
        P['jit_k'] = radvel.Parameter(value=ctx.real('jit_k'), vary=False)
        P['gamma_k'] = radvel.Parameter(value=ctx.real('gamma_k'), vary=False, linear=True)
        P['dvdt'] = radvel.Parameter(value=ctx.real('dvdt'))
        P['unset'] = radvel.Parameter()
        Q = through(ctx, P, route)
        same_parameters(ctx, P, Q, 'parameters')
        before = P['jit_k'].value
        Q['jit_k'].value = 17.0
        ctx.check_eq(P['jit_k'].value, before, 'the original is left alone')
        ctx.check(Q['jit_k'].value == 17.0, 'the copy changes')
        V = radvel.model.Vector(Q)
        ctx.check_eq(V.vector[V.indices['dvdt']][0], P['dvdt'].value, 'usable in a model')
    return h


def posterior(ctx, npl, insts, basis, kernel=None, free=('k1',)):
    ctx.stub(radvel.kepler, 'rv_drive', rv_drive_stub(ctx))
    P = radvel.Parameters(npl, basis=basis)
    for k in list(P):
        lim = dict(lo=0.1, hi=50, sample=(0.5, 20)) if k[:3] == 'per' else dict(lo=0.05, hi=0.6, sample=(0.1, 0.6)) if k[0] == 'e' else {}
        P[k] = radvel.Parameter(value=ctx.real(k, **lim), vary=ctx.boolean('free_' + k) if k in free else k[0] in 'pt')
    P['dvdt'] = radvel.Parameter(value=ctx.real('dvdt'), vary=False)
    P['curv'] = radvel.Parameter(value=0.0, vary=False)
    for i, s in enumerate(insts):
        P['gamma' + s] = radvel.Parameter(value=ctx.real('gamma' + s), vary=bool(i))
        P['jit' + s] = radvel.Parameter(value=ctx.real('jit' + s, sample=(0.1, 2)), vary=True)
    hn = []
    if kernel:
        for n in ('gp_length', 'gp_amp'):
            hn.append(n)
            P[n] = radvel.Parameter(value=ctx.real(n, 0.1, 10, sample=(0.5, 3)))
    m = radvel.RVModel(P, time_base=ctx.real('time_base'))
    L = []
    for s in insts:
        n = 2
        d = (ctx.array([1.5, 4.0] if kernel else ctx.reals('t' + s, n)), ctx.array(ctx.reals('y' + s, n)),
             ctx.array([ctx.real('err%s%d' % (s, i), 0.1, None, sample=(0.2, 3)) for i in range(n)]))
        if kernel:
            L.append(radvel.likelihood.GPLikelihood(m, *d, hnames=hn, suffix=s, kernel_name=kernel))
        else:
            L.append(radvel.likelihood.RVLikelihood(m, *d, suffix=s, decorr_vars=['bis'],
                                                    decorr_vectors={'bis': ctx.array(ctx.reals('bis' + s, n))}))
            P['c1_bis' + s].value = ctx.real('c1_bis' + s)
    m.vector.dict_to_vector()
    like = radvel.likelihood.CompositeLikelihood(L) if len(insts) > 1 else L[0]
    post = radvel.posterior.Posterior(like)
    post.priors += [radvel.prior.Gaussian('k1', ctx.real('mu'), 2.0), radvel.prior.Gaussian('jit' + insts[0], 1.0, ctx.real('sd', 0.1, None, sample=(0.5, 2)))]
    post.medparams = {'k1': ctx.real('median')}
    return P, m, like, L, post


def parts(post):
    like = post.likelihood
    return [like] + list(getattr(like, 'like_list', []))


def shared(ctx, q, label):
    for l in parts(q):
        ctx.check(l.vector is q.vector and l.vector.params is q.likelihood.vector.params, label + ': one vector')
        ctx.check(l.model.vector is q.vector if hasattr(l.model, 'vector') else True, label + ': the model uses the same vector')
        for k in l.params:
            ctx.check(l.params[k] is q.params[k], label + ': one set of parameters')


def value(ctx, x, kernel):
    """what the posterior evaluates to; with a Gaussian process its covariance and residuals"""
    if not kernel:
        return [x.logprob()]
    l = x.likelihood
    l.update_kernel_params()
    K = l.kernel.compute_covmatrix(l.errorbars())
    return [K[i, j] for i in range(2) for j in range(2)] + list(l._resids()) + [p(x.params, x.vector) for p in x.priors]


def saved(npl, insts, basis, route, kernel=None, edited=False):
    def h(ctx):
        if kernel:
            cdist(ctx)
        P, m, like, L, post = posterior(ctx, npl, insts, basis, kernel)
        V = post.vector
        for k in V.params:                    # one path per set of free parameters
            i = V.indices[k]
            f = ctx.decide_bool(V.vector[i][1] == True)                          # noqa: E712
            V.vector[i][1] = 1.0 if f else 0.0
            P[k].vary = f
        post.list_vary_params()
        if edited:                            # the dictionary is ahead of the vector, and the other way round
            P['dvdt'].value = ctx.real('edited_dvdt')
            V.vector[V.indices['jit' + insts[0]]][0] = ctx.real('edited_jit', sample=(0.1, 2))
        first = value(ctx, post, kernel)
        q = through(ctx, post, route)
        same_parameters(ctx, post.params, q.params, 'saved')
        ctx.check(q.params is not post.params and q.vector is not post.vector, 'a separate object')
        ctx.check(type(q) is type(post) and type(q.likelihood) is type(post.likelihood), 'the same kind of object')
        ctx.check(q.vector.indices == V.indices, 'slots')
        for k in V.params:
            for j in range(4):
                ctx.check_eq(q.vector.vector[V.indices[k]][j], V.vector[V.indices[k]][j], 'vector')
        for a, b in zip(parts(post), parts(q)):
            ctx.check_all_eq(list(a.x), list(b.x), 'times')
            ctx.check_all_eq(list(a.y), list(b.y), 'velocities')
            ctx.check_all_eq(list(a.yerr), list(b.yerr), 'errors')
            ctx.check(list(a.telvec) == list(b.telvec), 'instruments')
        ctx.check(len(parts(q)) == len(parts(post)), 'instruments')
        ctx.check(len(q.priors) == len(post.priors) and [repr(type(x)) for x in q.priors] == [repr(type(x)) for x in post.priors], 'priors')
        ctx.check_eq(q.medparams['k1'], post.medparams['k1'], 'results kept with it')
        names = list(post.name_vary_params())
        ctx.check(list(q.name_vary_params()) == names, 'free parameters')
        ctx.check_all_eq(list(q.get_vary_params()), list(post.get_vary_params()), 'numbers of the free parameters')
        ctx.check_all_eq(value(ctx, q, kernel), first, 'log-probability')
        shared(ctx, q, 'shared')
        # later changes: through the parameters
        new = ctx.real('later', sample=(1, 5))
        for x in (q, post):
            x.params['k1'].value = new
            x.vector.dict_to_vector()
        ctx.check_all_eq(value(ctx, q, kernel), value(ctx, post, kernel), 'log-probability after a change of a parameter')
        for l in parts(q):
            ctx.check_eq(l.params['k1'].value, new, 'a change is seen by all parts')
        # and through the free-parameter vector
        if names:
            x = ctx.reals('x', len(names))
            for i, n in enumerate(names):
                ctx.assume(sand(x[i] > 0.1, x[i] < 0.6))
            keep = [post.params[k].value for k in post.params]
            q.set_vary_params(x)
            ctx.check_all_eq([post.params[k].value for k in post.params], keep, 'the original is left alone')
            ctx.check_all_eq(list(q.get_vary_params()), x, 'free parameters can be set')
            second = value(ctx, q, kernel)
            post.set_vary_params(x)
            ctx.check_all_eq(second, value(ctx, post, kernel), 'log-probability after setting the free parameters')
    return h


SECTIONS = ['fit', 'mcmc', 'plot']
VALUES = ['True', '1e-5', 'out dir/a=b:c_100%.pkl', "['one', 'two']"]


def state(steps, nkeys, nvals, two=False):
    def h(ctx):
        d = directory(ctx)
        f = d + '/system_radvel.stat'
        want = {}
        n = 0
        for i in range(steps):
            s = SECTIONS[ctx.choice('section%d' % i, 3)]
            entries = {}
            for j in range(2 if two and i == 0 else 1):
                k = ['run', 'postfile', 'gp_Kernel'][ctx.choice('key%d_%d' % (i, j), nkeys)]
                v = VALUES[ctx.choice('value%d_%d' % (i, j), nvals)]
                entries[k] = (v, True, 12)[n % 3] if n else v
                n += 1
            radvel.driver.save_status(f, s, dict(entries))
            want.setdefault(s, {}).update(entries)
            got = radvel.driver.load_status(f)
            ctx.check(set(got.sections()) == set(want), 'sections')
            for s in want:
                if not got.has_section(s):
                    continue
                ctx.check(len(got.items(s)) == len(want[s]), 'entries')
                for k in want[s]:
                    ctx.check(got.has_option(s, k) and got.get(s, k) == str(want[s][k]), 'entry read back')
    return h


def missing(ctx):
    got = radvel.driver.load_status(directory(ctx) + '/none.stat')
    ctx.check(got.sections() == [], 'no state yet')


def cases(tier):
    big = tier != 'quick'
    out = []
    for b in BASES:
        for r in ('pickle', 'deepcopy'):
            out.append(Case('parameters %s %s' % (slug(b), r), alone(b, 1 if not big else 2, r), 'all values and flags'))
    syn = 'per tp e w k'
    for r in ('file', 'pickle', 'deepcopy'):
        out.append(Case('posterior one instrument ' + r, saved(1, ('_a',), syn, r), 'all values and flags'))
        out.append(Case('posterior edited ' + r, saved(1, ('_a',), syn, r, edited=True), 'all values and flags; values of the set and of the vector differ'))
        out.append(Case('posterior two instruments ' + r, saved(1, ('_a', '_b'), syn, r), 'all values and flags'))
        out.append(Case('gaussian process ' + r, saved(1, ('_a',), syn, r, kernel='SqExp'), 'two points'))
        if big or r == 'file':
            out.append(Case('posterior two planets ' + r, saved(2, ('_a', '_b'), syn, r), 'all values and flags'))
    out.append(Case('run state', state(2, 2, 3), '2 saves'))
    out.append(Case('run state two entries', state(2, 3, 2, two=True), '2 saves of 1-2 entries'))
    if big:
        out.append(Case('run state three saves', state(3, 2, 2), '3 saves'))
    out.append(Case('no run state', missing))
    return out
