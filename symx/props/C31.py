"""Nested samplers."""
import os
import shutil
import sys
import types

import pandas as pd

import radvel.nested_sampling
import radvel.posterior
import radvel.prior
from .. import env
from .common import *
from .C10 import build_model, data

NS = radvel.nested_sampling

EXPLANATION = ('radvel.nested_sampling.run is driven with a stand-in for each engine: it records what it is given, evaluates the transform and likelihood it was handed at arbitrary points, and reports '
               'arbitrary samples, evidences and errors. z3 decides that these are the posterior\'s and that the returned table is what the engine reported.')
BOUNDS = 'five engines, 1-3 free parameters in any of the flag patterns, 1-3 samples, with and without output directory, options, and repeated runs with the same options'
OUTSIDE = 'the engines themselves; hdf5 encoding of numbers (a stand-in store on the symbolic side, real files on the concrete side)'

ENGINES = ['ultranest', 'dynesty-static', 'dynesty-dynamic', 'nautilus', 'multinest']


class Record(object):
    pass


def engines(ctx, post, ndraws, log):
    """stand-in engine modules"""
    def probe(like, transform, ndim, how='plain'):
        n = log.runs
        x = [ctx.real('x%d_%d' % (n, i)) for i in range(log.n)]
        u = [ctx.real('u%d_%d' % (n, i), 0.01, 0.99) for i in range(log.n)]
        log.ndim.append(ndim)
        log.points.append((x, u))
        if how == 'multinest':
            cube = ctx.array(list(u))
            transform(cube, ndim, ndim)
            log.results.append((like(ctx.array(list(x) + [0.25])[:], ndim, ndim + 1), list(cube)))
        else:
            given = ctx.array(list(u))
            log.results.append((like(ctx.array(list(x))), list(transform(given))))
            ctx.check_all_eq(list(given), u, 'the cube is not modified')

    def table():
        n = log.runs
        log.runs += 1
        S = np.array([[ctx.real('s%d_%d_%d' % (n, i, j)) for j in range(log.n)] for i in range(ndraws)],
                     dtype=object if ctx.symbolic else float).reshape(ndraws, log.n)
        z, ze = ctx.real('lnZ%d' % n), ctx.real('lnZerr%d' % n, 0, None, open_lo=True, sample=(0.1, 2))
        log.reported.append((S, z, ze))
        return S, z, ze

    class Dynesty(object):
        def __init__(self, loglikelihood, prior_transform, ndim, **kw):
            log.init.append(kw)
            log.kind.append(type(self).__name__)
            self.f = (loglikelihood, prior_transform, ndim)

        @classmethod
        def restore(cls, fname, *a, **kw):
            log.kind.append(cls.__name__)
            log.restored.append(fname)
            self = cls.__new__(cls)
            self.f = None
            return self

        def run_nested(self, **kw):
            log.run.append(kw)
            if self.f:
                probe(*self.f)
            S, z, ze = table()
            first = ctx.real('logz_first%d' % log.runs)

            class R(dict):
                def samples_equal(self, *a, **kw):
                    return S
            self.results = R(logz=ctx.array([first, z]), logzerr=ctx.array([2 * ze, ze]), samples=None)

        def save(self, fname):
            log.saved.append(fname)
            with open(fname, 'w') as f:
                f.write('state')

    class NestedSampler(Dynesty):
        pass

    class DynamicNestedSampler(Dynesty):
        pass

    class Reactive(object):
        def __init__(self, param_names, loglike, transform=None, derived_param_names=[], wrapped_params=None, **kw):
            log.init.append(kw)
            log.kind.append('ultranest')
            log.names, log.wrapped = list(param_names), list(wrapped_params)
            self.f = (loglike, transform, len(param_names))
            self.stepsampler = None
            if kw.get('log_dir'):
                os.makedirs(kw['log_dir'], exist_ok=True)

        def run(self, **kw):
            log.run.append(kw)
            log.step = self.stepsampler
            probe(*self.f)
            S, z, ze = table()
            self.results = dict(samples=S, logz=z, logzerr=ze, weighted_samples={}, niter=3)

    def multinest_run(LogLikelihood, Prior, n_dims, n_params=None, **kw):
        log.kind.append('multinest')
        log.run.append(kw)
        log.init.append({})
        ctx.check(os.path.isdir(os.path.dirname(kw['outputfiles_basename'])), 'multinest has a directory to write in')
        probe(LogLikelihood, Prior, n_dims, 'multinest')

    class Analyzer(object):
        def __init__(self, n_params, outputfiles_basename='chains/1-', **kw):
            log.analysed.append(outputfiles_basename)
            ctx.check(n_params == log.n, 'number of parameters')
            self.t = table()

        def get_equal_weighted_posterior(self):
            return np.hstack([self.t[0], np.array([[7.0]] * ndraws)])

        def get_stats(self):
            return {'global evidence': self.t[1], 'global evidence error': self.t[2], 'nested sampling global log-evidence': self.t[1],
                    'nested sampling global log-evidence error': self.t[2]}

    class Nautilus(object):
        def __init__(self, prior, likelihood, n_dim=None, **kw):
            log.init.append(kw)
            log.kind.append('nautilus')
            self.f = (likelihood, prior, n_dim)
            if kw.get('filepath'):
                os.makedirs(os.path.dirname(kw['filepath']), exist_ok=True)

        def run(self, **kw):
            log.run.append(kw)
            probe(*self.f)
            self.S, self.log_z, self.ze = table()

        def posterior(self, return_as_dict=None, equal_weight=False, return_blobs=False):
            n = ndraws
            w = [ctx.real('weight%d_%d' % (log.runs, i)) for i in range(n)]
            S = self.S if equal_weight else self.S + 1
            return S, w, w

        @property
        def n_eff(self):
            return 1 / (self.ze * self.ze)

    mods = {'dynesty': types.SimpleNamespace(NestedSampler=NestedSampler, DynamicNestedSampler=DynamicNestedSampler),
            'ultranest': types.ModuleType('ultranest'),
            'ultranest.stepsampler': types.SimpleNamespace(SliceSampler=lambda nsteps, generate_direction, **k: ('slice', nsteps, generate_direction),
                                                           generate_mixture_random_direction='mixture'),
            'pymultinest': types.SimpleNamespace(run=multinest_run, Analyzer=Analyzer), 'nautilus': types.SimpleNamespace(Sampler=Nautilus)}
    mods['ultranest'].ReactiveNestedSampler = Reactive
    mods['ultranest'].stepsampler = mods['ultranest.stepsampler']
    old = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)

    def restore():
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    ctx.at_end(restore)


def storage(ctx):
    """hdf5 files: symbolic numbers are kept in memory"""
    if not ctx.symbolic:
        return
    store = {}

    class File(object):
        def __init__(self, name, mode='r'):
            if mode == 'w':
                open(name, 'w').close()
                store[name] = {}
            self.d = store[name]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def create_dataset(self, k, data=None):
            a = np.empty((), dtype=object)
            a[()] = data
            self.d[k] = a

        __setitem__ = create_dataset

        def __getitem__(self, k):
            return self.d[k]

        def __contains__(self, k):
            return k in self.d

        def __iter__(self):
            return iter(list(self.d))

        def items(self):
            return list(self.d.items())

        def close(self):
            pass

        def keys(self):
            return list(self.d)
    ctx.stub(NS, 'h5py', types.SimpleNamespace(File=File))
    ctx.stub(pd.DataFrame, 'to_hdf', lambda self, name, key=None, mode='a', **k: store.setdefault(name, {}).update({key: self.copy()}))
    ctx.stub(NS, 'read_hdf', lambda name, key=None, **k: store[name][key].copy())


def probit(ctx):
    """the standard normal quantile is an arbitrary function"""
    if not ctx.symbolic:
        return
    import scipy.special

    def ppf(q, loc=0, scale=1):
        if isinstance(q, np.ndarray):
            return np.array([ppf(a, loc, scale) for a in q])
        return loc + scale * ctx.uf('probit', q, fn=scipy.special.ndtri)

    class Norm(object):
        pass
    Norm.ppf = staticmethod(ppf)
    ctx.stub(radvel.prior, 'norm', Norm)


def make(ctx, nfree):
    probit(ctx)
    P, m = build_model(ctx)
    P['gamma_a'] = radvel.Parameter(value=ctx.real('gamma'))
    P['jit_a'] = radvel.Parameter(value=ctx.real('jit', sample=(0.2, 2)))
    free = {1: ['k1'], 2: ['gamma_a', 'k1'], 3: ['tp1', 'k1', 'gamma_a']}[nfree]
    for k in P:
        P[k].vary = k in free
    d = data(ctx, 2)
    L = radvel.likelihood.RVLikelihood(m, ctx.array(d[0]), ctx.array(d[1]), ctx.array(d[2]), suffix='_a')
    post = radvel.posterior.Posterior(L)
    mu = ctx.real('mu')
    post.priors = [radvel.prior.Gaussian(k, mu if k == 'k1' else 0.5, 2.0) for k in free]
    V = post.vector
    return post, sorted(free, key=lambda k: V.indices[k])


def fresh(n):
    log = Record()
    log.n, log.runs = n, 0
    for k in ('ndim', 'points', 'results', 'reported', 'init', 'kind', 'restored', 'run', 'saved', 'analysed'):
        setattr(log, k, [])
    log.step = None
    return log


def where(ctx, exists):
    d = env.scratch('c31')
    ctx.at_end(lambda: shutil.rmtree(d, ignore_errors=True))
    old = os.getcwd()
    os.chdir(d)
    ctx.at_end(lambda: os.chdir(old))
    if exists:
        os.makedirs(d + '/out/here', exist_ok=True)
    return d + '/out/here'


def evaluated(ctx, post, log, i):
    """the problem the engine was given is the posterior's"""
    x, u = log.points[i]
    l, t = log.results[i]
    ctx.check(log.ndim[i] == log.n, 'dimension')
    ctx.check(t is not None and len(t) == log.n, 'one number per dimension')
    ctx.check_all_eq(list(t), list(post.prior_transform(ctx.array(list(u)))), 'transform of the posterior')
    ctx.check_eq(l, post.likelihood_ns_array(ctx.array(list(x))), 'likelihood of the posterior')


def returned(ctx, post, names, out, reported):
    S, z, ze = reported
    df = out['samples']
    ctx.check(list(df.columns) == names + ['lnprobability'], 'one named column per free parameter')
    ctx.check(len(df) == len(S), 'one row per sample')
    ctx.check_eq(out['lnZ'], z, 'evidence')
    ctx.check_eq(out['lnZerr'], ze, 'evidence error')
    for i in range(min(len(S), len(df))):
        for j, k in enumerate(names):
            ctx.check_eq(df[k].values[i], S[i][j], 'samples of the engine')
        ctx.check_eq(df['lnprobability'].values[i], post.logprob_array(S[i]), 'log-posterior of a sample')


def result(engine, nfree, ndraws, disk=None, again=True):
    """disk: None, 'new' or 'exists'"""
    def h(ctx):
        storage(ctx)
        post, names = make(ctx, nfree)
        log = fresh(nfree)
        engines(ctx, post, ndraws, log)
        d = where(ctx, disk == 'exists')
        if disk == 'exists' and engine == 'multinest':
            os.rmdir(d)                        # multinest refuses a directory that exists unless told to overwrite
        sk = None if engine == 'multinest' else {'nlive': 40}
        rk = {'maxiter': 17}
        out = NS.run(post, output_dir=d if disk else None, sampler=engine.upper() if nfree == 1 else engine, sampler_kwargs=sk, run_kwargs=rk)
        ctx.check(sk in (None, {'nlive': 40}) and rk == {'maxiter': 17}, 'the options of the user are left alone')
        ctx.check(log.kind == [{'dynesty-static': 'NestedSampler', 'dynesty-dynamic': 'DynamicNestedSampler'}.get(engine, engine)], 'the chosen engine runs')
        evaluated(ctx, post, log, 0)
        returned(ctx, post, names, out, log.reported[0])
        if engine != 'multinest':
            ctx.check(log.init[0].get('nlive') == 40, 'engine options')
            ctx.check(out['sampler'] is not None, 'the engine is returned')
        ctx.check(log.run[0].get('maxiter') == 17, 'run options')
        if engine == 'ultranest':
            ctx.check(log.names == names, 'parameter names')
            ctx.check(log.wrapped == [k[:2] in ('tc', 'tp') for k in names], 'times are cyclic parameters')
            ctx.check(log.step is None, 'no step sampler for few parameters')
        if disk:
            back = NS.load_results(d + '/results.hdf5')
            ctx.check_eq(back['lnZ'], out['lnZ'], 'stored evidence')
            ctx.check_eq(back['lnZerr'], out['lnZerr'], 'stored evidence error')
            ctx.check(list(back['samples'].columns) == list(out['samples'].columns) and len(back['samples']) == ndraws, 'stored samples')
            for k in out['samples']:
                ctx.check_all_eq(list(back['samples'][k]), list(out['samples'][k]), 'stored samples')
            try:
                NS.run(post, output_dir=d, sampler=engine, sampler_kwargs=sk, run_kwargs=rk)
            except FileExistsError:
                ctx.check(log.runs == 1, 'stored results are not overwritten')
            else:
                ctx.check(False, 'stored results are not overwritten')
        if again:
            # the same options serve for another run
            more = NS.run(post, output_dir=d if disk else None, overwrite=True, sampler=engine, sampler_kwargs=sk, run_kwargs=rk)
            returned(ctx, post, names, more, log.reported[1])
            ctx.check({k: v for k, v in log.run[1].items() if k == 'maxiter'} == {'maxiter': 17}, 'run options again')
            ctx.check(sk in (None, {'nlive': 40}) and rk == {'maxiter': 17}, 'the options of the user are left alone')
            if disk:
                back = NS.load_results(d + '/results.hdf5')
                ctx.check_eq(back['lnZ'], more['lnZ'], 'stored evidence replaced')
        if not disk:
            ctx.check(sorted(os.listdir('.')) == [], 'nothing is stored unless asked for')
    return h


def proceeds(engine):
    """continuing an earlier run"""
    def h(ctx):
        storage(ctx)
        post, names = make(ctx, 1)
        log = fresh(1)
        engines(ctx, post, 2, log)
        d = where(ctx, False)
        NS.run(post, output_dir=d, sampler=engine, proceed=True)
        NS.run(post, output_dir=d, sampler=engine, proceed=True)
        out = NS.run(post, output_dir=d, sampler=engine, proceed=False, overwrite=True)
        returned(ctx, post, names, out, log.reported[2])
        ctx.check(len(log.run) == 3, 'three runs')
        if 'dynesty' in engine:
            ctx.check(len(log.restored) == 1 and len(log.saved) == 3 and set(log.restored) == set(log.saved), 'continued from the stored state')
            ctx.check([k['resume'] for k in log.run] == [False, True, False], 'resumes when there is something to resume')
        elif engine == 'ultranest':
            ctx.check([k['resume'] for k in log.init] == [True, True, 'overwrite'] and [k['log_dir'] for k in log.init] == [d] * 3, 'resumes when asked')
        elif engine == 'nautilus':
            ctx.check([k['resume'] for k in log.init] == [True, True, False], 'resumes when asked')
            ctx.check(len(set(k['filepath'] for k in log.init)) == 1 and log.init[0]['filepath'].startswith(d), 'state stored in the directory')
        else:
            ctx.check([k['resume'] for k in log.run] == [True, True, False], 'resumes when asked')
            ctx.check(len(set(log.analysed)) == 1 and log.analysed[0].startswith(d), 'state stored in the directory')
    return h


RESERVED = [('dynesty-static', 'run', 'resume'), ('dynesty-dynamic', 'run', 'checkpoint_file'), ('ultranest', 'init', 'log_dir'), ('ultranest', 'init', 'resume'),
            ('multinest', 'run', 'resume'), ('multinest', 'run', 'outputfiles_basename'), ('multinest', 'init', 'nlive'), ('nautilus', 'init', 'filepath'), ('nautilus', 'init', 'resume')]


def refused(ctx):
    post, names = make(ctx, 1)
    log = fresh(1)
    engines(ctx, post, 1, log)
    where(ctx, False)
    for engine, kind, key in RESERVED:
        try:
            NS.run(post, sampler=engine, **{'run_kwargs' if kind == 'run' else 'sampler_kwargs': {key: 'x'}})
        except (ValueError, TypeError):
            ctx.check(log.runs == 0, 'options radvel sets itself are refused')
        else:
            ctx.check(False, 'options radvel sets itself are refused: ' + key)
    try:
        NS.run(post, sampler='emcee')
    except ValueError:
        ctx.check(log.runs == 0, 'unknown engines are refused')
    else:
        ctx.check(False, 'unknown engines are refused')
    post.priors = []
    for engine in ENGINES:
        try:
            NS.run(post, sampler=engine)
        except Exception:
            ctx.check(log.runs == 0, 'parameters without proper priors are refused')
        else:
            ctx.check(False, 'parameters without proper priors are refused')


def many(ctx):
    """the step sampler of ultranest"""
    probit(ctx)
    P = radvel.Parameters(2, basis='per tp e w k')
    for k in P:
        P[k] = radvel.Parameter(value=1.0)
    from .C10 import signal
    m = radvel.GeneralRVModel(P, signal(ctx), time_base=0)
    L = radvel.likelihood.RVLikelihood(m, np.array([0.0, 1.0]), np.array([0.0, 1.0]), np.ones(2), suffix='_a')
    for k in ('gamma_a', 'jit_a'):
        P[k].vary = False
    for nfree in (7, 8):
        for i, k in enumerate(list(P)[:10]):
            P[k].vary = i < nfree
        m.vector.dict_to_vector()
        post = radvel.posterior.Posterior(L)
        post.list_vary_params()
        post.priors = [radvel.prior.Gaussian(k, 0.5, 2.0) for k in post.name_vary_params()]
        log = fresh(nfree)
        engines(ctx, post, 1, log)
        out = NS.run(post, sampler='ultranest')
        evaluated(ctx, post, log, 0)
        ctx.check(log.step == (None if nfree == 7 else ('slice', 16, 'mixture')), 'step sampler for more than seven parameters')
        ctx.check(log.wrapped == [k[:2] in ('tc', 'tp') for k in log.names], 'times are cyclic parameters')
        returned(ctx, post, list(post.name_vary_params()), out, log.reported[0])


def cases(tier):
    big = tier != 'quick'
    out = []
    for e in ENGINES:
        for nfree, nd in ((1, 2), (3, 2)) if not big else ((1, 1), (1, 3), (2, 2), (3, 2), (3, 3)):
            out.append(Case('%s %d parameters %d samples' % (e, nfree, nd), result(e, nfree, nd), 'nothing stored'))
        out.append(Case('%s new directory' % e, result(e, 2, 2, 'new'), 'results stored'))
        if e != 'multinest':
            out.append(Case('%s existing directory' % e, result(e, 2, 1, 'exists'), 'results stored'))
        out.append(Case('%s proceed' % e, proceeds(e), 'continuing a run'))
    out.append(Case('refused', refused))
    out.append(Case('many parameters', many, '7 and 8 free parameters'))
    return out
