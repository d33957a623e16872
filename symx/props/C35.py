"""The steps of the pipeline."""
import inspect
import os
import shutil
import types

import pandas as pd

import radvel.driver
import radvel.fitting
import radvel.nested_sampling
import radvel.posterior
import radvel.report
import radvel.utils
from radvel.mcmc import statevars
from radvel.plot import mcmc_plots, orbit_plots
from .. import env
from .common import *

D, U = radvel.driver, radvel.utils
REAL = {'mcmc': inspect.signature(radvel.mcmc), 'ns': inspect.signature(radvel.nested_sampling.run), 'comp': inspect.signature(radvel.fitting.model_comp),
        'report': inspect.signature(radvel.report.RadvelReport.__init__)}

EXPLANATION = ('The real driver steps run in a scratch directory with recording stand-ins for the fit, the samplers, the report writer and the plots; which steps were run before, their outcome, the '
               'chosen sampler, comparison types and flags are free choices and numeric options are symbolic, so that the solver covers every combination. Results are recognised by their values.')
BOUNDS = ('every combination of missing / unfinished / finished MCMC and nested-sampling runs with every sampler choice for each later step; every subset of one or two comparison types; all numeric option values; '
          'option strings of 1-3 entries of five kinds')
OUTSIDE = 'drawing and typesetting; the parsing of the command line (C37); option strings with repeated blanks or several equals signs'

PER, TC, E, W = 10.0, 2.0, 0.1, 0.5
MARK = {'setup': 3.0, 'fit': 5.0, 'mcmc': 7.0, 'ns': 9.0}


def make_post(k, jitters=('a', 'b')):
    P = radvel.Parameters(1, basis='per tc e w k')
    for n, v in zip('per tc e w k'.split(), (PER, TC, E, W, k)):
        P[n + '1'] = radvel.Parameter(value=v, vary=n == 'k')
    P['dvdt'] = radvel.Parameter(value=0.0, vary=False)
    P['curv'] = radvel.Parameter(value=0.0, vary=False)
    for s in jitters:
        P['gamma_' + s] = radvel.Parameter(value=0.0, vary=True)
        P['jit_' + s] = radvel.Parameter(value=1.0, vary=True)
    m = radvel.RVModel(P)
    L = [radvel.likelihood.RVLikelihood(m, np.array([1.0, 4.0, 6.0, 9.0]) + j, np.array([2.0, -1.0, 3.0, 0.5]), np.array([1.0, 1.0, 2.0, 1.0]), suffix='_' + s) for j, s in enumerate(jitters)]
    post = radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood(L))
    post.uparams, post.medparams, post.maxparams = {'k1': 0.25}, {'k1': k}, {'k1': k}
    return post


def k_of(post):
    return float(post.vector.vector[post.vector.indices['k1']][0])


NEAR = {}


def neighbour():
    """the files of a finished analysis of another setup, by name"""
    if not NEAR:
        d = env.scratch('near')
        for s in ('', '_ns'):
            make_post(99.0).writeto('%s/star_post_obj%s.pkl' % (d, s))
            pd.DataFrame({'k1': [99.0] * 3, 'lnprobability': [-1.0] * 3}).to_csv('%s/star_chains%s.csv.bz2' % (d, s))
            pd.DataFrame({'k1': [99.0] * 3}, index=[0.159, 0.5, 0.841]).to_csv('%s/star_post_summary%s.csv' % (d, s))
        pd.DataFrame({'mpsini1': [99.0] * 3}).to_csv(d + '/star_derived.csv.bz2')
        pd.DataFrame({x: [99.0] * 3 for x in ('autosamples', 'automin', 'automean', 'automax', 'factor')}).to_csv(d + '/star_autocorr.csv')
        for f in ('params', 'rv', 'priors', 'crit', 'derived', 'ic_compare'):
            open('%s/star_%s.tex' % (d, f), 'w').write('theirs')
        for f in os.listdir(d):
            NEAR[f] = open(d + '/' + f, 'rb').read()
        shutil.rmtree(d, ignore_errors=True)
    return NEAR


class World(object):
    def __init__(self, ctx, name='star', near=False):
        self.ctx, self.base = ctx, name
        self.d = env.scratch('c35')
        ctx.at_end(lambda: shutil.rmtree(self.d, ignore_errors=True))
        self.setup_calls, self.fits = [], []
        self.conf = types.SimpleNamespace(starname='s', nplanets=1, fitting_basis='per tc e w k', bjd0=2455000.0, params=None)

        def init(f, decorr=False):
            self.setup_calls.append((f, decorr))
            return self.conf, make_post(MARK['setup'])
        ctx.stub(U, 'initialize_posterior', init)

        def fit(post, *a, **k):
            self.fits.append(k_of(post))
            i = post.vector.indices['k1']
            post.vector.vector[i][0] = MARK['fit'] if self.fits[-1] == MARK['setup'] else self.fits[-1]
            post.vector.vector_to_dict()
            return post
        ctx.stub(radvel.fitting, 'maxlike_fitting', fit)
        ctx.stub(radvel.kepler, 'rv_drive', lambda t, orbel, use_c_kepler_solver=None: np.array([float(orbel[4]) * math.sin(float(x)) for x in t]))
        statevars.reset()
        ctx.at_end(statevars.reset)
        self.near = near
        World.last = self
        if near:
            # another setup whose name this one's begins with was analysed in the same directory
            self.base, self.conf.starname = 'star_2', 'star'
            for f, text in neighbour().items():
                with open(self.d + '/' + f, 'wb') as g:
                    g.write(text)
            at = lambda f: os.path.join(self.d, f)
            with open(at('star_radvel.stat'), 'w') as g:
                g.write('[fit]\nrun = True\npostfile = %s\n' % at('star_post_obj.pkl'))
                for sec, x in (('mcmc', ''), ('ns', '_ns')):
                    g.write('[%s]\nrun = True\npostfile = %s\nchainfile = %s\nsummaryfile = %s\n' % (sec, at('star_post_obj%s.pkl' % x), at('star_chains%s.csv.bz2' % x), at('star_post_summary%s.csv' % x)))
                    if not x:
                        g.write('autocorrfile = %s\nminafactor = 99\nmaxarchange = 99\nmaxgr = 99\nmintz = 99\nnwalkers = 99\nnensembles = 99\n' % at('star_autocorr.csv'))
                g.write("[derive]\nrun = True\nchainfile = %s\n[ic_compare]\nic = [{'AICc': (99.0, 'd')}]\n" % at('star_derived.csv.bz2'))
            self.theirs = self.others()

    def others(self):
        return {f: open(self.d + '/' + f, 'rb').read() for f in sorted(os.listdir(self.d)) if f in NEAR or f == 'star_radvel.stat'}

    def undisturbed(self):
        if self.near:
            self.ctx.check(self.others() == self.theirs, 'the other setup is left alone')

    def args(self, **k):
        d = dict(setupfn='some/where/%s.py' % self.base, outputdir=self.d, decorr=False, sampler='auto')
        d.update(k)
        return types.SimpleNamespace(**d)

    @property
    def statfile(self):
        return '%s/%s_radvel.stat' % (self.d, self.base)

    def status(self):
        return D.load_status(self.statfile)

    def ran(self, step, done=True, **more):
        """pretend a step was run before"""
        if step in ('fit', 'mcmc', 'ns'):
            f = '%s/saved_%s.pkl' % (self.d, step)
            make_post(MARK[step]).writeto(f)
            more = dict(postfile=f, **more)
        if step in ('mcmc', 'ns'):
            f = '%s/chain_%s.csv' % (self.d, step)
            pd.DataFrame({'k1': [MARK[step]] * 3, 'lnprobability': [-1.0, -2.0, -3.0]}).to_csv(f)
            more['chainfile'] = f
        if step == 'mcmc':
            f = self.d + '/auto.csv'
            pd.DataFrame({'autosamples': [MARK['mcmc']]}).to_csv(f)
            more.update(autocorrfile=f, minafactor='41.5', maxarchange='0.0215', maxgr='1.0045', mintz='2143.25', nwalkers='12', nensembles='3')
        D.save_status(self.statfile, step, dict(run=done, **more))

    def past(self, *steps):
        """missing, unfinished or finished: any of them"""
        out = {}
        for s in steps:
            out[s] = ('missing', 'unfinished', 'finished')[self.ctx.choice('past_' + s, 3)]
            if out[s] != 'missing':
                self.ran(s, out[s] == 'finished')
        return out

    def path(self, name):
        return os.path.realpath(os.path.join(self.d, name))

    def attempt(self, f, *a):
        """True, or False when the step refuses"""
        try:
            f(*a)
        except (AssertionError, ValueError, KeyError, D.configparser.Error):
            return False
        return True


def chosen(past, want):
    """which sampler's results are to be used; None: refuse"""
    have = [s for s in ('mcmc', 'ns') if past[s] == 'finished']
    if want == 'auto':
        return have[0] if have else None
    return want if want in have else None


def stand_ins(ctx):
    """report writer and tables"""
    log = types.SimpleNamespace(reports=[], compiled=[])

    class Report(object):
        def __init__(self, *a, **k):
            b = REAL['report'].bind(self, *a, **k)
            b.apply_defaults()
            self.given = dict(b.arguments)
            self.given['chains'] = self.given['chains'].copy()
            log.reports.append(self)

        def compile(self, pdfname, **k):
            log.compiled.append((self, pdfname, os.path.realpath(os.getcwd()), k))

    class Table(object):
        def __init__(self, report):
            self.report = report

        def __getattr__(self, name):
            if not name.startswith('tab_'):
                raise AttributeError(name)
            return lambda **k: '%s %s %s' % (name, sorted(k.items()), None if self.report.given['compstats'] is None else len(self.report.given['compstats']))
    ctx.stub(radvel.report, 'RadvelReport', Report)
    ctx.stub(radvel.report, 'TexTable', Table)
    if hasattr(radvel, 'RadvelReport'):
        ctx.stub(radvel, 'RadvelReport', Report)
        ctx.stub(radvel, 'TexTable', Table)
    return log


def right_results(ctx, rep, s, derived):
    g = rep.given
    ctx.check(k_of(g['post']) == MARK[s], 'the posterior of the chosen sampler')
    ctx.check([float(x) for x in g['chains']['k1']] == [MARK[s]] * 3, 'the chain of the chosen sampler')
    crit = [g[k] for k in ('minafactor', 'maxarchange', 'maxgr', 'mintz')]
    ctx.check([None if x is None else float(x) for x in crit] == ([41.5, 0.0215, 1.0045, 2143.25] if s == 'mcmc' else [None] * 4), 'the criteria of the chosen sampler')
    ctx.check(bool(g['derived']) == derived, 'derived parameters are included when there are any')
    if derived:
        ctx.check('mpsini1' in g['chains'] and [float(x) for x in g['chains']['mpsini1']] == [11.0, 12.0, 13.0], 'the derived columns')


def derived_before(w):
    f = w.d + '/derived.csv'
    pd.DataFrame({'mpsini1': [11.0, 12.0, 13.0]}).to_csv(f)
    D.save_status(w.statfile, 'derive', {'run': True, 'chainfile': f})


SAMPLERS = ('auto', 'mcmc', 'ns')
TYPES = ('params', 'priors', 'rv', 'crit', 'derived')
TABS = {'priors': 'tab_prior_summary', 'rv': 'tab_rv', 'params': 'tab_params', 'derived': 'tab_derived', 'crit': 'tab_crit', 'ic_compare': 'tab_comparison'}


def tables(ctx):
    w = World(ctx, near=True)
    log = stand_ins(ctx)
    past = w.past('mcmc', 'ns')
    want = SAMPLERS[ctx.choice('sampler', 3)]
    der = ctx.choice('derived', 2) == 1
    if der:
        derived_before(w)
    types_ = [['params', 'rv'], ['priors', 'crit'], ['derived']][ctx.choice('types', 3)]
    name = ctx.choice('name', 2) == 1
    ok = w.attempt(D.tables, w.args(sampler=want, type=types_, name_in_title=name))
    s = chosen(past, want)
    if s is None or (types_ == ['derived'] and not der):
        ctx.check(not ok, 'refused without the results it needs')
        ctx.check(not [f for f in os.listdir(w.d) if f.endswith('.tex') and f.startswith(w.base)], 'no table written')
        return
    ctx.check(ok, 'possible with the results it needs')
    if not ok or not log.reports:
        return
    right_results(ctx, log.reports[0], s, der)
    st = w.status()
    for t in types_:
        f = w.path('%s_%s.tex' % (w.base, t))
        ctx.check(os.path.exists(f), 'table written: ' + t)
        if os.path.exists(f):
            text = open(f).read()
            ctx.check(text.split()[0] == TABS[t], 'the wanted table: ' + t)
            ctx.check("('name_in_title', %s)" % name in text, 'title option')
            if t == 'rv':
                ctx.check("('max_lines', None)" in text, 'all velocities')
        ctx.check(os.path.realpath(st.get('table', t + '_tex')) == f, 'recorded where it is: ' + t)


def comparison_table(ctx):
    w = World(ctx, near=True)
    stand_ins(ctx)
    w.ran('mcmc')
    have = ctx.choice('compared', 2) == 1
    if have:
        D.save_status(w.statfile, 'ic_compare', {'ic': [{'AICc': (np.float64(1.5), 'd')}, {'AICc': (-np.inf, 'd')}]})
    ok = w.attempt(D.tables, w.args(type=['ic_compare'], name_in_title=False))
    ctx.check(ok == have, 'refused only without a comparison')
    if have and ok:
        ctx.check(open(w.path(w.base + '_ic_compare.tex')).read().split() == ['tab_comparison', '[]', '2'], 'the stored comparison')


def reports(ctx):
    w = World(ctx, near=True)
    log = stand_ins(ctx)
    past = w.past('mcmc', 'ns')
    want = SAMPLERS[ctx.choice('sampler', 3)]
    der, comp = ctx.choice('derived', 2) == 1, ctx.choice('compared', 2) == 1
    if der:
        derived_before(w)
    if comp:
        D.save_status(w.statfile, 'ic_compare', {'ic': [{'AICc': (1.5, 'd')}, {'AICc': (-np.inf, 'd')}, {'AICc': (np.float64(2.5), 'd')}]})
    figures = ctx.choice('plotted', 2) == 1
    if figures:
        D.save_status(w.statfile, 'plot', {'rv_plot': 'out/star_rv.pdf', 'corner_plot': 'star_corner.pdf'})
    here = os.getcwd()
    ok = w.attempt(D.report, w.args(sampler=want, comptype='ic', latex_compiler='texit'))
    ctx.check(os.getcwd() == here, 'back in the same directory')
    s = chosen(past, want)
    if s is None:
        ctx.check(not ok and not log.compiled, 'refused without the results it needs')
        return
    ctx.check(ok and len(log.compiled) == 1, 'possible with the results it needs')
    if not log.compiled:
        return
    rep, pdf, cwd, k = log.compiled[0]
    right_results(ctx, rep, s, der)
    c = rep.given['compstats']
    ctx.check(c is None if not comp else (c is not None and [float(x['AICc'][0]) for x in c] == [1.5, -np.inf, 2.5]), 'the stored comparison')
    ctx.check(os.path.join(cwd, pdf) == w.path(w.base + '_results.pdf'), 'written into the output directory')
    ctx.check(list(k.get('depfiles', [])) == (['star_rv.pdf', 'star_corner.pdf'] if figures else []) and k.get('latex_compiler') == 'texit', 'figures and compiler')


def derive(ctx):
    w = World(ctx, near=True)
    past = w.past('mcmc', 'ns')
    want = SAMPLERS[ctx.choice('sampler', 3)]
    w.conf.stellar = {'mstar': 1.25, 'mstar_err': 0.0625}
    s = chosen(past, want)
    seen = []

    def Msini(K, P, Mstar, e, Msini_units='earth'):
        seen.append([float(x) for x in K])
        return pd.Series(np.array(K, dtype=float) * 2)
    ctx.stub(U, 'Msini', Msini)
    ok = w.attempt(D.derive, w.args(sampler=want))
    if s is None:
        ctx.check(not ok, 'refused without the results it needs')
        ctx.check(not w.status().has_section('derive'), 'nothing recorded')
        return
    ctx.check(ok and seen == [[MARK[s]] * 3], 'the chain of the chosen sampler')
    st = w.status()
    ctx.check(st.has_section('derive'), 'recorded')
    if not st.has_section('derive'):
        return
    t = pd.read_csv(st.get('derive', 'chainfile'))
    ctx.check([float(x) for x in t['mpsini1']] == [2 * MARK[s]] * 3, 'the stored chain')
    for x in ('mcmc', 'ns'):
        if past[x] != 'missing':
            p = radvel.posterior.load(st.get(x, 'postfile'))
            ctx.check(hasattr(p, 'derived') == (x == s), 'kept with the posterior of that sampler')
            ctx.check(k_of(p) == MARK[x], 'the posterior itself is unchanged')


def plots(kind):
    def h(ctx):
        w = World(ctx, near=True)
        log = []

        def recorder(name):
            class R(object):
                def __init__(self, *a, **k):
                    self.a, self.k, self.plotted = a, k, 0
                    log.append((name, self))

                def plot(self):
                    self.plotted += 1
                plot_multipanel = plot
            return R
        for mod, names in ((mcmc_plots, ('AutoPlot', 'CornerPlot', 'TrendPlot', 'DerivedPlot')), (orbit_plots, ('MultipanelPlot', 'GPMultipanelPlot'))):
            for n in names:
                ctx.stub(mod, n, recorder(n))
        past = w.past(*(['fit'] + (['mcmc', 'ns'] if kind != 'rv' else [])))
        want = SAMPLERS[ctx.choice('sampler', 3)] if kind != 'rv' else 'auto'
        der = kind == 'derived' and ctx.choice('derived', 2) == 1
        if der:
            derived_before(w)
        kw = {}
        gp = kind == 'rv' and ctx.choice('gp', 2) == 1
        if kind == 'rv' and ctx.choice('named', 2):
            kw['saveplot'] = w.d + '/mine.pdf'
        if kind == 'rv' and ctx.choice('wide', 2):
            kw['figwidth'] = 11.0
        extra = dict(kw)
        name = {'rv': 'rv', 'corner': 'corner', 'auto': 'auto', 'trend': 'trend', 'derived': 'derived'}[kind]
        ok = w.attempt(D.plots, w.args(sampler=want, type=[name], plotkw=kw, gp=gp))
        s = chosen(past, want) if kind in ('corner', 'auto', 'trend') else None
        if past['fit'] != 'finished' or (kind == 'corner' and s is None) or (kind in ('auto', 'trend') and s != 'mcmc') or (kind == 'derived' and not der):
            ctx.check(not ok and not [1 for _, r in log if r.plotted], 'refused without the results it needs')
            ctx.check(not w.status().has_section('plot'), 'nothing recorded')
            return
        ctx.check(ok and len(log) == 1 and log[0][1].plotted == 1, 'one plot')
        if not ok or len(log) != 1:
            return
        cls, r = log[0]
        what = list(r.a) + list(r.k.values())
        posts = [x for x in what if isinstance(x, radvel.posterior.Posterior)]
        frames = [x for x in what if isinstance(x, pd.DataFrame)]
        files = [x for x in what if isinstance(x, str) and x.endswith('.pdf')]
        ctx.check(cls == {'rv': 'GPMultipanelPlot' if gp else 'MultipanelPlot', 'corner': 'CornerPlot', 'auto': 'AutoPlot', 'trend': 'TrendPlot', 'derived': 'DerivedPlot'}[kind], 'kind of plot')
        if kind in ('rv', 'corner', 'trend'):
            ctx.check([k_of(p) for p in posts] == [MARK['fit']], 'the posterior of the fit')
        if kind in ('corner', 'trend'):
            ctx.check(len(frames) == 1 and [float(x) for x in frames[0]['k1']] == [MARK[s]] * 3, 'the chain of the chosen sampler')
        if kind == 'trend':
            ctx.check([x for x in what if isinstance(x, int)] == [12, 3], 'walkers and ensembles of the run')
        if kind == 'auto':
            ctx.check(len(frames) == 1 and list(frames[0]['autosamples']) == [MARK['mcmc']], 'the autocorrelation of the run')
        if kind == 'derived':
            ctx.check(len(frames) == 1 and list(frames[0]['mpsini1']) == [11.0, 12.0, 13.0], 'the derived chain')
        if kind == 'rv':
            ctx.check(r.k.get('uparams') == {'k1': 0.25} and r.k.get('epoch') == 2455000.0, 'uncertainties and epoch')
            ctx.check(r.k.get('figwidth') == extra.get('figwidth'), 'the options of the user')
        f = extra.get('saveplot', w.path(w.base + '_' + {'rv': 'rv_multipanel', 'corner': 'corner', 'auto': 'auto', 'trend': 'trends', 'derived': 'corner_derived_pars'}[kind] + '.pdf'))
        ctx.check([os.path.realpath(x) for x in files] == [os.path.realpath(f)], 'name of the file')
        ctx.check(os.path.realpath(w.status().get('plot', name + '_plot')) == os.path.realpath(f), 'recorded where it is')
    return h


def fitted(ctx):
    w = World(ctx, near=True)
    dec = ctx.choice('decorr', 2) == 1
    before = ctx.choice('mcmc', 2) == 1
    if before:
        w.ran('mcmc')
    D.save_status(w.d + '/other_radvel.stat', 'fit', {'run': True, 'postfile': 'theirs'})
    D.fit(w.args(decorr=dec))
    ctx.check(w.setup_calls == [('some/where/%s.py' % w.base, dec)], 'the setup, with its decorrelation')
    ctx.check(w.fits == [MARK['setup']], 'fitted once, from the setup')
    st = w.status()
    ctx.check(st.getboolean('fit', 'run'), 'recorded')
    f = st.get('fit', 'postfile')
    ctx.check(os.path.realpath(f).startswith(w.path('')), 'stored in the output directory')
    ctx.check(k_of(radvel.posterior.load(f)) == MARK['fit'], 'the fitted posterior is stored')
    ctx.check(st.has_section('mcmc') == before, 'other steps stay recorded')
    ctx.check(D.load_status(w.d + '/other_radvel.stat').get('fit', 'postfile') == 'theirs', 'other setups are left alone')


OPTIONS = {'nwalkers': 'nwalkers', 'nsteps': 'nrun', 'ensembles': 'ensembles', 'minAfactor': 'minAfactor', 'maxArchange': 'maxArchange', 'burnAfactor': 'burnAfactor', 'burnGR': 'burnGR',
           'maxGR': 'maxGR', 'minTz': 'minTz', 'minsteps': 'minsteps', 'minpercent': 'minpercent', 'thin': 'thin'}
CHAIN = {'k1': [6.5, 7.0, 8.0], 'gamma_a': [1.0, 2.0, 4.0], 'gamma_b': [3.0, 2.0, 4.0], 'jit_a': [1.0, 2.0, 3.0], 'jit_b': [1.5, 1.0, 2.5], 'lnprobability': [-3.0, -2.0, -4.0]}


def stored(ctx, w, st, section):
    p = radvel.posterior.load(st.get(section, 'postfile'))
    ctx.check(k_of(p) == 7.0 and set(p.medparams) >= {'k1', 'per1', 'jit_b'}, 'the posterior with its summaries is stored')
    t = pd.read_csv(st.get(section, 'chainfile'))
    ctx.check(set(CHAIN) <= set(t) and all(list(t[k]) == CHAIN[k] for k in CHAIN if k in t), 'the chain is stored')
    t = pd.read_csv(st.get(section, 'summaryfile'), index_col=0)
    ctx.check(list(t.index) == [0.159, 0.5, 0.841] and float(t['k1'][0.5]) == 7.0, 'the quantiles are stored')
    for k in ('postfile', 'chainfile', 'summaryfile'):
        ctx.check(os.path.realpath(st.get(section, k)).startswith(w.path('')), 'stored in the output directory')


def sampled(ctx):
    w = World(ctx, near=True)
    reading(ctx)
    past = w.past('fit')
    ns = ctx.choice('ns', 2) == 1
    if ns:
        w.ran('ns')
    flags = {k: ctx.choice(k, 2) == 1 for k in ('save', 'proceed', 'serial', 'headless')}
    opts = {k: ctx.real('opt_' + k, 1, 1000, sample=(1, 100)) for k in OPTIONS}
    got = {}
    out = {k: ctx.real('state_' + k, 1, 1000, sample=(1, 100)) for k in ('mintz', 'maxgr', 'minafactor', 'maxarchange', 'nwalkers', 'ncomplete', 'nburn')}

    def mcmc(*a, **k):
        b = REAL['mcmc'].bind(*a, **k)
        b.apply_defaults()
        got.update(b.arguments)
        got['k'] = k_of(got['post'])
        statevars.autosamples, statevars.automin, statevars.automean, statevars.automax, statevars.factor = [10, 20], [1.0, 2.0], [2.0, 3.0], [3.0, 4.0], [5.0, 6.0]
        for x in out:
            setattr(statevars, x, out[x])
        return pd.DataFrame(CHAIN)
    ctx.stub(radvel, 'mcmc', mcmc)
    ok = w.attempt(D.mcmc, w.args(decorr=True, **opts, **flags))
    if not ok:
        ctx.check(past['fit'] == 'missing', 'possible after a fit')
        return
    ctx.check(got.get('k') == (MARK['fit'] if past['fit'] == 'finished' else MARK['setup']), 'started from the fit')
    for k in OPTIONS:
        ctx.check_eq(got[OPTIONS[k]], opts[k], 'option ' + k)
    for k in flags:
        ctx.check(bool(got[k]) == flags[k], 'option ' + k)
    if flags['save']:
        ctx.check(got['savename'] is not None and os.path.realpath(got['savename']) == w.path(w.base + '_rawchain.h5'), 'name of the raw chain')
    if flags['proceed']:
        ctx.check(got['proceedname'] is not None and os.path.realpath(got['proceedname']) == w.path(w.base + '_rawchain.h5'), 'name of the raw chain')
    st = w.status()
    ctx.check(st.getboolean('mcmc', 'run'), 'recorded')
    stored(ctx, w, st, 'mcmc')
    t = pd.read_csv(st.get('mcmc', 'autocorrfile'))
    ctx.check([list(t[k]) for k in ('autosamples', 'automin', 'automean', 'automax', 'factor')] == [[10, 20], [1.0, 2.0], [2.0, 3.0], [3.0, 4.0], [5.0, 6.0]], 'the history of the run is stored')
    for k, x in (('mintz', 'mintz'), ('maxgr', 'maxgr'), ('minafactor', 'minafactor'), ('maxarchange', 'maxarchange'), ('nwalkers', 'nwalkers'), ('nsteps', 'ncomplete'), ('nburn', 'nburn')):
        check_printed(ctx, st.get('mcmc', k), out[x], 'recorded ' + k)
    check_printed(ctx, st.get('mcmc', 'nensembles'), opts['ensembles'], 'recorded number of ensembles')
    check_printed(ctx, st.get('mcmc', 'maxsteps'), opts['nsteps'] * out['nwalkers'] * opts['ensembles'], 'recorded number of steps', 0 if ctx.symbolic else 1e-3)
    if ns:
        ctx.check(st.get('ns', 'chainfile') == w.d + '/chain_ns.csv' and k_of(radvel.posterior.load(st.get('ns', 'postfile'))) == MARK['ns'], 'the other sampler stays recorded')


KINDS = [('nlive=50', 'nlive', 50), ('dlogz=0.5', 'dlogz', 0.5), ('sample=rwalk', 'sample', 'rwalk'), ('flag=True', 'flag', True), ('other=false', 'other', False), ('big=1e4', 'big', 1e4)]


def nested(which):
    def h(ctx):
        w = World(ctx, near=True)
        mc = ctx.choice('mcmc', 2) == 1
        if mc:
            w.ran('mcmc')
        strings, want = {}, {}
        for k, n in (('run_kwargs', 2), ('sampler_kwargs', 1)):
            m = ctx.choice('n_' + k, n + 1)
            items = [KINDS[(ctx.choice('%s%d' % (k, i), 3) * 2 + i) % 6] for i in range(m)]
            strings[k] = ' '.join(x[0] for x in items) if items else None
            want[k] = {x[1]: x[2] for x in items}
        flags = {k: ctx.choice(k, 2) == 1 for k in ('proceed', 'overwrite')}
        got = {}

        def run(*a, **k):
            b = REAL['ns'].bind(*a, **k)
            b.apply_defaults()
            got.update(b.arguments)
            got['k'] = k_of(got['post'])
            return {'samples': pd.DataFrame(CHAIN), 'lnZ': -1.0, 'lnZerr': 0.1, 'sampler': None}
        ctx.stub(radvel.nested_sampling, 'run', run)
        D.nested_sampling(w.args(decorr=True, sampler=which, **strings, **flags))
        ctx.check(w.setup_calls == [('some/where/%s.py' % w.base, True)], 'the setup, with its decorrelation')
        ctx.check(got['k'] == MARK['setup'] and got['sampler'] == which, 'the wanted engine')
        for k in want:
            g = dict(got[k] or {})
            ctx.check(g == want[k] and all(type(g[x]) is type(want[k][x]) for x in g), 'options as given: ' + k)
        ctx.check(bool(got['proceed']) == flags['proceed'] and bool(got['overwrite']) == flags['overwrite'], 'flags as given')
        ctx.check(os.path.realpath(got['output_dir']) == w.path(w.base + '_ns'), 'own output directory')
        st = w.status()
        ctx.check(st.getboolean('ns', 'run'), 'recorded')
        stored(ctx, w, st, 'ns')
        if mc:
            ctx.check(st.get('mcmc', 'chainfile') == w.d + '/chain_mcmc.csv' and k_of(radvel.posterior.load(st.get('mcmc', 'postfile'))) == MARK['mcmc'], 'the other sampler stays recorded')
    return h


def compared(ctx):
    w = World(ctx, near=True)
    past = w.past('fit')
    fixed, mixed, simple = (ctx.choice(k, 2) == 1 for k in ('fixjitter', 'mixed', 'simple'))
    T = ['nplanets', 'e', 'trend', 'jit', 'gp']
    i = ctx.choice('type', 5)
    types_ = [T[i]] + ([T[(i + 1 + ctx.choice('second', 2)) % 5]] if ctx.choice('two', 2) else [])
    calls = []

    def comp(*a, **k):
        b = REAL['comp'].bind(*a, **k)
        b.apply_defaults()
        p = b.arguments['post']
        calls.append((k_of(p), list(b.arguments['params']), {x: bool(p.vector.vector[p.vector.indices[x]][1]) for x in p.params}, {x: bool(p.params[x].vary) for x in p.params},
                      list(p.list_vary_params() or [])))
        n = len(calls)
        same = {'Free Params': (['k1', 'jit_a'][::(1 if n == 1 else -1)], 'd'), 'AICc': (np.float64(10.5), 'd')}
        return [same, {'Free Params': (['k1'] * n, 'd'), 'AICc': (np.float64(n), 'd')}, {'Free Params': (['e1', 'z%d' % n], 'd'), 'AICc': (-np.inf, 'd')}]
    ctx.stub(radvel.fitting, 'model_comp', comp)
    ok = w.attempt(D.ic_compare, w.args(type=types_, fixjitter=fixed, mixed=mixed, simple=simple, verbose=False))
    if past['fit'] != 'finished':
        ctx.check(not ok and not calls, 'refused without a fit')
        ctx.check(not w.status().has_section('ic_compare'), 'nothing recorded')
        return
    ctx.check(ok, 'possible after a fit')
    if not ok:
        return
    want = [[]] if simple else [types_] if mixed else [[t] for t in types_]
    ctx.check([c[1] for c in calls] == want, 'compared over the wanted components')
    for c in calls:
        ctx.check(c[0] == MARK['fit'], 'the posterior of the fit')
        for v in c[2:4]:
            for k in v:
                free = (k == 'k1' or k[:3] == 'gam' or k[:3] == 'jit') and not (fixed and not simple and k[:3] == 'jit')
                ctx.check(v[k] == free, 'jitters are fixed on demand only: ' + k)
    got = eval(w.status().get('ic_compare', 'ic'), {'np': np, 'inf': np.inf})
    full = []
    for n in range(1, len(calls) + 1):
        full += [(sorted(['k1', 'jit_a']), 10.5), (['k1'] * n, float(n)), (['e1', 'z%d' % n], -np.inf)]
    if not simple and not mixed:
        seen = []
        for f, a in full:
            if f not in [x for x, _ in seen]:
                seen.append((f, a))
        full = seen
    ctx.check([(sorted(g['Free Params'][0]), float(g['AICc'][0])) for g in got] == [(sorted(f), a) for f, a in full], 'every compared model is recorded once')
    ctx.check(k_of(radvel.posterior.load(w.d + '/saved_fit.pkl')) == MARK['fit'], 'the fit is left alone')


def beside(fn):
    def h(ctx):
        fn(ctx)
        World.last.undisturbed()
    return h


def cases(tier):
    out = [Case('fit', fitted), Case('mcmc', sampled), Case('comparison', compared), Case('tables', tables), Case('comparison table', comparison_table),
           Case('report', reports), Case('derive', derive)]
    for k in ('ultranest', 'dynesty-static', 'nautilus'):
        out.append(Case('nested sampling ' + k, nested(k)))
    for k in ('rv', 'corner', 'auto', 'trend', 'derived'):
        out.append(Case('plot ' + k, plots(k)))
    for c in out:
        c.fn = beside(c.fn)
    return out
