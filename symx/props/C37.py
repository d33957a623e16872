"""The command line."""
import contextlib
import io
import os
import re
import shutil
import sys
import types

import radvel.cli
import radvel.driver
import radvel.fitting
import radvel.nested_sampling
import radvel.report
import radvel.utils
from radvel.mcmc import statevars
from radvel.plot import mcmc_plots, orbit_plots
from .. import env, state
from .common import *
from .C35 import World, REAL, MARK, OPTIONS, k_of, make_post, stand_ins, chosen, derived_before

D, U = radvel.driver, radvel.utils

EXPLANATION = ('The real argument parser and the real driver steps run on command lines whose options (which, in what order, with what value) are free choices and whose numbers are symbolic: a number is '
               'typed as a token that the conversions of the parser turn into a solver variable. The samplers, the comparison, the plots and the report writer are recording stand-ins; what reaches them is '
               'compared with what was typed and with the documented defaults.')
BOUNDS = 'every subcommand; every pair of options of the MCMC in both orders and all of them together, every combination of its flags; every combination of the options of the other steps; all positive numbers'
OUTSIDE = 'abbreviated options; the code of the steps behind the stand-ins (C33-C36)'

DEFAULTS = {'nsteps': 10000, 'nwalkers': 50, 'ensembles': 8, 'minAfactor': 40, 'maxArchange': .03, 'maxGR': 1.01, 'burnGR': 1.03, 'burnAfactor': 25, 'minTz': 1000, 'minsteps': 1000,
            'minpercent': 5, 'thin': 10}
TYPED = {'ensembles': 'nensembles'}
WHOLE = ('nwalkers', 'ensembles', 'minTz', 'minsteps', 'thin')


class Reached(Exception):
    """the step got as far as the collaborator that is of interest"""


class Shell(World):
    """an empty directory to type commands in"""

    def __init__(self, ctx, name='star'):
        super(Shell, self).__init__(ctx, name)
        self.root = self.d
        self.d = os.path.join(self.root, name)
        self.whole = set()
        reading(ctx)
        if ctx.symbolic:
            def token(conv):
                def f(text):
                    t = text.strip() if isinstance(text, str) else ''
                    if t[:2] == '[[' and t[-2:] == ']]':
                        if conv is int and t not in self.whole:
                            raise ValueError('not a whole number')
                        return state.TOKENS[int(t[2:-2])]
                    return conv(text)
                f.__name__ = conv.__name__
                return f
            ctx.stub(radvel.cli, 'float', token(float))
            ctx.stub(radvel.cli, 'int', token(int))

    def number(self, name, whole):
        """(text to type, value meant)"""
        v = self.ctx.real(name, 1, 1000, sample=(1, 100))
        if whole:
            v = F.floor(v)
        if self.ctx.symbolic:
            text = '[[%d]]' % len(state.TOKENS)
            state.TOKENS.append(v)
            if whole:
                self.whole.add(text)
            return text, v
        text = str(int(v)) if whole else repr(float(v))
        return text, (int if whole else float)(text)

    def type(self, *argv):
        """'ran', 'stopped' (an exception or a refusal) or the exit code"""
        here = os.getcwd()
        os.chdir(self.root)
        self.ctx.stub(sys, 'argv', ['radvel'] + list(argv))
        self.out = io.StringIO()
        try:
            with contextlib.redirect_stderr(self.out), contextlib.redirect_stdout(self.out):
                radvel.cli.main()
            return 'ran'
        except Reached:
            return 'ran'
        except SystemExit as e:
            return 'refused' if e.code not in (0, None) else 'told'
        except (Exception,) as e:
            if type(e).__module__.startswith('symx'):
                raise
            self.error = e
            return 'failed %s: %s' % (type(e).__name__, e)
        finally:
            os.chdir(here)

    def made(self):
        return sorted(os.listdir(self.root))


def recorder(ctx, log, key, sig):
    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        log.append((key, dict(b.arguments)))
        raise Reached()
    return f


def watch(ctx):
    """everything a command may end in"""
    log = []
    ctx.stub(radvel, 'mcmc', recorder(ctx, log, 'mcmc', REAL['mcmc']))
    ctx.stub(radvel.nested_sampling, 'run', recorder(ctx, log, 'ns', REAL['ns']))
    return log


def order(ctx, items, name):
    """one of the two obvious orders"""
    return items[::-1] if ctx.choice(name, 2) else items


def check_run(ctx, got, opts, flags=None):
    for k in OPTIONS:
        ctx.check_eq(got[OPTIONS[k]], opts.get(k, DEFAULTS[k]), 'option ' + k)
    flags = flags or {}
    for k in ('serial', 'save', 'proceed', 'headless'):
        ctx.check(bool(got[k]) == bool(flags.get(k, False)), 'flag ' + k)


def mcmc_pairs(first):
    def h(ctx):
        w = Shell(ctx)
        log = watch(ctx)
        os.mkdir(w.d)
        w.ran('fit')
        names = list(OPTIONS)
        second = ctx.choice('second', len(names))
        opts, words = {}, []
        for n in sorted({first, second}):
            if n < len(names):
                text, v = w.number('opt_' + names[n], names[n] in WHOLE)
                opts[names[n]] = v
                words.append(['--' + TYPED.get(names[n], names[n]), text])
        words = order(ctx, words + [['-s', 'some/where/star.py']], 'order')
        r = w.type('mcmc', *[x for y in words for x in y])
        ctx.check(r == 'ran' and len(log) == 1, 'the MCMC is run once')
        if len(log) == 1:
            check_run(ctx, log[0][1], opts)
            ctx.check(k_of(log[0][1]['post']) == MARK['fit'], 'on the fitted posterior')
    return h


def mcmc_all(ctx):
    w = Shell(ctx)
    log = watch(ctx)
    os.mkdir(w.d)
    w.ran('fit')
    opts, words = {}, []
    for n in OPTIONS:
        text, v = w.number('opt_' + n, n in WHOLE)
        opts[n] = v
        words.append(['--' + TYPED.get(n, n), text] if ctx.symbolic or n != 'thin' else ['--thin=' + text])
    words = order(ctx, words + [['-s', 'some/where/star.py'], ['--decorr']], 'order')
    r = w.type('mcmc', *[x for y in words for x in y])
    ctx.check(r == 'ran' and len(log) == 1, 'the MCMC is run once')
    if len(log) == 1:
        check_run(ctx, log[0][1], opts)
    # the next command knows nothing of this one
    r = w.type('mcmc', '-s', 'some/where/star.py')
    ctx.check(r == 'ran' and len(log) == 2, 'the MCMC is run once more')
    if len(log) == 2:
        check_run(ctx, log[1][1], {})
    ctx.check([x[1] for x in w.setup_calls] == [True, False], 'decorrelation on demand')


def mcmc_flags(ctx):
    w = Shell(ctx)
    log = watch(ctx)
    os.mkdir(w.d)
    w.ran('fit')
    flags, words = {}, []
    for k in ('save', 'proceed', 'headless'):
        flags[k] = ctx.choice(k, 2) == 1
        if flags[k]:
            words.append(['--' + k])
    i = ctx.choice('serial', 5)
    if i:
        text = (None, 'True', 'False', 'true', 'false')[i]
        flags['serial'] = text.lower() == 'true'
        words.append(['--serial', text])
    named = ctx.choice('named', 2) == 1
    words = order(ctx, words + [['--setup', 'star.py']] + ([['-d', w.d]] if named else []), 'order')
    r = w.type('mcmc', *[x for y in words for x in y])
    ctx.check(r == 'ran' and len(log) == 1, 'the MCMC is run once')
    if len(log) != 1:
        return
    check_run(ctx, log[0][1], {}, flags)
    for k, f in (('save', 'savename'), ('proceed', 'proceedname')):
        if flags[k]:
            g = log[0][1][f]
            ctx.check(g is not None and os.path.realpath(os.path.join(w.root, g)) == w.path('star_rawchain.h5'), 'chains kept in the output directory')


SETUPS = (('star.py', 'star'), ('conf/star.py', 'star'), ('a.b/other_1.py', 'other_1'), ('./k2-24.py', 'k2-24'))


def directory(ctx):
    f, base = SETUPS[ctx.choice('setup', len(SETUPS))]
    w = Shell(ctx, base)
    named = (None, 'out', 'out.d', os.path.join(w.root, 'full'))[ctx.choice('named', 4)]
    there = ctx.choice('there', 2) == 1
    dec = ctx.choice('decorr', 2) == 1
    d = os.path.join(w.root, named or base)
    if there:
        os.mkdir(d)
        D.save_status('%s/%s_radvel.stat' % (d, base), 'mcmc', {'run': True, 'chainfile': 'earlier'})
        with open(d + '/note', 'w') as g:
            g.write('mine')
    words = [['-s', f]] if ctx.choice('short', 2) else [['--setup=' + f]]
    if named:
        words.append(['-d', named])
    if dec:
        words.append(['--decorr'])
    words = order(ctx, words, 'order')
    r = w.type('fit', *[x for y in words for x in y])
    ctx.check(r == 'ran', 'the fit runs')
    ctx.check(w.made() == [os.path.basename(d)], 'one output directory, where it was wanted')
    ctx.check([x[1] for x in w.setup_calls] == [dec] and w.setup_calls[0][0] == f, 'the setup file, with its decorrelation')
    ctx.check(w.fits == [MARK['setup']], 'fitted once')
    st = '%s/%s_radvel.stat' % (d, base)
    ctx.check(os.path.exists(st), 'the outcome is in it')
    if os.path.exists(st):
        st = D.load_status(st)
        ctx.check(st.getboolean('fit', 'run') and os.path.realpath(os.path.join(w.root, st.get('fit', 'postfile'))).startswith(os.path.realpath(d) + '/'), 'the fit is in it')
        ctx.check(k_of(radvel.posterior.load(os.path.join(w.root, st.get('fit', 'postfile')))) == MARK['fit'], 'the fit is in it')
        ctx.check(st.has_section('mcmc') == there, 'what was there is kept')
    if there:
        ctx.check(open(d + '/note').read() == 'mine', 'what was there is kept')


def ns(ctx):
    w = Shell(ctx)
    log = watch(ctx)
    engines = [None] + sorted(radvel.nested_sampling.BACKENDS)
    e = engines[ctx.choice('engine', len(engines))]
    words = [['-s', 'star.py']] + ([['--sampler', e]] if e else [])
    flags = {k: ctx.choice(k, 2) == 1 for k in ('proceed', 'overwrite')}
    words += [['--' + k] for k in flags if flags[k]]
    want = {'run_kwargs': {}, 'sampler_kwargs': {}}
    for i, (k, kind) in enumerate((('run_kwargs', int), ('sampler_kwargs', float))):
        n = ctx.choice(k, 3)
        if n:
            text = '%s_a=%d' % (k, 7 + i)
            want[k]['%s_a' % k] = 7 + i
            if n == 2:
                text += ' %s_b=2.5 c=on' % k
                want[k].update({'%s_b' % k: 2.5, 'c': 'on'})
            words.append(['--' + k.replace('_', '-'), text])
    words = order(ctx, words, 'order')
    r = w.type('ns', *[x for y in words for x in y])
    ctx.check(r == 'ran' and [x[0] for x in log] == ['ns'], 'the nested sampling is run once')
    if len(log) != 1:
        return
    g = log[0][1]
    ctx.check(g['sampler'] == (e or 'ultranest'), 'the wanted engine')
    for k in flags:
        ctx.check(bool(g[k]) == flags[k], 'flag ' + k)
    for k in want:
        ctx.check(dict(g[k] or {}) == want[k], 'options as typed: ' + k)
    ctx.check(os.path.realpath(os.path.join(w.root, g['output_dir'])) == w.path('star_ns'), 'own output directory')


IC = ['nplanets', 'e', 'trend', 'jit', 'gp']


def ic(ctx):
    w = Shell(ctx)
    os.mkdir(w.d)
    w.ran('fit')
    calls = []

    def comp(*a, **k):
        b = REAL['comp'].bind(*a, **k)
        b.apply_defaults()
        p = b.arguments['post']
        calls.append((list(b.arguments['params']), [bool(p.vector.vector[p.vector.indices[x]][1]) for x in ('jit_a', 'jit_b')], bool(b.arguments['verbose'])))
        return [{'Free Params': (['k%d' % len(calls)], 'd'), 'AICc': (1.5, 'd')}]
    ctx.stub(radvel.fitting, 'model_comp', comp)
    words = [['-s', 'star.py']]
    t = ctx.choice('types', 4)
    types_ = (['trend'], ['e'], ['nplanets', 'gp'], IC)[t]
    if t or ctx.choice('said', 2):
        words.append([('-t', '--type')[t % 2]] + types_)
    mixed, fixed, simple, verbose = True, False, False, False
    at = []
    for name, opts in (('mix', (['-m'], ['-u'], ['--mixed'], ['--un-mixed'])), ('fix', (['-f'], ['-n'], ['--fixjitter'], ['--no-fixjitter']))):
        i = ctx.choice(name, 9 if t == 2 else 3)
        if i:
            said = [opts[i - 1]] if i < 5 else [opts[i - 5], opts[(i - 5) ^ 1]]     # contradictory ones: the last counts
            at.append((len(words), name, said))
            words.append(len(words))
    if t != 2 and ctx.choice('simple', 2):
        simple = True
        words.append(['--simple'])
    if ctx.choice('verbose', 2):
        verbose = True
        words.append(['-v'])
    words = order(ctx, words, 'order')
    for n, name, said in at:
        words[words.index(n)] = [y for x in said for y in x]
        on = said[-1][0] in ('-m', '--mixed', '-f', '--fixjitter')
        if name == 'mix':
            mixed = on
        else:
            fixed = on
    r = w.type('ic', *[x for y in words for x in y])
    ctx.check(r == 'ran', 'the comparison runs')
    want = [[]] if simple else [types_] if mixed else [[x] for x in types_]
    ctx.check([c[0] for c in calls] == want, 'compared over the wanted components')
    free = not fixed or simple
    ctx.check(all(c[1] == [free, free] for c in calls), 'jitters are fixed on demand only')
    ctx.check(all(c[2] == verbose for c in calls), 'details on demand')


PLOTS = {'rv': 'MultipanelPlot', 'corner': 'CornerPlot', 'auto': 'AutoPlot', 'trend': 'TrendPlot', 'derived': 'DerivedPlot'}


def plot(ctx):
    w = Shell(ctx)
    os.mkdir(w.d)
    for s in ('fit', 'mcmc', 'ns'):
        w.ran(s)
    derived_before(w)
    log = []

    def recorder_(name):
        class R(object):
            def __init__(self, *a, **k):
                log.append((name, a, k))

            def plot(self):
                pass
            plot_multipanel = plot
        return R
    for mod, names in ((mcmc_plots, ('AutoPlot', 'CornerPlot', 'TrendPlot', 'DerivedPlot')), (orbit_plots, ('MultipanelPlot', 'GPMultipanelPlot'))):
        for n in names:
            ctx.stub(mod, n, recorder_(n))
    types_ = (['rv'], ['corner'], ['rv', 'corner', 'auto', 'trend'], ['trend', 'derived', 'rv'])[ctx.choice('types', 4)]
    words = [['-s', 'star.py'], [('-t', '--type')[ctx.choice('long', 2)]] + types_]
    gp = ctx.choice('gp', 2) == 1
    if gp:
        words.append(['--gp'])
    want = (None, 'auto', 'mcmc', 'ns')[ctx.choice('sampler', 4)]
    if want:
        words.append(['--sampler', want])
    kw = ({}, {'yscale_auto': True, 'legend': False}, {'figwidth': 9.5})[ctx.choice('plotkw', 3)]
    if kw:
        words.append(['--plotkw', repr(kw)])
    words = order(ctx, words, 'order')
    r = w.type('plot', *[x for y in words for x in y])
    refused = want == 'ns' and ('auto' in types_ or 'trend' in types_)
    ctx.check((r != 'ran') == refused, 'the plots are made')
    if refused:
        return
    ctx.check([x[0] for x in log] == [('GPMultipanelPlot' if gp else PLOTS[t]) if t == 'rv' else PLOTS[t] for t in types_], 'the wanted plots in turn')
    for name, a, k in log:
        if 'Multipanel' in name:
            for x in ('yscale_auto', 'legend', 'figwidth'):
                ctx.check(k.get(x) == kw.get(x) and (x in k) == (x in kw), 'keywords as typed')
        if name == 'CornerPlot':
            frames = [x for x in list(a) + list(k.values()) if hasattr(x, 'columns')]
            ctx.check(len(frames) == 1 and float(frames[0]['k1'].iloc[0]) == MARK['ns' if want == 'ns' else 'mcmc'], 'the wanted sampler')


TABS = {'priors': 'tab_prior_summary', 'rv': 'tab_rv', 'params': 'tab_params', 'derived': 'tab_derived', 'crit': 'tab_crit', 'ic_compare': 'tab_comparison'}


def table(ctx):
    w = Shell(ctx)
    os.mkdir(w.d)
    for s in ('fit', 'mcmc', 'ns'):
        w.ran(s)
    derived_before(w)
    D.save_status(w.statfile, 'ic_compare', {'ic': [{'AICc': (1.5, 'd')}]})
    log = stand_ins(ctx)
    types_ = (['params'], ['rv', 'priors'], ['crit', 'derived', 'ic_compare'])[ctx.choice('types', 3)]
    words = [['-s', 'star.py'], [('-t', '--type')[ctx.choice('long', 2)]] + types_]
    title = ctx.choice('title', 2) == 1
    if title:
        words.append(['--name_in_title'])
    if ctx.choice('header', 2):
        words.append(['--header'])
    want = (None, 'auto', 'mcmc', 'ns')[ctx.choice('sampler', 4)]
    if want:
        words.append(['--sampler', want])
    words = order(ctx, words, 'order')
    r = w.type('table', *[x for y in words for x in y])
    ctx.check(r == 'ran' and log.reports, 'the tables are made')
    ctx.check(sorted(f for f in os.listdir(w.d) if f.endswith('.tex')) == sorted('star_%s.tex' % t for t in types_), 'the wanted tables')
    for t in types_:
        f = w.path('star_%s.tex' % t)
        if os.path.exists(f):
            text = open(f).read()
            ctx.check(text.split()[0] == TABS[t], 'the wanted table: ' + t)
            if t != 'ic_compare':
                ctx.check("('name_in_title', %s)" % title in text, 'title on demand')
    if log.reports:
        ctx.check(k_of(log.reports[0].given['post']) == MARK['ns' if want == 'ns' else 'mcmc'], 'the wanted sampler')


def report(ctx):
    w = Shell(ctx)
    os.mkdir(w.d)
    for s in ('fit', 'mcmc', 'ns'):
        w.ran(s)
    comp = ctx.choice('compared', 2) == 1
    if comp:
        D.save_status(w.statfile, 'ic_compare', {'ic': [{'AICc': (1.5, 'd')}]})
    D.save_status(w.statfile, 'plot', {'rv_plot': 'star/star_rv.pdf'})
    log = stand_ins(ctx)
    words = [['-s', 'star.py']]
    tex = (None, 'xelatex', '/opt/tex/pdflatex')[ctx.choice('latex', 3)]
    if tex:
        words.append(['--latex-compiler', tex])
    if ctx.choice('comptype', 2):
        words.append(['--comptype', 'ic'])
    want = (None, 'auto', 'mcmc', 'ns')[ctx.choice('sampler', 4)]
    if want:
        words.append(['--sampler', want])
    words = order(ctx, words, 'order')
    r = w.type('report', *[x for y in words for x in y])
    ctx.check(r == 'ran' and len(log.compiled) == 1, 'the report is made')
    if len(log.compiled) == 1:
        rep, pdf, cwd, k = log.compiled[0]
        ctx.check(k.get('latex_compiler', 'pdflatex') == (tex or 'pdflatex'), 'the wanted compiler')
        ctx.check(os.path.join(cwd, pdf) == w.path('star_results.pdf'), 'written into the output directory')
        ctx.check(k_of(rep.given['post']) == MARK['ns' if want == 'ns' else 'mcmc'], 'the wanted sampler')
        ctx.check((rep.given['compstats'] is not None) == comp, 'the comparison is included when there is one')


def derive(ctx):
    w = Shell(ctx)
    os.mkdir(w.d)
    have = ctx.choice('have', 3)
    w.ran('fit')
    if have != 2:
        w.ran('mcmc')
    if have != 1:
        w.ran('ns')
    w.conf.stellar = {'mstar': 1.25, 'mstar_err': 0.0625}
    seen = []

    def Msini(K, P, Mstar, e, Msini_units='earth'):
        seen.append(float(np.asarray(K).ravel()[0]))
        raise Reached()
    ctx.stub(U, 'Msini', Msini)
    want = (None, 'auto', 'mcmc', 'ns')[ctx.choice('sampler', 4)]
    words = order(ctx, [['-s', 'star.py']] + ([['--sampler', want]] if want else []), 'order')
    r = w.type('derive', *[x for y in words for x in y])
    s = chosen({'mcmc': 'finished' if have != 2 else 'missing', 'ns': 'finished' if have != 1 else 'missing'}, want or 'auto')
    ctx.check((r == 'ran') == (s is not None), 'possible with the results it needs')
    ctx.check(seen == ([MARK[s]] if s else []), 'the wanted sampler')


BAD = [['fly', '-s', 'star.py'], ['fit', '-s', 'star.py', '--sturdy'], ['mcmc', '-s', 'star.py', '--nwalkers', 'many'], ['mcmc', '-s', 'star.py', '--nwalkers', '2.5'],
       ['mcmc', '-s', 'star.py', '--nsteps'], ['mcmc', '-s', 'star.py', '--maxGR', 'low'], ['ns', '-s', 'star.py', '--sampler', 'emcee'], ['plot', '-s', 'star.py', '-t', 'pie'],
       ['plot', '-s', 'star.py', '-t', 'rv', '--sampler', 'best'], ['table', '-s', 'star.py', '-t', 'params', 'chairs'], ['ic', '-s', 'star.py', '-t', 'everything'],
       ['derive', '-s', 'star.py', '--sampler', 'ultranest'], ['report', '-s', 'star.py', '--sampler', 'both'], ['fit', 'star.py'], ['fit', '-s'], ['fit', '-s', 'star.py', '--nwalkers', '50']]


def refused(ctx):
    w = Shell(ctx)
    log = watch(ctx)
    r = w.type(*BAD[ctx.choice('line', len(BAD))])
    ctx.check(r == 'refused', 'refused with an error status')
    ctx.check(not log and not w.fits and not w.setup_calls, 'nothing is run')
    ctx.check(w.made() == [], 'nothing is written')


def told(ctx):
    w = Shell(ctx)
    log = watch(ctx)
    line = (['--version'], ['-h'], ['mcmc', '--help'], ['fit', '-h', '-s', 'star.py'])[ctx.choice('line', 4)]
    r = w.type(*line)
    ctx.check(r == 'told', 'answered')
    ctx.check(not log and not w.fits and w.made() == [], 'nothing is run or written')
    text = ' '.join(w.out.getvalue().split())
    if line == ['--version']:
        ctx.check(text.split()[-1:] == [radvel.__version__], 'the version')
    if line[0] == 'mcmc':
        for k in OPTIONS:
            m = re.search(r'--%s [A-Z]+ (.*?)(?= --[a-zA-Z]|$)' % TYPED.get(k, k), text.split('options:')[-1])
            if m:
                n = re.findall(r'\[(?:default=)?([-+.0-9e]+)[\],]', m.group(1))
                ctx.check(all(float(x) == DEFAULTS[k] for x in n), 'the stated default is the real one: ' + k)


def cases(tier):
    out = [Case('directory', directory), Case('mcmc all options', mcmc_all), Case('mcmc flags', mcmc_flags), Case('nested sampling', ns), Case('comparison', ic), Case('plots', plot),
           Case('tables', table), Case('report', report), Case('derive', derive), Case('refused', refused), Case('told', told)]
    for i, n in enumerate(OPTIONS):
        out.append(Case('mcmc option ' + n, mcmc_pairs(i)))
    return out
