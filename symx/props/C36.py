"""Figures."""
import math
import re
import types

import matplotlib
matplotlib.use('Agg')
import matplotlib.axes
import matplotlib.figure
import pandas as pd
from matplotlib import pyplot as pl
from matplotlib.offsetbox import AnchoredText

import radvel.likelihood
import radvel.plot
import radvel.posterior
import radvel.utils
from radvel.plot import mcmc_plots, orbit_plots
from .common import *
from .C18 import cdist
from .C26 import is_phase
from .C34 import LETTERS, TEX

U, O, M = radvel.utils, orbit_plots, mcmc_plots

EXPLANATION = ('The real figure code runs on real Matplotlib axes whose drawing calls are recorded. Times, velocities, errors and parameters are symbolic, the single-planet curve and the '
               'Gaussian-process prediction unknown functions; z3 decides that every recorded point, curve, band and printed number is the one the figure claims to show.')
BOUNDS = '0-2 planets, 1-2 instruments with 1-2 points each, four fitting parameterisations, two points of each model curve; chains of up to 12 rows; 1-2 drawings of the same figure'
OUTSIDE = 'what Matplotlib and corner draw from the numbers; axis limits, colours and layout; measurements within 1e-7 of a cycle of phase 0 or 0.5; the averages themselves (C25)'

EPOCH = 100


def curve_of(t, per, tp, e, w, k):
    return rv_fn(t, per, tp, e, math.cos(w), math.sin(w), k)


class Proxy(object):
    """NumPy as the module sees it, with a grid of two points"""

    def __init__(self, np_, rec):
        self.np_, self.rec = np_, rec

    def __getattr__(self, n):
        if n == 'linspace':
            return self.rec.linspace
        return getattr(self.np_, n)


class Recorder(object):
    def __init__(self, ctx):
        self.ctx, self.calls, self.grids = ctx, [], []
        A = matplotlib.axes.Axes
        real_scatter = A.scatter

        def record(name):
            def f(ax, *args, **kw):
                self.calls.append((ax, name, args, kw))
                if name == 'scatter':
                    return real_scatter(ax, [0.5], [0.5])
            return f
        for n in ('plot', 'errorbar', 'scatter', 'fill_between', 'set_xlim', 'set_ylim', 'legend'):
            ctx.stub(A, n, record(n))
        ctx.stub(matplotlib.figure.Figure, 'tight_layout', lambda *a, **k: None)
        ctx.stub(matplotlib.figure.Figure, 'savefig', lambda *a, **k: None)
        ctx.stub(matplotlib.figure.Figure, 'show', lambda *a, **k: None)
        ctx.stub(pl, 'show', lambda *a, **k: None)
        ctx.stub(O, 'Time', lambda x, **k: types.SimpleNamespace(decimalyear=np.array([2000.0, 2001.0])))
        ctx.stub(O, 'np', Proxy(O.np, self))
        for m in (O, U):
            if hasattr(m, 'fastbin'):
                ctx.stub(m, 'fastbin', self.fastbin)
        self.binned = []
        ctx.at_end(lambda: pl.close('all'))

    def linspace(self, a, b, num=50, **kw):
        out = self.ctx.array([a + (b - a) * 0.25, b])
        self.grids.append((a, b))
        return out

    def fastbin(self, x, y, nbins=30):
        out = tuple(self.ctx.array([self.ctx.real('bin%d%s' % (len(self.binned), k))]) for k in 'xye')
        self.binned.append((list(x), list(y), [v[0] for v in out]))
        return out

    def on(self, ax, name):
        return [(a, k) for x, n, a, k in self.calls if x is ax and n == name]

    def errorbars(self, ax):
        """label -> (x, y, error)"""
        out = {}
        for a, k in self.on(ax, 'errorbar'):
            lab = k.get('label', '')
            self.ctx.check(lab not in out, 'one set of points per instrument')
            out[lab] = (list(a[0]), list(a[1]), list(k['yerr'] if 'yerr' in k else a[2]))
        return out

    def texts(self, ax):
        return [c.txt.get_text() for c in ax.get_children() if isinstance(c, AnchoredText)]


class Fit(object):
    """a posterior, and what is expected of it"""

    def __init__(self, ctx, basis, npl, insts, gp=(), letters=LETTERS, few=False):
        self.ctx, self.npl, self.insts, self.gp, self.few = ctx, npl, insts, gp, few
        number = (lambda n, v: v) if few else (lambda n, v: ctx.real(n))
        self.orbits = [dict(per=7.25, tp=2.5, e=0.25, w=0.5, k=4.0) if few else draw_orbit(ctx, i) for i in range(1, npl + 1)]
        P = radvel.Parameters(npl, basis=basis, planet_letters=letters)
        for i, o in enumerate(self.orbits, 1):
            for n in basis.split():
                P['%s%d' % (n, i)] = radvel.Parameter(value=define(o, n), vary=True)
        self.dvdt, self.curv, self.t0 = number('dvdt', 0.5), number('curv', 0.0625), number('time_base', 40.0)
        P['dvdt'], P['curv'] = radvel.Parameter(value=self.dvdt), radvel.Parameter(value=self.curv)
        self.rows, self.names = [], {}
        ctx.stub(radvel.kepler, 'rv_drive', (lambda t, o, use_c_kepler_solver=None: np.array([curve_of(float(x), *o) for x in t])) if few else rv_drive_stub(ctx))
        if gp:
            cdist(ctx)
            ctx.stub(radvel.likelihood.GPLikelihood, 'predict', lambda L, x: tuple(ctx.array([self.noise(kind, '_' + L.suffix, t) for t in x]) for kind in (0, 1)))
            for k in ('gp_amp', 'gp_length'):
                P[k] = radvel.Parameter(value=1.5)
        for s, n in insts:
            P['gamma' + s], P['jit' + s] = radvel.Parameter(value=number('gamma' + s, 1.5)), radvel.Parameter(value=number('jit' + s, 0.5))
        self.P, self.model = P, radvel.RVModel(P, time_base=self.t0)
        likes = []
        for s, n in insts:
            t = [ctx.real('t%s%d' % (s, i), -1000, 1000, sample=(0, 40)) for i in range(n)]
            y = ctx.reals('y' + s, n)
            e = [ctx.real('err%s%d' % (s, i), 0, None, open_lo=True, sample=(0.2, 3)) for i in range(n)]
            if few:
                t, e = [3.0 * i + 0.125 for i in range(n)], [0.25 * i + 1 for i in range(n)]
            self.rows += [(s, t[i], y[i], e[i]) for i in range(n)]
            args = (self.model,) + tuple(ctx.array(v) for v in (t, y, e))
            likes.append(radvel.likelihood.GPLikelihood(*args, hnames=['gp_amp', 'gp_length'], suffix=s, kernel_name='SqExp') if s in gp
                         else radvel.likelihood.RVLikelihood(*args, suffix=s))
        self.model.vector.dict_to_vector()
        self.post = radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood(likes) if len(likes) > 1 else likes[0])

    def noise(self, kind, s, t):
        return self.ctx.uf(('gp_mean', 'gp_std')[kind] + s, t, fn=lambda t: math.cos(t) + kind)

    def trend(self, t):
        return self.dvdt * (t - self.t0) + self.curv * (t - self.t0) * (t - self.t0)

    def curve(self, i, t):
        o = self.orbits[i - 1]
        if self.few:
            return curve_of(float(t), o['per'], o['tp'], o['e'], o['w'], o['k'])
        return rv_curve(self.ctx, t, o['per'], o['tp'], o['e'], o['w'], o['k'])

    def signal(self, t):
        return self.trend(t) + sum(self.curve(i, t) for i in range(1, self.npl + 1))

    def observed(self, s, t, y):
        """measurement less the offset of its instrument"""
        return y - self.P['gamma' + s].value

    def residual(self, s, t, y):
        return self.observed(s, t, y) - self.signal(t) - (self.noise(0, s, t) if s in self.gp else 0)

    def error(self, s, e):
        j = self.P['jit' + s].value
        return F.sqrt(e * e + j * j)

    def check_points(self, rec, ax, x, y, what, only=None, rms=None):
        ctx = self.ctx
        got = rec.errorbars(ax)
        names = [s for s, n in self.insts if only is None or s in only]
        lab = {self.names.get(g.split('\n')[0], g.split('\n')[0]): g for g in got}
        ctx.check(set(lab) >= set(s[1:] for s in names) and set(lab) <= set(s[1:] for s, n in self.insts), what + ': one set of points per instrument', detail=repr(sorted(lab)))
        for s in names:
            if s[1:] not in lab:
                continue
            gx, gy, ge = got[lab[s[1:]]]
            rows = [r for r in self.rows if r[0] == s]
            wx = [v for k in (x if isinstance(x, list) else [x]) for v in map(k, rows)]
            copies = len(x) if isinstance(x, list) else 1
            ok = len(gx) == len(gy) == len(ge) == copies * len(rows)
            ctx.check(ok, what + ': every measurement of the instrument')
            if ok:
                for i, r in enumerate(rows * copies):
                    if wx[i] is not None:
                        ctx.check_eq(gx[i], wx[i], what + ': time')
                    ctx.check_eq(gy[i], y(r), what + ': velocity')
                    ctx.check_eq(ge[i], self.error(s, r[3]), what + ': error bar')
            if rms and (len(rows) > 1 or 'RMS=' in lab[s[1:]]) and not ctx.decide_bool(rms(rows) == 0):
                ctx.check('RMS=' in lab[s[1:]], what + ': scatter in the legend')
                if 'RMS=' in lab[s[1:]]:
                    check_printed(ctx, lab[s[1:]].split('RMS=')[1].split()[0], rms(rows), what + ': scatter of the residuals of the instrument')


def std(v):
    m = sum(v) / len(v)
    return F.sqrt(sum((x - m) * (x - m) for x in v) / len(v))


def shown(t, epoch):
    return t - EPOCH if epoch == EPOCH else t


def panels(basis, npl, insts, epoch=EPOCH, rms=False, xlim=None, nophase=False, highlight=False, letters=True, telfmts={}, names={}):
    def h(ctx):
        reading(ctx)
        rec = Recorder(ctx)
        fit = Fit(ctx, basis, npl, insts)
        fit.names = names
        vals = {k: fit.P[k].value for k in fit.P}
        for o in fit.orbits:
            for r in fit.rows:
                f = (r[1] - define(o, 'tp' if 'tp' in basis.split() else 'tc')) / o['per']
                f = f - F.floor(f)
                ctx.assume(sand(f > 1e-7, f < 1 - 1e-7, sor(f < 0.5 - 1e-7, f > 0.5 + 1e-7)))
        p = O.MultipanelPlot(fit.post, epoch=epoch, show_rms=rms, legend=True, set_xlim=xlim, highlight_last=highlight, telfmts=telfmts)
        fig, axes = p.plot_multipanel(nophase=nophase, letter_labels=letters)
        ctx.check(len(axes) == 2 + (0 if nophase else npl), 'one panel for the series, the residuals and each planet')
        T = [r[1] for r in fit.rows]
        # series of measurements
        fit.check_points(rec, axes[0], lambda r: shown(r[1], epoch), lambda r: fit.observed(*r[:3]), 'series',
                         rms=(lambda rows: std([fit.residual(*r[:3]) for r in rows])) if rms else None)
        lines = [a for a, k in rec.on(axes[0], 'plot') if len(np.shape(a[0])) == 1 and len(a[0]) > 1]
        ctx.check(len(lines) == 1, 'one model curve')
        lo, hi = rec.grids[0]
        if xlim is None:
            ctx.check(sand(*[sand(lo <= t, hi >= t) for t in T]), 'the model curve covers the measurements')
        else:
            ctx.check(sand(lo <= xlim[0] + epoch, hi >= xlim[1] + epoch), 'the model curve covers the limits asked for')
        grid = [lo + (hi - lo) * 0.25, hi]
        for i, t in enumerate(grid):
            ctx.check_eq(lines[0][0][i], shown(t, epoch), 'model curve: time')
            ctx.check_eq(lines[0][1][i], fit.signal(t), 'model curve: velocity')
        # residuals
        fit.check_points(rec, axes[1], lambda r: shown(r[1], epoch), lambda r: fit.residual(*r[:3]), 'residuals')
        lines = [a for a, k in rec.on(axes[1], 'plot') if len(np.shape(a[0])) == 1 and len(a[0]) > 1]
        for a in lines:
            ctx.check_all_eq(list(a[1]), [0] * len(a[1]), 'zero line of the residuals')
        last = [a for a, k in rec.on(axes[1], 'plot') if len(np.shape(a[0])) == 0]
        ctx.check(len(last) == (1 if highlight else 0), 'the last measurement is marked if asked for')
        if highlight:
            for ax, y in ((axes[0], fit.observed), (axes[1], fit.residual)):
                (a,) = [a for a, k in rec.on(ax, 'plot') if len(np.shape(a[0])) == 0]
                for r in fit.rows:
                    if ctx.decide_bool(sand(*[r[1] > q[1] for q in fit.rows if q is not r])):
                        ctx.check_eq(a[0], shown(r[1], epoch), 'the last measurement is marked')
                        ctx.check_eq(a[1], y(*r[:3]), 'the last measurement is marked')
        # phase-folded
        for i in range(1, npl + 1):
            if nophase:
                break
            ax, o = axes[1 + i], fit.orbits[i - 1]
            own = lambda r: fit.residual(*r[:3]) + fit.curve(i, r[1])                         # noqa: E731
            fit.check_points(rec, ax, [lambda r: None, lambda r: None], own, 'folded %d' % i)
            tc = define(o, 'tp' if 'tp' in basis.split() else 'tc')
            for s, (x, y, e) in ((names.get(g.split('\n')[0], g.split('\n')[0]), v) for g, v in rec.errorbars(ax).items()):
                rows = [r for r in fit.rows if r[0] == '_' + s]
                if len(x) == 2 * len(rows):
                    for k, r in enumerate(rows):
                        is_phase(ctx, x[k] + 1, r[1], tc, o['per'], 'phase of a measurement')
                        ctx.check_eq(x[k + len(rows)], x[k] + 1, 'phase of a measurement, next cycle')
            lines = [a for a, k in rec.on(ax, 'plot') if len(np.shape(a[0])) == 1 and len(a[0]) > 1]
            ctx.check(len(lines) == 1 and len(lines[0][0]) == 4, 'one folded model curve')
            ph = list(U.t_to_phase(fit.post.params.basis.to_synth(fit.post.params), ctx.array(grid), i))
            pts = []
            for x, t in [(ph[0] - 1, grid[0]), (ph[1] - 1, grid[1]), (ph[0], grid[0]), (ph[1], grid[1])]:
                k = len(pts)
                while k and ctx.decide_bool(x < pts[k - 1][0]):
                    k -= 1
                pts.insert(k, (x, fit.curve(i, t)))
            for k, (x, y) in enumerate(pts):
                ctx.check_eq(lines[0][0][k], x, 'folded model curve: phase')
                ctx.check_eq(lines[0][1][k], y, 'folded model curve: velocity')
            annotated(ctx, rec, ax, i, [('P', o['per'], None), ('K', o['k'], None), ('e', o['e'], None)])
            if highlight:
                (a,) = [a for a, k in rec.on(ax, 'plot') if len(np.shape(a[0])) == 0]
                for r in fit.rows:
                    if ctx.decide_bool(sand(*[r[1] > q[1] for q in fit.rows if q is not r])):
                        is_phase(ctx, a[0] + 1 if ctx.decide_bool(a[0] < 0) else a[0], r[1], tc, o['per'], 'phase of the last measurement')
                        ctx.check(sand(a[0] >= -0.5, a[0] <= 0.5), 'the mark is inside the panel')
                        ctx.check_eq(a[1], own(r), 'the last measurement is marked in the folded panel')
        # the figure leaves the posterior alone
        for k in vals:
            ctx.check_eq(fit.post.params[k].value, vals[k], 'posterior unchanged')
            ctx.check_eq(fit.model.vector.vector[fit.model.vector.indices[k]][0], vals[k], 'posterior unchanged')
        ctx.check(set(fit.post.params) == set(vals), 'posterior unchanged')
    return h


def annotated(ctx, rec, ax, i, want, extra=()):
    text = [t for t in rec.texts(ax) if ' = ' in t]
    ctx.check(len(text) == 1, 'one annotation')
    if len(text) != 1:
        return
    lines = text[0].split('\n')
    ctx.check(len(lines) == len(want), 'one line per quantity', detail=text[0] if not ctx.symbolic else '')
    for line, (name, val, err) in zip(lines, want):
        m = re.match(r'\$\\mathregular\{(.*)\}\$ = (.*)$', line)
        ctx.check(m is not None, 'a label and a value')
        if m is None:
            continue
        tag = name if '_' in name else '%s_{%s}' % (name, LETTERS[i])
        ctx.check(m.group(1) == tag, 'label of the planet', detail=m.group(1))
        w = m.group(2).split()
        check_printed(ctx, w[0], val, 'printed value of ' + name)
        ctx.check((r'\pm' in m.group(2)) == (err is not None), 'an uncertainty if there is one')
        if err is not None and len(w) > 2:
            check_printed(ctx, w[2], err, 'printed uncertainty of ' + name)


def summaries(derived, status, zero):
    """annotations from summaries: each number of its own planet"""
    def h(ctx):
        reading(ctx)
        rec = Recorder(ctx)
        npl = 2
        fit = Fit(ctx, 'per tc e w k', npl, [('_x', 1)])
        real_sig, real_round = U.sigfig, U.round_sig

        def sigfig(med, err, errhigh=None):
            return ctx.uf('digits', med, err, fn=lambda m, e: float(real_sig(float(m), float(e))[0])), err, err
        ctx.stub(O, 'sigfig', sigfig)
        ctx.stub(U, 'sigfig', sigfig)
        ctx.stub(U, 'round_sig', lambda x, sig=2: ctx.uf('round', x, fn=lambda x: float(real_round(float(x)))))
        med, err = {}, {}
        for i in (1, 2):
            for k in ('per', 'k', 'e'):
                med[k + str(i)] = ctx.real('med_%s%d' % (k, i), sample=(0.1, 9))
                err[k + str(i)] = 0.0 if zero == k else ctx.real('unc_%s%d' % (k, i), 1e-3, None, sample=(0.01, 1))
        fit.post.medparams = med
        want = {i: [(t, sigfig(med[k + str(i)], err[k + str(i)])[0] if zero != k else med[k + str(i)], err[k + str(i)] if zero != k else None)
                    for t, k in (('P', 'per'), ('K', 'k'), ('e', 'e'))] for i in (1, 2)}
        st = None
        if derived:
            q = {}
            heavy = ctx.choice('heavy', 2)
            for i in (1, 2):
                q[i] = [ctx.real('der%d_%d' % (i, j), sample=(1 + j, 2 + j)) for j in range(3)]
                ctx.assume(sand(q[i][0] < q[i][1], q[i][1] < q[i][2]))
                fac = 0.00315 if heavy == i - 1 and status else 1
                e = ((q[i][1] * fac - q[i][0] * fac) + (q[i][2] * fac - q[i][1] * fac)) / 2
                if status:
                    e = U.round_sig(e)
                else:
                    err['mpsini%d' % i] = ctx.real('unc_m%d' % i, 1e-3, None, sample=(0.01, 1))
                    e = U.round_sig(err['mpsini%d' % i])
                ctx.assume(e > 1e-3)
                want[i].append(((r'M_%s\sin i' % LETTERS[i]) if status else 'mpsini_%d' % i, sigfig(q[i][1] * fac, e)[0], e))
            fit.post.derived = pd.DataFrame({'mpsini%d' % i: pd.Series(q[i], index=[0.159, 0.5, 0.841], dtype=object if ctx.symbolic else float) for i in (1, 2)})
            fit.post.planet_letters = LETTERS
            if status:
                chain = pd.DataFrame({'mpsini%d' % (i + 1): [300.0, 310.0, 320.0] if i == heavy else [1.0, 2.0, 3.0] for i in range(2)})
                ctx.stub(pd, 'read_csv', lambda f, **k: chain.copy() if f == 'derived.csv' else None)
                st = {'derive': {'chainfile': 'derived.csv'}}
        p = O.MultipanelPlot(fit.post, epoch=EPOCH, uparams=err, status=st)
        fig, axes = p.plot_multipanel()
        for i in (1, 2):
            w = [(x[0].replace('mpsini_', 'mpsini'), x[1], x[2]) for x in want[i]]
            annotated_as(ctx, rec, axes[1 + i], i, w)
    return h


def annotated_as(ctx, rec, ax, i, want):
    tags = [n if n in 'PKe' else n for n, v, e in want]
    text = [t for t in rec.texts(ax) if ' = ' in t]
    ctx.check(len(text) == 1, 'one annotation')
    lines = text[0].split('\n') if text else []
    ctx.check(len(lines) == len(want), 'one line per quantity')
    for line, tag, (name, val, err) in zip(lines, tags, want):
        m = re.match(r'\$\\mathregular\{(.*)\}\$ = (.*)$', line)
        ctx.check(m is not None and m.group(1) == (tag if tag not in 'PKe' else '%s_{%s}' % (tag, LETTERS[i])), 'label of the planet')
        if m is None:
            continue
        w = m.group(2).split()
        check_printed(ctx, w[0], val, 'printed value of ' + name)
        ctx.check((r'\pm' in m.group(2)) == (err is not None), 'an uncertainty if there is one')
        if err is not None and len(w) > 2:
            check_printed(ctx, w[2], err, 'printed uncertainty of ' + name)


def gp_panels(insts, gp, separate=False, no_mean=False, no_orbit=False, times=1, nophase=False, npl=1, split=False):
    def h(ctx):
        reading(ctx)
        rec = Recorder(ctx)
        fit = Fit(ctx, 'per tc e w k', npl, insts, gp=gp)
        p = O.GPMultipanelPlot(fit.post, epoch=EPOCH, subtract_gp_mean_model=no_mean, subtract_orbit_model=no_orbit, plot_likelihoods_separately=separate, separate_orbit_gp=split)
        for turn in range(times):
            rec.calls[:] = []
            p.ax_list = []
            ngrid = len(rec.grids)
            fig, axes = p.plot_multipanel(nophase=nophase)
            nseries = len(insts) if separate else 1
            ctx.check(len(axes) == nseries + 1 + (0 if nophase else npl), 'the panels asked for')
            y = lambda r: fit.observed(*r[:3]) - (fit.signal(r[1]) if no_orbit else 0) - (fit.noise(0, r[0], r[1]) if no_mean and r[0] in gp else 0)      # noqa: E731
            grids = rec.grids[ngrid:]
            for j, (s, n) in enumerate(insts):
                ax = axes[j] if separate else axes[0]
                fit.check_points(rec, ax, lambda r: r[1] - EPOCH, y, 'series', only=(s,))
                if s not in gp:
                    continue
                T = [r[1] for r in fit.rows if r[0] == s]
                k = [x for x, _ in insts if x in gp].index(s)
                ctx.check(len(grids) == len(gp), 'one band per Gaussian process')
                if len(grids) != len(gp):
                    break
                lo, hi = grids[k]
                ctx.check(sand(*[sand(lo <= t, hi >= t) for t in T]), 'the band covers the measurements of the instrument')
                grid = [lo + (hi - lo) * 0.25, hi]
                bands = [a for a, _ in rec.on(ax, 'fill_between')]
                ctx.check(len(bands) == (1 if separate else len(gp)), 'one band per Gaussian process')
                band = bands[0 if separate else k]
                lines = [a for a, _ in rec.on(ax, 'plot')]
                if split:
                    line = lines[3 * (0 if separate else k) + 2]
                    parts = lines[3 * (0 if separate else k):][:2]
                else:
                    line, parts = [a for a in lines if len(a[0]) == 2][0 if separate else j], None
                for i, t in enumerate(grid):
                    mid = (0 if no_orbit else fit.signal(t)) + (0 if no_mean else fit.noise(0, s, t))
                    sd = fit.noise(1, s, t)
                    ctx.check_eq(band[0][i], t - EPOCH, 'band: time')
                    ctx.check_eq(band[1][i], mid - sd, 'band: lower edge')
                    ctx.check_eq(band[2][i], mid + sd, 'band: upper edge')
                    ctx.check_eq(line[0][i], t - EPOCH, 'curve: time')
                    ctx.check_eq(line[1][i], mid, 'curve: orbit and mean of the process')
                    if parts and not no_mean:
                        ctx.check_eq(parts[0][1][i], fit.noise(0, s, t), 'curve of the process')
                        ctx.check_eq(parts[1][1][i], 0 if no_orbit else fit.signal(t), 'curve of the orbit')
            fit.check_points(rec, axes[nseries], lambda r: r[1] - EPOCH, lambda r: fit.residual(*r[:3]), 'residuals')
            for i in range(1, npl + 1):
                if not nophase:
                    fit.check_points(rec, axes[nseries + i], [lambda r: None, lambda r: None], lambda r: fit.residual(*r[:3]) + fit.curve(i, r[1]), 'folded %d' % i)
    return h


def binned(n, nobin):
    """averages of a phase plot: of every measurement, next to the measurements"""
    def h(ctx):
        reading(ctx)
        rec = Recorder(ctx)
        fit = Fit(ctx, 'per tc e w k', 1, [('_x', n)], few=True)
        p = O.MultipanelPlot(fit.post, epoch=EPOCH, nobin=nobin)
        fig, axes = p.plot_multipanel()
        own = lambda r: fit.residual(*r[:3]) + fit.curve(1, r[1])                         # noqa: E731
        pts = [(a, k) for a, k in rec.on(axes[2], 'errorbar') if k.get('label', '').split('\n')[0] != 'x']
        shows = n >= 20 and not nobin
        ctx.check(len(pts) == (1 if shows else 0), 'averages from 20 measurements on, unless they are not wanted')
        if not shows or len(pts) != 1:
            return
        x, y, e = list(pts[0][0][0]), list(pts[0][0][1]), list(pts[0][1]['yerr'] if 'yerr' in pts[0][1] else pts[0][0][2])
        found = [b for b in rec.binned if ctx.decide_bool(b[2][1] == y[0])]
        ctx.check(len(found) == 1, 'averages come from the measurements')
        bx, by, out = found[0]
        ctx.check_all_eq(by, [own(r) for r in fit.rows] * 2, 'averaged velocities')
        for i, v in enumerate(bx[:n]):
            ctx.check_eq(bx[i + n], v + 1, 'phases of the averaged velocities')
        for i in (0, 1, n - 1):
            per, tc = fit.orbits[0]['per'], define(fit.orbits[0], 'tc')
            f = (fit.rows[i][1] - tc) / per
            ctx.assume(sand(f - F.floor(f) > 1e-7, f - F.floor(f) < 1 - 1e-7))
            is_phase(ctx, bx[i], fit.rows[i][1], tc, per, 'phases of the averaged velocities')
        ctx.check_eq(x[0], out[0] - 1, 'phase of an average')
        ctx.check_eq(e[0], out[2], 'error bar of an average')
    return h


def refused_without_gp(ctx):
    Recorder(ctx)
    fit = Fit(ctx, 'per tc e w k', 1, [('_x', 1)])
    try:
        O.GPMultipanelPlot(fit.post, epoch=EPOCH)
        ctx.check(False, 'a figure of a Gaussian process needs one')
    except AssertionError:
        pass


# --- samples -------------------------------------------------------------------

def chain_post(ctx, npl=1):
    P = radvel.Parameters(npl, basis='per tc e w k', planet_letters=LETTERS)
    for k in list(P) + ['dvdt', 'curv', 'gamma_x', 'jit_x', 'my_own']:
        P[k] = radvel.Parameter(value=1.0, vary=ctx.decide_bool(ctx.boolean('free_' + k)) if k in ('per1', 'k1', 'dvdt', 'my_own') else k in ('gamma_x', 'w1'))
    return types.SimpleNamespace(params=P), [k for k in P if P[k].vary]


NAMED = {'dvdt': r'$\dot{\gamma}$', 'curv': r'$\ddot{\gamma}$', 'gamma_x': r'$\gamma_{\rm x}$', 'jit_x': r'$\sigma_{\rm x}$', 'my_own': 'my_own'}


def tex(k):
    return NAMED.get(k) or '$%s_{%s}$' % (TEX[k[:-1]], LETTERS[int(k[-1])])


def corner_plot(ctx):
    Recorder(ctx)
    post, free = chain_post(ctx)
    obj = object if ctx.symbolic else float
    rows = 2
    cols = {k: ctx.reals('c_' + k, rows) for k in free[::-1] + ['lnprobability']}
    chain = pd.DataFrame({k: pd.Series(v, dtype=obj) for k, v in cols.items()})
    got = []
    ctx.stub(M.corner, 'corner', lambda data, **k: got.append((data, k)))
    M.CornerPlot(post, chain).plot()
    ctx.check(len(got) == 1, 'one figure')
    data, kw = got[0]
    ctx.check(sorted(data.columns) == sorted(free), 'every free parameter and nothing else')
    ctx.check(list(kw['labels']) == [tex(k) for k in data.columns], 'labels in the order of the columns')
    for k in data.columns:
        ctx.check_all_eq(list(data[k]), cols[k], 'samples of ' + k)
    ctx.check(list(kw.get('quantiles', [])) == [0.16, 0.5, 0.84], 'one-sigma quantiles')


def derived_corner(heavy, radii):
    """derived quantities of the planets that have them, masses in Jupiter masses above 100 Earth masses"""
    def h(ctx):
        reading(ctx)
        Recorder(ctx)
        obj, rows = object if ctx.symbolic else float, 2
        want, cols = [], {}
        for i in (1, 2):
            for k, name, unit in (('mpsini', r'$M_%s\sin i$', r'M$_{\oplus}$'), ('rhop', r'$\rho_%s$', 'g cm$^{-3}$'), ('a', '$a_%s$', 'AU')):
                if k == 'rhop' and i not in radii:
                    continue
                lo, hi = ((101, 900) if i == heavy else (0.1, 99)) if k == 'mpsini' else (0.1, 20)
                v = cols['%s%d' % (k, i)] = [ctx.real('%s%d_%d' % (k, i, r), lo, hi, sample=(lo, hi)) for r in range(rows)]
                big = k == 'mpsini' and i == heavy
                want.append((name % LETTERS[i], r'M$_{\rm Jup}$' if big else unit, [x * 0.00315 for x in v] if big else v))
        chain = pd.DataFrame({k: pd.Series(cols.get(k, [0.5] * rows), dtype=obj) for k in ['lnprobability', 'musini1'] + sorted(cols)})
        got = []
        ctx.stub(M.corner, 'corner', lambda data, **k: got.append((data, k)))
        M.DerivedPlot(chain, types.SimpleNamespace(nplanets=2, planet_letters=LETTERS)).plot()
        ctx.check(len(got) == 1, 'one figure')
        data, kw = got[0]
        labels = [re.sub(r'\s+', ' ', x).replace('[ ', '[') for x in kw['labels']]
        ctx.check(len(labels) == len(data.columns) == len(want), 'every derived quantity and nothing else', detail=repr(labels))
        for name, unit, v in want:
            text = '%s [%s]' % (name, unit)
            ctx.check(labels.count(text) == 1, 'a column for ' + text, detail=repr(labels))
            if labels.count(text) == 1 and len(labels) == len(data.columns):
                ctx.check_all_eq(list(data[data.columns[labels.index(text)]]), v, 'samples of ' + text)
        for k in cols:
            ctx.check_all_eq(list(chain[k]), cols[k], 'the chain is left alone')
    return h


def trend_plot(nw, ne, ns):
    """one line per walker and ensemble, in order of steps"""
    def h(ctx):
        rec = Recorder(ctx)
        post, free = chain_post(ctx)
        obj = object if ctx.symbolic else float
        # rows of a chain as the sampler writes them: walker, ensemble, step
        cols = {k: ctx.reals('c_%s_' % k, nw * ne * ns) for k in free}
        chain = pd.DataFrame({k: pd.Series(v, dtype=obj) for k, v in cols.items()})
        pages = []

        class Pdf(object):
            def __init__(self, f):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def savefig(self, *a, **k):
                ax = pl.gca()
                pages.append((ax.get_ylabel(), [list(a[1] if len(a) > 1 and not isinstance(a[1], str) else a[0]) for a, _ in rec.on(ax, 'plot')]))
        ctx.stub(M, 'PdfPages', Pdf)
        M.TrendPlot(post, chain, nw, ne, 'out.pdf').plot()
        ctx.check(sorted(p[0] for p in pages) == sorted(tex(k) for k in free), 'one page per free parameter')
        for k in free:
            for lab, lines in pages:
                if lab == tex(k):
                    want = [cols[k][(w * ne + e) * ns:][:ns] for w in range(nw) for e in range(ne)]
                    ctx.check(len(lines) == len(want) and all(len(a) == ns for a in lines), 'one line per walker and ensemble')
                    if len(lines) == len(want):
                        for a, b in zip(lines, want):
                            ctx.check_all_eq(a, b, 'steps of one walker')
    return h


def auto_plot(ctx):
    rec = Recorder(ctx)
    n = 2
    obj = object if ctx.symbolic else float
    cols = {k: [ctx.real('%s%d' % (k, i), 0, None, open_lo=True, sample=(1, 50)) for i in range(n)] for k in ('autosamples', 'automin', 'automean', 'automax')}
    f = ctx.real('factor', 0, None, open_lo=True, sample=(10, 80))
    auto = pd.DataFrame(dict({k: pd.Series(v, dtype=obj) for k, v in cols.items()}, factor=pd.Series([f] * n, dtype=obj)))
    ctx.stub(pd.Series, 'min', lambda s, *a, **k: radvel.plot.np.min(s.to_numpy()))
    ctx.stub(pd.Series, 'max', lambda s, *a, **k: radvel.plot.np.max(s.to_numpy()))
    if ctx.symbolic:
        reading(ctx)
    M.AutoPlot(auto).plot()
    got = {k['label'].split()[0]: a for _, nme, a, k in rec.calls if nme == 'scatter'}
    ctx.check(set(got) == {'Minimum', 'Mean', 'Maximum'}, 'three series')
    for k, c in (('Minimum', 'automin'), ('Mean', 'automean'), ('Maximum', 'automax')):
        ctx.check_all_eq(list(got[k][0]), cols['autosamples'], 'steps')
        ctx.check_all_eq(list(got[k][1]), cols[c], c)
    (line,) = [a for _, nme, a, k in rec.calls if nme == 'plot']
    ctx.check_all_eq(list(line[0]), cols['autosamples'], 'criterion: steps')
    for i in range(n):
        ctx.check_eq(line[1][i] * f, cols['autosamples'][i], 'criterion')


def cases(tier):
    q = tier == 'quick'
    A, AB = [('_x', 2)], [('_x', 1), ('_y', 1)]
    out = [Case('panels 1 planet', panels('per tc e w k', 1, A)),
           Case('panels 2 instruments', panels('per tp e w k', 1, AB)),
           Case('panels 2 planets', panels('per tc e w k', 2, [('_x', 1)])),
           Case('panels no planet', panels('per tc e w k', 0, AB)),
           Case('panels fitting parameters', panels('per tc secosw sesinw logk', 1, [('_x', 1)])),
           Case('panels relative times', panels('per tc e w k', 1, [('_x', 1)], epoch=2450000)),
           Case('panels scatter', panels('per tc e w k', 1, [('_x', 2), ('_y', 1)], rms=True, nophase=True)),
           Case('panels limits', panels('per tc e w k', 1, [('_x', 1)], xlim=[-90.0, -70.0])),
           Case('panels without letters', panels('per tc e w k', 1, [('_x', 1)], letters=False)),
           Case('panels labels', panels('per tc e w k', 0, [('_x', 1), ('_k', 1)], telfmts={'x': dict(fmt='s', label='Seen by X')}, names={'Seen by X': 'x', 'HIRES pre 2004': 'k'})),
           Case('panels last marked', panels('per tc e w k', 1, AB, highlight=True))]
    for d, s, z in ((False, False, None), (False, False, 'e'), (True, True, None), (True, False, None)):
        out.append(Case('annotation%s%s%s' % (' derived' * d, ' status' * s, ' fixed %s' % z if z else ''), summaries(d, s, z)))
    out += [Case('binned 20', binned(20, False)), Case('binned 19', binned(19, False)), Case('binned 20 off', binned(20, True))]
    out += [Case('process', gp_panels(A, ('_x',))),
            Case('process twice', gp_panels(AB, ('_x', '_y'), times=2, nophase=True)),
            Case('process, other instrument without', gp_panels([('_y', 1), ('_x', 1)], ('_x',))),
            Case('process separate panels', gp_panels(AB, ('_x', '_y'), separate=True)),
            Case('process separate panels twice', gp_panels(AB, ('_x', '_y'), separate=True, times=2, nophase=True)),
            Case('process mean subtracted', gp_panels(AB, ('_x', '_y'), no_mean=True, nophase=True)),
            Case('process orbit subtracted', gp_panels(AB, ('_x', '_y'), no_orbit=True, nophase=True)),
            Case('process and orbit apart', gp_panels(A, ('_x',), split=True, nophase=True)),
            Case('process missing', refused_without_gp, expect_reach=False)]
    out += [Case('corner', corner_plot), Case('trends 2 2 2', trend_plot(2, 2, 2)), Case('trends 3 1 2', trend_plot(3, 1, 2)), Case('autocorrelation', auto_plot)]
    out += [Case('derived 1 radius', derived_corner(None, (2,))), Case('derived heavy', derived_corner(2, (1, 2)))]
    if not q:
        out += [Case('panels 3 points', panels('per tc e w k', 1, [('_x', 3)])), Case('panels 2 planets 2 instruments', panels('per tc e w k', 2, AB)),
                Case('trends 3 2 2', trend_plot(3, 2, 2))]
    return out
