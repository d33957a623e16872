"""GP kernels."""
import itertools
import math

import radvel.gp
import scipy.spatial.distance

from .common import *

EXPLANATION = ('compute_distances and compute_covmatrix of the three kernels run on symbolic times, hyperparameters and errors (SciPy pairwise distances are replaced by their '
               'definition); every entry is compared with the documented formula, symmetry and the diagonal error term included, before and after a second set of times and values.')
BOUNDS = '1-3 points against 1-3 points, all real times, hyperparameters and errors; every order in which hyperparameters can be declared, with and without suffix'
OUTSIDE = 'numerical accuracy of SciPy distances; entries below exp(-100) of the amplitude, only bounded'


def cdist(ctx):
    def f(a, b, metric='euclidean'):
        out = np.empty((len(a), len(b)), dtype=object)
        for i in range(len(a)):
            for j in range(len(b)):
                d = a[i][0] - b[j][0]
                out[i, j] = d * d if metric == 'sqeuclidean' else F.abs(d)
        return out
    if ctx.symbolic:
        ctx.stub(scipy.spatial.distance, 'cdist', f)


HYPER = {'SqExp': ['gp_length', 'gp_amp'], 'Per': ['gp_per', 'gp_length', 'gp_amp'], 'QuasiPer': ['gp_per', 'gp_perlength', 'gp_explength', 'gp_amp']}


def entry(name, h, ti, tj):
    dt = F.abs(ti - tj)
    A = h['gp_amp'] * h['gp_amp']
    if name == 'SqExp':
        return A * F.exp(-dt * dt / (h['gp_length'] * h['gp_length']))
    s = F.sin(PI * dt / h['gp_per'])
    if name == 'Per':
        return A * F.exp(-s * s / (2 * h['gp_length'] * h['gp_length']))
    return A * F.exp(-dt * dt / (h['gp_explength'] * h['gp_explength']) - s * s / (2 * h['gp_perlength'] * h['gp_perlength']))


def draw(ctx, name, tag=''):
    h = {}
    for k in HYPER[name]:
        if name == 'QuasiPer' or k == 'gp_per':
            h[k] = ctx.real(k + tag, 0, None, open_lo=True, sample=(0.4, 3) if k != 'gp_explength' else (2, 5))
        else:
            h[k] = ctx.real(k + tag, nonzero=True, sample=(0.4, 3))
    return h


def moderate(ctx, name, h, ts):
    """exponents within the range that is not clamped"""
    if name != 'QuasiPer':
        return
    ctx.assume(200 * h['gp_perlength'] * h['gp_perlength'] >= 1)
    for a, b in itertools.combinations(ts, 2):
        ctx.assume((a - b) * (a - b) <= 100 * h['gp_explength'] * h['gp_explength'])


def compare(ctx, name, K, h, t1, t2, errors, label):
    ctx.check(np.shape(K) == (len(t1), len(t2)), label + ': shape')
    for i in range(len(t1)):
        for j in range(len(t2)):
            want = entry(name, h, t1[i], t2[j])
            if errors is not None and i == j:
                want = want + errors[i] * errors[i]
            ctx.check_eq(K[i][j], want, label + ': entry')
            if len(t1) == len(t2) and all(a is b for a, b in zip(t1, t2)):
                ctx.check_eq(K[i][j], K[j][i], label + ': symmetric')


def kernel(name, n, m, order, suffix='', square=False):
    def h(ctx):
        cdist(ctx)
        hp = draw(ctx, name)
        pars = {k + suffix: radvel.Parameter(value=hp[k]) for k in order}
        kern = getattr(radvel.gp, name + 'Kernel')(pars)
        t1 = ctx.reals('t', n)
        t2 = t1 if square else ctx.reals('s', m)
        moderate(ctx, name, hp, t1 + ([] if square else t2))
        a1, a2 = ctx.array(t1), ctx.array(t2)
        kern.compute_distances(a1, a1 if square else a2)
        err = [ctx.real('err%d' % i, 0, None, sample=(0.2, 2)) for i in range(n)] if square else None
        for turn in range(2):
            K = kern.compute_covmatrix(ctx.array(err) if square else 0.)
            compare(ctx, name, K, hp, t1, t2, err, 'covariance')
            ctx.check(kern.covmatrix is K or np.shape(kern.covmatrix) == np.shape(K), 'stored')
            compare(ctx, name, kern.covmatrix, hp, t1, t2, err, 'stored covariance')
        K = kern.compute_covmatrix(0.)
        compare(ctx, name, K, hp, t1, t2, None, 'without errors')
        ctx.check_all_eq(a1, t1, 'times unchanged')
        if square:
            s = ctx.real('scalar_err', 0, None, sample=(0.2, 2))
            compare(ctx, name, kern.compute_covmatrix(s), hp, t1, t2, [s] * n, 'scalar error')
            ctx.check_all_eq([pars[k].value for k in pars], [hp[k] for k in order], 'hyperparameters unchanged')
        # new hyperparameter values are seen
        if n * m <= 4:
            new = draw(ctx, name, '_new')
            moderate(ctx, name, new, t1 + ([] if square else t2))
            for k in order:
                pars[k + suffix].value = new[k]
            compare(ctx, name, kern.compute_covmatrix(ctx.array(err) if square else 0.), new, t1, t2, err, 'new hyperparameters')
    return h


def off(which, n, m):
    """a hyperparameter of zero switches the kernel off"""
    def h(ctx):
        cdist(ctx)
        hp = draw(ctx, 'QuasiPer')
        pars = {k: radvel.Parameter(value=hp[k]) for k in hp}
        kern = radvel.gp.QuasiPerKernel(pars)
        t1 = ctx.reals('t', n)
        t2 = t1 if n == m else ctx.reals('s', m)
        moderate(ctx, 'QuasiPer', hp, t1 + t2)
        kern.compute_distances(ctx.array(t1), ctx.array(t2))
        kern.compute_covmatrix(0.)
        pars[which].value = 0.0
        err = [ctx.real('err%d' % i, 0, None, sample=(0.2, 2)) for i in range(n)]
        K = kern.compute_covmatrix(ctx.array(err) if n == m else 0.)
        for M, label in ((K, 'returned'), (kern.covmatrix, 'stored')):
            ctx.check(np.shape(M) == (n, m), 'shape ' + label)
            for i in range(n):
                for j in range(m):
                    ctx.check_eq(M[i][j], err[i] * err[i] if i == j and n == m else 0.0, 'noise only ' + label)
    return h


def unusable(which):
    def h(ctx):
        cdist(ctx)
        for bad in ('negative', 'nan', 'inf'):
            hp = draw(ctx, 'QuasiPer', '_' + bad)
            pars = {k: radvel.Parameter(value=hp[k]) for k in hp}
            pars[which].value = {'negative': -hp[which], 'nan': float('nan'), 'inf': float('inf')}[bad]
            kern = radvel.gp.QuasiPerKernel(pars)
            t = ctx.reals('t', 2)
            kern.compute_distances(ctx.array(t), ctx.array(t))
            try:
                kern.compute_covmatrix(0.)
                ctx.check(False, 'refused')
            except ValueError:
                ctx.check(True, 'refused')
    return h


def far(ctx):
    """clamped exponents: no more than exp(-100) of the amplitude squared"""
    cdist(ctx)
    hp = draw(ctx, 'QuasiPer')
    pars = {k: radvel.Parameter(value=hp[k]) for k in hp}
    kern = radvel.gp.QuasiPerKernel(pars)
    t, s = ctx.real('t'), ctx.real('s')
    kern.compute_distances(ctx.array([t]), ctx.array([s]))
    K = kern.compute_covmatrix(0.)[0][0]
    A = hp['gp_amp'] * hp['gp_amp']
    x = (t - s) * (t - s) / (hp['gp_explength'] * hp['gp_explength'])
    sn = F.sin(PI * F.abs(t - s) / hp['gp_per'])
    y = sn * sn / (2 * hp['gp_perlength'] * hp['gp_perlength'])
    # clamped: an exponent stays at or below -100
    one = math.exp(-100) if ctx.decide_bool(x > 100) else F.exp(-x)
    two = math.exp(-100) if ctx.decide_bool(y > 100) else F.exp(-y)
    ctx.check_eq(K, A * (one * two), 'documented entry')


def wrong_number(ctx):
    for name in HYPER:
        hp = draw(ctx, name)
        for drop in hp:
            pars = {k: radvel.Parameter(value=hp[k]) for k in hp if k != drop}
            try:
                getattr(radvel.gp, name + 'Kernel')(pars)
                ctx.check(False, 'missing hyperparameter refused')
            except (AssertionError, KeyError):
                ctx.check(True, 'missing hyperparameter refused')


def cases(tier):
    q = tier == 'quick'
    out = []
    for name in HYPER:
        orders = list(itertools.permutations(HYPER[name]))
        for i, o in enumerate(orders):
            if q and i % 5 and name == 'QuasiPer':
                continue
            out.append(Case('%s order %s' % (name, ' '.join(o)), kernel(name, 2, 1, o, ['', '_j', '_harps'][i % 3])))
        for n, m in ((1, 2), (2, 3), (3, 1)) if q else ((1, 2), (2, 3), (3, 2), (3, 1), (4, 2)):
            out.append(Case('%s %d by %d' % (name, n, m), kernel(name, n, m, HYPER[name], '_x')))
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            out.append(Case('%s %d square' % (name, n), kernel(name, n, n, HYPER[name], '', True)))
    for k in HYPER['QuasiPer']:
        out.append(Case('unusable ' + k, unusable(k)))
        out.append(Case('off %s square' % k, off(k, 2, 2)))
        out.append(Case('off %s oblong' % k, off(k, 2, 3)))
    out.append(Case('far apart', far))
    out.append(Case('missing hyperparameter', wrong_number))
    return out
