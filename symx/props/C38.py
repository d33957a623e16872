"""What is printed about a fit."""
import re
import types

import radvel.likelihood
import radvel.posterior
import radvel.prior

from .common import *

EXPLANATION = ('repr()/print of likelihoods, posteriors, parameters and priors runs on symbolic values with every number written as a token as wide as a number printed in that format can '
               'be; the text is split into rows again and z3 decides that each row holds the current value, uncertainty and flag of the parameter it names.')
BOUNDS = 'every parameterisation with one planet, 2 planets in two of them, one or two instruments, with and without uncertainties; all real values, times below or above 10^6'
OUTSIDE = 'digits beyond the six that are shown'
WIDE = 12           # -1.23457e-05


def wide(ctx):
    """numbers in the text take all the room their format can need"""
    reading(ctx)
    if not ctx.symbolic:
        return
    from ..sym import SymReal
    from .. import state
    old = SymReal.__format__

    def fmt(self, spec):
        s = old(self, spec)
        m = re.fullmatch(r'\s*[<>^]?(\d*)g\s*', spec)
        if m:
            s = s.ljust(WIDE, '~').rjust(int(m.group(1) or 0))
        return s
    ctx.stub(SymReal, '__format__', fmt)


def value(ctx, text):
    return number(ctx, text.replace('~', ''))


def check_row(ctx, text, want, label, angle=False, scale=0):
    try:
        v, res = value(ctx, text)
    except (ValueError, IndexError):
        ctx.check(False, label + ': a number')
        return
    tol = 0 if ctx.symbolic else 1.01e-5 * abs(want) + 1e-9 + 1e-12 * scale + (0.5 * res if res < 1 else 0)
    if angle:
        ctx.check(sand(F.abs(F.sin(v) - F.sin(want)) <= tol, F.abs(F.cos(v) - F.cos(want)) <= tol), label)
    else:
        ctx.check(F.abs(v - want) <= tol, label)


def rows(text):
    out = []
    for line in text.splitlines()[1:]:
        c = line.split()
        if c:
            out.append(c)
    return out


def summary(basis, npl, instruments, posterior, errors, late):
    def h(ctx):
        base = 2450000 if late else 0
        orbits = []
        for i in range(1, npl + 1):
            o = draw_orbit(ctx, i)
            if late:
                o['tp'] = o['tp'] + base
            orbits.append(o)
        tb = ctx.real('time_base', sample=(-20, 20)) + base
        P = radvel.Parameters(npl, basis=basis)
        for k in P:
            P[k] = radvel.Parameter(value=ctx.real('old_' + k, 0.5, 2))
        model = radvel.RVModel(P, time_base=tb)
        suffixes = ['_j', '_h'][:instruments]
        truth = {}
        for n in ['dvdt', 'curv'] + [a + s for s in suffixes for a in ('gamma', 'jit')]:
            P[n] = radvel.Parameter(value=ctx.real('old_' + n))
            truth[n] = ctx.real(n, sample=(-300, 300))
        for i, o in enumerate(orbits, 1):
            for n in basis.split():
                truth['%s%d' % (n, i)] = define(o, n)
        for j, k in enumerate(P):
            P[k].vary = j % 3 != 1
        model = radvel.RVModel(P, time_base=tb)
        likes = [radvel.likelihood.RVLikelihood(model, [1.0, 2.5], [3.0, 4.0], [1.0, 2.0], suffix=s) for s in suffixes]
        fit = likes[0] if instruments == 1 else radvel.likelihood.CompositeLikelihood(likes)
        flags = {k: bool(P[k].vary) for k in P}
        order = list(fit.params)
        if posterior:
            fit = radvel.posterior.Posterior(fit)
        # the values printed are the ones the fit has reached
        fit.vector.dict_to_vector()
        fit.list_vary_params()
        free = list(fit.name_vary_params())
        fit.set_vary_params([truth[k] for k in free])
        for k in truth:
            if k not in free:
                fit.vector.vector[fit.vector.indices[k]][0] = truth[k]
        derived = {}
        for i, o in enumerate(orbits, 1):
            for n in 'per tp e w k'.split():
                if '%s%d' % (n, i) not in truth:
                    derived['%s%d' % (n, i)] = o[n]
        err = None
        if errors:
            some = [k for j, k in enumerate(list(truth) + list(derived)) if j % 4 != 3]
            err = {k: ctx.real('err_' + k, 0, None, open_lo=True, sample=(1e-6, 1e-4)) for k in some}
            fit.uparams = dict(err)
        wide(ctx)
        text = repr(fit)
        head = text.splitlines()[0].split()
        ctx.check(head == (['parameter', 'value', '+/-', 'vary'] if errors else ['parameter', 'value', 'vary']), 'what the columns are')
        body = text.split('\nPriors')[0]
        got = rows(body)
        names = [c[0] for c in got]
        ctx.check(sorted(names[:len(order)]) == sorted(order) and sorted(truth) == sorted(order), 'every parameter once, the fitted ones first')
        ctx.check(sorted(names[len(order):]) == sorted(derived), 'every derived orbital element once')
        if sorted(names) != sorted(list(truth) + list(derived)):
            return
        if posterior:
            ctx.check([l for l in text.split('\nPriors')[1].splitlines() if l.strip('- ')] == [], 'no priors listed when there are none')
        for c in got:
            k = c[0]
            want = truth[k] if k in truth else derived[k]
            o = orbits[int(k[-1]) - 1] if k[-1] in '12' else None
            scale = 0 if o is None or ctx.symbolic else abs(o['tp']) + o['per']
            isw = re.fullmatch(r'w\d', k) is not None
            if re.fullmatch(r't[cp]\d', k) and want > 1e6:
                want = want - tb
            width = (3 if errors else 2)
            ctx.check(len(c) == width + (1 if k in truth else 0), 'columns of ' + k)
            if len(c) < width:
                continue
            check_row(ctx, c[1], want, 'value of ' + k, angle=isw, scale=scale)
            if errors:
                if k in err:
                    check_row(ctx, c[2], err[k], 'uncertainty of ' + k)
                else:
                    ctx.check(c[2] == '0', 'no uncertainty known for ' + k)
            if k in truth:
                ctx.check(c[-1] == str(flags[k]), 'whether %s varies' % k)
        # printing changes nothing
        for k, v in truth.items():
            ctx.check_eq(fit.vector.vector[fit.vector.indices[k]][0], v, 'value of %s after printing' % k)
            ctx.check_eq(fit.params[k].value, v, 'parameter set agrees with the text on ' + k)
            ctx.check(bool(fit.params[k].vary) == flags[k] and bool(fit.vector.vector[fit.vector.indices[k]][1]) == flags[k], 'flag of %s after printing' % k)
        ctx.check(list(fit.params) == order, 'parameters after printing')
    return h


def has(line, name):
    return re.search(r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])' % re.escape(name), line) is not None


NUMBER = r'\[\[\d+\]\]|(?<![A-Za-z_0-9.])-?\d+\.?\d*(?:e[-+]?\d+)?'


def prior_list(ctx):
    pr = radvel.prior
    r = lambda n, lo=0.5, hi=9: ctx.real(n, lo, hi)
    a, b, c, d, e, f = [r('p%d' % i) for i in range(6)]
    q = [r('q%d' % i) for i in range(12)]
    for i in (0, 2, 4):
        ctx.assume(q[i] < q[i + 1])
    ctx.assume(q[6] < q[7])
    ctx.assume(q[7] < q[8])
    s = np.random.RandomState(1).normal(0, 1, (2, 40))
    # prior, parameters it names, numbers it shows, what its TeX form shows
    L = [(pr.Gaussian('k1', a, b), ['k1'], [a, b], r'$K_{b}$'),
         (pr.Gaussian('tc2', c, d), ['tc2'], [c, d], r'conj}_{c}'),
         (pr.HardBounds('secosw2', q[0], q[1]), ['secosw2'], [q[0], q[1]], r'\omega}_{c}'),
         (pr.Jeffreys('jit_j', q[2], q[3]), ['jit_j'], [q[2], q[3]], r'\sigma_{\rm j}'),
         (pr.Jeffreys('per1', q[4], q[5]), ['per1'], [q[4], q[5]], r'P_{b}'),
         (pr.ModifiedJeffreys('k2', q[7], q[8], q[6]), ['k2'], [q[6], q[7], q[8]], r'K_{c}'),
         (pr.NumericalPrior(['secosw1', 'sesinw1'], s), ['secosw1', 'sesinw1'], [], r'\sin{\omega}_{b}'),
         (pr.UserDefinedPrior(['per1', 'k2'], lambda v: 0, 'a prior of mine'), ['per1', 'k2'], [], 'a prior of mine'),
         (pr.InformativeBaselinePrior('logper1', e, f), ['logper1'], [e, f], None),
         (pr.SecondaryEclipsePrior(1, c, e), [], [c, e], 'secondary eclipse'),
         (pr.EccentricityPrior([2, 1], [a / 10, b / 10]), ['e2', 'e1'], [a / 10, b / 10], '$e_{c}$'),
         (pr.EccentricityPrior(2, d / 10 if ctx.symbolic else float(d / 10)), ['e1', 'e2'], [d / 10, d / 10], '$e_{b}$'),
         (pr.PositiveKPrior(2), ['K'], [], '$K$')]
    return L


def own_numbers(ctx, text, names, want, label):
    for n in names:
        text = text.replace(n, ' ')
    text = re.sub(r'\$[A-Za-z]*_\{[a-z]\}\$', ' ', text)
    got = re.findall(NUMBER, text)
    if len(got) < len(want):
        ctx.check(False, label + ': all shown')
        return
    # the limits may follow the name of their parameter or frame it
    for t, y in zip(got, want):
        v, _ = number(ctx, t)
        ctx.check_eq(v, y, label)


def listed(ctx):
    """the priors of a posterior, one after the other"""
    L = prior_list(ctx)
    P = radvel.Parameters(2, basis='per tc secosw sesinw k')
    for k in P:
        P[k] = radvel.Parameter(value=0.1)
    P['gamma_j'] = radvel.Parameter(value=1.0)
    P['jit_j'] = radvel.Parameter(value=1.0)
    model = radvel.RVModel(P, time_base=0)
    post = radvel.posterior.Posterior(radvel.likelihood.RVLikelihood(model, [1.0, 2.5], [3.0, 4.0], [1.0, 2.0], suffix='_j'))
    post.priors = [p for p, _, _, _ in L]
    wide(ctx)
    text = repr(post).split('\nPriors')[1]
    lines = [l for l in text.splitlines() if l.strip('- ')]
    at = 0
    for p, names, want, _ in L:
        n = len(names) if isinstance(p, radvel.prior.EccentricityPrior) else 1
        mine = lines[at:at + n]
        at += n
        label = 'prior %s on %s' % (type(p).__name__, ' '.join(names))
        ctx.check(len(mine) == n, label + ': listed')
        if len(mine) != n:
            return
        if n > 1:
            for line, name, y in zip(mine, names, want):
                ctx.check(has(line, name), label + ': on its own parameter')
                own_numbers(ctx, line, [name], [y], label + ': its own number')
        else:
            ctx.check(all(has(mine[0], m) for m in names), label + ': on its own parameter')
            own_numbers(ctx, mine[0], names, want, label + ': its own numbers')
    ctx.check(at == len(lines), 'nothing else listed')
    ctx.check(post.priors == [p for p, _, _, _ in L], 'priors after printing')


def tex(ctx):
    """the TeX form of each prior"""
    L = prior_list(ctx)
    wide(ctx)
    for p, names, want, part in L:
        if part is None:
            continue
        label = 'TeX of prior %s on %s' % (type(p).__name__, ' '.join(names))
        t = str(p)
        ctx.check(part in t, label + ': names its parameter')
        if isinstance(p, radvel.prior.EccentricityPrior):
            for line, name, y in zip(t.splitlines(), names, want):
                ctx.check('$e_{%s}$' % 'bc'[int(name[1]) - 1] in line, label + ': names its parameter')
                own_numbers(ctx, line, [], [y], label + ': its own number')
        else:
            own_numbers(ctx, t, [], want, label + ': its own numbers')


def unnamed(ctx):
    """parameters without a TeX name keep their own"""
    a, b = ctx.real('a', 0.5, 2), ctx.real('b', 3, 9)
    pr = radvel.prior
    L = [pr.Gaussian('mine', a, b), pr.HardBounds('mine', a, b), pr.Jeffreys('mine', a, b), pr.ModifiedJeffreys('mine', a, b, a / 2), pr.NumericalPrior(['mine'], np.random.RandomState(1).normal(0, 1, (1, 40)))]
    wide(ctx)
    for p in L:
        label = 'prior %s on a parameter of the user' % type(p).__name__
        want = [] if isinstance(p, pr.NumericalPrior) else [a / 2, a, b] if isinstance(p, pr.ModifiedJeffreys) else [a, b]
        for t in (str(p), repr(p)):
            ctx.check(has(t, 'mine'), label + ': names its parameter')
            own_numbers(ctx, t, ['mine'], want, label + ': its own numbers')


def parameter(ctx):
    v, s = ctx.real('v'), ctx.real('scale', 0.1, 9)
    for vary in (True, False):
        p = radvel.Parameter(value=v, vary=vary, mcmcscale=s)
        wide(ctx)
        t = repr(p)
        m = re.findall(r'(value|vary|mcmc scale)\s*=\s*([^,]+)', t)
        ctx.check([k for k, _ in m] == ['value', 'vary', 'mcmc scale'], 'what a parameter shows')
        d = dict(m)
        if len(d) == 3:
            ctx.check_eq(number(ctx, d['value'])[0], v, 'value of a parameter')
            ctx.check_eq(number(ctx, d['mcmc scale'])[0], s, 'scale of a parameter')
            ctx.check(d['vary'].strip() == str(vary), 'flag of a parameter')


def cases(tier):
    out = []
    two = ['per tc secosw sesinw k', 'logper tp e w logk']
    for i, b in enumerate(FIT_BASES):
        for late in (False, True):
            out.append(Case('summary %s%s' % (slug(b), ' julian dates' if late else ''), summary(b, 1, 1 + i % 2, i % 3 != 2, (i + late) % 2 == 0, late)))
            if tier == 'thorough':
                out.append(Case('summary other way %s%s' % (slug(b), ' julian dates' if late else ''), summary(b, 1, 2 - i % 2, i % 3 == 2, (i + late) % 2 == 1, late)))
    for b in two if tier == 'quick' else FIT_BASES:
        out.append(Case('summary two planets ' + slug(b), summary(b, 2, 2, True, True, False)))
    out += [Case('priors of a posterior', listed), Case('priors in TeX', tex), Case('priors on other parameters', unnamed), Case('parameter', parameter)]
    return out
