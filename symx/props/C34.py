"""Summaries of a chain and the tables of a report."""
import re
import types

import pandas as pd

import radvel.driver
import radvel.fitting
import radvel.posterior
import radvel.prior
import radvel.report
import radvel.utils
from .common import *
from .C33 import value

D, U, R = radvel.driver, radvel.utils, radvel.report

EXPLANATION = ('sampling_postprocessing and the real table code (templates included) run on chains, best-fit values, measurements and statistics that are symbolic; every number in the text is traced '
               'back to the expression it was printed from and z3 decides that it belongs to the row it stands in. Quantiles and rounding (C28) are unknown functions.')
BOUNDS = ('1-2 planets, 1-2 rows, nine fitting parameterisations, fixed and free elements, 1-3 instruments (names that extend one another included), 1-3 measurements, '
          '1-3 compared models with any statistics, every prior class with a printed form')
OUTSIDE = 'the typeset document; more than nine planets; the numerical rounding of the printed numbers (C28)'


def same(col):
    return all(x is col[0] or (hasattr(x, 'rf') and hasattr(col[0], 'rf') and x.rf.key() == col[0].rf.key()) or
               (not hasattr(x, 'rf') and not hasattr(col[0], 'rf') and x == col[0]) for x in col)


def stand_in(q, *v):
    """a skewed order statistic, for concrete runs"""
    return float(np.quantile(v, q)) + (0.2 * (max(v) - min(v)) if q > 0.8 else 0.0)


def quant(ctx, q, col):
    return col[0] if same(list(col)) else ctx.uf('quantile', q, *list(col), fn=stand_in)


def zero(x):
    if hasattr(x, 'rf'):
        return x.rf.is_const() and x.rf.const_value() == 0
    return x == 0


ANGULAR = [lambda *v: sum(v) / len(v), lambda *v: 0.11 + max(v) - min(v), lambda *v: 0.32 + 2 * (max(v) - min(v))]


def angle(ctx, col, i):
    """median and errors of an angle"""
    col = list(col)
    if same(col):
        return (col[0], 0.0, 0.0)[i]
    return ctx.uf('angular%d' % i, *col, fn=ANGULAR[i])


def numbers(ctx, equal_errors=None):
    """quantiles, rounding and angular summaries as unknown functions"""
    def quantile(self, q=0.5, **kw):
        return pd.DataFrame({c: [quant(ctx, x, list(self[c])) for x in q] for c in self.columns}, index=list(q), dtype=object if ctx.symbolic else float)
    ctx.stub(pd.DataFrame, 'quantile', quantile)
    ctx.stub(U, 'geterr', lambda vec, angular=False: tuple(angle(ctx, vec, i) for i in range(3)))
    real_round, real_sig = U.round_sig, U.sigfig

    def round_sig(x, sig=2):
        if zero(x):
            return 0.0
        r = ctx.uf('round%d' % sig, x, fn=lambda x: float(real_round(float(x), sig)))
        ctx.assume(r > 1e-3)
        return r

    def sigfig(med, errlow, errhigh=None):
        if errhigh is None or equal_errors is True:
            errhigh = errlow
        elif equal_errors is False and not (zero(errlow) and zero(errhigh)):
            ctx.assume(errhigh > errlow)
        return ctx.uf('digits', med, errlow, errhigh, fn=lambda m, a, b: float(real_sig(float(m), float(a), float(b))[0])), errlow, errhigh
    ctx.stub(U, 'round_sig', round_sig)
    ctx.stub(U, 'sigfig', sigfig)


def chain_rows(ctx, basis, npl, n, fixed, insts):
    P = radvel.Parameters(npl, basis=basis)
    vals, rows = {}, [{} for _ in range(n)]
    for k in [k + str(i) for i in range(1, npl + 1) for k in basis.split()] + ['dvdt', 'curv'] + [a + '_' + s for s in insts for a in ('gamma', 'jit')]:
        free = k not in fixed
        vals[k] = value(ctx, k, 'v_' + k)
        P[k] = radvel.Parameter(value=vals[k], vary=free)
        if free:
            for r in range(n):
                rows[r][k] = value(ctx, k, 's%d_%s' % (r, k))
    return P, vals, rows


def build(ctx, P, insts, priors=()):
    m = radvel.RVModel(P, time_base=17.0)
    likes = [radvel.likelihood.RVLikelihood(m, np.array([1.0, 2.0]) + 5 * j, np.array([0.5, 1.0]), np.array([1.0, 2.0]), suffix='_' + s) for j, s in enumerate(insts)]
    post = radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood(likes))
    post.priors += list(priors)
    return post


def frame(ctx, rows, extra=True):
    obj = object if ctx.symbolic else float
    d = {k: pd.Series([r[k] for r in rows], dtype=obj) for k in sorted(rows[0], reverse=True)}
    if extra:
        d = dict({'Unnamed: 0': list(range(len(rows)))}, **d, lnprobability=[-1.0 - r for r in range(len(rows))])
    return pd.DataFrame(d)


def converted(basis, npl, vals, target=None):
    """all orbital elements of a set of fitting values, one planet after the other"""
    P = radvel.Parameters(npl, basis=basis)
    for k in vals:
        P[k] = radvel.Parameter(value=vals[k])
    Q = P.basis.to_synth(P)
    if target:
        Q = Q.basis.from_synth(Q, target)
    return {k: Q[k].value for k in Q}


def summarised(basis, npl, n, fixed, insts=('a',)):
    def h(ctx):
        numbers(ctx)
        ctx.stub(radvel.kepler, 'rv_drive', rv_drive_stub(ctx))
        reading(ctx)
        P, vals, rows = chain_rows(ctx, basis, npl, n, fixed, insts)
        post = build(ctx, P, insts)
        chain = frame(ctx, rows, False)
        chain['lnprobability'] = [-1.0 - r for r in range(n)]
        keep = chain.copy()
        best = {k: (value(ctx, k, 'b_' + k) if k not in fixed else vals[k]) for k in vals}
        start = {}

        def fitted(p, *a, **k):
            v = p.vector
            for x in vals:
                start[x] = v.vector[v.indices[x]][0]
                v.vector[v.indices[x]][0] = best[x]
            v.vector_to_dict()
            return p
        ctx.stub(radvel.fitting, 'maxlike_fitting', fitted)
        out, summary, chain2 = D.sampling_postprocessing(post, chain)
        for k in vals:
            want = vals[k] if k in fixed else quant(ctx, 0.5, [r[k] for r in rows])
            ctx.check_eq(start[k], want, 'the final fit starts at the medians')
            ctx.check_eq(out.params[k].value, best[k], 'the posterior holds the best fit')
            ctx.check_eq(out.vector.vector[out.vector.indices[k]][0], best[k], 'the posterior holds the best fit')
        each = [converted(basis, npl, dict(vals, **r)) for r in rows]
        top = converted(basis, npl, best)
        ctx.check(set(out.medparams) == set(out.maxparams) == set(out.uparams) == set(top), 'every parameter is summarised')
        for k in top:
            if k not in out.medparams or k not in out.maxparams or k not in out.uparams:
                continue
            q = [quant(ctx, x, [e[k] for e in each]) for x in (0.159, 0.5, 0.841)]
            err = U.round_sig((q[2] - q[1] + q[1] - q[0]) / 2)
            ctx.check_eq(out.uparams[k], err, 'error of ' + k)
            med, mx = q[1], top[k]
            if not zero(err):
                med, mx = U.sigfig(med, err)[0], U.sigfig(mx, err)[0]
            ctx.check_eq(out.medparams[k], med, 'median of ' + k)
            ctx.check_eq(out.maxparams[k], mx, 'best value of ' + k)
        ctx.check(set(summary.columns) >= set(rows[0]), 'summary columns')
        for k in rows[0]:
            for x in (0.159, 0.5, 0.841):
                ctx.check_eq(summary[k][x], quant(ctx, x, [r[k] for r in rows]), 'summary of ' + k)
        ctx.check(list(chain2.columns) == list(keep.columns), 'the chain is unchanged')
        for k in keep:
            ctx.check_all_eq(list(chain2[k]), list(keep[k]), 'the chain is unchanged')
    return h


TEX = {'per': 'P', 'logper': r'\ln{P}', 'logk': r'\ln{K}', 'tc': r'T\rm{conj}', 'secosw': r'\sqrt{e}\cos{\omega}', 'sesinw': r'\sqrt{e}\sin{\omega}',
       'ecosw': r'e\cos{\omega}', 'esinw': r'e\sin{\omega}', 'e': 'e', 'w': r'\omega', 'tp': r'T\rm{peri}', 'k': 'K', 'se': 'se'}
UNIT = {'per': 'days', 'tp': 'JD', 'tc': 'JD', 'w': 'radians', 'k': 'm s$^{-1}$', 'logk': r'$\ln{(\rm m\ s^{-1})}$', 'dvdt': 'm s$^{-1}$ d$^{-1}$', 'curv': 'm s$^{-1}$ d$^{-2}$',
        'gamma': 'm s$-1$', 'jit': r'$\rm m\ s^{-1}$'}
LETTERS = {1: 'd', 2: 'b'}


def label(k, npl):
    if k[-1].isdigit() and k[:-1] in TEX:
        return '$%s_{%s}$' % (TEX[k[:-1]], LETTERS[int(k[-1])]), UNIT.get(k[:-1], '')
    if k in ('dvdt', 'curv'):
        return {'dvdt': r'$\dot{\gamma}$', 'curv': r'$\ddot{\gamma}$'}[k], UNIT[k]
    kind, s = k.split('_', 1)
    return {'gamma': r'$\gamma_{\rm %s}$', 'jit': r'$\sigma_{\rm %s}$'}[kind] % s, UNIT[kind]


def sections(tex):
    out, here = {}, ''
    for line in tex.split('\\startdata')[1].split('\n'):
        m = re.search(r'\\sidehead\{\\bf\{(.*?)\}\}', line)
        if m:
            here = m.group(1)
        elif ' & ' in line:
            out.setdefault(here, []).append([x.strip() for x in re.sub(r'\\\\\s*$', '', line).split(' & ')])
    return out


def row_check(ctx, cells, k, col, best, name, unit):
    """label, median and errors, best value, unit"""
    if len(cells) != 4:
        ctx.check(False, 'cells of the row of ' + k)
        return
    ctx.check(cells[0] == name, 'label of ' + k)
    ctx.check(cells[3] == unit, 'unit of ' + k)
    if k[:-1] == 'w':
        med, low, high = (angle(ctx, col, i) for i in range(3))
    else:
        a, med, b = (quant(ctx, x, col) for x in (0.159, 0.5, 0.841))
        low, high = med - a, b - med
    low, high = U.round_sig(low), U.round_sig(high)
    m = re.match(r'^\$(.*)\$$', cells[1])
    x = re.match(r'^\$(.*)\$$', cells[2])
    if not (m and x):
        ctx.check(False, 'numbers of ' + k)
        return
    m, x = m.group(1), x.group(1)
    if zero(low) or zero(high):
        ctx.check(m.startswith(r'\equiv') and x.startswith(r'\equiv'), 'a fixed value: ' + k)
        middle = quant(ctx, 0.5, col)
        for t in (m, x):
            check_printed(ctx, t.replace(r'\equiv', ''), middle, 'value of ' + k, 0.5001e-4)
        return
    best, lo, hi = U.sigfig(best, low, high)
    med, lo, hi = U.sigfig(med, low, high)
    check_printed(ctx, x, best, 'best value of ' + k)
    if r'\pm' in m:
        v, e = m.split(r'\pm')
        check_printed(ctx, v, med, 'median of ' + k)
        check_printed(ctx, e, hi, 'error of ' + k)
        check_printed(ctx, e, lo, 'error of ' + k)
        return
    f = re.match(r'^(.*)\^\{\+(.*)\}_\{-(.*)\}$', m)
    if not f:
        ctx.check(False, 'numbers of ' + k)
        return
    check_printed(ctx, f.group(1), med, 'median of ' + k)
    check_printed(ctx, f.group(2), hi, 'upper error of ' + k)
    check_printed(ctx, f.group(3), lo, 'lower error of ' + k)


def report(ctx, basis, npl, n, fixed, insts, derived=False, more=None, compstats=None):
    P, vals, rows = chain_rows(ctx, basis, npl, n, fixed, insts)
    P.planet_letters = LETTERS
    post = build(ctx, P, insts)
    top = converted(basis, npl, vals)
    post.maxparams = {k: ctx.real('max_' + k, -50, 50) if k not in fixed else vals[k] for k in top}
    planet = types.SimpleNamespace(starname='a_star', fitting_basis=basis, nplanets=npl, planet_letters=LETTERS)
    chain = frame(ctx, rows)
    if more is not None:
        for k in more:
            chain[k] = pd.Series(more[k], dtype=object if ctx.symbolic else float)
    rep = R.RadvelReport(planet, post, chain, '41.5', '0.0215', '1.0045', '2143.25', compstats=compstats, derived=derived)
    return rep, post, vals, rows, dict(post.maxparams)


def parameter_table(basis, npl, n, fixed, insts=('a',), equal=False):
    def h(ctx):
        numbers(ctx, equal)
        reading(ctx)
        rep, post, vals, rows, best = report(ctx, basis, npl, n, fixed, insts)
        got = sections(R.TexTable(rep).tab_params())
        each = [converted(basis, npl, dict(vals, **r), PRINT_BASIS) for r in rows]
        for title, names in (('Modified MCMC Step Parameters', [k + str(i) for i in range(1, npl + 1) for k in basis.split()]),
                             ('Orbital Parameters', [k + str(i) for i in range(1, npl + 1) for k in PRINT_BASIS.split()]),
                             ('Other Parameters', ['dvdt', 'curv'] + [a + '_' + s for s in insts for a in ('gamma', 'jit')])):
            names = [k for k in names if k in best]
            lines = {}
            for c in got.get(title, []):
                lines.setdefault(c[0], []).append(c)
            for k in names:
                name, unit = label(k, npl)
                ctx.check(len(lines.get(name, [])) == 1, 'one row for %s in %s' % (k, title))
                if len(lines.get(name, [])) == 1:
                    row_check(ctx, lines[name][0], k, [e[k] for e in each], best[k], name, unit)
            ctx.check(len(got.get(title, [])) == len(names), 'no other rows in ' + title)
    return h


def derived_table(npl, n, scale):
    def h(ctx):
        numbers(ctx, False)
        reading(ctx)
        cols = {}
        for i in range(1, npl + 1):
            for k, (lo, hi) in (('mpsini', scale[i - 1]), ('a', (0.1, 5)), ('rhop', (0.5, 8))):
                if not (k == 'rhop' and i == 2):
                    cols['%s%d' % (k, i)] = [ctx.real('%s%d_%d' % (k, i, r), lo, hi, sample=(lo, hi)) for r in range(n)]
        fixed = ['per1', 'tc1', 'e1', 'w1', 'per2', 'tc2', 'e2', 'w2', 'k2', 'dvdt', 'curv', 'gamma_a', 'jit_a']
        rep, post, vals, rows, best = report(ctx, 'per tc e w k', npl, n, fixed, ['a'], True, cols)
        for again in range(2):
            got = sections(R.TexTable(rep).tab_derived()).get('', [])
            lines = {}
            for c in got:
                lines.setdefault(c[0], []).append(c)
            for k in cols:
                i = int(k[-1])
                name = {'mpsini': r'$M_%s\sin i$', 'a': '$a_%s$', 'rhop': r'$\rho_%s$'}[k[:-1]] % LETTERS[i]
                col, unit = cols[k], {'a': 'AU', 'rhop': 'g cm$^{-3}$', 'mpsini': 'M$_{\\oplus}$'}[k[:-1]]
                if k[:-1] == 'mpsini' and scale[i - 1][0] > 100:
                    col, unit = [x * 0.00315 for x in col], 'M$_{\\rm Jup}$'
                ctx.check(len(lines.get(name, [])) == 1, 'one row for ' + k)
                if len(lines.get(name, [])) == 1:
                    row_check(ctx, lines[name][0], k, col, col[0], name, unit)
            ctx.check(len(got) == len(cols), 'no other rows')
        rep.derived = False
        ctx.check(R.TexTable(rep).tab_derived() == '', 'no table without derived parameters')
    return h


def velocities(insts, limit):
    def h(ctx):
        reading(ctx)
        P = radvel.Parameters(1, basis='per tc e w k')
        for k in P:
            P[k].value = 0.5
        for k in ['dvdt', 'curv'] + [a + '_' + s for s in set(insts) for a in ('gamma', 'jit')]:
            P[k] = radvel.Parameter(value=0.5)
        m = radvel.RVModel(P)
        want, likes, n = [], [], 0
        order = sorted(set(insts), key=insts.index)
        for s in order:
            mine = [(ctx.real('t%d' % (n + i), 0, 1e3), ctx.real('v%d' % (n + i), -50, 50), ctx.real('e%d' % (n + i), 0.5, 5)) for i in range(insts.count(s))]
            n += len(mine)
            likes.append(radvel.likelihood.RVLikelihood(m, *[ctx.array([x[j] for x in mine]) for j in range(3)], suffix='_' + s))
            want += [x + (s,) for x in mine]
        post = radvel.posterior.Posterior(radvel.likelihood.CompositeLikelihood(likes))
        rep = types.SimpleNamespace(post=post, quantiles=None, minafactor=1, maxarchange=1, maxgr=1, mintz=1, starname='x', planet=types.SimpleNamespace(fitting_basis='per tc e w k'))
        T = R.TexTable(rep)
        tex = T.tab_rv() if limit == 'default' else T.tab_rv(max_lines=limit)
        got = sections(tex).get('', [])
        shown = want if limit in (None, 'default') else want[:limit]
        ctx.check(len(got) == len(shown), 'one line per measurement')
        for c, w in zip(got, shown):
            for text, x, what in zip(c, w, ('time', 'velocity', 'error')):
                check_printed(ctx, text, x, what)
            s = w[3] if '_' not in w[3] else w[3].replace('_', r'$_{\rm ') + '}$'
            ctx.check(c[3] == s, 'instrument')
        if limit not in (None, 'default'):
            ctx.check('first %d of %d' % (limit, len(want)) in tex, 'how many are shown')
    return h


def column_heads(tex):
    out = []
    for part in tex.split('\\colhead{')[1:]:
        depth, n = 1, 0
        while depth:
            depth += {'{': 1, '}': -1}.get(part[n], 0)
            n += 1
        out.append(part[:n - 1])
    return out


def comparison(n):
    def h(ctx):
        reading(ctx)
        stats = []
        for i in range(n):
            L = ctx.real('lnl%d' % i, -90, 90)
            stats.append({'Free Params': (['P%d' % j for j in range(i + 1)], 'd'), r'$N_{\rm free}$': (3 + i, 'd'), r'$N_{\rm data}$': (40 + i, 'd'), 'RMS': (ctx.real('rms%d' % i, 0.5, 5), 'd'),
                          r'$\ln{\mathcal{L}}$': (L, 'd'), 'BIC': (ctx.real('bic%d' % i, -100, 100), 'd'), 'AICc': (ctx.real('aicc%d' % i, -100, 100, sample=(-12, 12)), 'd')})
        A = [s['AICc'][0] for s in stats]
        for i in range(n):
            for j in range(i):
                ctx.assume(F.abs(A[i] - A[j]) > 0.01)
                for x in (2, 4, 10):
                    ctx.assume(F.abs(F.abs(A[i] - A[j]) - x) > 0.01)
        order = []
        for i in range(n):
            k = 0
            while k < len(order) and ctx.decide_bool(A[order[k]] < A[i]):
                k += 1
            order.insert(k, i)
        rep = types.SimpleNamespace(post=None, quantiles=None, minafactor=1, maxarchange=1, maxgr=1, mintz=1, compstats=list(stats))
        rep.planet = types.SimpleNamespace(fitting_basis='per tc e w k')
        rep.post = types.SimpleNamespace(params=types.SimpleNamespace(basis=types.SimpleNamespace(name='per tc e w k')))
        tex = R.TexTable(rep).tab_comparison()
        lines = [x for x in tex.split('\\startdata')[1].split('\n') if ' & ' in x]
        ctx.check(len(lines) == n, 'one line per model')
        heads = column_heads(tex)
        ctx.check(len(heads) == 9 and set(heads) >= {'Free Parameters', r'$\Delta$AICc'} | set(stats[0]) - {'Free Params'}, 'column heads')
        here = None
        for c, i in zip(lines, order):
            c = [x.strip() for x in re.sub(r'\\\\\s*$', '', c).split(' & ')]
            if len(c) != len(heads):
                ctx.check(False, 'columns')
                continue
            c = dict(zip(heads, c))
            d = A[i] - A[order[0]]
            here = c[heads[0]] or here
            if i == order[0]:
                ctx.check(c[heads[0]] == 'AICc Favored Model', 'the model of lowest AICc is the favoured one')
            else:
                want = 'Nearly Indistinguishable' if ctx.decide_bool(d <= 2) else 'Somewhat Disfavored' if ctx.decide_bool(d <= 4) else \
                    'Strongly Disfavored' if ctx.decide_bool(d <= 10) else 'Ruled Out'
                ctx.check(here == want, 'category of a model')
            ctx.check(c['Free Parameters'].split('{')[0].strip(' ,').split(', ') == stats[i]['Free Params'][0], 'parameters of its own model')
            for k in stats[i]:
                if k in c and isinstance(stats[i][k][0], int):
                    ctx.check(c[k] == str(stats[i][k][0]), 'count of its own model')
                elif k in c:
                    check_printed(ctx, c[k], stats[i][k][0], '%s of its own model' % k)
            check_printed(ctx, c[r'$\Delta$AICc'], d, 'difference to the best model', 0 if ctx.symbolic else 0.011)
    return h


def priors(ctx):
    reading(ctx)
    r = ctx.real
    pr = radvel.prior
    a, b, c, d, e, f, g, h, u, v, w, x = [r('p%d' % i, 0.5, 9) for i in range(12)]
    L = [(pr.Gaussian('k1', a, b), '$K_{b}$', [a, b]), (pr.Gaussian('jit_j', b, a), r'$\sigma_{\rm j}$', [b, a]),
         (pr.HardBounds('per2', c, d), 'P_{c}', [c, d]), (pr.Jeffreys('gamma_j', e, f), r'\gamma_{\rm j}', [e, f]),
         (pr.ModifiedJeffreys('dvdt', 0.0625, g, h), r'\dot{\gamma}', [h, 0.0625, g]) if False else (pr.ModifiedJeffreys('dvdt', 5.0, 50.0, 4.0), r'\dot{\gamma}', [4.0, 5.0, 50.0]),
         (pr.SecondaryEclipsePrior(1, u, v), 'secondary eclipse', [u, v]), (pr.EccentricityPrior([2, 1], [w / 10, x / 10]), '$e_{c}$', [w / 10, x / 10])]
    planet = types.SimpleNamespace(fitting_basis='per tc e w k')
    P = radvel.Parameters(1, basis='per tc e w k')
    post = types.SimpleNamespace(priors=[p for p, _, _ in L], likelihood=types.SimpleNamespace(params=P), params=P)
    rep = types.SimpleNamespace(post=post, quantiles=None, minafactor=1, maxarchange=1, maxgr=1, mintz=1, planet=planet)
    tex = R.TexTable(rep).tab_prior_summary().split('\\startdata')[1].split('\\enddata')[0]
    at = -1
    num = r'\[\[\d+\]\]|-?\d+\.\d+(?:e-?\d+)?'
    for p, name, want in L:
        k = tex.find(name, at + 1)
        ctx.check(k > at, 'a row for the prior on ' + name)
        if k <= at:
            return
        at = k
        line = tex[tex.rfind('\n\n', 0, k) + 1:]
        line = line[:line.find('\n\n', 2)] if '\n\n' in line[2:] else line
        got = re.findall(num, line)
        ctx.check(len(got) >= len(want), 'numbers of the prior on ' + name)
        for t, y in zip(got, want):
            v, _ = number(ctx, t)
            ctx.check_eq(v, y, 'number of the prior on ' + name)


def criteria(ctx):
    reading(ctx)
    vals = ctx.reals('c', 4)
    rep = types.SimpleNamespace(post=types.SimpleNamespace(params=radvel.Parameters(1)), quantiles=None, planet=types.SimpleNamespace(fitting_basis='per tp e w k'))
    rep.minafactor, rep.maxarchange, rep.maxgr, rep.mintz = vals
    got = sections(R.TexTable(rep).tab_crit()).get('', [])
    ctx.check([c[0] for c in got] == ['minAfactor', 'maxArchange', 'maxGR', 'minTz'], 'one row per criterion')
    for c, v in zip(got, vals):
        check_printed(ctx, c[1].strip('$'), v, 'value of ' + c[0])
    rep.minafactor = rep.maxarchange = rep.maxgr = rep.mintz = None
    got = sections(R.TexTable(rep).tab_crit()).get('', [])
    ctx.check([c[1] for c in got] == ['None'] * 4, 'criteria of a nested sampling run')


def cases(tier):
    big = tier != 'quick'
    out = []
    trend = ['dvdt', 'curv']
    for b in FIT_BASES:
        x = b.split()
        out.append(Case('summary ' + b, summarised(b, 1, 2, trend), '1 planet, 2 rows'))
        out.append(Case('table ' + b, parameter_table(b, 1, 2, trend + [x[0] + '1']), '1 planet, 2 rows'))
    out.append(Case('summary some fixed', summarised('per tc secosw sesinw k', 2, 2, ['secosw1', 'sesinw1', 'per2', 'gamma_a', 'curv'], ('a', 'ab')), '2 planets, 2 rows'))
    out.append(Case('summary all orbit fixed', summarised('per tc e w k', 1, 2, ['per1', 'tc1', 'e1', 'w1', 'k1', 'dvdt'], ('a',)), '1 planet'))
    for eq in (False, True):
        out.append(Case('table some fixed %s' % eq, parameter_table('per tc secosw sesinw k', 2, 2, ['secosw1', 'sesinw1', 'per2', 'gamma_k', 'curv'], ('k', 'k1', 'ke'), eq), '2 planets, 3 instruments'))
    out.append(Case('table fixed orbit', parameter_table('per tp e w k', 1, 2, ['per1', 'tp1', 'e1', 'w1', 'gamma_j'], ('j',)), '1 planet'))
    out.append(Case('derived', derived_table(1, 2, [(1, 90)]), '1 planet, 2 rows'))
    out.append(Case('derived two', derived_table(2, 2, [(150, 900), (1, 90)]), '2 planets, 2 rows'))
    out.append(Case('derived heavy', derived_table(1, 2, [(40000, 90000)]), '1 planet, 2 rows'))
    for insts, lim in ((['a'], 'default'), (['b', 'a', 'b'], None), (['hires_k', 'x', 'x'], 2)):
        out.append(Case('velocities %s %s' % ('-'.join(insts), lim), velocities(insts, lim), '%d measurements' % len(insts)))
    for n in (1, 2, 3) if big else (1, 2, 3):
        out.append(Case('comparison %d' % n, comparison(n), '%d models' % n))
    out.append(Case('priors', priors))
    out.append(Case('criteria', criteria))
    return out
