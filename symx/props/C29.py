"""Posteriors built from setup files."""
import types

import pandas as pd

import radvel.utils
from .common import *
from .C10 import loglike
from .C13 import AnyPrior
from .C18 import cdist

U = radvel.utils

EXPLANATION = ('initialize_posterior runs on a stand-in setup module whose table, parameters and flags are symbolic; every assignment of the rows to instruments is a path. The contents of the '
               'posterior and its log-probability are compared with what the setup says, with the single-planet curve an unknown function.')
BOUNDS = '1-4 rows assigned to 1-3 instruments in every way, four kinds of row labels, 0-2 decorrelation columns, 1-2 planets, all values and flags; reading of logjit parameters'
OUTSIDE = 'executing the setup file itself; decorrelation together with Gaussian processes, which radvel ignores'

LABELS = {'default': lambda n: list(range(n)), 'reversed': lambda n: list(range(n))[::-1],
          'repeated': lambda n: [i // 2 for i in range(n)], 'text': lambda n: ['r%d' % (n - i) for i in range(n)]}


def setup(ctx, npl, insts, rows, labels='default', dvars=(), logjit=(), basis='per tp e w k', extra_rows=(), given=()):
    """rows: instrument of every row, in table order"""
    n = len(rows)
    S = types.SimpleNamespace()
    S.fitting_basis = basis
    P = radvel.Parameters(npl, basis=basis)
    for i in range(1, npl + 1):
        for nme in basis.split():
            v = ctx.real('%s%d' % (nme, i), 0.1, 50, sample=(0.5, 20)) if nme == 'per' else \
                ctx.real('%s%d' % (nme, i), 0.05, 0.6, sample=(0.1, 0.6)) if nme == 'e' else ctx.real('%s%d' % (nme, i))
            P['%s%d' % (nme, i)] = radvel.Parameter(value=v, vary=ctx.boolean('free_%s%d' % (nme, i)) if i == 1 and nme in ('per', 'k') else nme != 'w')
    P['dvdt'] = radvel.Parameter(value=ctx.real('dvdt'), vary=False)
    P['curv'] = radvel.Parameter(value=ctx.real('curv'))
    for s in insts:
        P['gamma_' + s] = radvel.Parameter(value=ctx.real('gamma_' + s), vary=(s != insts[0]), mcmcscale=3.5)
        name = 'logjit_' if s in logjit else 'jit_'
        P[name + s] = radvel.Parameter(value=ctx.real(name + s, sample=(-1, 1)), vary=(s == insts[0]))
        for v in given:
            P['c1_%s_%s' % (v, s)] = radvel.Parameter(value=ctx.real('c1_%s_%s' % (v, s)), vary=False)
    S.params = P
    S.instnames = list(insts)
    S.time_base = ctx.real('time_base')
    S.priors = [AnyPrior(ctx, 0, 'k1', False), AnyPrior(ctx, 1, 'gamma_' + insts[0], False)]
    S.planet_letters = {1: 'b', 2: 'c'}
    cols = {'time': ctx.reals('t', n), 'mnvel': ctx.reals('v', n),
            'errvel': [ctx.real('err%d' % i, 0, None, open_lo=True, sample=(0.3, 3)) for i in range(n)]}
    for v in dvars:
        cols[v] = ctx.reals(v + '_', n)
    D = {k: pd.Series(x, dtype=object if ctx.symbolic else float) for k, x in cols.items()}
    D = pd.DataFrame(D)
    D['tel'] = list(rows)
    D.index = LABELS[labels](n)
    S.data = D
    if dvars:
        S.decorr_vars = list(dvars)
    ctx.stub(U, 'load_module_from_file', lambda *a, **k: S)
    return S, cols


def curve(ctx, S, t, P, npl):
    v = 0
    for i in range(1, npl + 1):
        o = [P['%s%d' % (k, i)] for k in 'per tp e w k'.split()]
        v = v + rv_curve(ctx, t, *o)
    return v + P['dvdt'] * (t - S.time_base) + P['curv'] * (t - S.time_base) ** 2


def contents(npl, insts, n, labels='default', dvars=(), logjit=(), decorr=None, fixed_rows=None, given=(), used=None, prob=True):
    used = insts if used is None else used

    def h(ctx):
        ctx.stub(radvel.kepler, 'rv_drive', rv_drive_stub(ctx))
        rows = fixed_rows or [insts[ctx.choice('row%d' % i, len(insts))] for i in range(n)]
        for s in used:
            if s not in rows:
                ctx.assume(False)
        S, cols = setup(ctx, npl, used, rows, labels, dvars, logjit, given=given)
        P0 = S.params
        want = {k: (P0[k].value, P0[k].vary, P0[k].mcmcscale) for k in P0}
        for s in logjit:
            v = want.pop('logjit_' + s)
            want['jit_' + s] = (F.exp(v[0]), v[1], None)
        do = bool(dvars) if decorr is None else decorr
        given_priors = list(S.priors)
        conf, post = U.initialize_posterior('some/setup.py', decorr=do)
        ctx.check(conf is S, 'the setup is returned')
        for s in used:
            for v in dvars if do else ():
                want.setdefault('c1_%s_%s' % (v, s), (0.0, True, None))
        ctx.check(set(post.params) == set(want), 'parameters of the setup')
        V = post.vector
        for k in want:
            if k not in post.params:
                continue
            p = post.params[k]
            ctx.check_eq(p.value, want[k][0], 'value of ' + k)
            ctx.check_eq(V.vector[V.indices[k]][0], want[k][0], 'vector value of ' + k)
            ctx.check(ctx.decide_bool(p.vary) == ctx.decide_bool(want[k][1]), 'flag of ' + k)
            ctx.check(ctx.decide_bool(V.vector[V.indices[k]][1] == True) == ctx.decide_bool(want[k][1]), 'vector flag of ' + k)  # noqa: E712
            ctx.check(p.mcmcscale == want[k][2], 'step scale of ' + k)
        ctx.check(list(post.priors) == given_priors, 'priors of the setup')
        likes = post.likelihood.like_list
        ctx.check([l.suffix for l in likes] == list(used), 'one likelihood per instrument')
        total, every = 0, 0
        for l, s in zip(likes, used):
            mine = [i for i in range(len(rows)) if rows[i] == s]
            every += len(mine)
            ctx.check(type(l) is radvel.likelihood.RVLikelihood, 'kind of likelihood')
            ctx.check(l.gamma_param == 'gamma_' + s and l.jit_param == 'jit_' + s, 'own offset and jitter')
            for got, c in ((l.x, 'time'), (l.y, 'mnvel'), (l.yerr, 'errvel')):
                ctx.check(len(got) == len(mine), 'own measurements')
                if len(got) == len(mine):
                    ctx.check_all_eq(list(got), [cols[c][i] for i in mine], 'own measurements: ' + c)
            ctx.check([str(x) for x in l.telvec] == [s] * len(mine), 'instrument labels')
            ctx.check(list(l.decorr_vars) == (list(dvars) if do else []), 'decorrelation variables')
            for v in dvars if do else ():
                got = l.decorr_vectors[v]
                ctx.check(len(got) == len(mine), 'own decorrelation columns')
                if len(got) == len(mine):
                    ctx.check_all_eq(list(got), [cols[v][i] for i in mine], 'own decorrelation columns')
            r, var = [], []
            now = {k: want[k][0] for k in want}
            for i in mine:
                x = cols['mnvel'][i] - curve(ctx, S, cols['time'][i], now, npl) - now['gamma_' + s]
                for v in dvars if do else ():
                    c = [cols[v][j] for j in mine]
                    x = x - now['c1_%s_%s' % (v, s)] * (cols[v][i] - sum(c) / len(c))
                r.append(x)
                var.append(cols['errvel'][i] * cols['errvel'][i] + now['jit_' + s] * now['jit_' + s])
            if prob:
                total = total + loglike(r, var)
        ctx.check(len(post.likelihood.x) == every, 'every measurement once')
        ctx.check_eq(likes[0].model.time_base, S.time_base, 'time base')
        if prob:
            for p in given_priors:
                total = total + p.value(want[p.key][0])
            ctx.check_eq(post.logprob(), total, 'log-probability')
    return h


def refused(ctx):
    """an instrument without data"""
    S, cols = setup(ctx, 1, ('k', 'j'), ['k', 'k'])
    try:
        U.initialize_posterior('some/setup.py')
    except AssertionError as e:
        ctx.check("'j'" in str(e), 'missing instrument is named')
    else:
        ctx.check(False, 'an instrument without data is refused')
    S.fitting_basis = 'per tc e w k'
    try:
        U.initialize_posterior('some/setup.py')
    except AssertionError as e:
        ctx.check('basis' in str(e), 'parameters in another basis')
    else:
        ctx.check(False, 'parameters in another basis are refused')


def processes(kernels):
    """setups with Gaussian processes: kinds of likelihood and hyperparameters"""
    def h(ctx):
        cdist(ctx)
        insts = list(kernels or ('a', 'b'))
        rows = [insts[i % len(insts)] for i in range(4)]
        S, cols = setup(ctx, 1, insts, rows)
        per = {'QuasiPer': ['gp_amp_%s', 'gp_per', 'gp_explength', 'gp_perlength'], 'SqExp': ['gp_amp_%s', 'gp_length'], 'Celerite': ['gp_B_%s', 'gp_C', 'gp_L', 'gp_Prot']}
        S.hnames = {}
        for s in insts:
            k = (kernels or {}).get(s, 'QuasiPer')
            S.hnames[s] = [h % s if '%' in h else h for h in per[k]]
            for h in S.hnames[s]:
                if h not in S.params:
                    S.params[h] = radvel.Parameter(value=ctx.real(h, 0.1, 10, sample=(0.5, 3)))
        if kernels:
            S.kernel_name = dict(kernels)
        conf, post = U.initialize_posterior('some/setup.py')
        for l, s in zip(post.likelihood.like_list, insts):
            k = (kernels or {}).get(s, 'QuasiPer')
            ctx.check(type(l) is (radvel.likelihood.CeleriteLikelihood if k == 'Celerite' else radvel.likelihood.GPLikelihood), 'kind of likelihood')
            ctx.check(type(l.kernel) is getattr(radvel.gp, k + 'Kernel'), 'kernel')
            ctx.check(list(l.hnames) == S.hnames[s], 'hyperparameters')
            ctx.check_all_eq([l.hyperparams[h].value for h in l.hnames], [S.params[h].value for h in l.hnames], 'hyperparameter values')
            mine = [i for i in range(4) if rows[i] == s]
            for got, c in ((l.x, 'time'), (l.y, 'mnvel'), (l.yerr, 'errvel')):
                ctx.check(len(got) == len(mine), 'own measurements')
                if len(got) == len(mine) and k != 'Celerite':
                    ctx.check_all_eq(list(got), [cols[c][i] for i in mine], 'own measurements: ' + c)
        ctx.check(list(post.likelihood.hnames) == [h for s in insts for h in S.hnames[s]], 'hyperparameters of all instruments')
    return h


def cases(tier):
    big = tier != 'quick'
    out = []

    def add(name, *a, **k):
        out.append(Case(name, contents(*a, **k), str(a[1:3]) + ' ' + str(k)))
    add('one instrument', 1, ('k',), 2)
    for lab in LABELS:
        add('two instruments %s labels' % lab, 1, ('k', 'j'), 3, labels=lab)
    add('three instruments', 1, ('k', 'hires_j', 'a'), 4 if big else 3, prob=not big)
    add('two planets', 2, ('j', 'k'), 2)
    add('instrument not listed', 1, ('k', 'j', 'z'), 3, used=('j', 'k'), fixed_rows=['k', 'z', 'j'])
    add('listed in another order', 1, ('k', 'j'), 3, used=('j', 'k'), fixed_rows=['k', 'j', 'k'], labels='reversed')
    add('decorrelation', 1, ('k', 'j'), 3, dvars=('s',), labels='reversed')
    add('decorrelation two', 1, ('k', 'j'), 3, dvars=('s', 'bis'), labels='repeated', fixed_rows=['j', 'k', 'j'])
    add('decorrelation given', 1, ('k', 'j'), 3, dvars=('s',), given=('s',), fixed_rows=['j', 'k', 'k'])
    add('decorrelation off', 1, ('k', 'j'), 2, dvars=('s',), decorr=False)
    add('logjit', 1, ('k', 'j'), 2, logjit=('k',))
    add('logjit both', 1, ('k', 'j'), 2, logjit=('k', 'j'))
    if big:
        add('four rows', 1, ('k', 'j'), 4, labels='repeated')
        add('decorrelation four rows', 1, ('k', 'j'), 4, dvars=('s', 'bis'), labels='text')
        add('two planets decorrelation', 2, ('k', 'j'), 3, dvars=('s',), labels='text')
    out.append(Case('refused', refused))
    out.append(Case('processes default', processes(None), 'quasi-periodic by default'))
    out.append(Case('processes mixed', processes({'a': 'SqExp', 'b': 'QuasiPer'}), 'a kernel per instrument'))
    out.append(Case('processes celerite', processes({'a': 'Celerite', 'b': 'Celerite'}), 'celerite kernels'))
    return out
