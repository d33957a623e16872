"""Model curves drawn from a chain."""
import pandas as pd

import radvel.utils
from .common import *

EXPLANATION = ('The real draw_models_from_chain runs on chains whose entries are symbolic, with an uninterpreted signal of time and all parameters of the model (and, in one group, the real '
               'Keplerian model); which rows are drawn is a free choice. z3 decides that each curve is the model at the values of one single row together with the fixed values.')
BOUNDS = '1-3 rows, 1-3 draws, 1-4 free parameters in any column order, default, thinned, shuffled, repeated and text row labels, 1-2 times, one or two calls'
OUTSIDE = 'whether all rows are equally likely to be drawn'

NAMES = ['per1', 'tp1', 'e1', 'w1', 'k1', 'dvdt', 'curv', 'gamma_a', 'jit_a']


def signal(ctx):
    def f(t, params, vector, *args):
        v = [vector.vector[vector.indices[n]][0] for n in NAMES if n not in ('dvdt', 'curv')]
        return np.array([ctx.uf('signal', x, *v, fn=lambda x, *v: math.sin(x) + sum((i + 0.3) * a for i, a in enumerate(v))) for x in t])
    return f


def curve(ctx, x, v, base):
    s = ctx.uf('signal', x, *[v[n] for n in NAMES if n not in ('dvdt', 'curv')], fn=lambda x, *v: math.sin(x) + sum((i + 0.3) * a for i, a in enumerate(v)))
    return s + v['dvdt'] * (x - base) + v['curv'] * (x - base) * (x - base)


LABELS = {'default': lambda n: None, 'thinned': lambda n: [5 * (i + 1) for i in range(n)], 'shuffled': lambda n: list(range(n))[::-1],
          'repeated': lambda n: [0] * n, 'text': lambda n: ['r%d' % i for i in range(n)]}


def picks(ctx):
    """every outcome of the random draws"""
    def choice(a, size=None, replace=True, p=None):
        pop = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        log = []
        for i in range(size or 1):
            log.append(pop[ctx.choice('draw%d' % len(calls), len(pop))])
            calls.append(1)
        return np.array(log) if size is not None else log[0]
    calls = []
    ctx.stub(np.random, 'choice', choice)
    return calls


def drawn(free, nrows, ndraws, labels, nt=1, twice=False, extra=True, order=NAMES):
    def h(ctx):
        P = radvel.Parameters(1, basis='per tp e w k')
        fixed = {}
        if order is not NAMES:
            for n in list(P):
                del P[n]
        for n in order:
            fixed[n] = ctx.real('p_' + n)
            P[n] = radvel.Parameter(value=fixed[n], vary=n in free, mcmcscale=0.25, linear=n == 'gamma_a')
        base = ctx.real('base')
        m = radvel.GeneralRVModel(P, signal(ctx), time_base=base)
        t = ctx.array(ctx.reals('t', nt))
        cols = sorted(free, reverse=True)
        rows = [{k: ctx.real('s%d_%s' % (i, k)) for k in cols} for i in range(nrows)]
        d = {k: [r[k] for r in rows] for k in cols}
        if extra:
            d = dict({'lnprobability': [float(i) for i in range(nrows)]}, **d)
        chain = pd.DataFrame(d, index=LABELS[labels](nrows))
        keep = chain.copy()
        picks(ctx)
        for again in range(2 if twice else 1):
            out = radvel.utils.draw_models_from_chain(m, chain, t, nsamples=ndraws)
            ctx.check(tuple(out.shape) == (ndraws, nt), 'one curve per draw')
            for c in out:
                match = []
                for r in rows:
                    v = dict(fixed, **r)
                    match.append(sand(*[ctx_eq(ctx, c[j], curve(ctx, t[j], v, base)) for j in range(nt)]))
                ctx.check(sor(*match), 'the model at one row of the chain')
            for n in NAMES:
                p = P[n]
                if n not in free:
                    ctx.check_eq(p.value, fixed[n], 'fixed parameters keep their value')
                    ctx.check_eq(m.vector.vector[m.vector.indices[n]][0], fixed[n], 'fixed parameters keep their value')
                ctx.check(p.vary == (n in free) and p.mcmcscale == 0.25 and p.linear == (n == 'gamma_a'), 'the settings of the parameters are unchanged')
        ctx.check(list(chain.columns) == list(keep.columns) and list(chain.index) == list(keep.index), 'the chain is not modified')
        for k in keep:
            ctx.check_all_eq(list(chain[k]), list(keep[k]), 'the chain is not modified')
    return h


def ctx_eq(ctx, a, b):
    if ctx.symbolic:
        return a == b
    return bool(abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(a)) + abs(float(b))))


def kepler(basis, free, nrows, ndraws):
    """the real Keplerian model"""
    def h(ctx):
        def drive(t, orbel, use_c_kepler_solver=False):
            per, tp, e, w, k = orbel
            return np.array([ctx.uf('rv', x, per, tp, e, w, k, fn=lambda x, p, tp, e, w, k: k * math.cos((x - tp) * p + w) + e) for x in t])
        names = basis.split()
        P = radvel.Parameters(1, basis=basis)
        fixed = {}
        for n in names:
            fixed[n + '1'] = ctx.real('p_' + n, 0.1, None, sample=(0.2, 0.5))
            P[n + '1'] = radvel.Parameter(value=fixed[n + '1'], vary=n + '1' in free)
        for n in ('dvdt', 'curv'):
            fixed[n] = 0
            P[n] = radvel.Parameter(value=0, vary=False)
        m = radvel.RVModel(P)
        ctx.stub(radvel.kepler, 'rv_drive', drive)
        t = ctx.array(ctx.reals('t', 1))
        rows = [{k: ctx.real('s%d_%s' % (i, k), 0.1, None, sample=(0.2, 0.5)) for k in free} for i in range(nrows)]
        chain = pd.DataFrame({k: [r[k] for r in rows] for k in free})
        picks(ctx)
        out = radvel.utils.draw_models_from_chain(m, chain, t, nsamples=ndraws)
        for c in out:
            match = []
            for r in rows:
                v = dict(fixed, **r)
                Q = radvel.Parameters(1, basis=basis)
                for n in v:
                    Q[n] = radvel.Parameter(value=v[n])
                match.append(ctx_eq(ctx, c[0], radvel.RVModel(Q)(t)[0]))
            ctx.check(sor(*match), 'the model at one row of the chain')
    return h


def cases(tier):
    big = tier != 'quick'
    out = []
    some = ['k1', 'e1', 'dvdt']
    for l in LABELS:
        out.append(Case('labels ' + l, drawn(some, 2, 2, l), '2 rows, 2 draws'))
        if big:
            out.append(Case('labels %s three' % l, drawn(some, 3, 3, l), '3 rows, 3 draws'))
    out.append(Case('parameters in another order', drawn(['k1', 'gamma_a', 'per1', 'curv'], 2, 2, 'default', order=NAMES[::-1])))
    out.append(Case('three rows', drawn(some, 3, 2, 'default', nt=2)))
    out.append(Case('two calls', drawn(some, 2, 1, 'default', twice=True)))
    out.append(Case('two calls thinned', drawn(['k1', 'gamma_a', 'curv'], 2, 1, 'thinned', twice=True)))
    out.append(Case('more draws than rows', drawn(['per1'], 1, 3, 'default', nt=2)))
    for f in ([['curv'], ['per1', 'tp1', 'w1', 'jit_a'], ['gamma_a', 'k1']] if not big else [[n] for n in NAMES] + [['per1', 'tp1', 'w1', 'jit_a'], NAMES]):
        out.append(Case('free ' + ' '.join(f), drawn(f, 2, 2, 'default', extra=len(f) != 2), '2 rows, 2 draws'))
    for b, f in (('per tp e w k', ['per1', 'k1', 'w1']), ('per tc secosw sesinw k', ['k1', 'per1', 'tc1']), ('logper tc secosw sesinw logk', ['logk1', 'logper1'])):
        out.append(Case('model ' + b, kepler(b, f, 2, 2), '2 rows, 2 draws'))
    return out
