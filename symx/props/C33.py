"""Physical quantities derived from a chain."""
import os
import shutil
import types

import pandas as pd

import radvel.driver
import radvel.posterior
import radvel.utils
from .. import env
from .common import *

D, U = radvel.driver, radvel.utils

EXPLANATION = ('The real driver step runs on a chain whose entries are symbolic, with a saved posterior with symbolic fixed values and symbolic draws of the stellar mass and the planet radius; the '
               'conversions of C27 are unknown functions, so that z3 decides that every derived number is that function of the period, amplitude, eccentricity and drawn masses of its own row and planet.')
BOUNDS = '1-2 planets, 1-3 rows, the nine fitting parameterisations, no, some or all elements fixed, with and without planet radii and stellar mass, drawn masses of either sign'
OUTSIDE = 'the CSV text; the spread of the draws; more than nine planets'

EARTH, SUN = 5.0 * 2.0 ** 80, 2.0 ** 100       # masses in kg whose ratio is exact in binary


def formulas(ctx):
    """the conversions, whose formulas are the subject of C27"""
    def each(name, fn):
        def f(*args):
            args = [a.values if isinstance(a, pd.Series) else a for a in args]
            n = max(np.size(a) for a in args)
            col = [np.broadcast_to(np.asarray(a, dtype=object).ravel(), (n,)) for a in args]
            out = [ctx.uf(name, *[c[i] for c in col], fn=fn) for i in range(n)]
            return pd.Series(out, dtype=object if ctx.symbolic else float)
        return f
    msini = each('msini', lambda k, p, m, e: 3.1 * k * p ** 0.3 * m ** 0.6 * (1 - e * e) ** 0.5)
    axis = each('axis', lambda p, m: 0.02 * p ** 0.6 * m ** 0.3)
    dens = each('density', lambda m, r: 5.5 * m / r ** 3)

    def Msini(K, P, Mstar, e, Msini_units='earth'):
        assert str(Msini_units).lower() == 'earth'
        return msini(K, P, Mstar, e)

    def density(mass, radius, MR_units='earth'):
        assert str(MR_units).lower() == 'earth'
        return dens(mass, radius)
    ctx.stub(U, 'Msini', Msini)
    ctx.stub(U, 'semi_major_axis', lambda P, Mtotal: axis(P, Mtotal))
    ctx.stub(U, 'density', density)
    import astropy.constants as c
    import astropy.units as u
    ctx.stub(c, 'M_earth', EARTH * u.kg)
    ctx.stub(c, 'M_sun', SUN * u.kg)
    return (lambda *a: msini(*a)[0]), (lambda *a: axis(*a)[0]), (lambda *a: dens(*a)[0])


def synth(v, n, i):
    """period, amplitude or eccentricity of planet i from fitting values"""
    g = lambda k: v.get('%s%d' % (k, i))       # noqa: E731
    if n == 'per':
        return g('per') if g('per') is not None else F.exp(g('logper'))
    if n == 'k':
        return g('k') if g('k') is not None else F.exp(g('logk'))
    if g('e') is not None:
        return g('e')
    if g('se') is not None:
        return g('se') ** 2
    if g('secosw') is not None:
        return g('secosw') ** 2 + g('sesinw') ** 2
    return F.sqrt(g('ecosw') ** 2 + g('esinw') ** 2)


def value(ctx, n, tag):
    k = n.rstrip('0123456789')
    if k in ('per', 'k'):
        return ctx.real(tag, 1, 50, sample=(2, 40))
    if k == 'e':
        return ctx.real(tag, 0.05, 0.6, sample=(0.1, 0.5))
    if k in ('secosw', 'sesinw', 'ecosw', 'esinw', 'se'):
        return ctx.real(tag, 0.1, 0.6, sample=(0.1, 0.6))
    if k in ('logper', 'logk'):
        return ctx.real(tag, 0, 4, sample=(0.5, 3))
    return ctx.real(tag, -10, 10, sample=(-3, 3))


def setup(ctx, basis, npl, n, fixed, radii=(), mass=True, labels=None):
    d = env.scratch('c33')
    ctx.at_end(lambda: shutil.rmtree(d, ignore_errors=True))
    P = radvel.Parameters(npl, basis=basis)
    vals, rows = {}, [{} for _ in range(n)]
    names = [k + str(i) for i in range(1, npl + 1) for k in basis.split()]
    for k in names + ['dvdt', 'curv', 'gamma_a', 'jit_a']:
        free = k not in fixed and k not in ('dvdt', 'curv')
        vals[k] = value(ctx, k, 'v_' + k)
        P[k] = radvel.Parameter(value=vals[k], vary=free)
        if free:
            for r in range(n):
                rows[r][k] = value(ctx, k, 's%d_%s' % (r, k))
    setup_params = radvel.Parameters(npl, basis=basis)        # the setup file may start elsewhere
    for k in P:
        setup_params[k] = radvel.Parameter(value=value(ctx, k, 'q_' + k), vary=P[k].vary)
    conf = types.SimpleNamespace(nplanets=npl, params=setup_params, starname='star', fitting_basis=basis)
    if mass:
        conf.stellar = {'mstar': 1.25, 'mstar_err': 0.125}
    if radii is not None:
        conf.planet = {}
        for i in radii:
            conf.planet.update({'rp%d' % i: 2.0 * i, 'rp_err%d' % i: 0.0625 * i})
    m = radvel.RVModel(P)
    like = radvel.likelihood.RVLikelihood(m, np.array([1.0, 2.0]), np.array([0.0, 1.0]), np.array([1.0, 1.0]), suffix='_a')
    post = radvel.posterior.Posterior(like)
    post.uparams, post.medparams = {'k1': 0.1}, {'k1': 2.0}
    postfile, chainfile = d + '/post.pkl', d + '/chain.csv.bz2'
    post.writeto(postfile)
    obj = object if ctx.symbolic else float
    cols = {'Unnamed: 0': list(range(n))}
    for k in sorted(rows[0], reverse=True):
        cols[k] = pd.Series([r[k] for r in rows], dtype=obj)
    cols['lnprobability'] = [-1.0 - r for r in range(n)]
    chain = pd.DataFrame(cols)
    draws = {}

    def normal(loc=0.0, scale=1.0, size=None):
        key = '%g' % float(loc)
        ctx.check(size is not None and int(np.prod(size)) == n, 'one draw per row')
        ctx.check(key not in draws, 'one set of draws')
        want = {'1.25': 0.125}
        for i in radii or ():
            want['%g' % (2.0 * i)] = 0.0625 * i
        ctx.check(want.get(key) == float(scale), 'drawn around its own value with its own error')
        lo, hi = (-3, 3) if key == '1.25' else (0.5, 8)
        draws[key] = [ctx.real('draw_%s_%d' % (key.replace('.', '_'), r), lo, hi, sample=(lo / 6 if lo < 0 else lo, hi)) for r in range(n)]
        for x in draws[key]:
            ctx.assume(F.abs(x) > 0.01)
        return ctx.array(draws[key])
    ctx.stub(np.random, 'normal', normal)
    ctx.stub(U, 'initialize_posterior', lambda *a, **k: (conf, None))
    reads, writes = [], []

    def read_csv(f, *a, **k):
        reads.append(os.path.realpath(f))
        return chain.copy()

    def to_csv(self, f=None, columns=None, **k):
        writes.append((os.path.realpath(f), self[list(columns)] if columns is not None else self.copy()))
    ctx.stub(pd, 'read_csv', read_csv)
    ctx.stub(pd.DataFrame, 'to_csv', to_csv)
    if ctx.symbolic:
        def quantile(self, q=0.5, **kw):
            out = {}
            for c in self.columns:
                out[c] = [ctx.uf('quantile', x, *list(self[c]), fn=lambda x, *v: float(np.quantile(v, x))) for x in q]
            return pd.DataFrame(out, index=list(q))
        ctx.stub(pd.DataFrame, 'quantile', quantile)
    return types.SimpleNamespace(d=d, conf=conf, post=post, postfile=postfile, chainfile=chainfile, rows=rows, vals=vals, draws=draws, chain=chain,
                                 reads=reads, writes=writes, names=names)


def quant(ctx, q, col):
    return ctx.uf('quantile', q, *col, fn=lambda x, *v: float(np.quantile(v, x))) if ctx.symbolic else float(np.quantile([float(x) for x in col], q))


def args(S, sampler='auto'):
    return types.SimpleNamespace(setupfn=S.d + '/star.py', outputdir=S.d, sampler=sampler, decorr=False)


def derived(basis, npl, n, fixed=(), radii=(), sampler='mcmc'):
    def h(ctx):
        msini, axis, dens = formulas(ctx)
        S = setup(ctx, basis, npl, n, fixed, radii)
        st = S.d + '/star_radvel.stat'
        D.save_status(st, 'fit', {'run': True, 'postfile': S.d + '/other.pkl'})
        D.save_status(st, sampler, {'run': True, 'postfile': S.postfile, 'chainfile': S.chainfile})
        D.derive(args(S))
        ctx.check(os.path.realpath(S.chainfile) in S.reads, 'the chain of the sampler')
        mstar = S.draws.get('1.25')
        ctx.check(mstar is not None, 'a stellar mass per row')
        if mstar is None:
            return
        rel = EARTH / SUN
        want = {}
        for i in range(1, npl + 1):
            for k in ('mpsini', 'a', 'musini') + (('rhop',) if i in (radii or ()) else ()):
                want['%s%d' % (k, i)] = []
            for r in range(n):
                v = {k: S.vals[k] for k in S.names}
                v.update(S.rows[r])
                m = F.abs(mstar[r])
                mp = msini(synth(v, 'k', i), synth(v, 'per', i), m, synth(v, 'e', i))
                want['mpsini%d' % i].append(mp)
                want['a%d' % i].append(axis(synth(v, 'per', i), m + mp * rel))
                want['musini%d' % i].append(mp * rel / m)
                if i in (radii or ()):
                    want['rhop%d' % i].append(dens(mp, S.draws['%g' % (2.0 * i)][r]))
        status = D.load_status(st)
        ctx.check(status.has_section('derive') and status.getboolean('derive', 'run'), 'the step is recorded')
        ctx.check(status.get(sampler, 'chainfile') == S.chainfile and status.getboolean('fit', 'run'), 'earlier steps stay recorded')
        files = {f: t for f, t in S.writes}
        f = os.path.realpath(status.get('derive', 'chainfile'))
        ctx.check(f in files and f.startswith(os.path.realpath(S.d)), 'the derived chain is where the status says')
        if f in files:
            t = files[f]
            ctx.check(set(want) <= set(t.columns) and len(t) == n, 'the derived columns are stored')
            for k in want:
                if k in t.columns and len(t) == n:
                    for r in range(n):
                        ctx.check_eq(t[k].iloc[r], want[k][r], '%s of its own row' % k)
        f = os.path.realpath(status.get('derive', 'quantfile'))
        ctx.check(f in files, 'the quantiles are where the status says')
        tables = [('stored quantiles', files[f])] if f in files else []
        saved = radvel.posterior.load(S.postfile)
        ctx.check(getattr(saved, 'derived', None) is not None, 'kept with the posterior')
        if getattr(saved, 'derived', None) is not None:
            tables.append(('quantiles with the posterior', saved.derived))
        for label, t in tables:
            ctx.check(set(t.columns) == set(want), label + ': columns')
            ctx.check([float(x) for x in t.index] == [0.159, 0.5, 0.841], label + ': levels')
            for k in want:
                for q in (0.159, 0.5, 0.841):
                    if k in t.columns and q in t.index:
                        ctx.check_eq(t[k][q], quant(ctx, q, want[k]), '%s: %s' % (label, k))
        for k in S.vals:
            ctx.check_eq(saved.params[k].value, S.vals[k], 'the posterior keeps its values')
            ctx.check(bool(saved.params[k].vary) == bool(S.post.params[k].vary), 'the posterior keeps its flags')
        ctx.check(saved.medparams == {'k1': 2.0} and saved.uparams == {'k1': 0.1}, 'the posterior keeps its summaries')
    return h


def nothing(ctx):
    formulas(ctx)
    S = setup(ctx, 'per tc secosw sesinw k', 1, 2, (), mass=False)
    st = S.d + '/star_radvel.stat'
    D.save_status(st, 'mcmc', {'run': True, 'postfile': S.postfile, 'chainfile': S.chainfile})
    D.derive(args(S))
    ctx.check(not S.writes and not D.load_status(st).has_section('derive'), 'without a stellar mass nothing is derived')


def cases(tier):
    big = tier != 'quick'
    out = []
    for b in FIT_BASES:
        out.append(Case('free ' + b, derived(b, 1, 2), '1 planet, 2 rows'))
    e_of = {'per tc secosw sesinw k': ['secosw1', 'sesinw1'], 'per tp e w k': ['e1', 'w1'], 'logper tc secosw sesinw logk': ['logper1', 'tc1'],
            'per tc e w k': ['per1', 'tc1', 'e1', 'w1'], 'per tc ecosw esinw k': ['esinw1', 'k1'], 'per tc se w k': ['se1']}
    for b in e_of:
        out.append(Case('fixed ' + b, derived(b, 1, 2, e_of[b], (1,)), '1 planet, 2 rows'))
    out.append(Case('all fixed but one', derived('per tc e w k', 1, 2, ['per1', 'tc1', 'e1', 'w1']), ''))
    for b in FIT_BASES if big else ('per tc secosw sesinw k', 'logper tp e w logk'):
        out.append(Case('two planets ' + b, derived(b, 2, 1, [b.split()[1] + '2', b.split()[2] + '1', b.split()[3] + '1'], (2,)), '2 planets, 1 row'))
    out.append(Case('two radii', derived('per tp e w k', 2, 2 if big else 1, ['e2', 'w2'], (1, 2)), '2 planets'))
    out.append(Case('no planet table', derived('per tp e w k', 1, 1, [], None), ''))
    out.append(Case('nested sampling', derived('per tc secosw sesinw logk', 1, 3 if big else 2, [], (1,), 'ns'), ''))
    out.append(Case('no stellar mass', nothing, ''))
    return out
