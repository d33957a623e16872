"""Physical priors in every parameterisation."""
from .common import *
from .C14 import same

EXPLANATION = ('Orbits are drawn in physical terms, expressed in each fitting parameterisation, and given to the real priors through the real parameter vector; z3 decides on '
               'every path that rejection coincides with the physical condition and that the value is the documented one. The secondary-eclipse prior runs with the eclipse time '
               'an arbitrary function of period, periastron time, e, cos w, sin w (C04 decides that function) and the measured time at any phase offset and any number of cycles away.')
BOUNDS = '1-3 planets, the lists of planets and limits given per case, all fitting parameterisations; measured eclipse up to 3 cycles away'
OUTSIDE = 'values exactly on a limit; a phase difference of exactly half a cycle'


def free_orbit(ctx, i, basis, any_e):
    """elements that may be unphysical where the parameterisation can say so"""
    names = basis.split()
    if 'e' in names and any_e:
        e = ctx.real('e%d' % i, sample=(-0.6, 1.2))
    else:
        e = ctx.real('e%d' % i, 0, None, sample=(0.0, 1.2))
    if 'logk' in names:
        k = ctx.real('k%d' % i, 0, None, open_lo=True, sample=(0.1, 3))
    else:
        k = ctx.real('k%d' % i, sample=(-3, 6))
    return {'per': ctx.real('per%d' % i, 0, None, open_lo=True, sample=(0.5, 50)), 'tp': ctx.real('tp%d' % i),
            'e': e, 'w': ctx.real('w%d' % i, -2 * PI, 2 * PI, sample=(-3, 3)), 'k': k, 'tc': ctx.real('tc%d' % i)}


def setup(ctx, basis, npl, any_e=True):
    orbits = [free_orbit(ctx, i, basis, any_e) for i in range(1, npl + 1)]
    P = params_in(ctx, basis, orbits)
    P['gamma_j'] = radvel.Parameter(value=ctx.real('gamma_j'))
    P['jit_j'] = radvel.Parameter(value=ctx.real('jit_j'))
    m = radvel.model.RVModel(P)
    return orbits, P, m.vector


def ecc(basis, npl, arg, lims, second=False):
    """arg as the user gives it, lims: None (default), a float or a list"""
    def h(ctx):
        orbits, P, V = setup(ctx, basis, npl)
        before = {k: P[k].value for k in P}
        prior = radvel.prior.EccentricityPrior(arg) if lims is None else radvel.prior.EccentricityPrior(arg, upperlims=lims)
        planets = list(range(1, arg + 1)) if isinstance(arg, int) else list(arg)
        limit = [0.99] * len(planets) if lims is None else [lims] * len(planets) if isinstance(lims, float) else list(lims)
        for finite in (False, True, None):
            got = prior(P, V) if finite is None else prior(P, V, finite=finite)
            es = [orbits[p - 1]['e'] for p in planets]
            inside = sand(*[sand(e > 0, e < l) for e, l in zip(es, limit)])
            outside = sor(*[sor(e < 0, e > l) for e, l in zip(es, limit)])
            if ctx.decide_bool(inside):
                ctx.check_eq(got, -sum(math.log(l) for l in limit), 'uniform density inside')
            elif ctx.decide_bool(outside):
                ctx.check(bool(got == (-1e100 if finite else -np.inf)), 'rejected outside')
        same(ctx, P, V, before)
    return h


def posk(basis, npl, arg):
    def h(ctx):
        orbits, P, V = setup(ctx, basis, npl)
        before = {k: P[k].value for k in P}
        prior = radvel.prior.PositiveKPrior(arg)
        ks = [orbits[p]['k'] for p in range(arg)]
        for finite in (False, True, None):
            got = prior(P, V) if finite is None else prior(P, V, finite=finite)
            if ctx.decide_bool(sand(*[k > 0 for k in ks])):
                ctx.check_eq(got, 0, 'no effect on positive amplitudes')
            elif ctx.decide_bool(sor(*[k < 0 for k in ks])):
                ctx.check(bool(got == (-1e100 if finite else -np.inf)), 'negative amplitude rejected')
        same(ctx, P, V, before)
        # follows the vector
        if 'k' in basis.split():
            V.vector[V.indices['k1']][0] = -1.5
            ctx.check(bool(prior(P, V) == -np.inf), 'follows the vector')
    return h


def eclipse_time(per, tp, e, cw, sw):
    """first secondary eclipse after periastron, floats"""
    f = 1.5 * math.pi - math.atan2(sw, cw)
    E = 2 * math.atan(math.sqrt((1 - e) / (1 + e)) * math.tan(f / 2))
    return tp + per / (2 * math.pi) * (E - e * math.sin(E))


def eclipse(basis, npl, planet, cycles):
    def h(ctx):
        orbits = [draw_orbit(ctx, i) for i in range(1, npl + 1)]
        P = params_in(ctx, basis, orbits)
        P['gamma_j'] = radvel.Parameter(value=ctx.real('gamma_j'))
        m = radvel.model.RVModel(P)
        V = m.vector
        before = {k: P[k].value for k in P}
        o = orbits[planet - 1]
        args = (o['per'], o['tp'], o['e'], F.cos(o['w']), F.sin(o['w']))
        if ctx.symbolic:
            def conv(tp, per, ecc, omega, secondary=False):
                return ctx.uf('eclipse' if secondary else 'transit', per, tp, ecc, F.cos(omega), F.sin(omega), fn=eclipse_time)
            ctx.stub(radvel.orbit, 'timeperi_to_timetrans', conv)
            te = ctx.uf('eclipse', *args, fn=eclipse_time)
        else:
            te = eclipse_time(*[float(x) for x in args])
        d = ctx.real('offset', -0.5, 0.5, open_lo=True, open_hi=True, sample=(-0.49, 0.49))
        err = ctx.real('err', 0, None, open_lo=True, sample=(0.1, 3))
        n = cycles[ctx.choice('cycles', len(cycles))]
        per = o['per']
        prior = radvel.prior.SecondaryEclipsePrior(planet, te + per * (n + d), err)
        s = err / per
        want = -0.5 * (d / s) * (d / s) - F.log(F.sqrt(2 * PI * s * s))
        ctx.check_eq(prior(P, V), want, 'normal density of the phase difference')
        same(ctx, P, V, before)
    return h


def cases(tier):
    q = tier == 'quick'
    out = []
    for b in FIT_BASES:
        out.append(Case('eccentricity 1 planet %s' % slug(b), ecc(b, 1, 1, None)))
        out.append(Case('amplitude 1 planet %s' % slug(b), posk(b, 1, 1)))
        for n, arg, lims in [(2, 2, [0.3, 0.8]), (3, [3, 1], [0.2, 0.7])] if q else [(2, 2, [0.3, 0.8]), (2, [2], 0.4), (3, [3, 1], [0.2, 0.7]), (3, 2, 0.5), (3, [2, 3, 1], [0.3, 0.6, 0.9])]:
            out.append(Case('eccentricity %s of %d planets %s' % (arg, n, slug(b)), ecc(b, n, arg, lims)))
        for n, arg in [(2, 2), (3, 2)] if q else [(2, 2), (2, 1), (3, 2), (3, 3)]:
            out.append(Case('amplitude %d of %d planets %s' % (arg, n, slug(b)), posk(b, n, arg)))
        for n, p in ((1, 1), (2, 2)) if q else ((1, 1), (2, 1), (2, 2), (3, 2)):
            out.append(Case('eclipse planet %d of %d %s' % (p, n, slug(b)), eclipse(b, n, p, (0, -1) if q else (0, -1, 1, 3)), opts={'int_floor': True}))
    return out
