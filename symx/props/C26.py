"""Phase folding."""
import radvel.utils
from .common import *

U = radvel.utils

EXPLANATION = ('t_to_phase and t_to_phase_vector run on symbolic times, periods and reference times in every parameterisation; z3 decides that the phase is the fractional part of '
               '(t - reference)/P, is unchanged when any whole number of periods is added, and that both functions agree on the same orbit.')
BOUNDS = '1-2 planets (thorough: 3), 1-2 times, all ten parameterisations, all real times within +-1e6 periods, shifts by 1, 3, 7 and 50 periods'
OUTSIDE = 'rounding of the floating-point remainder at the ends of a cycle (a phase of exactly 1.0 for a time just before the reference)'


def time_stub(ctx):
    """the transit-to-periastron conversion (C04) as an unknown function"""
    import math
    real = radvel.orbit.timetrans_to_timeperi

    def _concrete(tc, per, e, w):
        return float(np.ravel(real(tc, per, e, w))[0])

    def stub(tc, per, ecc, omega):
        if not ctx.symbolic:
            return real(tc, per, ecc, omega)
        return ctx.uf('tp_of', tc, per, ecc, F.cos(omega), F.sin(omega),
                      fn=lambda a, b, c, cw, sw: _concrete(a, b, c, math.atan2(sw, cw)))
    ctx.stub(radvel.basis, 'timetrans_to_timeperi', stub)


def elements(ctx, basis, npl):
    """a parameter set with free values of its own elements, periods of each planet"""
    P = radvel.Parameters(npl, basis=basis)
    pers = []
    for i in range(1, npl + 1):
        per = ctx.real('per%d' % i, 1e-3, 1e4, sample=(0.5, 50))
        pers.append(per)
        for n in basis.split():
            key = '%s%d' % (n, i)
            v = {'per': lambda: per, 'logper': lambda: F.log(per),
                 'e': lambda: ctx.real(key, 0, 1, open_hi=True, sample=(0, 0.9)),
                 'se': lambda: ctx.real(key, 0, 1, open_hi=True, sample=(0, 0.9)),
                 'k': lambda: 1.0 + i, 'logk': lambda: 0.5 * i, 'w': lambda: ctx.real(key, -PI, PI)}.get(
                     n, lambda: ctx.real(key, -0.7, 0.7) if n[0] in 'es' else ctx.real(key, -1e5, 1e5, sample=(-50, 50)))()
            P[key] = radvel.Parameter(value=v)
    return P, pers


def is_phase(ctx, ph, t, ref, per, label):
    x = (t - ref) / per
    ctx.check(sand(ph >= 0, ph < 1), label + ': within one cycle')
    ctx.check_eq(ph, x - F.floor(x), label + ': fraction of the period since the reference time')


def folded(basis, npl, pnum, nt):
    def h(ctx):
        P, pers = elements(ctx, basis, npl)
        per = pers[pnum - 1]
        ref = P['tc%d' % pnum].value if 'tc' in basis.split() else P['tp%d' % pnum].value
        T = [ctx.real('t%d' % i, -1e5, 1e5, sample=(-50, 50)) for i in range(nt)]
        for t in T:
            f = (t - ref) / per
            f = f - F.floor(f)
            ctx.assume(sand(f > 1e-7, f < 1 - 1e-7))
        ph = U.t_to_phase(P, ctx.array(T), pnum)
        ctx.check(len(ph) == nt, 'one phase per time')
        for i in range(nt):
            is_phase(ctx, ph[i], T[i], ref, per, 'phase')
        both = U.t_to_phase(P, ctx.array(T), pnum, cat=True)
        ctx.check(len(both) == 2 * nt, 'doubled')
        for i in range(nt):
            ctx.check_eq(both[i], ph[i], 'doubled: first half')
            ctx.check_eq(both[nt + i], ph[i] + 1, 'doubled: second half')
        n = ctx.choice('turns', 3)
        for k in ((1, -1), (7, -3), (50, -50))[n]:
            again = U.t_to_phase(P, ctx.array([T[0] + k * per]), pnum)
            ctx.check_eq(again[0], ph[0], 'whole periods do not change the phase')
        at = U.t_to_phase(P, ctx.array([ref, ref + 0.25 * per, ref + 0.75 * per]), pnum)
        if ctx.symbolic:
            ctx.check_all_eq(list(at), [0, 0.25, 0.75], 'phase zero at the reference time and growing')
    return h


def vector(basis, npl, pnum, nt):
    def h(ctx):
        time_stub(ctx)
        P, pers = elements(ctx, basis, npl)
        per = pers[pnum - 1]
        V = radvel.model.Vector(P)
        names = list(V.params)
        before = [V.vector[i][0] for i in range(len(V.vector))]
        S = P.basis.to_synth(P)
        ref = S['tp%d' % pnum].value
        T = [ctx.real('t%d' % i, -1e5, 1e5, sample=(-50, 50)) for i in range(nt)]
        for t in T:
            f = (t - ref) / per
            f = f - F.floor(f)
            ctx.assume(sand(f > 1e-7, f < 1 - 1e-7))
        ph = U.t_to_phase_vector(V, ctx.array(T), pnum)
        ctx.check(len(ph) == nt, 'one phase per time')
        Q = radvel.Parameters(npl, basis='per tp e w k')
        for k in Q:
            Q[k] = radvel.Parameter(value=S[k].value)
        same = U.t_to_phase(Q, ctx.array(T), pnum)
        for i in range(nt):
            is_phase(ctx, ph[i], T[i], ref, per, 'phase from the vector')
            ctx.check_eq(same[i], ph[i], 'phase from the vector as from the parameters')
        both = U.t_to_phase_vector(V, ctx.array(T), pnum, cat=True)
        ctx.check(len(both) == 2 * nt, 'doubled')
        for i in range(nt):
            ctx.check_eq(both[i], ph[i], 'doubled: first half')
            ctx.check_eq(both[nt + i], ph[i] + 1, 'doubled: second half')
        for i, v in enumerate(before):
            ctx.check_eq(V.vector[i][0], v, 'vector unchanged')
        ctx.check(list(V.params) == names, 'parameters unchanged')
    return h


def cases(tier):
    out = []
    for b in BASES:
        for npl, pnum, nt in ((1, 1, 2), (2, 2, 1)) if tier == 'quick' else ((1, 1, 2), (2, 1, 2), (2, 2, 2), (3, 2, 1), (3, 3, 2)):
            out.append(Case('params %s %d of %d' % (slug(b), pnum, npl), folded(b, npl, pnum, nt), '%d times' % nt))
            if b in FIT_BASES:
                out.append(Case('vector %s %d of %d' % (slug(b), pnum, npl), vector(b, npl, pnum, nt), '%d times' % nt))
    return out
