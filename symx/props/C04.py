"""Transit, periastron, eclipse and true anomaly."""
from .common import *
from radvel.orbit import timeperi_to_timetrans, timetrans_to_timeperi, true_anomaly

EXPLANATION = ('The real time conversions run on symbolic orbits. At the returned conjunction and eclipse times the true anomaly '
               'is computed by the real true_anomaly (Kepler equation replaced by its unique solution, which z3 checks '
               'to be one) and proved to be pi/2 - w resp. 3pi/2 - w modulo 2 pi; eclipse range, inverses, e >= 1 and arrays likewise.')
BOUNDS = 'arrays of 1-3 elements; P > 0; 0 <= e < 1 (e >= 1 for the fallback); -2pi <= w <= 2pi'
OUTSIDE = 'true anomalies exactly at apastron (pole of the half-angle tangent)'


def geometry(secondary):
    def h(ctx):
        o = draw_orbit(ctx, 1, circular_ok=True)
        tp, P, e, w = (o[n] for n in ('tp', 'per', 'e', 'w'))
        f = (3 * PI / 2 if secondary else PI / 2) - w
        if secondary:
            t = timeperi_to_timetrans(tp, P, e, w, secondary=True)
        else:
            t = timeperi_to_timetrans(tp, P, e, w)
        E0 = 2 * F.arctan(F.sqrt((1 - e) / (1 + e)) * F.tan(f / 2))
        calls = []

        def solve(M, ecc):
            calls.append(1)
            ctx.check(len(M) == 1 and len(ecc) == 1, 'Kepler equation asked for one time')
            ctx.check_angle_eq(M[0], E0 - e * F.sin(E0), 'mean anomaly of the conjunction')
            ctx.check_eq(ecc[0], e, 'eccentricity handed to the Kepler equation')
            return E0
        ctx.stub(radvel.kepler, 'kepler', solve)
        nu = true_anomaly(ctx.array([t]), tp, P, e)
        nu = np.asarray(nu, dtype=object).ravel()[0]
        ctx.check(len(calls) == 1, 'Kepler equation used once')
        ctx.check_angle_eq(nu + w, 3 * PI / 2 if secondary else PI / 2,
                           'true anomaly plus omega at ' + ('eclipse' if secondary else 'transit'))
    return h


def eclipse_range(ctx):
    o = draw_orbit(ctx, 1, circular_ok=True)
    tp, P, e, w = (o[n] for n in ('tp', 'per', 'e', 'w'))
    ts = timeperi_to_timetrans(tp, P, e, w, secondary=True)
    u = F.sqrt((1 - e) / (1 + e)) * F.tan((3 * PI / 2 - w) / 2)
    E0 = 2 * F.arctan(u)
    # first branch on the half of the orbit, so that whole turns are decided
    pos = ctx.decide_bool(u >= 0)
    if ctx.symbolic:
        ctx.assume(F.sin(E0) <= E0 if pos else F.sin(E0) >= E0)   # |sin x| <= |x|
    M = (E0 - e * F.sin(E0)) / (2 * PI)
    want = M if pos else M + 1
    ctx.check_eq((ts - tp) / P, want, 'eclipse phase')
    ctx.check(M >= 0 if pos else sand(M + 1 > 0, M < 0), 'phase within one turn')
    # together: ts = tp + P * phase with 0 <= phase < 1


def inverse(ctx):
    o = draw_orbit(ctx, 1, circular_ok=True)
    tp, P, e, w = (o[n] for n in ('tp', 'per', 'e', 'w'))
    tc = timeperi_to_timetrans(tp, P, e, w)
    ctx.check_eq(tc, conj_time(o), 'time of conjunction')
    ctx.check_eq(timetrans_to_timeperi(tc, P, e, w), tp, 'periastron -> transit -> periastron')
    tq = timetrans_to_timeperi(tp, P, e, w)
    ctx.check_eq(timeperi_to_timetrans(tq, P, e, w), tp, 'transit -> periastron -> transit')
    # whole turns of w make no difference
    ctx.check_eq(timeperi_to_timetrans(tp, P, e, w + 2 * PI), tc, 'omega + 2 pi')


def hyperbolic(ctx):
    t = ctx.real('t', sample=(-50, 50))
    P = ctx.real('per', 0, None, open_lo=True, sample=(0.5, 50))
    e = ctx.real('e', 1, None, sample=(1, 3))
    w = ctx.real('w', -2 * PI, 2 * PI)
    ctx.check_eq(timeperi_to_timetrans(t, P, e, w), t, 'transit time for e >= 1')
    ctx.check_eq(timeperi_to_timetrans(t, P, e, w, secondary=True), t, 'eclipse time for e >= 1')
    ctx.check_eq(timetrans_to_timeperi(t, P, e, w), t, 'periastron time for e >= 1')


def arrays(n):
    def h(ctx):
        os_ = [draw_orbit(ctx, i, circular_ok=True) for i in range(n)]
        a = {k: ctx.array([o[k] for o in os_]) for k in ('tp', 'per', 'e', 'w')}
        before = {k: list(v) for k, v in a.items()}
        for name, fn, kw in (('transit', timeperi_to_timetrans, {}),
                             ('eclipse', timeperi_to_timetrans, {'secondary': True}),
                             ('periastron', timetrans_to_timeperi, {})):
            got = fn(a['tp'], a['per'], a['e'], a['w'], **kw)
            want = [fn(o['tp'], o['per'], o['e'], o['w'], **kw) for o in os_]
            ctx.check_all_eq(got, want, name + ' times of arrays')
            for k in a:
                ctx.check_all_eq(a[k], before[k], name + ' leaves ' + k)
    return h


def anomaly(n):
    def h(ctx):
        o = draw_orbit(ctx, 1, circular_ok=True)
        tp, P, e = o['tp'], o['per'], o['e']
        ts = ctx.reals('t', n, sample=(-60, 60))
        sol = kepler_stub(ctx)
        got = {}

        def solve(M, ecc):
            ctx.check(len(M) == n and len(ecc) == n, 'one equation per time')
            for i in range(n):
                ctx.check_angle_eq(M[i], 2 * PI * (ts[i] - tp) / P, 'mean anomaly %d' % i)
                ctx.check(sand(M[i] >= 0, M[i] < 2 * PI), 'mean anomaly %d in [0, 2 pi)' % i)
                ctx.check_eq(ecc[i], e, 'eccentricity %d' % i)
            E = sol(M, ecc)
            got['E'] = np.atleast_1d(E)
            return E
        ctx.stub(radvel.kepler, 'kepler', solve)
        t = ctx.array(ts)
        nu = np.atleast_1d(np.asarray(true_anomaly(t, tp, P, e)))
        ctx.check(len(nu) == n, 'one anomaly per time')
        ctx.check_all_eq(t, ts, 'times unchanged')
        for i in range(n):
            E = got['E'][i]
            den = 1 - e * F.cos(E)
            ctx.check_eq(F.cos(nu[i]) * den, F.cos(E) - e, 'cos of true anomaly %d' % i)
            ctx.check_eq(F.sin(nu[i]) * den, F.sqrt(1 - e * e) * F.sin(E), 'sin of true anomaly %d' % i)
    return h


def cases(tier):
    out = [Case('transit geometry', geometry(False)), Case('eclipse geometry', geometry(True)),
           Case('eclipse range', eclipse_range, opts={'int_floor': True}),
           Case('inverse', inverse), Case('e at least one', hyperbolic)]
    for n in (1, 2, 3):
        out.append(Case('arrays %d' % n, arrays(n), '%d elements' % n))
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        out.append(Case('true anomaly %d' % n, anomaly(n), '%d times' % n))
    return out
