"""Single-planet velocity curve."""
from .common import *
from ..expr import is_integer_valued
from .. import expr
from radvel.kepler import rv_drive

EXPLANATION = ('rv_drive of the current tree, both through the pure Python path and through the C source (compiled by clang to LLVM '
               'IR and interpreted, with the Cython wrapper), runs on symbolic times and elements. Kepler\'s equation is replaced by its '
               'solution E(M, e) (C06 decides the solvers themselves) and z3 decides velocity = K (cos nu cos w - sin nu sin w + e cos w) with '
               'cos nu = (cos E - e)/(1 - e cos E), sin nu = sqrt(1-e^2) sin E/(1 - e cos E), for every regime of e and P.')
BOUNDS = '1-2 observation times (3 in the thorough tier); all real t, tp, K, w; e in each of the regimes e<0, e=0, 0<e<=0.99, e>0.99; P > 0 and P < 0'
OUTSIDE = 'the pole of tan(E/2) at apastron; times that are not floating point arrays'
ASSUMPTIONS = ['E(M, e) satisfies E - e sin E = M (what C06 decides for the solver)']
EXTRA_FUNCTIONS = ['src/kepler.c:rv_drive (LLVM IR)', 'src/_kepler.pyx:rv_drive_array']


def solve(M, e):
    E = M
    for _ in range(300):
        E -= (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
    return E


def curve(kind, regime, sign, n):
    def h(ctx):
        P = ctx.real('per', 0, None, open_lo=True, sample=(0.5, 50)) if sign > 0 else \
            ctx.real('per', None, 0, open_hi=True, sample=(-30, -0.5))
        tp = ctx.real('tp', sample=(-20, 20))
        w = ctx.real('w', -2 * PI, 2 * PI, sample=(-6, 6))
        k = ctx.real('k', sample=(-30, 60))
        if regime == 'zero':
            e, ee = 0.0, 0.0
        elif regime == 'negative':
            e, ee = ctx.real('e', None, 0, open_hi=True, sample=(-2, -0.01)), 0.0
        elif regime == 'high':
            e, ee = ctx.real('e', 0.99, None, open_lo=True, sample=(0.991, 3)), 0.99
        else:
            e = ee = ctx.real('e', 0, 0.99, open_lo=True, sample=(0.02, 0.95))
        PP = P if sign > 0 else 1e-4
        ts = ctx.reals('t', n, sample=(-60, 60))
        Ms, Es = [], []
        for t in ts:
            M = 2 * PI * ((t - tp) / PP - F.floor((t - tp) / PP))
            Ms.append(M)
            if regime in ('zero', 'negative'):
                Es.append(M)
            else:
                E = ctx.uf('kepler_E', M, ee, fn=solve)
                ctx.assume(E - ee * F.sin(E) == M if ctx.symbolic else True)
                Es.append(E)

        def one(M, ecc):
            """the solution of Kepler's equation for this M and e"""
            ctx.check_eq(ecc, ee, 'eccentricity handed to the solver')
            for Mr, E in zip(Ms, Es):
                d = (sym.to_rf(M) - sym.to_rf(Mr)) / (expr.rf_atom(expr.PI) * expr.rf_const(2))
                if is_integer_valued(d):
                    return E + (M - Mr)
            E = ctx.uf('kepler_E', M, ecc, fn=solve)
            ctx.assume(E - ecc * F.sin(E) == M)
            return E

        if ctx.symbolic:
            def kepler(Marr, earr):
                Marr = np.atleast_1d(np.asarray(Marr, dtype=object))
                earr = np.broadcast_to(np.asarray(earr, dtype=object), Marr.shape)
                out = ctx.array([one(a, b) for a, b in zip(Marr.ravel(), earr.ravel())])
                return out if out.size > 1 else out[0]
            ctx.stub(radvel.kepler, 'kepler', kepler)
        if kind == 'C':
            compiled(ctx, {'kepler': one})
            ctx.stub(radvel.kepler, '_check_cext', lambda: True)
        t = ctx.array(ts)
        orbel = ctx.array([P, tp, e, w, k])
        v = rv_drive(t, orbel, use_c_kepler_solver=(kind == 'C'))
        v = np.asarray(v, dtype=object).ravel()
        ctx.check(len(v) == n, 'one velocity per time')
        if regime == 'high':
            # the same as for the limit itself (decided in the regime above)
            lim = rv_drive(t, ctx.array([P, tp, 0.99, w, k]), use_c_kepler_solver=(kind == 'C'))
            ctx.check_all_eq(v, lim, 'velocity for e = 0.99')
        for i in range(n if regime != 'high' else 0):
            E = Es[i]
            if regime in ('zero', 'negative'):
                want = k * F.cos(Ms[i] + w)
            else:
                den = 1 - ee * F.cos(E)
                cosnu = (F.cos(E) - ee) / den
                sinnu = F.sqrt(1 - ee * ee) * F.sin(E) / den
                want = k * (cosnu * F.cos(w) - sinnu * F.sin(w) + ee * F.cos(w))
            ctx.check_eq(v[i], want, 'velocity at time %d' % i)
        ctx.check_all_eq(t, ts, 'times unchanged')
        ctx.check_all_eq(orbel, [P, tp, e, w, k], 'elements unchanged')
    return h


def fallback(ctx):
    """Without the compiled solver, and by default, the same curve."""
    P = ctx.real('per', 0, None, open_lo=True, sample=(0.5, 50))
    tp, k = ctx.real('tp', sample=(-20, 20)), ctx.real('k', sample=(1, 60))
    w = ctx.real('w', -PI, PI)
    e = ctx.real('e', 0, 0.99, open_lo=True, sample=(0.02, 0.95))
    t = ctx.array(ctx.reals('t', 1, sample=(-60, 60)))
    ctx.stub(radvel.kepler, 'kepler', kepler_stub(ctx))
    ref = rv_drive(t, ctx.array([P, tp, e, w, k]), use_c_kepler_solver=False)
    ctx.stub(radvel.kepler, '_check_cext', lambda: False)
    for kw in ({}, {'use_c_kepler_solver': True}):
        got = rv_drive(t, ctx.array([P, tp, e, w, k]), **kw)
        ctx.check_all_eq(got, ref, 'without the extension %s' % sorted(kw))


def cases(tier):
    out = []
    for kind in ('Python', 'C'):
        for regime in ('zero', 'negative', 'normal', 'high'):
            for sign in (1, -1):
                n = 2 if regime == 'normal' and sign > 0 else 1
                if tier != 'quick':
                    n += 1
                out.append(Case('%s e %s P %s' % (kind, regime, 'positive' if sign > 0 else 'negative'),
                                curve(kind, regime, sign, n), '%d times' % n, opts={'rtol': 1e-5, 'atol': 1e-6}))
    out.append(Case('fallback', fallback, '1 time'))
    return out
