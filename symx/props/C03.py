"""Vector conversion against dictionary conversion."""
from .common import *
from radvel.model import Vector

EXPLANATION = ('The two hand-written conversion paths run on the same symbolic parameters; every slot of the '
               'result, every flag and every untouched slot is compared, and model velocities (single-planet curve an uninterpreted '
               'function of the orbit) are compared across parameterisations.')
BOUNDS = '1-3 planets, trends declared or not, 2 instruments; 9 parameterisations (81 ordered pairs)'
OUTSIDE = 'the print-only parameterisation, which has six names for five slots'


def build(ctx, A, npl, trend):
    orbits = [draw_orbit(ctx, i) for i in range(1, npl + 1)]
    P = params_in(ctx, A, orbits)
    for n in P:
        P[n].vary = ctx.boolean('vary_' + n)
        P[n].mcmcscale = ctx.real('scale_' + n, 0, 10)
    names = ['gamma_j', 'jit_j', 'gamma_k', 'jit_k'] + (['dvdt', 'curv'] if trend else [])
    for n in names:
        P[n] = radvel.Parameter(value=ctx.real('v_' + n), vary=ctx.boolean('vary_' + n),
                                linear=ctx.boolean('lin_' + n))
    return orbits, P


def slots(basis, i):
    return [(n, 5 * (i - 1) + j) for j, n in enumerate(basis.split())]


def rows(v):
    return [list(r) for r in v]


def same_rows(ctx, v, r, which, label):
    for i in which:
        for j in range(4):
            ctx.check(same_val(v[i][j], r[i][j]), '%s: slot %d field %d' % (label, i, j))


def same_val(a, b):
    """equal; None is stored as NaN by float arrays"""
    na = a is None or (isinstance(a, float) and a != a)
    nb = b is None or (isinstance(b, float) and b != b)
    if na or nb:
        return na and nb
    return a == b


def vec(A, npl, trend):
    def h(ctx):
        orbits, P = build(ctx, A, npl, trend)
        V = Vector(P)
        n = len(V.vector)
        before = rows(V.vector)
        arr = V.vector
        S = P.basis.to_synth(P)
        for how in ('vector', 'array'):
            arg = V if how == 'vector' else V.vector
            for nv in (True, False):
                lab = '%s to synth (%s)' % (A, how)
                s = P.basis.v_to_synth(arg, noVary=nv) if not nv else P.basis.v_to_synth(arg)
                ctx.check(len(s) == n, lab + ': length')
                ctx.check(V.vector is arr, lab + ': same vector')
                same_rows(ctx, V.vector, before, range(n), lab + ': input vector')
                same_rows(ctx, s, before, range(5 * npl, n), lab + ': other slots')
                for i in range(1, npl + 1):
                    for (m, j), a in zip(slots('per tp e w k', i), A.split()):
                        same_element(ctx, m, s[j][0], S['%s%d' % (m, i)].value, lab + ': %s%d' % (m, i))
                        same_element(ctx, m, s[j][0], orbits[i - 1][m], lab + ': %s%d value' % (m, i))
                        if m == a:
                            same_rows(ctx, s, before, [j], lab + ': unchanged %s%d' % (m, i))
                        else:
                            ctx.check(s[j][1] == (not nv), lab + ': flag of %s%d' % (m, i))
        for Bn in FIT_BASES:
            lab = '%s -> %s' % (A, Bn)
            s = P.basis.v_to_synth(V)
            s0 = rows(s)
            o = P.basis.v_from_synth(s, Bn)
            same_rows(ctx, s, s0, range(n), lab + ': intermediate vector')
            o2 = P.basis.v_to_any_basis(V, Bn)
            same_rows(ctx, V.vector, before, range(n), lab + ': input vector')
            Q = P.basis.to_any_basis(P, Bn)
            for res in (o, o2):
                ctx.check(len(res) == n, lab + ': length')
                same_rows(ctx, res, before, range(5 * npl, n), lab + ': other slots')
                for i in range(1, npl + 1):
                    for (m, j), a, y in zip(slots(Bn, i), A.split(), 'per tp e w k'.split()):
                        same_element(ctx, m, res[j][0], Q['%s%d' % (m, i)].value,
                                     lab + ': %s%d' % (m, i))
                        if m != y:
                            ctx.check(res[j][1] == True, lab + ': flag of %s%d' % (m, i))   # noqa
                        else:
                            for f in (1, 3):
                                ctx.check(res[j][f] is s0[j][f] or res[j][f] == s0[j][f],
                                          lab + ': unchanged %s%d field %d' % (m, i, f))
    return h


def velocities(npl):
    def h(ctx):
        orbits = [draw_orbit(ctx, i) for i in range(1, npl + 1)]
        dvdt, curv = ctx.real('dvdt'), ctx.real('curv')
        t0 = ctx.real('time_base')
        ctx.stub(radvel.kepler, 'rv_drive', rv_drive_stub(ctx))
        t = ctx.array(ctx.reals('t', 2))
        ref = None
        for A in FIT_BASES:
            P = params_in(ctx, A, orbits)
            P['dvdt'] = radvel.Parameter(value=dvdt)
            P['curv'] = radvel.Parameter(value=curv)
            m = radvel.RVModel(P, time_base=t0)
            v = m(t)
            if ref is None:
                ref = v
            ctx.check_all_eq(v, ref, 'velocities in ' + A)
            # converted by the package itself
            Q = P.basis.to_any_basis(P, FIT_BASES[(FIT_BASES.index(A) + 3) % 9])
            ctx.check_all_eq(radvel.RVModel(Q, time_base=t0)(t), ref, 'velocities converted from ' + A)
    return h


def cases(tier):
    out = []
    for A in FIT_BASES:
        out.append(Case('vector %s' % slug(A), vec(A, 2, True), '2 planets, trends declared'))
        out.append(Case('vector1 %s' % slug(A), vec(A, 1, False), '1 planet, no trends'))
        if tier == 'thorough':
            out.append(Case('vector3 %s' % slug(A), vec(A, 3, True), '3 planets'))
    for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
        out.append(Case('velocities %d' % n, velocities(n), '%d planets, 2 times' % n))
    return out
