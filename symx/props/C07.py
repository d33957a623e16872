"""The model is the sum of its planets plus the trend."""
from .common import *

EXPLANATION = ('The real model evaluation runs on symbolic parameters and times with the single-planet curve as an uninterpreted function of '
               'the five elements (C05); z3 decides that the sum, the selection of one planet, the trend and the time base are as stated, before and '
               'after the vector has been overwritten, and that parameters, vector and times stay as they were.')
BOUNDS = '1-3 planets, 2 (thorough: 3) times, all fitting parameterisations, trends declared before, after or not at all'
OUTSIDE = 'the print-only parameterisation; user-supplied signal functions are arbitrary functions of time, parameters and one argument'


def trend(ctx, t, t0, dvdt, curv):
    return dvdt * (t - t0) + curv * (t - t0) * (t - t0)


def build(ctx, basis, npl, where):
    orbits = [draw_orbit(ctx, i) for i in range(1, npl + 1)]
    P = params_in(ctx, basis, orbits)
    P['gamma_a'] = radvel.Parameter(value=ctx.real('gamma_a'))
    P['jit_a'] = radvel.Parameter(value=ctx.real('jit_a'))
    dvdt = curv = 0.0
    if 'd' in where:
        dvdt = ctx.real('dvdt')
        P['dvdt'] = radvel.Parameter(value=dvdt)
    if 'c' in where:
        curv = ctx.real('curv')
        P['curv'] = radvel.Parameter(value=curv)
    P['jit_b'] = radvel.Parameter(value=ctx.real('jit_b'))
    P['extra'] = radvel.Parameter(value=ctx.real('extra'))
    return orbits, P, dvdt, curv


def curve(ctx, t, o):
    return rv_curve(ctx, t, o['per'], o['tp'], o['e'], o['w'], o['k'])


def frozen(ctx, P, V, ts, t, vals, rows, label):
    for n in P:
        ctx.check(P[n].value == vals[n], label + ': parameter ' + n)
    for i, r in enumerate(rows):
        for j in range(4):
            ctx.check(V.vector[i][j] == r[j], label + ': vector slot %d field %d' % (i, j))
    ctx.check_all_eq(t, ts, label + ': times')


def summed(basis, npl, where, nt):
    def h(ctx):
        orbits, P, dvdt, curv = build(ctx, basis, npl, where)
        t0 = ctx.real('time_base')
        ctx.stub(radvel.kepler, 'rv_drive', rv_drive_stub(ctx))
        m = radvel.RVModel(P, time_base=t0)
        ts = ctx.reals('t', nt)
        t = ctx.array(ts)
        vals = {n: P[n].value for n in P}
        rows = [list(r) for r in m.vector.vector]
        v = m(t)
        ctx.check(len(v) == nt, 'one velocity per time')
        for i in range(nt):
            want = trend(ctx, ts[i], t0, dvdt, curv)
            for o in orbits:
                want = want + curve(ctx, ts[i], o)
            ctx.check_eq(v[i], want, 'sum of planets and trend')
        for j in range(1, npl + 1):
            v = m(t, planet_num=j)
            for i in range(nt):
                want = trend(ctx, ts[i], t0, dvdt, curv) + curve(ctx, ts[i], orbits[j - 1])
                ctx.check_eq(v[i], want, 'planet %d selected' % j)
        frozen(ctx, P, m.vector, ts, t, vals, rows, 'after evaluation')
    return h


def moved(basis, npl):
    """the model follows the vector, as in a fit"""
    def h(ctx):
        orbits, P, dvdt, curv = build(ctx, basis, npl, 'dc')
        t0 = ctx.real('time_base')
        ctx.stub(radvel.kepler, 'rv_drive', rv_drive_stub(ctx))
        m = radvel.RVModel(P, time_base=t0)
        ts = ctx.reals('t', 1)
        t = ctx.array(ts)
        m(t)
        gamma = P['gamma_a'].value
        new = [draw_orbit(ctx, i, tag='new') for i in range(1, npl + 1)]
        d2, c2 = ctx.real('dvdt_new'), ctx.real('curv_new')
        for i, o in enumerate(new, 1):
            for n in basis.split():
                m.vector.vector[m.vector.indices['%s%d' % (n, i)]][0] = define(o, n)
        m.vector.vector[m.vector.indices['dvdt']][0] = d2
        m.vector.vector[m.vector.indices['curv']][0] = c2
        v = m(t)
        want = trend(ctx, ts[0], t0, d2, c2)
        for o in new:
            want = want + curve(ctx, ts[0], o)
        ctx.check_eq(v[0], want, 'model follows the vector')
        m.vector.vector_to_dict()
        for i, o in enumerate(new, 1):
            for n in basis.split():
                ctx.check_eq(P['%s%d' % (n, i)].value, define(o, n), 'copied back')
        ctx.check_eq(P['dvdt'].value, d2, 'trend copied back')
        ctx.check_eq(P['curv'].value, c2, 'trend copied back')
        ctx.check_eq(P['gamma_a'].value, gamma, 'offset kept')
    return h


def two_models(ctx):
    """two models of two parameter sets do not see each other"""
    a = [draw_orbit(ctx, i, tag='a') for i in (1, 2)]
    b = [draw_orbit(ctx, i, tag='b') for i in (1, 2)]
    ctx.stub(radvel.kepler, 'rv_drive', rv_drive_stub(ctx))
    PA = params_in(ctx, 'per tc secosw sesinw k', a)
    PB = params_in(ctx, 'per tp e w k', b)
    ta, tb = ctx.real('ta'), ctx.real('tb')
    PA['dvdt'] = radvel.Parameter(value=ctx.real('da'))
    A = radvel.RVModel(PA, time_base=ta)
    B = radvel.RVModel(PB, time_base=tb)
    ts = ctx.reals('t', 2)
    t = ctx.array(ts)
    vb, va, vb2 = B(t), A(t), B(t)
    for i in range(2):
        ctx.check_eq(va[i], curve(ctx, ts[i], a[0]) + curve(ctx, ts[i], a[1]) + PA['dvdt'].value * (ts[i] - ta), 'first model')
        ctx.check_eq(vb[i], curve(ctx, ts[i], b[0]) + curve(ctx, ts[i], b[1]), 'second model')
        ctx.check_eq(vb2[i], vb[i], 'second model again')


def general(ctx):
    """a user's signal plus the trend"""
    P = radvel.Parameters(1, basis='per tp e w k')
    o = draw_orbit(ctx, 1)
    for n in 'per tp e w k'.split():
        P[n + '1'] = radvel.Parameter(value=o[n])
    P['depth'] = radvel.Parameter(value=ctx.real('depth'))
    P['dvdt'] = radvel.Parameter(value=ctx.real('dvdt'))
    P['curv'] = radvel.Parameter(value=ctx.real('curv'))
    seen = []

    def signal(t, params, vector, scale, shift=0):
        seen.append((params is P, vector is m.vector))
        return np.array([scale * ctx.uf('signal', x, fn=math.sin) + params['depth'].value + shift for x in t])
    t0 = ctx.real('time_base')
    m = radvel.GeneralRVModel(P, signal, time_base=t0)
    ts = ctx.reals('t', 2)
    s, z = ctx.real('scale'), ctx.real('shift')
    v = m(ctx.array(ts), s, shift=z)
    ctx.check(seen == [(True, True)], 'signal called once with the model parameters')
    for i in range(2):
        ctx.check_eq(v[i], s * ctx.uf('signal', ts[i], fn=math.sin) + P['depth'].value + z +
                     trend(ctx, ts[i], t0, P['dvdt'].value, P['curv'].value), 'signal plus trend')
    w = radvel.GeneralRVModel(P, lambda t, p, v: 0 * t)(ctx.array(ts))
    for i in range(2):
        ctx.check_eq(w[i], trend(ctx, ts[i], 0, P['dvdt'].value, P['curv'].value), 'default time base is zero')


def cases(tier):
    q = tier == 'quick'
    out = []
    for k, b in enumerate(FIT_BASES):
        out.append(Case('sum 2 ' + slug(b), summed(b, 2, 'dc', 2 if q else 3), '2 planets'))
        out.append(Case('sum 1 ' + slug(b), summed(b, 1, ('', 'd', 'c')[k % 3], 2), '1 planet'))
        if k in (0, 1, 7) or not q:
            out.append(Case('sum 3 ' + slug(b), summed(b, 3, ('', 'd', 'c', 'dc')[k % 4], 2), '3 planets'))
        out.append(Case('vector ' + slug(b), moved(b, 2), '2 planets'))
    out += [Case('two models', two_models, '2 x 2 planets'), Case('general', general, '')]
    return out
