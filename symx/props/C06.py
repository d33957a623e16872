"""Kepler's equation solvers."""
from .common import *
from .. import cfront

EXPLANATION = ('The Newton/Danby iterations of kepler() (Python, array-valued with its convergence masks) and of the C kepler() (LLVM IR of '
               'the current source, through the Cython wrapper as well) are unrolled on symbolic M and e; large intermediate values are named by defining equations. '
               'On every path on which the solver returns, z3 decides |E - e sin E - M| <= 1e-12 from the conditions of the path.')
BOUNDS = ('0 <= M < 2 pi, 0 <= e < 1 (C arrays e <= 0.99); arrays of 1, 2 (thorough: 3) elements; unrolled to 8-14 (thorough: 12-40) branch decisions '
          '(one per iteration and element) for arrays and to the iteration limit of 30 for the C function on one element')
OUTSIDE = 'termination of the iteration (the compiled solver ends the process when 30 iterations do not suffice, which happens only for e > 0.99); rounding'
EXTRA_FUNCTIONS = ['src/kepler.c:kepler (LLVM IR)', 'src/_kepler.pyx:kepler_array']
TOL = 1e-12


def inputs(ctx, n):
    Ms = ctx.reals('M', n, 0, 2 * PI, open_hi=True, sample=(0.01, 6.2))
    es = ctx.reals('e', n, 0, 1, open_hi=True, sample=(0.01, 0.97))
    return Ms, es


def solved(ctx, E, M, e, i):
    tol = TOL if ctx.symbolic else 3e-12
    f = E - e * F.sin(E) - M
    ctx.check(sand(f <= tol, f >= -tol), 'Kepler equation holds for element %d' % i)


def python(n):
    def h(ctx):
        Ms, es = inputs(ctx, n)
        singles = []
        for i in range(n if n > 1 else 0):
            singles.append(radvel.kepler.kepler(ctx.array([Ms[i]]), ctx.array([es[i]])))
        M, e = ctx.array(Ms), ctx.array(es)
        E = np.atleast_1d(np.asarray(radvel.kepler.kepler(M, e), dtype=object))
        ctx.check(len(E) == n, 'one anomaly per element')
        for i in range(n):
            solved(ctx, E[i], Ms[i], es[i], i)
        ctx.check_all_eq(M, Ms, 'mean anomalies unchanged')
        ctx.check_all_eq(e, es, 'eccentricities unchanged')
        for i in range(len(singles)):
            ctx.check_eq(E[i], singles[i], 'element %d independent of the others' % i)
    return h


def circular(ctx):
    """an element that is converged at the start is returned as it is"""
    M = ctx.real('M0', 0, 2 * PI, open_hi=True)
    M1 = ctx.real('M1', 0, 2 * PI, open_hi=True)
    e1 = ctx.real('e1', 0, 1, open_hi=True, sample=(0.02, 0.9))
    E = radvel.kepler.kepler(ctx.array([M, M1]), ctx.array([0.0 * M, e1]))
    ctx.check_eq(E[0], M, 'converged element untouched')


def c_single(ctx):
    Ms, es = inputs(ctx, 1)
    w = compiled(ctx)
    try:
        if ctx.symbolic:
            E = w.machine.call('kepler', [Ms[0], es[0]])
        else:
            if float(es[0]) > 0.99:
                return
            E = w.kepler_array(np.array([Ms[0]]), float(es[0]))[0]
    except cfront.CExit:
        return
    solved(ctx, E, Ms[0], es[0], 0)


def c_array(n):
    def h(ctx):
        Ms, es = inputs(ctx, n)
        e = es[0]
        ctx.assume(e <= 0.99)
        w = compiled(ctx)
        M = ctx.array(Ms)
        try:
            E = w.kepler_array(M, e)
        except cfront.CExit:
            return
        ctx.check(len(E) == n, 'one anomaly per element')
        for i in range(n):
            solved(ctx, E[i], Ms[i], e, i)
        ctx.check_all_eq(M, Ms, 'mean anomalies unchanged')
    return h


def cases(tier):
    q = tier == 'quick'
    o = {'def_terms': 4, 'branch_ms': 250, 'timeout_ms': 4000, 'lazy': True, 'int_range': (-1, 1), 'witness_timeout_ms': 300, 'max_witnesses': 3}

    def opt(d):
        return dict(o, prune_depth=d)
    out = [Case('Python 1', python(1), '1 element', opt(14 if q else 30)),
           Case('Python 2', python(2), '2 elements', opt(10 if q else 16)),
           Case('Python converged', circular, '2 elements', opt(10 if q else 16)),
           Case('C kepler', c_single, '1 element', opt(60 if q else 200)),
           Case('C array 1', c_array(1), '1 element', opt(16 if q else 40)),
           Case('C array 2', c_array(2), '2 elements', opt(11 if q else 16))]
    if not q:
        out.append(Case('Python 3', python(3), '3 elements', opt(14)))
    return out
