"""Free parameters."""
from .common import *

EXPLANATION = ('The real set/get/list/name functions of likelihoods, composites and posteriors run with symbolic values and symbolic vary flags (every subset of the free '
               'parameters is a path); after each step of the history z3 decides value by value what moved and what did not.')
BOUNDS = '1-2 planets, 1-2 instruments, all subsets of 6 parameters free; histories of up to 4 steps; arrays of the right length and of lengths differing by one or two'
OUTSIDE = 'vectors whose index table the user replaces'


def build(ctx, basis, npl, inst, free, custom=True):
    """parameters in `free` carry symbolic flags, the others are fixed"""
    P = radvel.Parameters(npl, basis=basis)
    for k in list(P):
        P[k] = radvel.Parameter(value=ctx.real('v_' + k))
    P['curv'] = radvel.Parameter(value=ctx.real('v_curv'))
    if custom:
        P['user'] = radvel.Parameter(value=ctx.real('v_user'))
    for s in inst:
        for k in ('gamma', 'jit'):
            P[k + s] = radvel.Parameter(value=ctx.real('v_' + k + s))
    P['dvdt'] = radvel.Parameter(value=ctx.real('v_dvdt'))
    for k in P:
        P[k].vary = ctx.boolean('free_' + k) if k in free else False
    m = radvel.model.RVModel(P)
    L = [radvel.likelihood.RVLikelihood(m, np.array([0.0, 1.0, 2.0]), np.array([0.0, 1.0, 3.0]), np.ones(3), suffix=s)
         for s in inst]
    return P, m, L


def published(V):
    """names of the slots whose flag is set, in slot order"""
    order = sorted((V.indices[k], k) for k in V.params)
    return [k for i, k in order if V.vector[i][1]]


def snapshot(V):
    return {k: V.vector[V.indices[k]][0] for k in V.params}


def compare(ctx, obj, V, names, x, before, pv, fast, label):
    fixed = [k for k in V.params if k not in names]
    for i, k in enumerate(names):
        ctx.check_eq(V.vector[V.indices[k]][0], x[i], label + ': number of ' + k)
    for k in fixed:
        ctx.check_eq(V.vector[V.indices[k]][0], before[k], label + ': fixed ' + k)
    for i, k in enumerate(V.params):
        want = pv[k] if fast else (x[names.index(k)] if k in names else before[k])
        ctx.check_eq(V.params[k].value, want, label + ': parameter ' + k)
    got = obj.get_vary_params()
    ctx.check(len(got) == len(names), label + ': as many numbers read back')
    for i in range(min(len(got), len(names))):
        ctx.check_eq(got[i], x[i], label + ': number read back')


def flags_of(ctx, V):
    """decide every flag: the path is then one subset"""
    for k in V.params:
        i = V.indices[k]
        V.vector[i][1] = 1.0 if ctx.decide_bool(V.vector[i][1] == True) else 0.0    # noqa: E712


def simple(basis, npl, inst, free, which):
    def h(ctx):
        P, m, L = build(ctx, basis, npl, inst, free)
        V = m.vector
        obj = L[0] if which == 'likelihood' else radvel.likelihood.CompositeLikelihood(L)
        if which == 'posterior':
            obj = radvel.posterior.Posterior(obj)
        flags_of(ctx, V)
        if which == 'posterior':
            obj.list_vary_params()
        names = published(V)
        n = len(names)
        ctx.check(list(obj.name_vary_params()) == names, 'published names')
        start = obj.get_vary_params()
        for i in range(n):
            ctx.check_eq(start[i], P[names[i]].value, 'initial numbers')
        for step, fast in enumerate((False, True, False)):
            x = [ctx.real('x%d_%d' % (i, step)) for i in range(n)]
            before, pv = snapshot(V), {k: P[k].value for k in P}
            obj.set_vary_params(ctx.array(x) if fast else list(x), fast=fast)
            compare(ctx, obj, V, names, x, before, pv, fast, 'fast' if fast else 'set')
            ctx.check(list(obj.name_vary_params()) == names, 'published names afterwards')
        for d in (-2, -1, 1, 2):
            if n + d < 0:
                continue
            before = snapshot(V)
            try:
                obj.set_vary_params(ctx.array([ctx.real('bad%d' % i) for i in range(n + d)]))
                ctx.check(False, 'wrong length rejected')
            except (AssertionError, IndexError, ValueError):
                ctx.check(True, 'wrong length rejected')
            for k in P:
                if k not in names:
                    ctx.check_eq(V.vector[V.indices[k]][0], before[k], 'fixed %s after a rejected array' % k)
    return h


def objective(basis, free, free2, rebuild):
    """posterior: array in, flags changed, array in again"""
    def h(ctx):
        P, m, L = build(ctx, basis, 1, ('_a',), free)
        V = m.vector
        post = radvel.posterior.Posterior(L[0])
        flags_of(ctx, V)
        post.list_vary_params()
        seen = []
        ctx.stub(L[0], 'logprob', lambda: seen.append(snapshot(V)) or 0.0)
        names = published(V)
        x = [ctx.real('x%d' % i) for i in range(len(names))]
        before, pv = snapshot(V), {k: P[k].value for k in P}
        post.logprob_array(ctx.array(x))
        ctx.check(len(seen) == 1, 'likelihood evaluated once')
        compare(ctx, post, V, names, x, before, pv, True, 'first')
        for k in P:
            ctx.check_eq(seen[0][k], x[names.index(k)] if k in names else before[k], 'likelihood sees ' + k)
        # other parameters become free
        V.vector_to_dict()
        for k in P:
            P[k].vary = ctx.decide_bool(ctx.boolean('free2_' + k)) if k in free2 else False
        V.dict_to_vector()
        names2 = published(V)
        if rebuild:
            post.list_vary_params()
        elif len(names2) == len(names):
            return
        y = [ctx.real('y%d' % i) for i in range(len(names2))]
        before, pv = snapshot(V), {k: P[k].value for k in P}
        post.neglogprob_array(ctx.array(y))
        for i, k in enumerate(names2):
            ctx.check_eq(V.vector[V.indices[k]][0], y[i], 'after the change: number of ' + k)
        for k in P:
            if k not in names2:
                ctx.check_eq(V.vector[V.indices[k]][0], before[k], 'after the change: fixed ' + k)
        if rebuild:
            ctx.check(list(post.name_vary_params()) == names2, 'published names after the change')
            compare(ctx, post, V, names2, y, before, pv, True, 'after the change')
        post.set_vary_params(ctx.array(y))
        for k in P:
            ctx.check_eq(P[k].value, y[names2.index(k)] if k in names2 else before[k], 'final parameter ' + k)
    return h


def cases(tier):
    q = tier == 'quick'
    B = FIT_BASES
    out = []
    for k, (b, npl, inst, free) in enumerate([
            (B[1], 1, ('_a',), ['tc1', 'sesinw1', 'dvdt', 'gamma_a', 'jit_a', 'user']),
            (B[0], 1, ('_a', '_b'), ['per1', 'k1', 'curv', 'gamma_b', 'jit_a', 'gamma_a']),
            (B[6], 2, ('_a', '_b'), ['logper2', 'tc1', 'k2', 'user', 'jit_b', 'dvdt']),
            (B[8], 2, ('_a',), ['se1', 'w2', 'se2', 'curv', 'gamma_a', 'logk2' if 'logk' in B[8] else 'k2'])]):
        for w in ('likelihood', 'composite', 'posterior'):
            out.append(Case('%s %d' % (w, k), simple(b, npl, inst, free if not q else free[:4 + k % 2], w), '%d planets' % npl))
    for k, (f, g) in enumerate([(['per1', 'k1', 'gamma_a'], ['tc1', 'k1', 'jit_a']),
                                (['sesinw1', 'dvdt', 'jit_a'], ['sesinw1', 'curv', 'user']),
                                (['user', 'gamma_a'], ['user', 'gamma_a', 'jit_a', 'dvdt'])]):
        for r in (True, False):
            out.append(Case('objective %d %s' % (k, 'rebuilt' if r else 'by length'), objective(B[2], f, g, r), '1 planet'))
    return out
