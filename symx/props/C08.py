"""Slots and names of the flat parameter vector."""
import itertools

from .common import *
from .C03 import same_val

EXPLANATION = ('Models and likelihoods are built by the real constructors from parameter sets declared in every tried order with symbolic values, flags '
               'and step sizes. Slots must be pairwise distinct, names must name their slots, every slot must hold its parameter, and fresh symbolic numbers '
               'written into all slots must come back under the right names.')
BOUNDS = '1-3 planets, 1-2 instruments, GP, decorrelation and user-defined parameters, trends declared or not; the declaration orders listed per case'
OUTSIDE = 'vectors whose index table the user replaces; parameter sets holding two parameterisations at once'


def declare(ctx, P, names, flags=True):
    for j, n in enumerate(names):
        P[n] = radvel.Parameter(value=ctx.real('v_' + n), vary=ctx.boolean('y_' + n) if flags else j % 3 != 1,
                                mcmcscale=ctx.real('s_' + n), linear=ctx.boolean('l_' + n) if flags else j % 2 == 1)


def verify(ctx, V, P, label=''):
    keys = [k for k in P]
    idx = {}
    for k in keys:
        ctx.check(k in V.indices, label + 'slot for ' + k)
        if k in V.indices:
            idx[k] = V.indices[k]
    ctx.check(len(set(idx.values())) == len(idx), label + 'slots are distinct')
    n = len(V.vector)
    for k, i in idx.items():
        ctx.check(0 <= i < n, label + 'slot of %s exists' % k)
        ctx.check(i < len(V.names) and V.names[i] == k, label + 'name of the slot of ' + k)
    for k in ('dvdt', 'curv'):
        if k not in P:
            i = V.indices[k]
            ctx.check(i not in idx.values() and V.names[i] == k, label + 'slot of undeclared ' + k)
            for f in range(4):
                ctx.check(V.vector[i][f] == 0, label + 'undeclared %s is zero' % k)
    for k, i in idx.items():
        if i >= n:
            continue
        p = P[k]
        ctx.check(same_val(V.vector[i][0], p.value), label + 'value of ' + k)
        ctx.check(V.vector[i][1] == p.vary, label + 'vary flag of ' + k)
        ctx.check(V.vector[i][2] == (0 if p.mcmcscale is None else p.mcmcscale), label + 'step of ' + k)
        ctx.check(V.vector[i][3] == p.linear, label + 'linear flag of ' + k)
    return idx


def roundtrip(ctx, V, P, idx, label=''):
    """new numbers in the vector arrive under the right names"""
    new = {}
    for k, i in idx.items():
        new[k] = ctx.real('new_%s%s' % (label, k))
        if i < len(V.vector):
            V.vector[i][0] = new[k]
    flags = {k: (P[k].vary, P[k].mcmcscale, P[k].linear) for k in idx}
    V.vector_to_dict()
    for k in idx:
        ctx.check(P[k].value == new[k], label + 'value of %s copied back' % k)
        ctx.check(P[k].vary == flags[k][0] and same_val(P[k].mcmcscale, flags[k][1]) and P[k].linear == flags[k][2]
                  if not ctx.symbolic else sand(P[k].vary == flags[k][0], P[k].linear == flags[k][2]),
                  label + 'flags of %s untouched' % k)
    for k in idx:
        P[k].value = ctx.real('newer_%s%s' % (label, k))
    V.dict_to_vector()
    for k, i in idx.items():
        if i < len(V.vector):
            ctx.check(V.vector[i][0] == P[k].value, label + 'value of %s copied again' % k)


def new_params(ctx, basis, npl, flags=True):
    P = radvel.Parameters(npl, basis=basis)
    declare(ctx, P, list(P), flags)
    return P


INST = ['gamma_a', 'jit_a', 'gamma_b', 'jit_b']
GP = ['gp_amp', 'gp_explength', 'gp_per', 'gp_perlength']
GROUPS = {'o': ['gamma_a', 'jit_a'], 'p': ['gamma_b', 'jit_b'], 'g': GP, 't': ['dvdt', 'curv'], 'd': ['dvdt'],
          'c': ['curv'], 'u': ['user1', 'kappa'], 'x': ['c1_bis_a', 'c1_fwhm_b'], 'l': ['logjit_a', 'jit'], 'e': ['e_extra', 'per_extra']}


def declared(basis, npl, order, like):
    """everything declared in the given order, then model and likelihoods"""
    def h(ctx):
        P = new_params(ctx, basis, npl)
        for g in order:
            declare(ctx, P, GROUPS[g])
        m = radvel.model.RVModel(P)
        idx = verify(ctx, m.vector, P, 'model: ')
        if like:
            likes(ctx, m, 'x' in order, like)
            idx = verify(ctx, m.vector, P, 'likelihood: ')
            for k in INST[:2 * like]:
                ctx.check(k in idx, 'slot for ' + k)
        roundtrip(ctx, m.vector, P, idx)
        # a second vector of the same set agrees with itself as well
        verify(ctx, radvel.model.Vector(P), P, 'second vector: ')
    return h


def likes(ctx, m, decorr, n=2):
    out = []
    for s, var in (('_a', 'bis'), ('_b', 'fwhm'))[:n]:
        kw = {}
        if decorr:
            kw = dict(decorr_vars=[var], decorr_vectors={var: np.array([0.0, 1.0])})
        out.append(radvel.likelihood.RVLikelihood(m, np.array([0.0, 1.0]), np.array([0.0, 1.0]),
                                                  np.array([1.0, 1.0]), suffix=s, **kw))
    for L, s in zip(out, ('_a', '_b')):
        ctx.check(L.gamma_index == m.vector.indices['gamma' + s], 'offset slot of the likelihood ' + s)
        ctx.check(L.jit_index == m.vector.indices['jit' + s], 'jitter slot of the likelihood ' + s)
    return out


def late(basis, npl, before, between, decorr):
    """parameters declared before the model, between model and likelihoods, or
    left for the likelihood to declare"""
    def h(ctx):
        P = new_params(ctx, basis, npl, False)
        for g in before:
            declare(ctx, P, GROUPS[g], False)
        m = radvel.model.RVModel(P)
        for g in between:
            declare(ctx, P, [k for k in GROUPS[g] if k not in P], False)
        L = likes(ctx, m, decorr)
        C = radvel.likelihood.CompositeLikelihood(L)
        ctx.check(C.vector is m.vector, 'one vector')
        known = [k for k in P if k in m.vector.indices]
        Q = radvel.Parameters(npl, basis=basis)
        Q.clear()
        for k in known:
            Q[k] = P[k]
        # user parameters declared after the model belong to no slot
        for k in P:
            if k not in known:
                ctx.check(k in GROUPS['u'] + GROUPS['e'] + GROUPS['l'], 'slot for ' + k)
        idx = verify(ctx, m.vector, Q, '')
        roundtrip(ctx, m.vector, Q, idx)
        names = []
        post = radvel.posterior.Posterior(C)
        for k in idx:
            ctx.check(post.vector.vector[idx[k]][0] == P[k].value, 'posterior value of ' + k)
        for j, k in enumerate(idx):
            m.vector.vector[idx[k]][1] = j % 2
            if j % 2:
                names.append(k)
        post.list_vary_params()
        names.sort(key=lambda k: idx[k])
        ctx.check(post.name_vary_params() == names, 'names of the free parameters')
    return h


def cases(tier):
    q = tier == 'quick'
    out = []
    orders = ['', 'o', 'u', 'ou', 'uo', 'gou', 'tuo', 'otp', 'optu', 'dgc', 'xop', 'opx', 'uxo', 'copd', 'leo', 'eopg', 'ugxt', 'tgopxu',
              'uxpogt', 'pxougd']
    if not q:
        orders += [''.join(p) for p in itertools.permutations('ogtu')] + [''.join(p) for p in itertools.permutations('xpdu')]
    for k, o in enumerate(orders):
        npl = 1 + k % 3 if q else 1 + k % 4
        b = FIT_BASES[k % len(FIT_BASES)]
        out.append(Case('declared %s' % (o or 'none'), declared(b, npl, o, 2 if k % 2 else 1), '%d planets' % npl))
    for k, (a, b, d) in enumerate([('', '', False), ('', '', True), ('o', '', False), ('', 'op', False), ('', 'opx', True), ('u', 'op', True),
                                   ('ug', 'p', True), ('x', 'op', True), ('g', 'tx', True), ('uo', 'x', True), ('t', 'p', False),
                                   ('le', 'po', True), ('', 'uop', True)]):
        out.append(Case('late %s %s %s' % (a or '-', b or '-', 'decorr' if d else ''), late(FIT_BASES[(2 * k) % 9], 1 + k % 2, a, b, d), ''))
    return out
