"""The celerite likelihood."""
import itertools
import types

import radvel.gp
import radvel.likelihood

from .common import *
from .C10 import build_model, data

EXPLANATION = ('The real CeleriteLikelihood and CeleriteKernel run on symbolic data, times in any order, errors, jitter, offset and hyperparameters. Celerite itself is replaced by the covariance '
               'its documented terms define, and by uninterpreted functions of that covariance, the residuals and the prediction times for the quadratic form, determinant and conditionals '
               '(exact formulas for one point); results are compared with those of the documented kernel.')
BOUNDS = '1-3 (thorough: 4) points, every time order including ties, 1-3 prediction times, 1-2 instruments, positive hyperparameters, jitter of either sign but not zero'
OUTSIDE = 'celerite\'s own arithmetic; covariances that are not positive definite beyond the mapping to minus infinity'
NAMES = ['gp_B', 'gp_C', 'gp_L', 'gp_Prot']


def entry(h, dt):
    dt = F.abs(dt)
    return h['gp_B'] / (2 + h['gp_C']) * F.exp(-dt / h['gp_L']) * (F.cos(2 * PI * dt / h['gp_Prot']) + (1 + h['gp_C']))


def terms_value(terms, dt):
    dt = F.abs(dt)
    out = 0
    for a, b, c, d in terms:
        e = F.exp(-c * dt)
        out = out + a * e * F.cos(d * dt) + (b * e * F.sin(d * dt) if not is_zero(b) else 0)
    return out


def is_zero(b):
    return isinstance(b, (int, float)) and b == 0


def flat(*args):
    out = []
    for a in args:
        out += list(a) if isinstance(a, (list, tuple, np.ndarray)) else [a]
    return out


class Matrix(object):
    """a covariance matrix: one point exactly, more by uninterpreted functions of its entries"""

    def __init__(self, ctx, k, x, diag):
        """k(dt): covariance without noise"""
        self.ctx, self.k, self.n = ctx, k, len(x)
        x, n = list(x), len(x)
        self.x = x
        self.args = [k(x[i] - x[j]) + (diag[i] if i == j else 0) for i in range(n) for j in range(i + 1)]

    def square(self, v):
        K = np.zeros((self.n, self.n))
        K[np.tril_indices(self.n)] = v
        return K + np.tril(K, -1).T

    def uf(self, name, extra, fn):
        m = len(self.args)
        return self.ctx.uf('%s%d' % (name, self.n), *(self.args + list(extra)),
                           fn=lambda *v: float(fn(self.square(v[:m]), np.array(v[m:]))))

    def quad(self, r):
        if self.n == 1:
            return r[0] * r[0] / self.args[0]
        return self.uf('quad', r, lambda K, r: r.dot(np.linalg.solve(K, r)))

    def logdet(self):
        if self.n == 1:
            return F.log(self.args[0])
        return self.uf('logdet', [], lambda K, _: np.linalg.slogdet(K)[1])

    def loglike(self, r):
        return -0.5 * (self.quad(r) + self.logdet() + len(r) * math.log(2 * math.pi))

    def mean(self, r, t):
        c = [self.k(t - x) for x in self.x]
        if self.n == 1:
            return c[0] * r[0] / self.args[0]
        return self.uf('mean', list(r) + c, lambda K, v: v[self.n:].dot(np.linalg.solve(K, v[:self.n])))

    def variance(self, t):
        c = [self.k(t - x) for x in self.x]
        if self.n == 1:
            return self.k(0.0) - c[0] * c[0] / self.args[0]
        return self.k(0.0) - self.uf('explained', c, lambda K, c: c.dot(np.linalg.solve(K, c)))


def in_order(ctx, x):
    for a, b in zip(x, x[1:]):
        ctx.check(a <= b, 'times handed over in order')


def celerite_stub(ctx, broken=False):
    if not ctx.symbolic:
        if broken:
            import celerite

            class Broken(object):
                def compute(self, *a, **k):
                    raise celerite.solver.LinAlgError('not positive definite')
            ctx.stub(radvel.gp, 'CholeskySolver', Broken)
        return

    class LinAlgError(Exception):
        pass

    class CholeskySolver(object):
        def compute(self, jitter, ar, cr, ac, bc, cc, dc, A, U, V, x, diag):
            if broken:
                raise LinAlgError('not positive definite')
            in_order(ctx, list(x))
            ctx.check(len(x) == len(diag), 'one variance per time')
            T = [(a, 0.0, c, 0.0) for a, c in zip(ar, cr)] + [(a, b, c, d) for a, b, c, d in zip(ac, bc, cc, dc)]
            self.M = Matrix(ctx, lambda dt: terms_value(T, dt), x, [d + jitter for d in diag])

        def dot_solve(self, r):
            ctx.check(len(r) == len(self.M.x), 'one residual per time')
            return self.M.quad(list(r))

        def log_determinant(self):
            return self.M.logdet()

    class Term(object):
        def __init__(self, terms=(), jitter=0.0):
            self.terms, self.jit = list(terms), jitter

        def __add__(self, o):
            return Term(self.terms + o.terms, self.jit + o.jit)

        def get_value(self, dt):
            return terms_value(self.terms, dt)

    def ex(v):
        return 0.0 if isinstance(v, float) and v == -math.inf else F.exp(v)

    class GP(object):
        def __init__(self, kernel):
            self.kernel = kernel

        def compute(self, x, yerr=1.0):
            in_order(ctx, list(x))
            self.x = list(x)
            self.M = Matrix(ctx, self.kernel.get_value, x, [e * e + self.kernel.jit for e in yerr])

        def log_likelihood(self, y):
            return self.M.loglike(list(y))

        def predict(self, y, t=None, return_cov=True, return_var=False):
            t = self.x if t is None else list(t)
            y = list(y)
            in_order(ctx, t)
            mu = np.array([self.M.mean(y, a) for a in t], dtype=object)
            if not (return_var or return_cov):
                return mu
            if not return_var:
                raise NotImplementedError('full predictive covariance')
            return mu, np.array([self.M.variance(a) for a in t], dtype=object)

    terms = types.SimpleNamespace(
        JitterTerm=lambda log_sigma: Term([], F.exp(log_sigma) ** 2),
        RealTerm=lambda log_a, log_c: Term([(ex(log_a), 0.0, ex(log_c), 0.0)]),
        ComplexTerm=lambda log_a, log_b=-math.inf, log_c=0.0, log_d=0.0: Term([(ex(log_a), ex(log_b), ex(log_c), ex(log_d))]))
    fake = types.SimpleNamespace(terms=terms, GP=GP, solver=types.SimpleNamespace(LinAlgError=LinAlgError, CholeskySolver=CholeskySolver))
    for mod in (radvel.gp, radvel.likelihood):
        for k, v in (('celerite', fake), ('CholeskySolver', CholeskySolver)):
            if hasattr(mod, k):
                ctx.stub(mod, k, v)


class Instrument(object):
    def __init__(self, ctx, P, n, suffix='', order=NAMES):
        self.ctx, self.P, self.suffix = ctx, P, suffix
        self.t, self.y, self.err = data(ctx, n, suffix)
        self.renew('', True)
        self.hnames = [k + suffix for k in order]

    def renew(self, tag, new=False):
        ctx, P, s = self.ctx, self.P, self.suffix
        self.h = {k: ctx.real(k + s + tag, 0, None, open_lo=True, sample=(0.4, 3)) for k in NAMES}
        vals = dict({k + s: self.h[k] for k in NAMES}, **{k + s: ctx.real(k + s + tag, nonzero=k == 'jit') for k in ('gamma', 'jit')})
        for k in vals:
            if new:
                P[k] = radvel.Parameter(value=vals[k])
            else:
                P[k].value = vals[k]

    def make(self, m, given=None):
        ctx = self.ctx
        pick = given or range(len(self.t))
        self.L = radvel.likelihood.CeleriteLikelihood(m, *[ctx.array([v[i] for i in pick]) for v in (self.t, self.y, self.err)],
                                                      hnames=self.hnames, suffix=self.suffix)

    def expected(self):
        """residuals and covariance in time order"""
        ctx = self.ctx
        g, j = self.P['gamma' + self.suffix].value, self.P['jit' + self.suffix].value
        o = list(range(len(self.t)))
        for i in range(1, len(o)):                      # stable insertion sort
            k = i
            while k and ctx.decide_bool(self.t[o[k]] < self.t[o[k - 1]]):
                o[k], o[k - 1] = o[k - 1], o[k]
                k -= 1
        self.order = o
        r = [self.y[i] - g - ctx.uf('signal', self.t[i], self.P['k1'].value, fn=lambda x, a: math.sin(x) + 0.3 * a) for i in o]
        x = [self.t[i] for i in o]
        var = [self.err[i] * self.err[i] + j * j for i in o]
        return r, x, var

    def matrix(self):
        r, x, var = self.expected()
        return r, Matrix(self.ctx, lambda dt: entry(self.h, dt), x, var)

    def loglike(self):
        r, M = self.matrix()
        return M.loglike(r)


def setup(ctx, spec, given=None, broken=False):
    celerite_stub(ctx, broken)
    P, m = build_model(ctx)
    out = [Instrument(ctx, P, *s) for s in spec]
    m = radvel.GeneralRVModel(P, m._forward_model, time_base=0)
    for x in out:
        x.make(m, given)
    m.vector.dict_to_vector()
    return P, m, out


def likelihood(n, suffix='', order=NAMES):
    def h(ctx):
        P, m, (I,) = setup(ctx, [(n, suffix, order)])
        want = I.loglike()
        ctx.check_eq(I.L.logprob(), want, 'log-likelihood')
        ctx.check_eq(I.L.logprob(), want, 'log-likelihood again')
        if n < 3:
            I.renew('_new')
            P['k1'].value = ctx.real('k1_new')
            m.vector.dict_to_vector()
            ctx.check_eq(I.L.logprob(), I.loglike(), 'log-likelihood elsewhere')
    return h


def shuffled(n, given):
    """the same data given in another order (distinct times)"""
    def h(ctx):
        P, m, (I,) = setup(ctx, [(n, '_j', NAMES)])
        for a, b in zip(I.t, I.t[1:]):
            ctx.assume(a < b)
        first = I.L.logprob()
        I.make(m, given)
        ctx.check_eq(I.L.logprob(), first, 'order of the data does not matter')
        ctx.check_eq(I.L.logprob(), I.loglike(), 'log-likelihood')
        ctx.check_all_eq(I.L.x, I.t, 'sorted times')
        ctx.check_all_eq(I.L.y, I.y, 'velocities sorted along')
        ctx.check_all_eq(I.L.yerr, I.err, 'errors sorted along')
        ctx.check(len(I.L.telvec) == n, 'instrument names')
    return h


def prediction(n, m_, suffix=''):
    def h(ctx):
        P, m, (I,) = setup(ctx, [(n, suffix, NAMES)])
        s = ctx.reals('s', m_)
        for turn in range(2 if n == 1 else 1):
            r, M = I.matrix()
            mu, v = [M.mean(r, a) for a in s], [M.variance(a) for a in s]
            for a in v:
                ctx.assume(a > 0)
            got = I.L.predict(ctx.array(s))
            ctx.check(len(got) == 2 and len(got[0]) == m_ and len(got[1]) == m_, 'one mean and deviation per time')
            for i in range(m_):
                ctx.check_eq(got[0][i], mu[i], 'mean')
                ctx.check_eq(got[1][i] * got[1][i], v[i], 'variance')
            ctx.check_eq(I.L.logprob(), M.loglike(r), 'log-likelihood after')
            I.renew('_new')
            m.vector.dict_to_vector()
    return h


def two(na, nb):
    def h(ctx):
        P, m, Is = setup(ctx, [(na, '_a', NAMES), (nb, '_b', NAMES[::-1])])
        C = radvel.likelihood.CompositeLikelihood([I.L for I in Is])
        for I in Is:
            ctx.check_eq(I.L.logprob(), I.loglike(), 'own hyperparameters')
        ctx.check_eq(C.logprob(), sum(I.loglike() for I in Is), 'sum')
    return h


def broken(ctx):
    P, m, (I,) = setup(ctx, [(2, '', NAMES)], broken=True)
    ctx.check(float(I.L.logprob()) == -math.inf, 'minus infinity')


def cases(tier):
    q = tier == 'quick'
    out = [Case('likelihood of 1', likelihood(1)), Case('likelihood of 2', likelihood(2, '_j')), Case('likelihood of 3', likelihood(3, '_harps'))]
    for i, o in enumerate(itertools.permutations(NAMES)):
        if i % (6 if q else 1) == 1:
            out.append(Case('hyperparameters in order %s' % ' '.join(o), likelihood(1, '_j', list(o))))
    for n in (2, 3) if q else (2, 3, 4):
        for g in itertools.permutations(range(n)):
            if list(g) != sorted(g) and (n < 4 or g[0] > 1):
                out.append(Case('given in order %s' % (g,), shuffled(n, list(g))))
    for n, m in ((1, 1), (1, 2), (1, 3), (2, 1)) if q else ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2)):
        out.append(Case('predict %d at %d' % (n, m), prediction(n, m, '_j' if m == 1 else '')))
    out.append(Case('two instruments', two(1, 2)))
    out.append(Case('not positive definite', broken))
    return out
