"""GP likelihood and prediction."""
import scipy.linalg

import radvel.gp
import radvel.likelihood

from .common import *
from .C10 import build_model, data
from .C18 import HYPER as KNOWN, cdist, draw as known_draw, entry as known_entry, moderate
from .. import shim
from ..expr import SymUnsupported

HYPER = dict(KNOWN, Any=['gp_length', 'gp_amp'])
EXPLANATION = ('The real GPLikelihood and kernels run on symbolic data, times, errors, jitters, offsets and hyperparameters, the velocity model an uninterpreted function; '
               'SciPy\'s Cholesky routines are replaced by exact formulas for small matrices. Log-likelihood, residuals and predictions are compared with the Gaussian '
               'conditionals in every order of calls and after new values are set.')
BOUNDS = '1-3 points (3: offset zero, jitter zero or errors given) and 1-3 prediction times for an arbitrary kernel (a user-defined class), 1-2 points for each documented kernel; 1-2 instruments; positive-definite covariances within the unclamped range'
OUTSIDE = 'rounding in the factorisation; more points; offsets flagged as linear'


# exact linear algebra for small matrices

def minor(M, i, j):
    return [[M[a][b] for b in range(len(M)) if b != j] for a in range(len(M)) if a != i]


def det(M):
    if len(M) == 1:
        return M[0][0]
    if len(M) == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** j * M[0][j] * det(minor(M, 0, j)) for j in range(len(M)))


def inverse(M):
    n, d = len(M), det(M)
    if n == 1:
        return [[1 / d]]
    return [[(-1) ** (i + j) * det(minor(M, j, i)) / d for j in range(n)] for i in range(n)]


def rows(K):
    return [[K[i][j] for j in range(len(K))] for i in range(len(K))]


def solve(K, b):
    inv, b = inverse(rows(K)), np.asarray(b)
    n = len(inv)
    out = np.empty(b.shape, dtype=object)
    for i in range(n):
        if b.ndim == 1:
            out[i] = sum(inv[i][k] * b[k] for k in range(n))
        else:
            for j in range(b.shape[1]):
                out[i, j] = sum(inv[i][k] * b[k, j] for k in range(n))
    return out


def cholesky(K, lower):
    """the factor; entries of the other triangle are zero"""
    n = len(K)
    L = np.zeros((n, n), dtype=object)
    for j in range(n):
        for i in range(j, n):
            x = (K[i][j] if lower else K[j][i]) - sum(L[i, k] * L[j, k] for k in range(j))
            L[i, j] = F.sqrt(x) if i == j else x / L[j, j]
    return L if lower else L.T.copy()


def linear_algebra(ctx):
    if not ctx.symbolic:
        return
    known = []

    def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
        n = len(a)
        sym = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                lo, hi = min(i, j), max(i, j)
                sym[i, j] = a[hi][lo] if lower else a[lo][hi]
        try:
            c = cholesky(sym, lower)
        except SymUnsupported:                  # too large to write out: opaque entries, the product is known
            low = [sym[i][j] for i in range(n) for j in range(i + 1)]
            c = np.zeros((n, n), dtype=object)
            for i in range(n):
                for j in range(i + 1):
                    c[(i, j) if lower else (j, i)] = ctx.uf('factor%d_%d%d' % (n, i, j), *low, fn=None)
        known.append((c, sym))
        return c, lower

    def cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
        c, lower = c_and_lower
        for k, sym in known:
            if k is c:
                return solve(sym, b)
        return solve(c.dot(c.T) if lower else c.T.dot(c), b)

    def slogdet(a):
        return 1.0, F.log(det(rows(a)))

    for f in (cho_factor, cho_solve):
        for mod in (scipy.linalg, radvel.likelihood):
            if hasattr(mod, f.__name__):
                ctx.stub(mod, f.__name__, f)
    for k, f in dict(slogdet=slogdet, det=lambda a: det(rows(a)), solve=solve, cholesky=lambda a: cholesky(a, True),
                     inv=lambda a: np.array(inverse(rows(a)), dtype=object)).items():
        shim.LINALG[k] = f
    ctx.at_end(shim.LINALG.clear)


def gaussian(r, K):
    inv = inverse(K)
    n = len(r)
    quad = sum(r[i] * inv[i][j] * r[j] for i in range(n) for j in range(n))
    return -0.5 * quad - 0.5 * F.log(det(K)) - 0.5 * n * math.log(2 * math.pi)


def conditional(name, h, K, r, t, s):
    inv, n = inverse(K), len(t)
    mu, var = [], []
    for x in s:
        c = [entry(name, h, x, u) for u in t]
        mu.append(sum(c[i] * inv[i][j] * r[j] for i in range(n) for j in range(n)))
        var.append(entry(name, h, x, x) - sum(c[i] * inv[i][j] * c[j] for i in range(n) for j in range(n)))
    return mu, var


class AnyKernel(radvel.gp.Kernel):
    """a user's kernel: an arbitrary function of the squared separation and two hyperparameters"""
    name = 'Any'
    ctx = None

    def __init__(self, hparams):
        self.hparams = {}
        for k in hparams:
            for base in HYPER['Any']:
                if k.startswith(base):
                    self.hparams[base] = hparams[k]
        assert len(self.hparams) == 2

    def compute_distances(self, x1, x2):
        self.dist = [[(a - b) * (a - b) for b in x2] for a in x1]

    def compute_covmatrix(self, errors):
        h = {k: self.hparams[k].value for k in HYPER['Any']}
        K = np.array([[cov(self.ctx, h, d) for d in row] for row in self.dist], dtype=object if self.ctx.symbolic else float)
        if K.shape[0] == K.shape[1]:
            e = np.asarray(errors) + np.zeros(len(K))
            for i in range(len(K)):
                K[i, i] = K[i, i] + e[i] * e[i]
        self.covmatrix = K
        return K


def cov(ctx, h, d):
    return ctx.uf('cov', d, h['gp_length'], h['gp_amp'], fn=lambda d, a, b: b * b * math.exp(-d / (a * a)))


def draw(ctx, name, tag=''):
    return known_draw(ctx, 'SqExp' if name == 'Any' else name, tag)


def entry(name, h, a, b):
    if name == 'Any':
        return cov(AnyKernel.ctx, h, (a - b) * (a - b))
    return known_entry(name, h, a, b)


class Instrument(object):
    def __init__(self, ctx, P, m, name, n, suffix='', vary=True):
        self.ctx, self.P, self.name, self.suffix = ctx, P, name, suffix
        self.t, self.y, self.err = data(ctx, n, suffix)
        self.h = draw(ctx, name, suffix)
        self.hnames = [k + suffix for k in HYPER[name]]
        for k in self.h:
            P[k + suffix] = radvel.Parameter(value=self.h[k], vary=vary)
        P['gamma' + suffix] = radvel.Parameter(value=ctx.real('gamma' + suffix))
        P['jit' + suffix] = radvel.Parameter(value=ctx.real('jit' + suffix))

    def make(self, m):
        ctx = self.ctx
        self.m = m
        self.L = radvel.likelihood.GPLikelihood(m, ctx.array(self.t), ctx.array(self.y), ctx.array(self.err), hnames=self.hnames,
                                                suffix=self.suffix, kernel_name=self.name)
        return self.L

    def positive(self, s=()):
        """the covariance is positive definite and exponents are not clamped"""
        moderate(self.ctx, self.name, self.h, self.t + list(s))

    def expected(self):
        n = len(self.t)
        P, g, j = self.P, self.P['gamma' + self.suffix].value, self.P['jit' + self.suffix].value
        r = [self.y[i] - g - self.ctx.uf('signal', self.t[i], P['k1'].value, fn=lambda x, a: math.sin(x) + 0.3 * a) for i in range(n)]
        K = [[entry(self.name, self.h, self.t[a], self.t[b]) for b in range(n)] for a in range(n)]
        for i in range(n):
            K[i][i] = K[i][i] + self.err[i] * self.err[i] + j * j
        for i in range(1, n + 1):
            self.ctx.assume(det([row[:i] for row in K[:i]]) > 0)
        return r, K

    def renew(self, tag):
        ctx, P = self.ctx, self.P
        self.h = draw(ctx, self.name, self.suffix + tag)
        for k in self.h:
            P[k + self.suffix].value = self.h[k]
        for k in ('gamma', 'jit'):
            P[k + self.suffix].value = ctx.real(k + self.suffix + tag)


def begin(ctx):
    cdist(ctx)
    linear_algebra(ctx)
    AnyKernel.ctx = ctx
    radvel.gp.KERNELS['Any'] = HYPER['Any']
    radvel.gp.AnyKernel = AnyKernel
    ctx.at_end(lambda: (radvel.gp.KERNELS.pop('Any', None), delattr(radvel.gp, 'AnyKernel')))


def setup(ctx, spec):
    begin(ctx)
    P, m = build_model(ctx)
    out = [Instrument(ctx, P, m, *s) for s in spec]
    m = radvel.GeneralRVModel(P, m._forward_model, time_base=0)
    for x in out:
        x.make(m)
    m.vector.dict_to_vector()
    return P, m, out


def likelihood(name, n, suffix='', vary=True, noise='error'):
    def h(ctx):
        P, m, (I,) = setup(ctx, [(name, n, suffix, vary)])
        if n == 3:                              # offset zero, jitter or errors fixed
            P['gamma' + suffix].value = 0.0
            if noise == 'error':
                P['jit' + suffix].value = 0.0
            else:
                I.err = [0.5, 1.0, 2.0]
                I.L.yerr = np.array(I.err)
                I.y = [d + ctx.uf('signal', x, P['k1'].value, fn=lambda x, a: math.sin(x) + 0.3 * a) for d, x in zip((0.0, ctx.real('d'), 0.0), I.t)]
                I.L.y = ctx.array(I.y)
            m.vector.dict_to_vector()
        I.positive()
        r, K = I.expected()
        want = gaussian(r, K)
        ctx.check_eq(I.L.logprob(), want, 'log-likelihood')
        ctx.check_eq(I.L.logprob(), want, 'log-likelihood again')
        ctx.check_eq(I.L.neglogprob(), -want, 'negative log-likelihood')
        ctx.check_all_eq(I.L.y, I.y, 'data unchanged')
        ctx.check_all_eq(I.L.x, I.t, 'times unchanged')
        if n == 3:
            return
        I.renew('_new')
        P['k1'].value = ctx.real('k1_new')
        m.vector.dict_to_vector()
        I.positive()
        r, K = I.expected()
        ctx.check_eq(I.L.logprob(), gaussian(r, K), 'log-likelihood elsewhere')
    return h


def prediction(name, n, m_, before=True, vector_only=False):
    def h(ctx):
        P, m, (I,) = setup(ctx, [(name, n, '_j')])
        if n == 3:                              # offset and jitter zero
            P['gamma_j'].value = P['jit_j'].value = 0.0
            m.vector.dict_to_vector()
        s = ctx.reals('s', m_)
        I.positive(s)
        r, K = I.expected()
        if before:
            ctx.check_eq(I.L.logprob(), gaussian(r, K), 'log-likelihood before')
        mu, var = conditional(name, I.h, K, r, I.t, s)
        for v in var:
            ctx.assume(v > 0)
        got = I.L.predict(ctx.array(s))
        ctx.check(len(got) == 2 and len(got[0]) == m_ and len(got[1]) == m_, 'one mean and deviation per time')
        for i in range(m_):
            ctx.check_eq(got[0][i], mu[i], 'mean')
            ctx.check_eq(got[1][i] * got[1][i], var[i], 'variance')
            ctx.check(got[1][i] >= 0, 'deviation not negative')
        ctx.check_eq(I.L.logprob(), gaussian(r, K), 'log-likelihood after')
        ctx.check_all_eq(I.L.y, I.y, 'data unchanged')
        ctx.check_all_eq(I.L.x, I.t, 'times unchanged')
        # new values are seen, whatever was called last
        if n * m_ <= 2:
            I.renew('_new')
            if vector_only:
                for k in I.hnames + ['gamma_j', 'jit_j']:
                    m.vector.vector[m.vector.indices[k]][0] = P[k].value
            else:
                m.vector.dict_to_vector()
            I.positive(s)
            r, K = I.expected()
            mu, var = conditional(name, I.h, K, r, I.t, s)
            for v in var:
                ctx.assume(v > 0)
            got = I.L.predict(ctx.array(s))
            ctx.check_all_eq(got[0], mu, 'mean elsewhere')
            ctx.check_all_eq([x * x for x in got[1]], var, 'variance elsewhere')
    return h


def residuals(name, n):
    def h(ctx):
        P, m, (I,) = setup(ctx, [(name, n, '_j')])
        I.positive()
        r, K = I.expected()
        mu, var = conditional(name, I.h, K, r, I.t, I.t)
        for v in var:
            ctx.assume(v > 0)
        got = I.L.residuals()
        for i in range(n):
            ctx.check_eq(got[i], r[i] - mu[i], 'residual')
        ctx.check_eq(I.L.logprob(), gaussian(r, K), 'log-likelihood after')
    return h


def two(na, ka, nb, kb):
    def h(ctx):
        P, m, (A, B) = setup(ctx, [(ka, na, '_a'), (kb, nb, '_b')])
        C = radvel.likelihood.CompositeLikelihood([A.L, B.L])
        total = 0
        for I in (A, B):
            I.positive()
            r, K = I.expected()
            total = total + gaussian(r, K)
        ctx.check_eq(C.logprob(), total, 'sum')
        s = ctx.reals('s', 1)
        for I in (B, A):
            I.positive(s)
            r, K = I.expected()
            mu, var = conditional(I.name, I.h, K, r, I.t, s)
            ctx.assume(var[0] > 0)
            ctx.check_all_eq(I.L.predict(ctx.array(s))[0], mu, 'own prediction')
        ctx.check_eq(C.logprob(), total, 'sum after predicting')
        A.renew('_new')
        m.vector.dict_to_vector()
        total = 0
        for I in (A, B):
            I.positive()
            r, K = I.expected()
            total = total + gaussian(r, K)
        ctx.check_eq(C.logprob(), total, 'sum after changing one')
    return h


def shared(n):
    """two instruments that share one hyperparameter"""
    def h(ctx):
        begin(ctx)
        P, m = build_model(ctx)
        A, B = Instrument(ctx, P, m, 'SqExp', n, '_a'), Instrument(ctx, P, m, 'SqExp', 1, '_b')
        A.hnames = ['gp_length', 'gp_amp_a']
        B.hnames = ['gp_length', 'gp_amp_b']
        P['gp_length'] = radvel.Parameter(value=A.h['gp_length'])
        B.h['gp_length'] = A.h['gp_length']
        m = radvel.GeneralRVModel(P, m._forward_model, time_base=0)
        A.make(m), B.make(m)
        m.vector.dict_to_vector()
        for I in (A, B):
            r, K = I.expected()
            ctx.check_eq(I.L.logprob(), gaussian(r, K), 'log-likelihood')
    return h


def singular(what):
    """a covariance that cannot be factorised: minus infinity, not an exception"""
    def h(ctx):
        P, m, (I,) = setup(ctx, [('SqExp', 2, '_j')])

        def fails(*a, **k):
            raise {'LinAlgError': np.linalg.LinAlgError, 'ValueError': ValueError}[what]('not positive definite')
        for mod in (scipy.linalg, radvel.likelihood):
            if hasattr(mod, 'cho_factor'):
                ctx.stub(mod, 'cho_factor', fails)
        ctx.check(float(I.L.logprob()) == -math.inf, 'minus infinity')
    return h


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3):
        out.append(Case('any kernel likelihood %d' % n, likelihood('Any', n, ['', '_j', '_harps'][n % 3])))
    out.append(Case('any kernel likelihood 3 with jitter', likelihood('Any', 3, '_j', noise='jitter')))
    out += [Case('%s fixed hyperparameters %d' % (k, n), likelihood(k, n, '_j', vary=False)) for k, n in (('Any', 2), ('QuasiPer', 1), ('SqExp', 1))]
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3)) + (() if q else ((3, 1), (2, 3))):
        out.append(Case('any kernel predict %d at %d' % (n, m), prediction('Any', n, m, (n + m) % 2 == 0, m == 1)))
    for n in (1, 2):
        out.append(Case('any kernel residuals %d' % n, residuals('Any', n)))
    for name in KNOWN:
        for n in (1, 2) if q else (1, 2, 3):
            out.append(Case('%s likelihood %d' % (name, n), likelihood(name, n, ['', '_j', '_harps'][n % 3])))
        for n, m in ((1, 1),) if q else ((1, 1), (1, 2)):
            out.append(Case('%s predict %d at %d' % (name, n, m), prediction(name, n, m, (n + m) % 2 == 0, m == 1)))
    out.append(Case('two instruments same kernel', two(2, 'Any', 1, 'Any')))
    out.append(Case('two instruments different kernels', two(1, 'QuasiPer', 1, 'Per')))
    out.append(Case('shared hyperparameter', shared(2)))
    for w in ('LinAlgError', 'ValueError'):
        out.append(Case('singular ' + w, singular(w)))
    return out
