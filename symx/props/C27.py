"""Physical conversions."""
import types

import astropy.constants as AC
import astropy.units as AU

import radvel.utils
from .common import *
from ..sym import SymReal

U = radvel.utils

EXPLANATION = ('Msini, semi_amplitude, semi_major_axis and density run on symbolic quantities (unit conversions multiply by the factors of the installed astropy; the root finder is replaced by '
               'an arbitrary zero of the function it is given). z3 decides the laws: K against Kepler and Newton with SI constants, inversion, the full mass function, Kepler\'s third law, mass over volume.')
BOUNDS = 'all positive masses, periods, amplitudes and radii within 12 decades, 0 <= e < 1; scalars, arrays of 1-2 (thorough: 3) elements, mixed scalars and arrays; both mass units'
OUTSIDE = 'convergence of scipy.optimize.root; agreement of the rounded constant 28.4329 with the SI constants beyond 1e-3'

YEAR = 365.25
DAY = 86400.0
G, MSUN, MJUP, MEARTH, RJUP, REARTH, AUM = (x.value for x in (AC.G, AC.M_sun, AC.M_jup, AC.M_earth, AC.R_jup, AC.R_earth, AC.au))


class Q(object):
    """value with a unit; conversion factors are astropy's"""
    __array_ufunc__ = None

    def __init__(self, v, unit):
        self.v, self.unit = v, unit

    @property
    def value(self):
        v = self.v
        return v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v

    def to(self, unit):
        return Q(self.v * float(self.unit.to(unit.unit)), unit.unit)

    def to_value(self, unit=None):
        return (self if unit is None else self.to(unit)).value

    def _other(self, o):
        return (o.v, o.unit) if isinstance(o, Q) else (1, o.unit) if isinstance(o, Un) else (o, AU.dimensionless_unscaled)

    def __mul__(self, o):
        v, un = self._other(o)
        return Q(self.v * v, self.unit * un)
    __rmul__ = __mul__

    def __truediv__(self, o):
        v, un = self._other(o)
        return Q(self.v / v, self.unit / un)

    def __rtruediv__(self, o):
        return Q(o / self.v, 1 / self.unit)

    def __pow__(self, n):
        return Q(self.v ** n, self.unit ** n)


class Un(object):
    __array_ufunc__ = None

    def __init__(self, unit):
        self.unit = unit

    def __rmul__(self, x):
        return Q(x, self.unit)

    def __mul__(self, o):
        return Un(self.unit * o.unit) if isinstance(o, Un) else Q(o, self.unit)

    def __truediv__(self, o):
        return Un(self.unit / o.unit)

    def __rtruediv__(self, x):
        return Q(x, 1 / self.unit)

    def __pow__(self, n):
        return Un(self.unit ** n)

    def to(self, o):
        return float(self.unit.to(o.unit))


class Units(object):
    def __getattr__(self, n):
        return Un(getattr(AU, n))


def no_index(self, i):
    raise IndexError('invalid index to scalar variable.')


def begin(ctx):
    if ctx.symbolic:
        ctx.stub(U, 'u', Units())
        SymReal.__getitem__ = no_index
        ctx.at_end(lambda: delattr(SymReal, '__getitem__'))


def shaped(ctx, name, n, lo, hi, sample, open_hi=False):
    """n is None: a scalar"""
    if n is None:
        return ctx.real(name, lo, hi, open_hi=open_hi, sample=sample)
    return ctx.array([ctx.real('%s_%d' % (name, i), lo, hi, open_hi=open_hi, sample=sample) for i in range(n)])


def inputs(ctx, n, m='m', mlo=1e-6, mhi=1e4, msample=(1e-3, 10), scalars=''):
    def size(c):
        return None if c in scalars else n
    return (shaped(ctx, m, size('m'), mlo, mhi, msample),
            shaped(ctx, 'P', size('P'), 1e-2, 1e6, (1, 5000)),
            shaped(ctx, 'M', size('M'), 1e-2, 1e2, (0.1, 3)),
            shaped(ctx, 'e', size('e'), 0, 1, (0, 0.9), open_hi=True))


def near(ctx, a, b, rel, label):
    """positive numbers, equal up to rounding of constants"""
    if not ctx.symbolic:
        rel = max(rel, 1e-6)
    ctx.check(sand(a >= (1 - rel) * b, a <= (1 + rel) * b), label)


def at(x, i):
    return x[i] if isinstance(x, np.ndarray) else x


def size_of(ctx, out, n, label):
    ctx.check(np.size(out) == (1 if n is None else n), label)
    return list(np.ravel(np.asarray(out, dtype=object))) if np.size(out) == (1 if n is None else n) else []


JUP = {'jupiter': 1.0, 'earth': MEARTH / MJUP}
K0 = (2 * PI * G / (YEAR * DAY)) ** (1 / 3.) * MJUP / MSUN ** (2 / 3.)


def law(m, P, M, e, unit):
    """semi-amplitude of a planet of m sin i = m, cubed"""
    mj = m * JUP[unit]
    return K0 ** 3 * mj ** 3 / (P / YEAR) / (M * M)


def amplitude(n, unit, scalars=''):
    def h(ctx):
        begin(ctx)
        m, P, M, e = inputs(ctx, n, scalars=scalars)
        K = U.semi_amplitude(m, P, M, e, Msini_units=unit)
        for i, k in enumerate(size_of(ctx, K, n, 'one amplitude per planet')):
            lhs = k ** 2 * (1 - at(e, i) ** 2)                 # = K_circular^2
            mj = at(m, i) * JUP[unit]
            kc = K0 * mj * (at(P, i) / YEAR) ** (-1 / 3.) * at(M, i) ** (-2 / 3.)
            ctx.check(sand(lhs >= (1 - 2e-3) * kc * kc, lhs <= (1 + 2e-3) * kc * kc), 'Newton and Kepler')
            ctx.check(k > 0, 'amplitude positive')
    return h


def light(n, unit, scalars=''):
    def h(ctx):
        begin(ctx)
        m, P, M, e = inputs(ctx, n, scalars=scalars)
        for i in range(n or 1):
            ctx.assume(at(m, i) * JUP[unit] * MJUP / MSUN < 0.099 * at(M, i))
        K = U.semi_amplitude(m, P, M, e, Msini_units=unit)
        back = U.Msini(K, P, M, e, Msini_units=unit)
        for i, x in enumerate(size_of(ctx, back, n, 'one mass per planet')):
            near(ctx, x, at(m, i), 1e-9, 'mass from amplitude from mass')
        if n is None or scalars == '':
            again = U.semi_amplitude(back, P, M, e, Msini_units=unit)
            for i, x in enumerate(size_of(ctx, again, n, 'one amplitude per planet')):
                near(ctx, x, np.ravel(np.asarray(K, dtype=object))[i], 1e-9, 'amplitude from mass from amplitude')
    return h


def default_units(ctx):
    begin(ctx)
    m, P, M, e = inputs(ctx, None)
    ctx.assume(m * MJUP / MSUN < 0.099 * M)
    K = U.semi_amplitude(m, P, M, e)
    ctx.check_eq(K, U.semi_amplitude(m, P, M, e, Msini_units='jupiter'), 'semi_amplitude takes Jupiter masses')
    ctx.check_eq(U.Msini(K, P, M, e), U.Msini(K, P, M, e, Msini_units='earth'), 'Msini gives Earth masses')
    near(ctx, U.Msini(K, P, M, e, 'earth') * JUP['earth'], U.Msini(K, P, M, e, 'jupiter'), 1e-9, 'units')
    for f in (lambda: U.Msini(K, P, M, e, 'sun'), lambda: U.semi_amplitude(m, P, M, e, 'sun'), lambda: U.density(m, P, 'sun')):
        try:
            f()
        except Exception as ex:
            ctx.check('must be' in str(ex), 'unknown units are refused')
        else:
            ctx.check(False, 'unknown units are refused')


def heavy(n, unit, mixed=False):
    """the planet's mass, the star's and the period are drawn as cubes, so that the exact amplitude has no radicals"""
    def h(ctx):
        begin(ctx)
        X, KK, PP, MM, EE = [], [], [], [], []
        for i in range(n or 1):
            light = mixed and i == n - 1
            c = ctx.real('c%d' % i, 0.971, 0.999, sample=(0.971, 0.999)) if light else ctx.real('c%d' % i, 1e-2, 0.96, sample=(0.2, 0.96))
            s = ctx.real('s%d' % i, 0.2, 5, sample=(0.5, 2))
            p = ctx.real('p%d' % i, 0.5, 60, sample=(1, 20))
            e = ctx.real('e%d' % i, 0, 1, open_hi=True, sample=(0, 0.9))
            X.append((1 - c ** 3) * s ** 3)                     # planet, solar masses
            MM.append((c * s) ** 3)
            PP.append(p ** 3)
            EE.append(e)
            KK.append((2 * PI * G * MSUN / DAY) ** (1 / 3.) * X[i] / (p * s * s * F.sqrt(1 - e * e)))
        if ctx.symbolic:
            done = []

            def root(f, x0, *a, **kw):
                if np.size(x0) > 1:
                    x = np.array([v * MSUN for v in X], dtype=object)
                    zero, other = f(x), f(0 * x)
                else:
                    x = [X[len(done)] * MSUN]
                    zero, other = f(x[0]), f(0.0)
                for z, o in zip(np.ravel(np.asarray(zero, dtype=object)), np.ravel(np.asarray(other, dtype=object))):
                    done.append(z)
                    ctx.check(sand(z <= 1e-6 * F.abs(o), z >= -1e-6 * F.abs(o)), 'the mass is a zero of the mass function')
                    ctx.check(snot(o == 0), 'a massless planet is not')
                return types.SimpleNamespace(x=x, success=True)
            ctx.stub(U, 'root', root)

        def form(v):
            return v[0] if n is None else ctx.array(v)
        out = U.Msini(form(KK), form(PP), form(MM), form(EE), Msini_units=unit)
        for i, x in enumerate(size_of(ctx, out, n, 'one mass per planet')):
            near(ctx, x * JUP[unit] * MJUP / MSUN, X[i], 1e-6, 'full mass function')
    return h


def axis(n):
    def h(ctx):
        begin(ctx)
        P = shaped(ctx, 'P', n, 1e-2, 1e6, (1, 5000))
        M = shaped(ctx, 'M', n, 1e-2, 1e2, (0.1, 3))
        a = U.semi_major_axis(P, M)
        for i, x in enumerate(size_of(ctx, a, n, 'one axis per orbit')):
            want = G * at(M, i) * MSUN * (at(P, i) * DAY) ** 2 / (4 * PI ** 2) / AUM ** 3
            near(ctx, x ** 3, want, 1e-9, 'third law')
            yr = at(M, i) * (at(P, i) / YEAR) ** 2
            ctx.check(sand(x ** 3 > 0.999 * yr, x ** 3 < 1.001 * yr), 'Earth is at one AU')
            ctx.check(x > 0, 'axis positive')
    return h


def dens(n, unit):
    def h(ctx):
        begin(ctx)
        m = shaped(ctx, 'm', n, 1e-6, 1e6, (0.1, 10))
        r = shaped(ctx, 'r', n, 1e-3, 1e3, (0.1, 10))
        rho = U.density(m, r) if unit is None else U.density(m, r, unit)
        mu, ru = (MJUP, RJUP) if unit == 'jupiter' else (MEARTH, REARTH)
        for i, x in enumerate(size_of(ctx, rho, n, 'one density per planet')):
            ctx.check_eq(x * 1000.0 * (4.0 / 3 * PI) * (at(r, i) * ru) ** 3, at(m, i) * mu, 'density times volume is the mass')
    return h


def cases(tier):
    out = []
    big = tier != 'quick'
    for unit in ('jupiter', 'earth'):
        for n in (None, 2) if not big else (None, 1, 2, 3):
            s = '%s %s' % ('scalar' if n is None else '%d elements' % n, unit)
            out.append(Case('amplitude ' + s, amplitude(n, unit), 'K from m'))
            out.append(Case('light ' + s, light(n, unit), 'm from K, planets below 10% of the star'))
            out.append(Case('heavy ' + s, heavy(n, unit), 'm from K, planets above 10% of the star'))
            out.append(Case('density ' + s, dens(n, unit if n or unit == 'jupiter' else None), 'mass over volume'))
        out.append(Case('heavy and light ' + unit, heavy(2, unit, mixed=True), 'one planet above and one below 10% of its star'))
        for sc in ('Me', 'mP') if not big else ('Me', 'mP', 'e', 'M', 'P', 'PMe'):
            out.append(Case('light mixed %s %s' % (sc, unit), light(2, unit, scalars=sc), 'scalars for %s' % sc))
            out.append(Case('amplitude mixed %s %s' % (sc, unit), amplitude(2, unit, scalars=sc), 'scalars for %s' % sc))
    for n in (None, 2) if not big else (None, 1, 2, 3):
        out.append(Case('axis %s' % n, axis(n), 'third law'))
    out.append(Case('defaults', default_units, 'default and unknown units'))
    return out
