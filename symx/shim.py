"""NumPy / math stand-ins that let the real radvel code run on symbolic reals.

`install()` replaces, in every loaded radvel module, the names bound to the
numpy module, the math module and individual numpy functions.  Nothing of
radvel itself is replaced here."""
import builtins
import functools
import math
import sys
import types
from fractions import Fraction

import numpy as np

from . import expr, state
from .sym import SymReal, SymBool, SymUnsupported, is_sym, to_rf, sor, sand, snot


def has_sym(x):
    if isinstance(x, (SymReal, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (SymReal, SymBool)) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    try:
        import pandas as pd
        if isinstance(x, (pd.Series, pd.Index)):
            return has_sym(x.to_numpy())
        if isinstance(x, pd.DataFrame):
            return has_sym(x.to_numpy())
    except ImportError:
        pass
    return False


def obj(x):
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (SymReal, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return np.array(x, dtype=object)


def _wrap_scalar(a):
    return a[()] if isinstance(a, np.ndarray) and a.shape == () else a


def _elem(f, concrete):
    def g(v):
        if isinstance(v, SymBool):
            v = SymReal(to_rf(v))
        if isinstance(v, SymReal):
            return f(v)
        return concrete(v)
    return g


def _preserve(x, out):
    """Keep pandas containers as pandas containers."""
    try:
        import pandas as pd
        if isinstance(x, pd.Series):
            return pd.Series(out, index=x.index, dtype=object)
    except ImportError:
        pass
    return out


def unary(npf, symf):
    @functools.wraps(npf)
    def f(x, *a, **kw):
        if not has_sym(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                try:
                    return npf(x.astype(float), *a, **kw)
                except (TypeError, ValueError):
                    pass
            return npf(x, *a, **kw)
        if isinstance(x, SymReal):
            return symf(x)
        xo = obj(np.asarray(x))
        out = np.empty(xo.shape, dtype=object)
        g = _elem(symf, lambda v: npf(v))
        for i in np.ndindex(xo.shape):
            out[i] = g(xo[i])
        if out.shape == ():
            return out[()]
        return _preserve(x, out)
    return f


def binary(npf, symf):
    @functools.wraps(npf)
    def f(x, y, *a, **kw):
        if not (has_sym(x) or has_sym(y)):
            return npf(x, y, *a, **kw)
        xo, yo = np.broadcast_arrays(obj(np.asarray(x)), obj(np.asarray(y)))
        out = np.empty(xo.shape, dtype=object)
        for i in np.ndindex(xo.shape):
            u, v = xo[i], yo[i]
            if is_sym(u) or is_sym(v):
                out[i] = symf(u, v)
            else:
                out[i] = npf(u, v)
        return _preserve(x, out) if out.shape != () else out[()]
    return f


def _s(x):
    if isinstance(x, SymReal):
        return x
    r = to_rf(x)
    return float(x) if r is None else SymReal(r)


def _arctan2(y, x):
    y, x = _s(y), _s(x)
    return SymReal(expr.arctan2(y.rf, x.rf))


def _hypot(a, b):
    a, b = _s(a), _s(b)
    return (a * a + b * b).sqrt()


def _sign(x):
    if x > 0:
        return 1.0
    if x < 0:
        return -1.0
    return 0.0


def _max(a, b):
    return a if a >= b else b


def _min(a, b):
    return a if a <= b else b


def _logaddexp(a, b):
    a, b = _s(a), _s(b)
    return (a.exp() + b.exp()).log()


def _erf_unsupported(*a, **k):
    raise SymUnsupported('unsupported function')


UNARY = {
    'sin': SymReal.sin, 'cos': SymReal.cos, 'tan': SymReal.tan,
    'arctan': SymReal.arctan, 'arcsin': SymReal.arcsin, 'arccos': SymReal.arccos,
    'sqrt': SymReal.sqrt, 'exp': SymReal.exp, 'log': SymReal.log,
    'log10': SymReal.log10, 'log2': SymReal.log2, 'square': SymReal.square,
    'exp2': SymReal.exp2,
    'log1p': lambda x: (x + 1).log(), 'expm1': lambda x: x.exp() - 1,
    'abs': abs, 'absolute': abs, 'fabs': abs, 'floor': SymReal.__floor__,
    'ceil': SymReal.__ceil__, 'sign': _sign,
    'deg2rad': SymReal.deg2rad, 'radians': SymReal.deg2rad,
    'rad2deg': SymReal.rad2deg, 'degrees': SymReal.rad2deg,
    'isfinite': lambda x: True, 'isnan': lambda x: False,
    'isinf': lambda x: False, 'reciprocal': lambda x: 1 / x,
    'cbrt': lambda x: SymReal(expr.root(x.rf, 3)),
    'sinh': lambda x: (x.exp() - (-x).exp()) / 2,
    'cosh': lambda x: (x.exp() + (-x).exp()) / 2,
    'rint': lambda x: round(x), 'conjugate': lambda x: x,
    'negative': lambda x: -x, 'positive': lambda x: x,
    'atan': SymReal.arctan, 'asin': SymReal.arcsin, 'acos': SymReal.arccos,
    'trunc': lambda x: SymReal(expr.rf_const(int(x))),
}
BINARY = {
    'arctan2': _arctan2, 'atan2': _arctan2, 'hypot': _hypot,
    'mod': lambda a, b: _s(a) % _s(b), 'remainder': lambda a, b: _s(a) % _s(b),
    'power': lambda a, b: _s(a) ** b, 'float_power': lambda a, b: _s(a) ** b,
    'pow': lambda a, b: _s(a) ** b,
    'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'logaddexp': _logaddexp,
    'floor_divide': lambda a, b: _s(a) // _s(b),
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b,
    'true_divide': lambda a, b: a / b,
}


def _zeros(shape, dtype=None, **kw):
    if dtype is not None and not _floaty(dtype):
        return np.zeros(shape, dtype=dtype)
    out = np.empty(shape, dtype=object)
    out.fill(SymReal(expr.RF0))
    return out


def _ones(shape, dtype=None, **kw):
    if dtype is not None and not _floaty(dtype):
        return np.ones(shape, dtype=dtype)
    out = np.empty(shape, dtype=object)
    out.fill(SymReal(expr.RF1))
    return out


def _full(shape, v, dtype=None, **kw):
    out = np.empty(shape, dtype=object)
    out.fill(v)
    return out


def _floaty(dtype):
    if dtype in (float, object) or dtype is SymFloat or dtype is SymFloat64:
        return True
    try:
        return np.dtype(dtype).kind in 'fO'
    except TypeError:
        return False


def _like(f):
    def g(a, dtype=None, **kw):
        a = np.asarray(a)
        if dtype is None and a.dtype.kind in 'biu' and f is not _empty_like:
            return {'_zeros': np.zeros, '_ones': np.ones}[f.__name__](a.shape, a.dtype)
        return f(a.shape, dtype)
    return g


def _empty_like(shape, dtype=None):
    return _zeros(shape, dtype)


def _array(x, dtype=None, **kw):
    if isinstance(x, types.GeneratorType):
        return np.array(x, dtype=object)
    if has_sym(x) or (isinstance(x, (list, tuple)) and _deep_has_sym(x)):
        kw.pop('copy', None)
        return np.array(x, dtype=object, **kw)
    if dtype is SymFloat or dtype is SymFloat64:
        dtype = float
    a = np.array(x, dtype=dtype, **kw)
    return _floatarr(a)


def _floatarr(a):
    """Fresh float arrays become object arrays: they may be filled later."""
    if isinstance(a, np.ndarray) and a.dtype.kind == 'f' and type(a) is np.ndarray:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            v = a[i]
            out[i] = float(v)
        return out
    return a


def _asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return _array(x, dtype)


def _deep_has_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_has_sym(v) for v in x)
    return has_sym(x)


def _linspace(a, b, num=50, **kw):
    if not (is_sym(a) or is_sym(b)):
        return np.linspace(a, b, num, **kw)
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = a + (b - a) * Fraction(i, num - 1)
    return out


def _any(x, axis=None, **kw):
    if not has_sym(x):
        return np.any(x, axis=axis, **kw)
    if axis is not None:
        raise SymUnsupported('np.any axis')
    for v in np.asarray(x, dtype=object).flat:
        if bool(v):
            return True
    return False


def _all(x, axis=None, **kw):
    if not has_sym(x):
        return np.all(x, axis=axis, **kw)
    if axis is not None:
        raise SymUnsupported('np.all axis')
    for v in np.asarray(x, dtype=object).flat:
        if not bool(v):
            return False
    return True


def _where(c, *a):
    if not a:
        if has_sym(c):
            o = obj(np.asarray(c))
            b = np.empty(o.shape, dtype=bool)
            for i in np.ndindex(o.shape):
                b[i] = bool(o[i])
            return np.where(b)
        return np.where(c)
    x, y = a
    c, x, y = np.broadcast_arrays(obj(np.asarray(c)), obj(np.asarray(x)), obj(np.asarray(y)))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        out[i] = x[i] if bool(c[i]) else y[i]
    return out if out.shape != () else out[()]


def _isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, rtol=rtol, atol=atol, **kw)
    f = binary(np.isclose, lambda u, v: bool(abs(u - v) <= atol + rtol * abs(v)))
    return f(a, b)


def _allclose(a, b, **kw):
    return bool(_all(_isclose(a, b, **kw)))


def _clip(x, lo, hi, **kw):
    def one(v):
        if lo is not None and v < lo:
            return lo
        if hi is not None and v > hi:
            return hi
        return v
    if not (has_sym(x) or is_sym(lo) or is_sym(hi)):
        return np.clip(x, lo, hi, **kw)
    xo = obj(np.asarray(x))
    out = np.empty(xo.shape, dtype=object)
    for i in np.ndindex(xo.shape):
        out[i] = one(xo[i])
    return out if out.shape != () else out[()]


def _sorted_syms(vals):
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and bool(v < out[i - 1]):
            i -= 1
        out.insert(i, v)
    return out


def _argsort(x, *a, **kw):
    x = np.asarray(x)
    if not has_sym(x):
        return np.argsort(x.astype(float) if x.dtype == object else x, *a, **kw)
    idx = []
    for j, v in enumerate(x):
        i = len(idx)
        while i > 0 and bool(v < x[idx[i - 1]]):
            i -= 1
        idx.insert(i, j)
    return np.array(idx, dtype=int)


def _sort(x, axis=-1, **kw):
    x = np.asarray(x)
    if not has_sym(x):
        return np.sort(x, axis=axis)
    if x.ndim != 1:
        raise SymUnsupported('sort of nd symbolic array')
    out = np.empty(len(x), dtype=object)
    for i, v in enumerate(_sorted_syms(list(x))):
        out[i] = v
    return out


def _percentile(x, q, axis=None, **kw):
    """numpy's default 'linear' interpolation."""
    x = np.asarray(x)
    if not has_sym(x):
        return np.percentile(x.astype(float) if x.dtype == object else x, q, axis=axis, **kw)
    if x.ndim > 1:
        if axis is None:
            x = x.ravel()
        else:
            x2 = np.moveaxis(x, axis, -1)
            out = np.empty(x2.shape[:-1], dtype=object)
            if np.ndim(q):
                out = np.empty((len(q),) + x2.shape[:-1], dtype=object)
            for i in np.ndindex(x2.shape[:-1]):
                r = _percentile(x2[i], q)
                if np.ndim(q):
                    for j in range(len(q)):
                        out[(j,) + i] = r[j]
                else:
                    out[i] = r
            return out
    srt = _sorted_syms(list(x))
    n = len(srt)

    def one(p):
        r = expr.float_to_rf(float(p)).const_value() / 100 * (n - 1)
        lo = math.floor(r)
        hi = min(lo + 1, n - 1)
        fr = r - lo
        if fr == 0:
            return srt[lo]
        return srt[lo] + (srt[hi] - srt[lo]) * fr
    if np.ndim(q) == 0:
        return one(q)
    out = np.empty(len(q), dtype=object)
    for i, p in enumerate(q):
        out[i] = one(p)
    return out


def _quantile(x, q, axis=None, **kw):
    q100 = [v * 100 for v in q] if np.ndim(q) else q * 100
    if not has_sym(np.asarray(x)):
        return np.quantile(x, q, axis=axis, **kw)
    return _percentile(x, q100, axis=axis)


def _median(x, axis=None, **kw):
    if not has_sym(np.asarray(x)):
        return np.median(x, axis=axis, **kw)
    return _percentile(x, 50, axis=axis)


def _sum(x, axis=None, **kw):
    x = np.asarray(x) if not isinstance(x, np.ndarray) else x
    return np.sum(x, axis=axis, **kw)


def _std(x, axis=None, ddof=0, **kw):
    x = np.asarray(x)
    if not has_sym(x):
        return np.std(x.astype(float) if x.dtype == object else x, axis=axis, ddof=ddof, **kw)
    v = _var(x, axis=axis, ddof=ddof)
    return SHIM.sqrt(v)


def _var(x, axis=None, ddof=0, **kw):
    x = np.asarray(x)
    if not has_sym(x):
        return np.var(x.astype(float) if x.dtype == object else x, axis=axis, ddof=ddof, **kw)
    if axis is None:
        m = np.sum(x) / x.size
        return np.sum((x - m) ** 2) / (x.size - ddof)
    m = np.expand_dims(np.sum(x, axis=axis), axis) / x.shape[axis]
    return np.sum((x - m) ** 2, axis=axis) / (x.shape[axis] - ddof)


def _mean(x, axis=None, **kw):
    x = np.asarray(x)
    if x.dtype != object:
        return np.mean(x, axis=axis, **kw)
    n = x.size if axis is None else x.shape[axis]
    return np.sum(x, axis=axis) / n


def _max_arr(x, axis=None, **kw):
    x = np.asarray(x)
    if not has_sym(x) or axis is not None:
        return np.max(x, axis=axis, **kw)
    it = list(x.flat)
    m = it[0]
    for v in it[1:]:
        if v > m:
            m = v
    return m


def _min_arr(x, axis=None, **kw):
    x = np.asarray(x)
    if not has_sym(x) or axis is not None:
        return np.min(x, axis=axis, **kw)
    it = list(x.flat)
    m = it[0]
    for v in it[1:]:
        if v < m:
            m = v
    return m


def _argmax(x, axis=None, **kw):
    x = np.asarray(x)
    if not has_sym(x):
        return np.argmax(x, axis=axis, **kw)
    it = list(x.flat)
    m = 0
    for i, v in enumerate(it[1:], 1):
        if v > it[m]:
            m = i
    return m


def _argmin(x, axis=None, **kw):
    x = np.asarray(x)
    if not has_sym(x):
        return np.argmin(x, axis=axis, **kw)
    it = list(x.flat)
    m = 0
    for i, v in enumerate(it[1:], 1):
        if v < it[m]:
            m = i
    return m


def _digitize(x, bins, right=False):
    if not (has_sym(x) or has_sym(bins)):
        return np.digitize(x, bins, right=right)
    x = np.asarray(x)
    bins = list(bins)
    out = np.empty(x.shape, dtype=int)
    for i in np.ndindex(x.shape):
        n = 0
        for b in bins:
            if (x[i] > b) if right else (x[i] >= b):
                n += 1
            else:
                break
        out[i] = n
    return out


def _histogram(x, bins=10, range=None, weights=None, **kw):
    if not (has_sym(x) or has_sym(weights)) or not isinstance(bins, int) or kw:
        return np.histogram(x, bins=bins, range=range, weights=weights, **kw)
    x = list(np.asarray(x, dtype=object).flat)
    w = [1] * len(x) if weights is None else list(np.asarray(weights, dtype=object).flat)
    lo, hi = (_min_arr(x), _max_arr(x)) if range is None else range
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    edges = [lo + (hi - lo) * i / bins for i in np.arange(bins)] + [hi]
    out = [0] * bins
    for v, wt in zip(x, w):
        if range is not None and (v < lo or v > hi):
            continue
        a, b = 0, bins - 1                  # bin index by bisection
        while a < b:
            m = (a + b + 1) // 2
            if v >= edges[m]:
                a = m
            else:
                b = m - 1
        out[a] = out[a] + wt
    return (np.array(out) if weights is None else obj(out)), obj(edges)


def _searchsorted(a, v, side='left', **kw):
    if not (has_sym(a) or has_sym(v)):
        return np.searchsorted(a, v, side=side, **kw)
    f = binary(np.searchsorted, None)
    vv = np.asarray(v)
    out = np.empty(vv.shape, dtype=int)
    for i in np.ndindex(vv.shape):
        n = 0
        for b in a:
            if (vv[i] > b) if side == 'left' else (vv[i] >= b):
                n += 1
            else:
                break
        out[i] = n
    return out if out.shape != () else int(out[()])


def _round(x, decimals=0, **kw):
    if not has_sym(x):
        return np.round(x, decimals, **kw)
    return unary(np.round, lambda v: round(v, decimals))(x)


def _isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


def _nan_to_num(x, **kw):
    if not has_sym(x):
        return np.nan_to_num(x, **kw)
    return x


def _unique(x, *a, **kw):
    if not has_sym(x):
        return np.unique(x, *a, **kw)
    raise SymUnsupported('np.unique on symbolic values')


def _nansum(x, axis=None, **kw):
    if not has_sym(x):
        return np.nansum(x, axis=axis, **kw)
    return np.sum(np.asarray(x), axis=axis)


def _logical_and(a, b, *r, **kw):
    if not (has_sym(a) or has_sym(b)):
        return np.logical_and(a, b, *r, **kw)
    return binary(np.logical_and, lambda u, v: bool(u) and bool(v))(a, b)


def _logical_or(a, b, *r, **kw):
    if not (has_sym(a) or has_sym(b)):
        return np.logical_or(a, b, *r, **kw)
    return binary(np.logical_or, lambda u, v: bool(u) or bool(v))(a, b)


def _count_nonzero(x, **kw):
    if not has_sym(x):
        return np.count_nonzero(x, **kw)
    return sum(1 for v in np.asarray(x, dtype=object).flat if bool(v))


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, np.floating)) or isinstance(x, SymReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, np.ndarray) and x.shape in ((), (1,)) and has_sym(x):
            return x.reshape(-1)[0]
        f = getattr(x, '__float__', None)
        if f is not None and not isinstance(x, (int, float, np.generic, np.ndarray, str)):
            v = f()
            if isinstance(v, SymReal):
                return v
        return float(x)

    def __eq__(cls, o):
        return o is float or o is np.float64 or o is SymReal or type.__eq__(cls, o) is True

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FloatMeta):
    """stands in for the builtin float in radvel modules"""
    fromhex = float.fromhex


class _Float64Meta(_FloatMeta):
    def __instancecheck__(cls, x):
        return isinstance(x, np.float64) or isinstance(x, SymReal)


class SymFloat64(metaclass=_Float64Meta):
    pass


def _dtype(d):
    if d is SymFloat or d is SymFloat64:
        return object
    return d


class _Linalg(object):
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if isinstance(f, type):
            return f
        h = LINALG.get(n)

        def g(*a, **kw):
            if any(has_sym(x) for x in a):
                if h is None:
                    raise SymUnsupported('np.linalg.%s on symbolic values' % n)
                return h(*a, **kw)
            a = [x.astype(float) if isinstance(x, np.ndarray) and x.dtype == object
                 else x for x in a]
            return f(*a, **kw)
        return g


LINALG = {}
_PASS = {}


class NumpyShim(types.ModuleType):
    """module-like object: overridden names first, numpy otherwise"""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        d = self.__dict__
        for n, f in UNARY.items():
            if hasattr(np, n):
                d[n] = unary(getattr(np, n), f)
        for n, f in BINARY.items():
            if hasattr(np, n):
                g = binary(getattr(np, n), f)
                u = getattr(np, n)
                for m in ('reduce', 'accumulate', 'outer', 'at'):
                    if hasattr(u, m):
                        setattr(g, m, getattr(u, m))
                d[n] = g
        d.update(zeros=_zeros, ones=_ones, empty=_zeros, full=_full,
                 zeros_like=_like(_zeros), ones_like=_like(_ones),
                 empty_like=_like(_empty_like), array=_array, asarray=_asarray,
                 atleast_1d=lambda x: np.atleast_1d(obj(x) if has_sym(x) else x),
                 linspace=_linspace, any=_any, all=_all, where=_where,
                 isclose=_isclose, allclose=_allclose, clip=_clip,
                 argsort=_argsort, sort=_sort, percentile=_percentile,
                 quantile=_quantile, median=_median, nanmedian=_median,
                 std=_std, var=_var, mean=_mean, average=np.average,
                 max=_max_arr, min=_min_arr, amax=_max_arr, amin=_min_arr,
                 nanmax=_max_arr, nanmin=_min_arr,
                 argmax=_argmax, argmin=_argmin, digitize=_digitize, histogram=_histogram,
                 searchsorted=_searchsorted, round=_round, around=_round,
                 isscalar=_isscalar, nan_to_num=_nan_to_num, unique=_unique,
                 nansum=_nansum, logical_and=_logical_and,
                 logical_or=_logical_or, count_nonzero=_count_nonzero,
                 float64=SymFloat64, float_=SymFloat64, double=SymFloat64,
                 linalg=_Linalg(), eye=_eye, identity=_eye,
                 ascontiguousarray=_asarray, asfarray=_asarray,
                 array_equal=_array_equal, interp=_interp, cumsum=np.cumsum)

    def __getattr__(self, n):
        return getattr(np, n)


def _interp(x, xp, fp, left=None, right=None, period=None):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return np.interp(x, xp, fp, left, right, period)
    if period is not None:
        raise SymUnsupported('np.interp with a period')
    if isinstance(x, (list, tuple, np.ndarray)):
        x = np.asarray(x, dtype=object)
        return np.array([_interp(v, xp, fp, left, right) for v in x.flat], dtype=object).reshape(x.shape)
    if bool(x < xp[0]):
        return fp[0] if left is None else left
    n = len(xp)
    for i in range(n - 1):
        if bool(x < xp[i + 1]):
            return fp[i] + (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (x - xp[i])
    if bool(x == xp[n - 1]):
        return fp[n - 1]
    return fp[n - 1] if right is None else right


def _array_equal(a, b, **kw):
    a, b = np.asarray(a), np.asarray(b)
    if not (has_sym(a) or has_sym(b)):
        return np.array_equal(a, b, **kw)
    if a.shape != b.shape:
        return False
    return all(bool(u == v) for u, v in zip(a.flat, b.flat))


def _eye(n, *a, **kw):
    out = _zeros((n, n))
    for i in range(n):
        out[i, i] = SymReal(expr.RF1)
    return out


SHIM = NumpyShim()


class MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
        for n in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'log10', 'log2',
                  'fabs', 'floor', 'ceil', 'degrees', 'radians', 'isfinite',
                  'isnan', 'isinf', 'trunc', 'log1p', 'expm1'):
            if hasattr(SHIM, n):
                self.__dict__[n] = self._mk(getattr(math, n), UNARY[n])
        for n, k in (('atan', 'arctan'), ('asin', 'arcsin'), ('acos', 'arccos')):
            self.__dict__[n] = self._mk(getattr(math, n), UNARY[k])
        for n, k in (('atan2', 'arctan2'), ('hypot', 'hypot'), ('pow', 'power')):
            self.__dict__[n] = self._mk2(getattr(math, n), BINARY[k])

        def fmod(a, b):
            raise SymUnsupported('fmod')
        self.__dict__['fsum'] = lambda xs: sum(xs)

    @staticmethod
    def _mk(f, s):
        return lambda x, *a: s(x) if isinstance(x, SymReal) and not a else f(x, *a)

    @staticmethod
    def _mk2(f, s):
        return lambda x, y: s(x, y) if is_sym(x) or is_sym(y) else f(x, y)

    def __getattr__(self, n):
        return getattr(math, n)


MSHIM = MathShim()


def _symint(x=0, *a):
    if isinstance(x, SymReal):
        return x.__int__()
    return int(x, *a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, *a):
        if a and isinstance(a[0], (SymReal, SymBool)):
            return a[0].__int__()
        return int(*a)

    def __eq__(cls, o):
        return o is int or type.__eq__(cls, o)

    def __hash__(cls):
        return hash(int)


class Patch(object):
    """A reversible set of attribute replacements."""

    def __init__(self):
        self.saved = []

    def set(self, objt, name, value):
        d = objt.__dict__ if isinstance(objt, (types.ModuleType, type)) else None
        missing = d is not None and name not in d
        self.saved.append((objt, name, None if missing else
                           (d[name] if d is not None else getattr(objt, name)), missing))
        setattr(objt, name, value)

    def undo(self):
        for o, n, v, missing in reversed(self.saved):
            if missing:
                try:
                    delattr(o, n)
                except AttributeError:
                    pass
            else:
                setattr(o, n, v)
        self.saved = []


class NormShim(object):
    """scipy.stats.norm on symbolic values: the density in closed form; the
    quantile function as given (a check that needs it constrains one)."""

    def __init__(self, real, ppf=None):
        self._real, self._ppf = real, ppf

    def logpdf(self, x, loc=0, scale=1):
        if not (has_sym(x) or has_sym(loc) or has_sym(scale)):
            return self._real.logpdf(x, loc, scale)
        z = (x - loc) / scale
        c = SymReal(expr.rf_const(2) * expr.rf_atom(expr.PI))
        return z * z / -2 - SHIM.log(scale * c.sqrt())

    def pdf(self, x, loc=0, scale=1):
        if not (has_sym(x) or has_sym(loc) or has_sym(scale)):
            return self._real.pdf(x, loc, scale)
        return SHIM.exp(self.logpdf(x, loc, scale))

    def ppf(self, q, loc=0, scale=1):
        if self._ppf is not None:
            return self._ppf(q, loc, scale)
        if not (has_sym(q) or has_sym(loc) or has_sym(scale)):
            return self._real.ppf(q, loc, scale)
        raise SymUnsupported('normal quantile function')

    def __call__(self, loc=0, scale=1):
        return _FrozenNorm(self, loc, scale)

    def __getattr__(self, n):
        return getattr(self._real, n)


class _FrozenNorm(object):
    def __init__(self, norm, loc, scale):
        self._n, self._a = norm, (loc, scale)

    def logpdf(self, x):
        return self._n.logpdf(x, *self._a)

    def pdf(self, x):
        return self._n.pdf(x, *self._a)

    def ppf(self, q):
        return self._n.ppf(q, *self._a)


def radvel_modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == 'radvel' or n.startswith('radvel.')) and m is not None
            and not n.startswith('radvel.tests')]


def install(patch=None):
    """Replace numpy/math in all loaded radvel modules. Returns the Patch."""
    p = patch or Patch()
    stats = sys.modules.get('scipy.stats')
    norm = getattr(stats, 'norm', None)
    table = {}
    for n in dir(np):
        if n in SHIM.__dict__:
            v = getattr(np, n)
            try:
                table[v] = SHIM.__dict__[n]
            except TypeError:
                pass
    for m in radvel_modules():
        for name, v in list(m.__dict__.items()):
            if v is np:
                p.set(m, name, SHIM)
            elif v is math:
                p.set(m, name, MSHIM)
            elif v is np.linalg:
                p.set(m, name, SHIM.linalg)
            elif norm is not None and v is norm:
                p.set(m, name, NormShim(norm))
            elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType, np.ufunc)) \
                    and not name.startswith('__'):
                try:
                    r = table.get(v)
                except TypeError:
                    r = None
                if r is not None:
                    p.set(m, name, r)
                elif getattr(v, '__module__', None) == 'math':
                    p.set(m, name, getattr(MSHIM, v.__name__))
        if 'float' not in m.__dict__:
            p.set(m, 'float', SymFloat)
    pd = sys.modules.get('pandas')
    if pd is not None:
        for n, ddof in (('median', None), ('mean', None), ('min', None), ('max', None),
                        ('sum', None), ('std', 1), ('var', 1)):
            p.set(pd.Series, n, _series(n, getattr(pd.Series, n), ddof))
    return p


def _series(name, real, ddof):
    """a reduction of a pandas column that holds symbolic values"""
    def g(self, *a, **k):
        if self.dtype != object or not has_sym(self.to_numpy()):
            return real(self, *a, **k)
        k = {x: v for x, v in k.items() if x not in ('skipna', 'numeric_only', 'axis')}
        if a or set(k) - {'ddof'}:
            raise SymUnsupported('Series.%s with options' % name)
        if ddof is not None:
            k.setdefault('ddof', ddof)
        return getattr(SHIM, name)(self.to_numpy(), **k)
    return g
