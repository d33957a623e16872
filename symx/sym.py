"""Symbolic values, execution contexts and path exploration."""
import json
import math
import numbers
import os
import random
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import env

from . import expr, state
from .expr import RF, SymUnsupported

DEBUG = bool(os.environ.get('SYMX_DEBUG'))


class PathInfeasible(BaseException):
    pass


class PathLimit(SymUnsupported):
    pass


# --------------------------------------------------------------------------
# conversion to z3

def atom_z3(a):
    if a.z3 is None:
        a.z3 = z3.Real('a%d_%s' % (a.id, a.name[:40].replace('|', '!')))
    return a.z3


def q_z3(q):
    return z3.RealVal('%d/%d' % (q.numerator, q.denominator)) \
        if q.denominator != 1 else z3.RealVal(q.numerator)


def poly_z3(p):
    if p.z3 is None:
        p.z3 = _poly_z3(p)
    return p.z3


def _poly_z3(p):
    terms = []
    for m, c in p.t.items():
        f = []
        for a, e in m:
            v = atom_z3(expr.ATOMS[a])
            f.extend([v] * e) if e <= 4 else f.append(v ** e)
        if not f:
            terms.append(q_z3(c))
            continue
        t = f[0]
        for x in f[1:]:
            t = t * x
        if c != 1:
            t = q_z3(c) * t
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


# --------------------------------------------------------------------------
# symbolic booleans: a small AST so that it can be evaluated numerically too

class SymBool(object):
    __slots__ = ('op', 'args', '_z3')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._z3 = None

    # construction -----------------------------------------------------
    @staticmethod
    def cmp(op, rf):
        """rf op 0, op in > >= == !="""
        if rf.is_const():
            v = rf.const_value()
            return {'>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
        return SymBool('cmp', op, rf)

    def z3(self):
        if self._z3 is None:
            o, a = self.op, self.args
            if o == 'cmp':
                op, rf = a
                n = poly_z3(rf.n)
                if not rf.d.is_one():
                    s = expr.poly_sign_quick(rf.d)
                    if op in ('==', '!='):
                        pass
                    elif s == 1:
                        pass
                    elif s == -1:
                        n = -n
                    else:
                        n = n * poly_z3(rf.d)
                z = {'>': lambda: n > 0, '>=': lambda: n >= 0,
                     '==': lambda: n == 0, '!=': lambda: n != 0}[op]()
            elif o == 'var':
                z = z3.Bool(a[0])
            elif o == 'not':
                z = z3.Not(as_z3(a[0]))
            elif o == 'and':
                z = z3.And([as_z3(x) for x in a])
            elif o == 'or':
                z = z3.Or([as_z3(x) for x in a])
            else:
                raise AssertionError(o)
            self._z3 = z
        return self._z3

    def ev(self, env, tol=0.0):
        o, a = self.op, self.args
        if o == 'cmp':
            op, rf = a
            v = expr.eval_rf(rf, env)
            if math.isnan(v):
                return False
            return {'>': v > tol, '>=': v >= -tol, '==': abs(v) <= 1e-9,
                    '!=': v != 0}[op]
        if o == 'var':
            return bool(env['bool:' + a[0]])
        if o == 'not':
            return not ev_bool(a[0], env)
        if o == 'and':
            return all(ev_bool(x, env) for x in a)
        if o == 'or':
            return any(ev_bool(x, env) for x in a)

    def atoms(self):
        if self.op == 'cmp':
            return self.args[1].atoms()
        if self.op == 'var':
            return {'bool:' + self.args[0]}
        s = set()
        for x in self.args:
            if isinstance(x, SymBool):
                s |= x.atoms()
        return s

    # python protocol ---------------------------------------------------
    def __bool__(self):
        return state.CTX.branch(self)

    def __and__(self, o):
        return sand(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return sor(sand(self, o), sand(snot(self), snot(o)))
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r)

    def __hash__(self):
        return id(self)

    def _num(self):
        return 1.0 if bool(self) else 0.0

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __float__(self):
        return self._num()

    def __int__(self):
        return int(self._num())

    def __index__(self):
        return int(self._num())

    def logical_not(self):
        return snot(self)

    def __repr__(self):
        if self.op == 'cmp':
            return '(%r %s 0)' % (self.args[1], self.args[0])
        return '%s%r' % (self.op, self.args)


def as_z3(b):
    if isinstance(b, SymBool):
        return b.z3()
    return z3.BoolVal(bool(b))


def ev_bool(b, env):
    if isinstance(b, SymBool):
        return b.ev(env)
    return bool(b)


def snot(b):
    if isinstance(b, SymBool):
        if b.op == 'not':
            return b.args[0]
        if b.op == 'cmp':
            op, rf = b.args
            if op == '>':
                return SymBool('cmp', '>=', -rf)
            if op == '>=':
                return SymBool('cmp', '>', -rf)
            return SymBool('cmp', '!=' if op == '==' else '==', rf)
        return SymBool('not', b)
    return not bool(b)


def sand(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b)
        elif not bool(b):
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', *out)


def sor(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b)
        elif bool(b):
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', *out)


def implies(a, b):
    return sor(snot(a), b)


# --------------------------------------------------------------------------
# symbolic reals

def to_rf(x):
    """RF for a SymReal or a Python/NumPy number; None for inf/nan; raises
    TypeError for anything else."""
    if isinstance(x, SymReal):
        return x.rf
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return expr.rf_const(int(x))
    if isinstance(x, SymBool):
        return expr.rf_const(int(bool(x)))
    if isinstance(x, (int, np.integer)):
        return expr.rf_const(int(x))
    if isinstance(x, Fraction):
        return expr.rf_const(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return None
        return expr.float_to_rf(x)
    if isinstance(x, np.ndarray) and x.shape == ():
        return to_rf(x[()])
    raise TypeError(type(x))


def mk(rf):
    n = state.CTX.def_terms if state.CTX is not None else None
    if n is not None and len(rf.n.t) + len(rf.d.t) > n:
        # name the value: a fresh atom with a defining equation
        rf = expr.apply_uf('def', (rf,))
    return SymReal(rf)


_NUM = (int, float, np.integer, np.floating, np.bool_, Fraction)


class _FloatDtype(object):
    """What a symbolic number says its dtype is: float64, except that its
    scalar type accepts symbolic numbers (ndarray.std() calls it)."""
    dtype = np.dtype(object)

    @staticmethod
    def type(x=0.0):
        if is_sym(x):
            return np.float64(float(x.rf.const_value())) if isinstance(x, SymReal) and x.rf.is_const() else x
        return np.float64(x)

    def __eq__(self, o):
        return o is self or np.dtype('float64') == o

    def __hash__(self):
        return hash(np.dtype('float64'))

    def __getattr__(self, n):
        return getattr(np.dtype('float64'), n)


FLOAT_DTYPE = _FloatDtype()


class _SymMeta(type):
    pass


class SymReal(object):
    __slots__ = ('rf',)

    def __init__(self, rf):
        self.rf = rf

    # helpers -----------------------------------------------------------
    def _arr(self, o, f):
        return NotImplemented

    def _bin(self, o, f, finf):
        if isinstance(o, (SymReal, SymBool) + _NUM) or (
                isinstance(o, np.ndarray) and o.shape == ()):
            r = to_rf(o)
            if r is None:
                return finf(float(o))
            return mk(f(self.rf, r))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda v: v)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda v: -v)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda v: v)

    def _mulinf(self, v):
        if math.isnan(v):
            return v
        if self.rf.is_zero():
            return float('nan')
        if state.CTX.decide(self.rf, '>'):
            return v
        if state.CTX.decide(self.rf, '=='):
            return float('nan')
        return -v

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, self._mulinf)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, _div, lambda v: v if math.isnan(v) else 0.0)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: _div(b, a), self._mulinf)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: expr.floor(_div(a, b)), _noinf)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: expr.floor(_div(b, a)), _noinf)

    def __mod__(self, o):
        return self._bin(o, _mod, _noinf)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: _mod(b, a), _noinf)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymReal(-self.rf)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(expr.absval(self.rf))

    def __pow__(self, o, mod=None):
        if isinstance(o, (SymReal,) + _NUM):
            r = to_rf(o)
            if r is None:
                raise SymUnsupported('power of infinity')
            return _pow(self.rf, r)
        return NotImplemented

    def __rpow__(self, o):
        r = to_rf(o)
        return _pow(r, self.rf)

    # comparisons ---------------------------------------------------------
    def _cmp(self, o, f, finf):
        if isinstance(o, (SymReal, SymBool) + _NUM) or (
                isinstance(o, np.ndarray) and o.shape == ()):
            r = to_rf(o)
            if r is None:
                v = float(o)
                return False if math.isnan(v) else finf(v)
            return f(self.rf, r)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: SymBool.cmp('>', b - a), lambda v: v > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: SymBool.cmp('>=', b - a), lambda v: v > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: SymBool.cmp('>', a - b), lambda v: v < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: SymBool.cmp('>=', a - b), lambda v: v < 0)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: SymBool.cmp('==', a - b), lambda v: False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: SymBool.cmp('!=', a - b), lambda v: True)

    def __hash__(self):
        return hash(self.rf.key())

    def __bool__(self):
        r = SymBool.cmp('!=', self.rf)
        return bool(r)

    # conversions -----------------------------------------------------------
    def __float__(self):
        if self.rf.is_const():
            return float(self.rf.const_value())
        if state.TOKENS is not None:
            return 1e9 + state.token(self)
        raise SymUnsupported('float() of a symbolic real')

    def __int__(self):
        if self.rf.is_const():
            return int(self.rf.const_value())
        return state.CTX.concretize_int(self, 'trunc')

    def __index__(self):
        if self.rf.is_const() and self.rf.const_value().denominator == 1:
            return int(self.rf.const_value())
        raise TypeError('symbolic real is not an index')

    def __floor__(self):
        return SymReal(expr.floor(self.rf))

    def __ceil__(self):
        return SymReal(-expr.floor(-self.rf))

    def __trunc__(self):
        return self.__int__()

    def __round__(self, n=None):
        s = Fraction(10) ** int(n or 0)
        return SymReal(expr.floor(self.rf * expr.rf_const(s) + expr.rf_const(
            Fraction(1, 2))) / expr.rf_const(s))

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    # numpy object-ufunc methods ------------------------------------------
    def sin(self):
        return SymReal(expr.sin(self.rf))

    def cos(self):
        return SymReal(expr.cos(self.rf))

    def tan(self):
        u = expr.tan_of_arctan(self.rf)
        if u is not None:
            return SymReal(u)
        r = expr.sincos(self.rf + self.rf)
        d = expr.RF1 + r[1]
        if d.is_zero():
            raise SymUnsupported('tan at a pole')
        state.CTX.nonzero(d, 'tan pole')
        return SymReal(r[0] / d)

    def arctan(self):
        return SymReal(expr.arctan(self.rf))

    def arcsin(self):
        return SymReal(expr.arcsin(self.rf))

    def arccos(self):
        return SymReal(expr.arccos(self.rf))

    def arctan2(self, o):
        return SymReal(expr.arctan2(self.rf, to_rf(o)))

    def sqrt(self):
        if not expr.is_nonneg(self.rf):
            if not state.CTX.decide(self.rf, '>='):
                return float('nan')
        return SymReal(expr.root(self.rf, 2))

    def exp(self):
        return SymReal(expr.exp(self.rf))

    def log(self):
        if not expr.is_positive(self.rf):
            if not state.CTX.decide(self.rf, '>'):
                if state.CTX.decide(self.rf, '=='):
                    return float('-inf')
                return float('nan')
        return SymReal(expr.log(self.rf))

    def log10(self):
        dec = state.CTX.opts.get('decades')
        if dec and not self.rf.is_const():
            # split by decade; the fractional part is only known to be one
            for k in range(dec[0], dec[1]):
                if state.CTX.decide_bool(sand(self >= Fraction(10) ** k, self < Fraction(10) ** (k + 1))):
                    f = state.CTX.uf('frac_log10', self, fn=lambda x: math.log10(x) % 1.0)
                    state.CTX.assume(sand(f >= 0, f < 1))
                    return f + k
            raise SymUnsupported('log10 outside the decades')
        r = self.log()
        if not isinstance(r, SymReal):
            return r
        return SymReal(r.rf / expr.log(expr.rf_const(10)))

    def log2(self):
        return SymReal(self.log().rf / expr.log(expr.rf_const(2)))

    def exp2(self):
        return SymReal(expr.power(expr.rf_const(2), self.rf))

    def square(self):
        return self * self

    def hypot(self, o):
        return (self * self + o * o).sqrt() if isinstance(o, SymReal) else \
            (self * self + float(o) ** 2).sqrt()

    def conjugate(self):
        return self

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def isinf(self):
        return False

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        # values are immutable and canonical: pickling keeps identity of value
        return (_unpickle, (_pickle_id(self),))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return FLOAT_DTYPE

    def __format__(self, spec):
        if state.TOKENS is not None and self.rf.is_const():
            return format(float(self.rf.const_value()), spec)
        return '<sym>' if state.TOKENS is None else '[[%d]]' % state.token(self)

    def __str__(self):
        if state.TOKENS is not None and self.rf.is_const():
            return str(float(self.rf.const_value()))
        return repr(self.rf) if state.TOKENS is None else '[[%d]]' % state.token(self)

    def __repr__(self):
        return 'Sym(%r)' % (self.rf,)


_PICKLED = {}


def _pickle_id(s):
    i = len(_PICKLED)
    _PICKLED[i] = s
    return i


def _unpickle(i):
    return _PICKLED[i]


def _noinf(v):
    raise SymUnsupported('floor/mod with infinity')


def _div(a, b):
    if b.is_zero():
        raise ZeroDivisionError('symbolic division by zero')
    state.CTX.nonzero(b, 'denominator')
    return a / b


def _mod(a, b):
    return a - b * expr.floor(_div(a, b))


def _pow(x, y):
    if y.is_const():
        q = y.const_value()
        if q.denominator == 1:
            if q < 0:
                state.CTX.nonzero(x, 'denominator')
            return SymReal(expr.power(x, y))
        if not expr.is_nonneg(x):
            if not state.CTX.decide(x, '>='):
                return float('nan')
        if q < 0:
            state.CTX.nonzero(x, 'denominator')
        return SymReal(expr.power(x, y))
    if not expr.is_positive(x):
        if not state.CTX.decide(x, '>'):
            raise SymUnsupported('symbolic power of a non-positive base')
    return SymReal(expr.power(x, y))


def is_sym(x):
    return isinstance(x, (SymReal, SymBool))


# --------------------------------------------------------------------------
# contexts

class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.checks = 0
        self.trivial = 0
        self.branch_queries = 0
        self.assumed = {}
        self.max_query_s = 0.0
        self.samples = []
        self.second = 0
        self.cut = 0

    def merge(self, d):
        for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s', 'paths',
                  'checks', 'trivial', 'branch_queries', 'second', 'cut'):
            setattr(self, k, getattr(self, k) + d[k])
        self.max_query_s = max(self.max_query_s, d['max_query_s'])
        for k, v in d['assumed'].items():
            self.assumed[k] = self.assumed.get(k, 0) + v
        for s in d['samples']:
            if len(self.samples) < 6:
                self.samples.append(s)

    def dict(self):
        return {k: getattr(self, k) for k in (
            'queries', 'unsat', 'sat', 'unknown', 'solver_s', 'paths', 'checks',
            'trivial', 'branch_queries', 'second', 'cut', 'assumed', 'max_query_s',
            'samples')}


class Failure(object):
    """A failed obligation, to be replayed."""

    def __init__(self, label, detail, points, kind='check'):
        self.label = label
        self.detail = detail
        self.points = points
        self.kind = kind


class BaseCtx(object):
    symbolic = False

    def check_all_eq(self, a, b, label, **kw):
        a = list(np.asarray(a, dtype=object).ravel())
        b = list(np.asarray(b, dtype=object).ravel())
        self.check(len(a) == len(b), label + ' (lengths)')
        for i, (x, y) in enumerate(zip(a, b)):
            self.check_eq(x, y, '%s[%d]' % (label, i), **kw)

    def reals(self, name, n, *a, **kw):
        return [self.real('%s%d' % (name, i), *a, **kw) for i in range(n)]

    def array(self, values):
        if self.symbolic:
            out = np.empty(len(values), dtype=object)
            for i, v in enumerate(values):
                out[i] = v
            return out
        return np.array([float(v) for v in values])


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, stats, schedule, opts):
        self.stats = stats
        self.schedule = schedule          # decisions to follow
        self.decisions = []               # (value, flippable)
        self.pc = []                      # SymBool / True
        self.pc_atoms = []
        self.opts = opts
        self.vars = []                    # (name, atom, lo, hi, sample)
        self.bools = []
        self.known_cache = {}
        self.branch_cache = {}
        self.failures = []
        self.records = []                 # (label, lhs, rhs)
        self.reached = 0
        self.timeout = opts.get('timeout_ms', 20000)
        self.pc_solver_cache = {}
        self.def_terms = opts.get('def_terms')
        self.lazy = opts.get('lazy', False)
        self.branch_ms = opts.get('branch_ms', 4000)

    # ---- inputs -------------------------------------------------------
    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False,
             nonzero=False, sample=None):
        for v in self.vars:
            if v[0] == name:
                return SymReal(expr.rf_atom(v[1]))
        nonneg = lo is not None and lo >= 0
        pos = nonneg and (lo > 0 or open_lo)
        a = expr._new_atom('var', (), name, ('var', name), nonneg=nonneg, pos=pos)
        x = SymReal(expr.rf_atom(a))
        self.vars.append((name, a, lo, hi, sample))
        if lo is not None:
            self.assume(x > lo if open_lo else x >= lo)
        if hi is not None:
            self.assume(x < hi if open_hi else x <= hi)
        if nonzero:
            self.assume(x != 0)
        return x

    def boolean(self, name):
        if name not in self.bools:
            self.bools.append(name)
        return SymBool('var', name)

    def choice(self, name, n):
        """A solver-chosen integer 0..n-1 (forks)."""
        x = self.real(name, 0, n - 1, sample=n)
        for i in range(n - 1):
            if self.decide_bool(x == i):
                return i
        self.assume(x == n - 1)
        return n - 1

    def uf(self, name, *args, **kw):
        fn = kw.pop('fn', None)
        kind = 'uf:' + name
        if fn is not None:
            state.UF_CONCRETE[kind] = fn
        rfs = [to_rf(a) if not isinstance(a, str) else a for a in args]
        return SymReal(expr.apply_uf(kind, tuple(rfs), **kw))

    # ---- path condition --------------------------------------------------
    def _add(self, b):
        if b is True or b is np.True_:
            return
        if not isinstance(b, SymBool):
            if bool(b):
                return
            raise PathInfeasible()
        self.pc.append(b)
        self.known_cache = {k: v for k, v in self.known_cache.items() if v}
        # learn the sign of single atoms
        self._learn(b)

    def _learn(self, b):
        if b.op == 'and':
            for x in b.args:
                if isinstance(x, SymBool):
                    self._learn(x)

    def assume(self, b):
        self._add(b)

    def nonzero(self, rf, what):
        if rf.is_const():
            return
        s = expr.poly_sign_quick(rf.n)
        if s in (1, -1):
            return
        key = ('nz', rf.key())
        if key in self.branch_cache:
            return
        self.branch_cache[key] = True
        if self.known(rf, '!='):
            return
        self.stats.assumed[what] = self.stats.assumed.get(what, 0) + 1
        self._add(SymBool.cmp('!=', rf))

    def require_domain(self, rf, op, what):
        b = SymBool.cmp(op, rf)
        if b is False:
            raise SymUnsupported('domain error: ' + what)
        if b is True:
            return
        self._add(b)

    def known(self, rf, op):
        key = (op, rf.key())
        v = self.known_cache.get(key)
        if v is not None:
            return v
        n = expr.poly_sign_quick(rf.n)
        d = 1 if rf.d.is_one() else expr.poly_sign_quick(rf.d)
        res = None
        if n is not None and d in (1, -1):
            m = -n if d == -1 else n
            if n == 0:
                m = 0
            if op == '>':
                if m == 1:
                    res = True
                elif m in (0, -1, -2):
                    res = False
            elif op == '>=':
                if m in (0, 1, 2):
                    res = True
                elif m == -1:
                    res = False
            else:
                if m in (1, -1):
                    res = True
                elif m == 0:
                    res = False
        if res is None:
            b = SymBool.cmp(op, rf)
            if isinstance(b, SymBool) and self.lazy:
                res = False
            elif isinstance(b, SymBool):
                # a sample point refutes cheaply
                if self._sample_refutes(b):
                    res = False
                else:
                    r = self.solve([snot(b)], min(1500, self.branch_ms), branch=True)
                    res = (r == 'unsat')
            else:
                res = bool(b)
        self.known_cache[key] = res
        return res

    _sample_env = None

    def _sample_refutes(self, b):
        """Cheap: evaluate at a few points that satisfy the path condition."""
        for env in self.sample_points(3, tries=12):
            try:
                if not b.ev(env):
                    return True
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                return False
        return False

    def decide(self, rf, op):
        return self.branch(SymBool.cmp(op, rf))

    def decide_bool(self, b):
        return self.branch(b)

    def branch(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        bkey = (b.op, b.args[0], b.args[1].key()) if b.op == 'cmp' else None
        if bkey is not None and bkey in self.branch_cache:
            return self.branch_cache[bkey]
        i = len(self.decisions)
        if i < len(self.schedule):
            v = self.schedule[i]
            self.decisions.append(v)
            self._add(b if v else snot(b))
            if bkey is not None:
                self.branch_cache[bkey] = v
            return v
        if len(self.decisions) >= self.opts.get('prune_depth', 1 << 30):
            self.stats.cut += 1         # beyond the unrolling bound
            raise PathInfeasible()
        if len(self.decisions) > self.opts.get('max_depth', 400):
            raise PathLimit('more than %d branches on one path' % i)
        ft = fb = None
        for env in self.sample_points(4, tries=12):
            try:
                if b.ev(env):
                    ft = True
                else:
                    fb = True
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                break
        if self.lazy and ft is None and fb is None:
            # both ways, undecided here: infeasible paths only add work
            ft = fb = True
        if self.lazy and ft != fb and not self.opts.get('lazy_forced'):
            ft = fb = True
        if ft is None:
            r = self.solve([b], self.branch_ms, branch=True)
            ft = r != 'unsat'
        if fb is None:
            if not ft:
                fb = True
            else:
                r = self.solve([snot(b)], self.branch_ms, branch=True)
                fb = r != 'unsat'
        if ft and fb:
            self.decisions.append(True)
            self.pending.append(list(self.decisions[:-1]) + [False])
            self._add(b)
            if bkey is not None:
                self.branch_cache[bkey] = True
            return True
        v = bool(ft)
        # forced: implied by the path condition; recorded so that schedules
        # line up when the prefix is re-executed
        self.decisions.append(v)
        if bkey is not None:
            self.branch_cache[bkey] = v
        return v

    def concretize_int(self, s, how):
        lo, hi = self.opts.get('int_range', (-4, 12))
        v = expr.floor(s.rf) if how == 'floor' else None
        if expr.is_integer_valued(s.rf):
            # split between the integers, then state which one it is
            if self.branch(SymBool.cmp('>', expr.rf_const(Fraction(2 * lo - 1, 2)) - s.rf)) or \
                    self.branch(SymBool.cmp('>', s.rf - expr.rf_const(Fraction(2 * hi + 1, 2)))):
                if self.solve(self.pc[-1:], self.timeout) == 'unsat':
                    raise PathInfeasible()
                raise SymUnsupported('integer out of range [%d, %d]' % (lo, hi))
            for k in range(lo, hi + 1):
                if k == hi or self.branch(SymBool.cmp('>', expr.rf_const(Fraction(2 * k + 1, 2)) - s.rf)):
                    self._add(SymBool.cmp('==', s.rf - expr.rf_const(k)))
                    return k
        for k in range(lo, hi + 1):
            if how == 'trunc':
                if k > 0:
                    c = sand(SymBool.cmp('>=', s.rf - expr.rf_const(k)),
                             SymBool.cmp('>', expr.rf_const(k + 1) - s.rf))
                elif k < 0:
                    c = sand(SymBool.cmp('>', s.rf - expr.rf_const(k - 1)),
                             SymBool.cmp('>=', expr.rf_const(k) - s.rf))
                else:
                    c = sand(SymBool.cmp('>', s.rf + expr.RF1),
                             SymBool.cmp('>', expr.RF1 - s.rf))
            else:
                c = SymBool.cmp('==', v - expr.rf_const(k))
            if self.branch(c):
                return k
        if self.solve(self.pc[-1:], self.timeout) == 'unsat':
            raise PathInfeasible()
        raise SymUnsupported('integer out of range [%d, %d]' % (lo, hi))

    # ---- solver ---------------------------------------------------------
    def solve_shallow(self, extra, timeout=1000):
        """Only the constraints and axioms near the goal's own atoms: cheap,
        and only an 'unsat' is meaningful."""
        def near(atoms):
            out = set(atoms)
            for a in atoms:
                if not isinstance(a, str) and expr.ATOMS[a].kind in ('abs', 'def'):
                    for x in expr.ATOMS[a].args:
                        if isinstance(x, RF):
                            out |= x.atoms()
            return out
        goal = set()
        for b in extra:
            goal |= b.atoms()
        pi = expr.PI.id
        close = near(goal)
        tight = []
        for b in self.pc:
            x = b.atoms()
            y = set()
            for a in x:
                if not isinstance(a, str) and expr.ATOMS[a].kind in ('abs', 'def') and a not in close:
                    y |= near([a]) - {a}
                else:
                    y.add(a)
            if y <= close:
                tight.append((b, x))
        wide, at = [], set(goal)
        for b in self.pc:
            x = b.atoms()
            if (x - {pi}) & at:
                wide.append((b, x))
                at |= x
        for lemma, sel in ((True, tight), (False, tight), (False, wide)):
            at = set(goal)
            for _, x in sel:
                at |= x
            if lemma:
                # absolute values only; everything else is opaque
                at = {a for a in at if not isinstance(a, str) and expr.ATOMS[a].kind == 'abs'}
            ax, _, _ = self.axioms(at, deep=False)
            self.stats.queries += 1
            t0 = time.time()
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', timeout)
            s.add([as_z3(b) for b in extra] + [as_z3(b) for b, _ in sel] + ax)
            r = s.check() == z3.unsat
            self.stats.solver_s += time.time() - t0
            if r:
                self.stats.unsat += 1
                return True
            self.stats.queries -= 1
        return False

    def axioms(self, atom_ids, deep=True):
        """z3 axioms of all atoms reachable from atom_ids."""
        seen = set()
        work = [a for a in atom_ids if not isinstance(a, str)]
        ax = []
        order = []
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            at = expr.ATOMS[a]
            order.append(at)
            for x in at.args if deep else ():
                if isinstance(x, RF):
                    work.extend(x.atoms())
            if at.kind in ('sin', 'cos'):
                p = expr.BY_KEY.get(('trig', at.args[0].key(), at.args[1]))
                if p:
                    work.extend([p[0].id, p[1].id])
        for at in order:
            z = atom_z3(at)
            k = at.kind
            if k == 'pi':
                ax += [z > q_z3(Fraction('3.14159265358979')),
                       z < q_z3(Fraction('3.14159265358980'))]
            elif k == 'cos':
                p = expr.BY_KEY.get(('trig', at.args[0].key(), at.args[1]))
                s = atom_z3(p[0])
                ax += [s * s + z * z == 1, s <= 1, s >= -1, z <= 1, z >= -1]
                x = at.args[0]
                if self.opts.get('trig_bounds') and x.d.is_one():
                    X = poly_z3(x.n) / at.args[1]
                    ax += [z3.Implies(X >= 0, s <= X), z3.Implies(X <= 0, s >= X),
                           z3.Implies(X >= 0, s >= -X), z3.Implies(X <= 0, s <= -X)]
            elif k == 'root':
                x, q = at.args
                ax.append(z >= 0)
                lhs = z
                for _ in range(q - 1):
                    lhs = lhs * z
                if x.d.is_one():
                    ax.append(lhs == poly_z3(x.n))
                else:
                    ax.append(lhs * poly_z3(x.d) == poly_z3(x.n))
            elif k == 'exp':
                ax.append(z > 0)
                x, D = at.args
                n, d = poly_z3(x.n), poly_z3(x.d)
                if x.d.is_one():
                    # e^y >= 1 + y
                    ax.append(z >= 1 + n / D)
                    ax.append(z3.Implies(n > 0, z > 1))
                    ax.append(z3.Implies(n < 0, z < 1))
            elif k == 'log':
                x = at.args[0]
                if x.is_const():
                    v = math.log(x.const_value())
                    ax += [z > q_z3(Fraction(repr(v - 1e-12 * abs(v)))),
                           z < q_z3(Fraction(repr(v + 1e-12 * abs(v))))]
                elif x.d.is_one():
                    n = poly_z3(x.n)
                    ax += [z3.Implies(n > 1, z > 0), z3.Implies(n < 1, z < 0),
                           z <= n - 1]
            elif k == 'abs':
                x = at.args[0]
                n = poly_z3(x.n)
                ax.append(z >= 0)
                if x.d.is_one():
                    ax.append(z3.Or(z == n, z == -n))
                else:
                    d = poly_z3(x.d)
                    ax.append(z3.Or(z * d == n, z * d == -n))
            elif k == 'floor':
                x = at.args[0]
                n = poly_z3(x.n)
                if x.d.is_one():
                    ax += [z <= n, n < z + 1]
                else:
                    d = poly_z3(x.d)
                    s = expr.poly_sign_quick(x.d)
                    if s == 1:
                        ax += [z * d <= n, n < z * d + d]
                    else:
                        ax += [z * d * d <= n * d, n * d < (z + 1) * d * d]
                if self.opts.get('int_floor'):
                    iv = z3.Int('i%d' % at.id)
                    ax.append(z == z3.ToReal(iv))
            elif k == 'arctan':
                pi = atom_z3(expr.PI)
                ax += [2 * z < pi, 2 * z > -pi]
                x = at.args[0]
                n = poly_z3(x.n * x.d)
                ax += [z3.Implies(n > 0, z > 0), z3.Implies(n < 0, z < 0),
                       z3.Implies(n == 0, z == 0)]
                if self.opts.get('trig_bounds'):
                    # |u|/(1+u^2) <= |arctan u| <= |u|
                    nn, dd = poly_z3(x.n), poly_z3(x.d)
                    ax += [z3.Implies(n >= 0, z3.And(z * (nn * nn + dd * dd) >= n, z * dd * dd <= n)),
                           z3.Implies(n <= 0, z3.And(z * (nn * nn + dd * dd) <= n, z * dd * dd >= n))]
                if expr.PI.id not in seen:
                    ax += [pi > q_z3(Fraction('3.14159265358979')),
                           pi < q_z3(Fraction('3.14159265358980'))]
            elif k == 'atan2':
                pi = atom_z3(expr.PI)
                ax += [z <= pi, z > -pi]
                y = at.args[0]
                n = poly_z3(y.n * y.d)
                ax += [z3.Implies(n > 0, z > 0), z3.Implies(n < 0, z < 0)]
                if expr.PI.id not in seen:
                    ax += [pi > q_z3(Fraction('3.14159265358979')),
                           pi < q_z3(Fraction('3.14159265358980'))]
            elif k == 'def':
                x = at.args[0]
                if x.d.is_one():
                    ax.append(z == poly_z3(x.n))
                else:
                    ax.append(z * poly_z3(x.d) == poly_z3(x.n))
            if at.nonneg and k in ('var',) or k.startswith('uf:'):
                if at.pos:
                    ax.append(z > 0)
                elif at.nonneg:
                    ax.append(z >= 0)
        return ax, seen, order

    def congruence(self, order):
        """f(x) = f(y) when x = y (and monotonicity), pairwise."""
        ax = []
        by = {}
        for a in order:
            if a.args and a.kind not in ('pi', 'abs', 'floor', 'def', 'root',
                                         'cos'):
                by.setdefault((a.kind, len(a.args)), []).append(a)
        for (k, n), lst in by.items():
            if len(lst) > 14:
                continue
            for i in range(len(lst)):
                for j in range(i):
                    a, b = lst[i], lst[j]
                    conds = []
                    ok = True
                    for x, y in zip(a.args, b.args):
                        if isinstance(x, RF) and isinstance(y, RF):
                            conds.append(poly_z3(x.n) * poly_z3(y.d) ==
                                         poly_z3(y.n) * poly_z3(x.d))
                        elif x != y:
                            ok = False
                    if ok:
                        if k == 'sin':
                            pa = expr.BY_KEY[('trig', a.args[0].key(), a.args[1])]
                            pb = expr.BY_KEY[('trig', b.args[0].key(), b.args[1])]
                            ax.append(z3.Implies(z3.And(conds), z3.And(
                                atom_z3(pa[0]) == atom_z3(pb[0]),
                                atom_z3(pa[1]) == atom_z3(pb[1]))))
                        else:
                            ax.append(z3.Implies(z3.And(conds),
                                                 atom_z3(a) == atom_z3(b)))
                            if k in ('exp', 'log', 'arctan'):
                                x, y = a.args[0], b.args[0]
                                if k == 'exp' and a.args[1] != b.args[1]:
                                    continue
                                if x.d.is_one() and y.d.is_one():
                                    ax.append(z3.Implies(
                                        poly_z3(x.n) < poly_z3(y.n),
                                        atom_z3(a) < atom_z3(b)))
                                    ax.append(z3.Implies(
                                        poly_z3(x.n) > poly_z3(y.n),
                                        atom_z3(a) > atom_z3(b)))
        ex = [a for a in order if a.kind == 'exp' and a.args[0].d.is_one()]
        lo = [a for a in order if a.kind == 'log' and a.args[0].d.is_one()]
        if ex and lo and len(ex) * len(lo) <= 24:
            # exp(x) against y as x against log(y)
            for a in ex:
                for b in lo:
                    x = poly_z3(a.args[0].n)
                    y = poly_z3(b.args[0].n)
                    l = atom_z3(b) * a.args[1]
                    z = atom_z3(a)
                    ax += [z3.Implies(x < l, z < y), z3.Implies(x > l, z > y), z3.Implies(x == l, z == y)]
        return ax

    def trig_links(self, order):
        """sin/cos of x/D1 against x/D2 when D2 is a multiple of D1."""
        ax = []
        done = set()
        for a in order:
            if a.kind != 'sin':
                continue
            gk = a.args[0].key()
            if gk in done:
                continue
            done.add(gk)
            ds = {b.args[1]: expr.BY_KEY[('trig', gk, b.args[1])]
                  for b in order if b.kind == 'sin' and b.args[0].key() == gk}
            for d1 in ds:
                for d2 in ds:
                    if d2 > d1 and d2 % d1 == 0 and d2 // d1 <= 6:
                        s, c = (expr.rf_atom(x) for x in ds[d2])
                        S, C = expr._multiple(s, c, d2 // d1)
                        ax.append(atom_z3(ds[d1][0]) == poly_z3(S.n))
                        ax.append(atom_z3(ds[d1][1]) == poly_z3(C.n))
        return ax

    def solve(self, extra, timeout, branch=False, want_model=False):
        """Satisfiability of path condition + axioms + extra."""
        goal_atoms = set()
        for b in extra:
            if isinstance(b, SymBool):
                goal_atoms |= b.atoms()
            elif not b:
                return ('unsat', None) if want_model else 'unsat'
        # cone of influence
        def closure(atoms):
            seen = set()
            work = list(atoms)
            while work:
                a = work.pop()
                if a in seen:
                    continue
                seen.add(a)
                if isinstance(a, str):
                    continue
                for x in expr.ATOMS[a].args:
                    if isinstance(x, RF):
                        work.extend(x.atoms())
            return seen
        cone = closure(goal_atoms)
        pcs = [(b, closure(b.atoms())) for b in self.pc]
        sel = []
        rest = pcs
        changed = True
        pi = expr.PI.id
        while changed:
            changed = False
            nxt = []
            for b, at in rest:
                if (at - {pi}) & cone:
                    sel.append(b)
                    cone |= at
                    changed = True
                else:
                    nxt.append((b, at))
            rest = nxt
        cons = [as_z3(b) for b in extra] + [as_z3(b) for b in sel]
        ax, seen, order = self.axioms(cone)
        cons += ax
        cons += self.trig_links(order)
        self.stats.queries += 1
        if branch:
            self.stats.branch_queries += 1
        t0 = time.time()
        res, model = self._run(cons, timeout)
        if res == 'sat':
            cg = self.congruence(order)
            if cg:
                res, model = self._run(cons + cg, timeout)
        dt = time.time() - t0
        self.stats.solver_s += dt
        self.stats.max_query_s = max(self.stats.max_query_s, dt)
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        if want_model:
            if res == 'sat' and rest:
                # complete the model on the unrelated part of the path
                # condition
                at2 = set()
                for b, at in rest:
                    at2 |= at
                ax2, _, _ = self.axioms(at2)
                r2, m2 = self._run([as_z3(b) for b, _ in rest] + ax2, timeout)
                model = (model, m2) if m2 is not None else (model,)
            elif model is not None:
                model = (model,)
            return res, model
        return res

    def _run(self, cons, timeout):
        """A small portfolio with growing time slices: nlsat, the general
        solver, and nlsat after a reordering of the constraints."""
        if self.opts.get('int_floor'):
            kinds = ('smt',)
        else:
            kinds = ('nra', 'smt', 'nra2')
        spent, slice_ = 0, 600 if len(kinds) > 1 else timeout
        while True:
            for k in kinds:
                s = z3.SolverFor('QF_NRA') if k != 'smt' else z3.Solver()
                s.set('timeout', int(max(50, min(slice_, timeout))))
                s.add(cons if k != 'nra2' else cons[::-1])
                r = s.check()
                if r == z3.sat:
                    return 'sat', s.model()
                if r == z3.unsat:
                    return 'unsat', None
            spent += slice_
            if spent >= timeout:
                return 'unknown', None
            slice_ = min(slice_ * 4, timeout)

    # ---- points ----------------------------------------------------------
    def model_env(self, models):
        """Input values from a z3 model."""
        vals = {}

        def get(zv):
            for m in models:
                if m is None:
                    continue
                v = m.eval(zv, model_completion=False)
                if z3.is_rational_value(v):
                    return float(v.numerator_as_long()) / float(v.denominator_as_long())
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                    return float(v.numerator_as_long()) / float(v.denominator_as_long())
            return None
        for name, a, lo, hi, sample in self.vars:
            v = get(atom_z3(a))
            if v is None:
                v = self._default(lo, hi, sample, None)
            vals[name] = v
        bools = {}
        for name in self.bools:
            b = None
            for m in models:
                if m is None:
                    continue
                x = m.eval(z3.Bool(name), model_completion=False)
                if z3.is_true(x):
                    b = True
                elif z3.is_false(x):
                    b = False
            bools[name] = bool(b)
        # angles: rebuild from the model's sin/cos of single variables
        alt = dict(vals)
        for (name, a, lo, hi, sample) in self.vars:
            bases = expr.TRIG_BASES.get(expr.rf_atom(a).key())
            if bases:
                D, (s, c) = sorted(bases.items())[0]
                sv, cv = get(atom_z3(s)), get(atom_z3(c))
                if sv is not None and cv is not None:
                    alt[name] = math.atan2(sv, cv) * D
        return vals, alt, bools

    def _default(self, lo, hi, sample, rng, wide=False):
        if isinstance(sample, int):         # a choice
            return float(rng.randrange(sample)) if rng is not None else 0.0
        if sample is not None and not (wide and lo is not None and hi is not None):
            a, b = sample
        else:
            a = lo if lo is not None else (-3.0 if hi is None else hi - 5.0)
            b = hi if hi is not None else a + 6.0
        a, b = float(a), float(b)
        if rng is None:
            return a + 0.37 * (b - a)
        return rng.uniform(a, b)

    def env_of(self, vals, bools):
        env = {}
        for name, a, lo, hi, sample in self.vars:
            env[a.id] = vals[name]
        for name in self.bools:
            env['bool:' + name] = bools.get(name, False)
        return env

    _points = None

    def sample_points(self, n, tries=40):
        """Concrete points that satisfy the current path condition."""
        if self._points is None:
            self._points = []
            self._rng = random.Random(self.opts.get('seed', 1))
            self._dry = 0
        good = []
        for vals, bools in self._points:
            if self._extend(vals, bools):
                env = self.env_of(vals, bools)
                if self._pc_holds(env):
                    good.append((vals, bools, env))
        if len(good) < n and self._dry < 4:
            found = False
            for _ in range(tries):
                vals = {}
                bools = {}
                self._extend(vals, bools)
                env = self.env_of(vals, bools)
                if self._pc_holds(env):
                    good.append((vals, bools, env))
                    found = True
                    if len(good) >= n:
                        break
            if not found:
                self._dry += 1
        self._points = [(v, b) for v, b, _ in good]
        return [e for _, _, e in good]

    def _extend(self, vals, bools):
        for name, a, lo, hi, sample in self.vars:
            if name not in vals:
                vals[name] = self._default(lo, hi, sample, self._rng)
        for name in self.bools:
            if name not in bools:
                bools[name] = self._rng.random() < 0.5
        return True

    def _pc_holds(self, env):
        try:
            for b in self.pc:
                if not b.ev(env):
                    return False
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return False
        return True

    # ---- obligations -------------------------------------------------------
    def check(self, cond, label, detail=''):
        self.reached += 1
        self.stats.checks += 1
        self.records.append((label, 'bool', cond, None))
        if not isinstance(cond, SymBool):
            if isinstance(cond, np.ndarray):
                cond = cond[()]
            if isinstance(cond, SymBool):
                return self.check(cond, label, detail)
            # decided by the path condition alone: is the path feasible?
            if bool(cond):
                self.stats.trivial += 1
                return
            self._failed([], label, detail or 'false on this path')
            return
        self._prove(cond, label, detail)

    def check_eq(self, a, b, label, tol=None, detail=''):
        self.reached += 1
        self.stats.checks += 1
        self.records.append((label, 'eq', a, b))
        try:
            ra, rb = to_rf(a), to_rf(b)
        except TypeError:
            ok = (type(a) == type(b) or a is None or b is None) and a == b
            if ok:
                self.stats.trivial += 1
            else:
                self._failed([], label, 'got %r, expected %r' % (a, b))
            return
        if ra is None or rb is None:
            fa = float(a) if ra is None else 0.0
            fb = float(b) if rb is None else 0.0
            if ra is None and rb is None and (
                    fa == fb or (math.isnan(fa) and math.isnan(fb))):
                self.stats.trivial += 1
                return
            self._failed([], label, 'got %r, expected %r' % (a, b))
            return
        self._prove_eq(ra, rb, label, detail)

    def check_angle_eq(self, a, b, label):
        """equal modulo 2 pi"""
        ra, rb = to_rf(a), to_rf(b)
        if ra is None or rb is None:
            return self.check_eq(a, b, label)
        self.reached += 1
        self.stats.checks += 1
        self.records.append((label, 'angle', a, b))
        d = ra - rb
        turns = d / (expr.rf_atom(expr.PI) * expr.rf_const(2))
        if expr.is_integer_valued(turns):
            self._prove_eq(expr.RF0, expr.RF0, label, '')
            return
        try:
            S, C = expr.sincos(d)
            if C.is_const():
                return self._prove_eq(C, expr.RF1, label, '')
        except SymUnsupported:
            pass
        try:
            sa, ca = expr.sincos(ra)
            sb, cb = expr.sincos(rb)
        except SymUnsupported:
            S, C = expr.sincos(d)
            return self._prove_eq(C, expr.RF1, label, '')
        self._prove_eq(sa, sb, label, 'sine')
        self._prove_eq(ca, cb, label, 'cosine')

    def _prove_eq(self, ra, rb, label, detail):
        if ra.is_const() and rb.is_const():
            va, vb = float(ra.const_value()), float(rb.const_value())
            if ra.const_value() == rb.const_value() or \
                    abs(va - vb) <= 1e-12 * max(abs(va), abs(vb)):
                self.stats.trivial += 1
            else:
                self._failed([], label, 'got %r, expected %r' % (va, vb))
            return
        if _rounding_only(ra, rb):
            self.stats.trivial += 1
            return
        noise = _closed_noise(ra, rb)
        if noise is not None:
            ra = ra - noise
            if (ra - rb).is_zero():
                self.stats.trivial += 1
                return
        prod = _log_product(ra, rb)
        if prod is not None:
            ra, rb = prod
        # cross-multiplied, sides kept apart: z3 does the comparison
        goal = _NeqGoal(ra, rb)
        self._prove_goal(goal, SymBool.cmp('==', ra - rb), label, detail)

    def _prove(self, cond, label, detail):
        self._prove_goal(None, cond, label, detail)

    def _prove_goal(self, goal, cond, label, detail):
        t0 = time.time()
        if len(self.stats.samples) < 3:
            self.stats.samples.append({'obligation': label, 'claim': _short(repr(cond), 400),
                                       'path': _short(repr(self.pc), 400)})
        if goal is not None and goal.size() < 4000:
            res, model = self.solve_goal(goal)
            if res == 'unsat':
                return
        if not isinstance(cond, SymBool):
            if bool(cond):
                # both sides normalise to the same polynomial; z3 did not
                # finish on the unreduced form but does on the reduced one
                self.stats.second += 1
                self.solve([SymBool('cmp', '!=', expr.RF0)], 1000)
                return
            self._failed([], label, detail or 'false for all inputs on this path')
            return
        neg = snot(cond)
        if self.lazy and self.solve_shallow([neg]):
            return
        res, model = self.solve([neg], self.timeout, want_model=True)
        if res == 'unsat':
            return
        if res == 'unknown':
            if self._prove_split(neg):
                return
        models = model if res == 'sat' else None
        self._failed_model(models, neg, label, detail, res)

    def _prove_split(self, neg):
        return False

    def solve_goal(self, goal):
        b = SymBool('var', '__goal')
        b._z3 = goal.z3()
        cone = goal.atoms()
        cls = _RawGoal(goal)
        return self.solve([cls], min(self.timeout, 6000)), None

    def whole_path(self):
        """Satisfiability of the path condition, without cone of influence."""
        ax, _, order = self.axioms(set().union(*[b.atoms() for b in self.pc])
                                   if self.pc else set())
        return self._run([as_z3(b) for b in self.pc] + ax +
                         self.trig_links(order) + self.congruence(order),
                         self.timeout)

    def _failed_model(self, models, neg, label, detail, res):
        points = []
        if models is not None and not self.lazy and self.whole_path()[0] == 'unsat':
            return                      # infeasible path
        if models is not None:
            vals, alt, bools = self.model_env(models)
            points.append((vals, bools))
            if alt != vals:
                points.append((alt, bools))
        # points found by evaluating the negated claim numerically
        rng = random.Random(7)
        extra = []
        tried = 0
        self._points = None
        seeds = list(points)
        for t in range(4000):
            if len(extra) >= 6:
                break
            vals, bools = {}, {}
            for name, a, lo, hi, sample in self.vars:
                if seeds and t % 2:
                    base = seeds[t % len(seeds)][0].get(name)
                    if base is not None and rng.random() < 0.7:
                        vals[name] = base
                        continue
                vals[name] = self._default(lo, hi, sample, rng)
            for name in self.bools:
                bools[name] = (seeds[0][1].get(name, False) if seeds and t % 2
                               else rng.random() < 0.5)
            env = self.env_of(vals, bools)
            if self._pc_holds(env):
                tried += 1
                try:
                    if self._violates(neg, env, t):
                        extra.append((vals, bools))
                except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                    pass
        # a model of the abstraction counts only where the claim really fails
        # (exact arithmetic), so that rounding at extreme values does not
        good = []
        for vals, bools in points:
            env = self.env_of(vals, bools)
            try:
                if self._pc_holds(env) and self._violates(neg, env, 9999):
                    good.append((vals, bools))
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
        self.failures.append(Failure(label, detail or _short(repr(neg), 300),
                                     extra + good, res))

    def _violates(self, neg, env, tries=0):
        if neg.op == 'cmp' and neg.args[0] == '!=':
            v = expr.eval_hp(neg.args[1], env)
            return abs(v) > (1e-3 if tries < 2500 else 1e-8)
        return neg.ev(env)

    def _failed(self, _p, label, detail):
        """A claim that is concretely false on this path."""
        points = []
        res, model = self.solve([], self.timeout, want_model=True)
        # solve([]) has an empty cone; use the whole path condition
        r, m = self.whole_path()
        if r == 'unsat':
            return                      # infeasible path
        if m is not None:
            vals, alt, bools = self.model_env((m,))
            points.append((vals, bools))
            if alt != vals:
                points.append((alt, bools))
        for env in self.sample_points(6, tries=2000):
            pass
        points = [(dict(v), dict(b)) for v, b in (self._points or [])] + points
        self.failures.append(Failure(label, detail, points, r))

    def fail_exception(self, e, tb):
        self._failed([], 'raises %s' % type(e).__name__,
                     '%s: %s' % (type(e).__name__, e))
        if self.failures:
            self.failures[-1].detail += '\n' + tb

    # path witness
    def witness(self):
        """A concrete point on this path, or (None, verdict)."""
        pts = self.sample_points(1, tries=60)
        if pts:
            v, b = self._points[0]
            return (dict(v), dict(b)), 'sampled'
        if self.lazy:
            return None, 'unknown'
        at = set()
        for b in self.pc:
            at |= b.atoms()
        ax, _, order = self.axioms(at)
        r, m = self._run([as_z3(b) for b in self.pc] + ax + self.trig_links(order),
                         self.opts.get('witness_timeout_ms', 3000))
        if r == 'unsat':
            return None, 'unsat'
        if m is not None:
            vals, alt, bools = self.model_env((m,))
            for cand in (vals, alt):
                env = self.env_of(cand, bools)
                if self._pc_holds(env) and not any(
                        v and not 1e-7 < abs(v) < 1e9 for v in cand.values()):
                    return (cand, bools), 'model'
            return None, 'sat-abstract'
        return None, 'unknown'


def _rounding_only(ra, rb):
    """Sides that differ in the last bits of floating-point constants only."""
    d = ra - rb
    if d.is_const():
        return 0 < abs(d.const_value()) <= Fraction(1, 10 ** 12)
    if not (ra.d.is_const() and rb.d.is_const()):
        return False
    if d.is_zero():
        return False                # z3 decides
    a = {m: abs(c / ra.d.const_value()) for m, c in ra.n.t.items()}
    q = d.d.const_value()
    return all(abs(c / q) <= Fraction(1, 10 ** 13) * a.get(m, 0) for m, c in d.n.t.items())


def _is_closed(a):
    if a.kind in ('var', 'def', 'floor', 'abs') or a.kind.startswith('uf:'):
        return False
    return all(_closed_rf(x) for x in a.args if isinstance(x, expr.RF))


def _closed_rf(x):
    return all(_is_closed(expr.ATOMS[i]) for p in (x.n, x.d) for m in p.t for i, _ in m)


def _closed_noise(ra, rb):
    """The part of the difference whose coefficients are pure numbers that
    cancel to rounding (a constant folded in floating point on one side and
    kept as log 2, log pi, ... on the other)."""
    if len(ra.n.t) + len(rb.n.t) > 400:
        return None
    d = ra - rb
    if not d.d.is_const() or d.is_zero():
        return None
    groups = {}
    for m, c in d.n.t.items():
        key = tuple((i, e) for i, e in m if not _is_closed(expr.ATOMS[i]))
        groups.setdefault(key, []).append((m, c))
    drop = {}
    for key, terms in groups.items():
        if len(terms) < 2:
            continue
        vals = []
        for m, c in terms:
            num = expr.Poly({tuple((i, e) for i, e in m
                                   if _is_closed(expr.ATOMS[i])): c})
            v = expr.eval_hp(expr.RF(num, expr.RF1.d), {})
            if v != v or abs(v) == math.inf:
                vals = None
                break
            vals.append(v)
        if not vals:
            continue
        if abs(math.fsum(vals)) <= 1e-13 * max(abs(v) for v in vals):
            drop.update(dict(terms))
    if not drop:
        return None
    q = d.d.const_value()
    return expr.RF(expr.Poly({m: c / q for m, c in drop.items()}), expr.RF1.d)


def _log_product(ra, rb):
    """An equality that is a rational combination of logarithms only, as the
    equality of the products of their arguments (which are positive: taking
    a logarithm put that on the path)."""
    try:
        d = ra - rb
    except SymUnsupported:
        return None
    if not d.d.is_const() or len(d.n.t) < 2 or len(d.n.t) > 12:
        return None
    items = []
    den = 1
    for m, c in d.n.t.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = expr.ATOMS[m[0][0]] if not isinstance(m[0][0], expr.Atom) else m[0][0]
        if a.kind != 'log':
            return None
        c = Fraction(c)
        den = den * c.denominator // math.gcd(den, c.denominator)
        items.append((a, c))
    left, right = expr.RF1, expr.RF1
    size = 1
    for a, c in items:
        n = int(c * den)
        x = a.args[0]
        size *= (len(x.n.t) * len(x.d.t)) ** abs(n)
        if abs(n) > 8 or size > 3000:
            return None
        if n > 0:
            left = left * x ** n
        else:
            right = right * x ** (-n)
    return left, right


class _NeqGoal(object):
    """lhs != rhs, cross-multiplied but not subtracted or reduced."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def size(self):
        return len(self.a.n.t) * len(self.b.d.t) + len(self.b.n.t) * len(self.a.d.t)

    def z3(self):
        l = poly_z3(self.a.n)
        r = poly_z3(self.b.n)
        if not self.b.d.is_one():
            l = l * poly_z3(self.b.d)
        if not self.a.d.is_one():
            r = r * poly_z3(self.a.d)
        return l != r

    def atoms(self):
        return self.a.atoms() | self.b.atoms()


class _RawGoal(SymBool):
    __slots__ = ('goal',)

    def __init__(self, goal):
        SymBool.__init__(self, 'raw')
        self.goal = goal

    def z3(self):
        return self.goal.z3()

    def atoms(self):
        return self.goal.atoms()


def _short(s, n):
    return s if len(s) <= n else s[:n - 3] + '...'


# --------------------------------------------------------------------------
# the concrete twin

class CheckFailed(BaseException):
    pass


class ConcCtx(BaseCtx):
    """The same harness on ordinary floats, against the unmodified code."""
    symbolic = False

    def __init__(self, vals, bools, rtol=1e-6, atol=1e-9, rng=None):
        self.rng = rng
        self.vals = vals
        self.bools = bools
        self.rtol = rtol
        self.atol = atol
        self.records = []
        self.failures = []
        self.assume_failed = False

    def real(self, name, lo=None, hi=None, open_lo=False, open_hi=False,
             nonzero=False, sample=None):
        if name not in self.vals:
            wide = self.rng is not None and lo is not None and hi is not None and \
                self.rng.random() < 0.4
            a, b = sample if sample is not None and not wide else (
                lo if lo is not None else -3.0, hi if hi is not None else 3.0)
            self.vals[name] = float(a) + (0.37 if self.rng is None else self.rng.random()) * (
                float(b) - float(a))
        v = float(self.vals[name])
        if (lo is not None and (v < lo or (open_lo and v <= lo))) or \
                (hi is not None and (v > hi or (open_hi and v >= hi))) or \
                (nonzero and v == 0):
            self.assume(False)
        return np.float64(v)

    def boolean(self, name):
        if name not in self.bools:
            self.bools[name] = self.rng is not None and self.rng.random() < 0.5
        return bool(self.bools[name])

    def choice(self, name, n):
        if name not in self.vals and self.rng is not None:
            self.vals[name] = self.rng.randrange(n)
        return int(round(float(self.vals.get(name, 0))))

    def uf(self, name, *args, **kw):
        fn = kw.get('fn') or state.UF_CONCRETE['uf:' + name]
        return np.float64(fn(*args))

    def assume(self, b):
        if not bool(b):
            self.assume_failed = True
            raise PathInfeasible()

    def decide_bool(self, b):
        return bool(b)

    def check(self, cond, label, detail=''):
        self.records.append((label, 'bool', cond, None))
        if not bool(cond):
            self.failures.append((label, detail or 'false'))

    def check_eq(self, a, b, label, tol=None, detail=''):
        self.records.append((label, 'eq', a, b))
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            if not ((type(a) == type(b) or a is None or b is None) and a == b):
                self.failures.append((label, 'got %r, expected %r' % (a, b)))
            return
        if fa == fb or (math.isnan(fa) and math.isnan(fb)):
            return
        rt = tol if tol is not None else self.rtol
        if math.isnan(fa) or math.isnan(fb) or math.isinf(fa) or math.isinf(fb) \
                or abs(fa - fb) > self.atol + rt * max(abs(fa), abs(fb)):
            self.failures.append((label, 'got %.17g, expected %.17g' % (fa, fb)))

    def check_angle_eq(self, a, b, label):
        self.records.append((label, 'angle', a, b))
        d = float(a) - float(b)
        d -= 2 * math.pi * round(d / (2 * math.pi)) if math.isfinite(d) else 0
        if not abs(d) <= 2e-5:
            self.failures.append((label, 'got %.17g, expected %.17g modulo 2 pi' % (a, b)))


# --------------------------------------------------------------------------
# exploration

def in_radvel(e):
    """Did the exception pass through the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(env.REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def explore(fn, opts=None, on_path=None):
    """Run fn(ctx) on every feasible path.  Returns a result dict."""
    opts = dict(opts or {})
    stats = Stats()
    pending = [[]]
    failures = []
    reached = 0
    witnesses = []
    deadline = time.time() + opts.get('case_timeout_s', 600)
    npaths = 0
    feasible_unknown = 0
    allpaths = []
    while pending:
        sched = pending.pop()
        npaths += 1
        if npaths > opts.get('max_paths', 3000):
            raise PathLimit('more than %d paths' % opts.get('max_paths', 3000))
        if time.time() > deadline:
            raise PathLimit('case time limit')
        expr.reset()
        expr.TRIG_BASES.clear()
        expr._CONST_CACHE.clear()
        state.UF_CONCRETE.clear()
        _PICKLED.clear()
        ctx = SymCtx(stats, sched, opts)
        ctx.pending = pending
        state.CTX = ctx
        try:
            fn(ctx)
        except PathInfeasible:
            state.CTX = None
            continue
        except SymUnsupported:
            raise
        except Exception as e:      # noqa: the code under test raised
            if opts.get('debug'):
                traceback.print_exc()
            if not in_radvel(e):
                raise
            ctx.fail_exception(e, traceback.format_exc()[-1500:])
        stats.paths += 1
        if ctx.reached:
            reached += ctx.reached
            w, how = ctx.witness()
            if w is not None:
                if len(witnesses) < opts.get('max_witnesses', 3):
                    env = ctx.env_of(*w)
                    rec = []
                    for label, kind, a, b in ctx.records:
                        rec.append((label, kind, _num(a, env), _num(b, env)))
                    witnesses.append({'vals': w[0], 'bools': w[1], 'records': rec,
                                      'how': how})
            elif how in ('unknown', 'sat-abstract'):
                feasible_unknown += 1
        for f in ctx.failures:
            failures.append(f)
        state.CTX = None
        if len(failures) >= opts.get('max_failures', 12):
            break
    state.CTX = None
    return {'stats': stats, 'failures': failures, 'reached': reached,
            'witnesses': witnesses, 'paths': npaths,
            'unwitnessed': feasible_unknown}


def _num(x, env):
    if isinstance(x, SymReal):
        try:
            return expr.eval_hp(x.rf, env)
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return None
    if isinstance(x, SymBool):
        try:
            return bool(x.ev(env))
        except (KeyError, ZeroDivisionError, OverflowError, ValueError):
            return None
    if isinstance(x, np.ndarray) and x.shape == ():
        return _num(x[()], env)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    return None
