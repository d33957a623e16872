"""Canonical symbolic real expressions: rational functions over 'atoms'.

An atom is an input variable, the constant pi, or the application of a
transcendental / uninterpreted function to canonical arguments.  A polynomial
is {monomial: Fraction}; a monomial is a sorted tuple of (atom id, exponent).

The canonical form exists so that two applications of the same function to
equal arguments become the *same* atom, and so that the standard identities
(angle addition, cos^2 = 1 - sin^2, half angles, exp/log laws, roots) are
applied when an atom is made.  The verdict on an obligation is z3's, over the
resulting real polynomials plus the axioms of the atoms that occur in it.
"""
import heapq
import math
from fractions import Fraction

from . import state


class SymUnsupported(BaseException):
    """The engine cannot encode something; the check is inconclusive."""


# --------------------------------------------------------------------------
# atoms

class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'name', 'z3', 'nonneg', 'pos', 'meta')

    def __init__(self, kind, args, name, nonneg=False, pos=False, meta=None):
        self.id = len(ATOMS)
        self.kind = kind
        self.args = args
        self.name = name
        self.z3 = None
        self.nonneg = nonneg or pos
        self.pos = pos
        self.meta = meta
        ATOMS.append(self)

    def __repr__(self):
        return self.name


ATOMS = []
REDUCE = {}       # atom id -> (n, Poly): a**n is replaced by Poly
BY_KEY = {}       # structural key -> atom
BY_KIND = {}      # kind -> [atom]: candidates for equality of arguments


def reset():
    del ATOMS[:]
    REDUCE.clear()
    BY_KEY.clear()
    BY_KIND.clear()
    global PI
    PI = Atom('pi', (), 'pi', pos=True)
    BY_KEY[('pi',)] = PI


def _new_atom(kind, args, name, key, **kw):
    a = Atom(kind, args, name, **kw)
    if key is not None:
        BY_KEY[key] = a
    BY_KIND.setdefault(kind, []).append(a)
    return a


# --------------------------------------------------------------------------
# polynomials

def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Poly(object):
    __slots__ = ('t', '_key', 'z3')

    def __init__(self, t):
        self.t = t
        self._key = None
        self.z3 = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c != 0 else Poly({})

    @staticmethod
    def atom(a, e=1):
        return Poly({((a.id, e),): Fraction(1)})

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def is_one(self):
        return len(self.t) == 1 and self.t.get(()) == 1

    def is_mono(self):
        return len(self.t) == 1

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = n
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, q):
        if q == 0:
            return Poly({})
        return Poly({m: c * q for m, c in self.t.items()})

    def __mul__(self, o):
        if len(self.t) > len(o.t):
            self, o = o, self
        if self.is_const():
            return o.scale(self.const_value())
        if len(self.t) * len(o.t) > state.MAX_TERMS:
            raise SymUnsupported('polynomial product with %d x %d terms' %
                                 (len(self.t), len(o.t)))
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return _reduce(t)

    def __pow__(self, n):
        assert n >= 0
        out = Poly.const(Fraction(1))
        b = self
        while n:
            if n & 1:
                out = out * b
            n >>= 1
            if n:
                b = b * b
        return out

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items()):
            f = ['%s^%d' % (ATOMS[a].name, e) if e != 1 else ATOMS[a].name
                 for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            out.append('*'.join(f))
        return ' + '.join(out)


def _reduce(t):
    """Apply the REDUCE rules and drop zeros."""
    out = {}
    work = list(t.items())
    while work:
        m, c = work.pop()
        if c == 0:
            continue
        for idx, (a, e) in enumerate(m):
            rule = REDUCE.get(a)
            if rule is not None and e >= rule[0]:
                n, rep = rule
                rest_e = e - n
                base = m[:idx] + (((a, rest_e),) if rest_e else ()) + m[idx + 1:]
                for m2, c2 in rep.t.items():
                    work.append((_mono_mul(base, m2), c * c2))
                break
        else:
            v = out.get(m, 0) + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
    return Poly(out)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


# --------------------------------------------------------------------------
# rational functions

class RF(object):
    __slots__ = ('n', 'd', '_key')

    def __init__(self, n, d=ONE, norm=True):
        self._key = None
        if norm:
            n, d = _normalise(n, d)
        self.n = n
        self.d = d

    def key(self):
        if self._key is None:
            self._key = (self.n.key(), self.d.key())
        return self._key

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def const_value(self):
        return self.n.const_value() / self.d.const_value()

    def is_zero(self):
        return self.n.is_zero()

    def __add__(self, o):
        if self.d.key() == o.d.key():
            return RF(self.n + o.n, self.d)
        if self.d.is_one():
            return RF(self.n * o.d + o.n, o.d)
        if o.d.is_one():
            return RF(self.n + o.n * self.d, self.d)
        # cheap common factor: one denominator divides the other as monomial
        if self.d.is_mono() and o.d.is_mono():
            m1, = self.d.t
            m2, = o.d.t
            e1, e2 = dict(m1), dict(m2)
            l = dict(e1)
            for a, e in e2.items():
                l[a] = max(l.get(a, 0), e)
            f1 = tuple(sorted((a, e - e1.get(a, 0)) for a, e in l.items()
                              if e - e1.get(a, 0)))
            f2 = tuple(sorted((a, e - e2.get(a, 0)) for a, e in l.items()
                              if e - e2.get(a, 0)))
            lm = Poly({tuple(sorted(l.items())): Fraction(1)})
            return RF(self.n * Poly({f1: 1 / self.d.t[m1]}) +
                      o.n * Poly({f2: 1 / o.d.t[m2]}), lm)
        return RF(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return RF(-self.n, self.d, norm=False)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        n1, d1, n2, d2 = self.n, self.d, o.n, o.d
        if n1.key() == d2.key() and not n1.is_const():
            n1 = d2 = ONE
        if n2.key() == d1.key() and not n2.is_const():
            n2 = d1 = ONE
        return RF(n1 * n2, d1 * d2)

    def inv(self):
        if self.n.is_zero():
            raise ZeroDivisionError('symbolic division by zero')
        return RF(self.d, self.n)

    def __truediv__(self, o):
        return self * o.inv()

    def __pow__(self, n):
        if n >= 0:
            return RF(self.n ** n, self.d ** n)
        return self.inv() ** (-n)

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def same(self, o):
        if self.key() == o.key():
            return True
        if self.d.key() == o.d.key():
            return False if self.n.key() != o.n.key() and self.d.is_one() \
                else (self.n - o.n).is_zero()
        return (self.n * o.d - o.n * self.d).is_zero()

    def __repr__(self):
        if self.d.is_one():
            return repr(self.n)
        return '(%r)/(%r)' % (self.n, self.d)


def _mkey(m):
    """lexicographic monomial order, smallest atom id most significant"""
    return tuple([(-a, e) for a, e in m])


def _mono_div(m, ld):
    md = dict(m)
    for a, e in ld:
        v = md.get(a, 0) - e
        if v < 0:
            return None
        if v:
            md[a] = v
        else:
            del md[a]
    return tuple(sorted(md.items()))


def _divides(p, q):
    """Return q/p as Poly when p exactly divides q, else None.  Only a
    convenience: a failure to cancel is harmless."""
    np_, nq = len(p.t), len(q.t)
    if np_ > 60 or nq > 1500:
        return None
    lead = max(p.t, key=_mkey)
    low = min(p.t, key=_mkey)
    if _mono_div(max(q.t, key=_mkey), lead) is None or \
            _mono_div(min(q.t, key=_mkey), low) is None:
        return None
    lc = p.t[lead]
    rem = dict(q.t)
    heap = [(tuple([(a, -e) for a, e in m] + [(1 << 60, 0)]), m) for m in rem]
    heapq.heapify(heap)
    quo = {}
    steps = 0
    while heap:
        _, m = heapq.heappop(heap)
        c = rem.pop(m, None)
        if c is None:
            continue
        steps += 1
        if steps > 200:
            return None
        qm = _mono_div(m, lead)
        if qm is None:
            return None
        qc = c / lc
        quo[qm] = quo.get(qm, 0) + qc
        for m2, c2 in p.t.items():
            if m2 == lead:
                continue
            mm = _mono_mul(qm, m2)
            old = rem.get(mm)
            v = (old or 0) - qc * c2
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
                if old is None:
                    heapq.heappush(heap, (tuple([(a, -e) for a, e in mm] + [(1 << 60, 0)]), mm))
    quo = Poly({m: c for m, c in quo.items() if c != 0})
    # re-check in the quotient ring
    if (quo * p - q).is_zero():
        return quo
    return None


def _normalise(n, d):
    if d.is_zero():
        raise ZeroDivisionError('symbolic division by zero')
    if n.is_zero():
        return ZERO, ONE
    if d.is_const():
        c = d.const_value()
        return (n if c == 1 else n.scale(1 / c)), ONE
    if n.key() == d.key():
        return ONE, ONE
    # common monomial factor
    common = None
    for p in (n, d):
        for m in p.t:
            md = dict(m)
            if common is None:
                common = md
            else:
                common = {a: min(e, md[a]) for a, e in common.items() if a in md}
            if not common:
                break
        if not common:
            break
    if common:
        def strip(p):
            out = {}
            for m, c in p.t.items():
                out[tuple((a, e - common.get(a, 0)) for a, e in m
                          if e - common.get(a, 0))] = c
            return Poly(out)
        n, d = strip(n), strip(d)
        if d.is_const():
            return n.scale(1 / d.const_value()), ONE
    # rationalise: a root / cos monomial in the denominator with a rule
    if len(d.t) == 1:
        (m, c), = d.t.items()
        for a, e in m:
            rule = REDUCE.get(a)
            if rule is not None and ATOMS[a].kind == 'root':
                k = rule[0]
                mult = Poly({((a, k - e),): Fraction(1)}) if k - e else None
                if mult is not None:
                    return _normalise(n * mult, d * mult)
    if len(d.t) > 1 and len(n.t) >= len(d.t):
        q = _divides(d, n)
        if q is not None:
            return q, ONE
    if len(n.t) > 1 and len(d.t) > len(n.t):
        q = _divides(n, d)
        if q is not None:
            return _normalise(ONE, q)
    # numeric content of the denominator; fixed sign
    lead = d.t[max(d.t)]
    num = 0
    den = 1
    for c in d.t.values():
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    cont = Fraction(num, den)
    if lead < 0:
        cont = -cont
    if cont != 1:
        n = n.scale(1 / cont)
        d = d.scale(1 / cont)
    return n, d


def rf_const(c):
    return RF(Poly.const(Fraction(c)), ONE, norm=False)


def rf_atom(a):
    return RF(Poly.atom(a), ONE, norm=False)


RF0 = rf_const(0)
RF1 = rf_const(1)

_CONST_CACHE = {}


def float_to_rf(x):
    """Exact meaning given to a Python float literal / computed constant:
    a small rational multiple of pi, a small rational, or its decimal repr."""
    r = _CONST_CACHE.get(x)
    if r is not None:
        return r
    if x == 0:
        r = RF0
    elif math.isinf(x) or math.isnan(x):
        raise SymUnsupported('non-finite constant in an expression')
    else:
        r = None
        q = Fraction(x).limit_denominator(1000)
        if q != 0 and abs(float(q) - x) <= 2e-16 * abs(x):
            r = rf_const(q)
        if r is None:
            for base, power in ((math.pi, 1), (1 / math.pi, -1),
                                (math.pi ** 2, 2), ):
                p = Fraction(x / base).limit_denominator(720)
                if p != 0 and abs(p.numerator) <= 5000 and \
                        abs(float(p) * base - x) <= 4e-16 * abs(x):
                    r = rf_const(p) * (rf_atom(PI) ** power)
                    break
        if r is None:
            for base, q2 in ((2, 2), (3, 2), (5, 2), (6, 2), (7, 2), (10, 2)):
                b = math.sqrt(base)
                p = Fraction(x / b).limit_denominator(200)
                if p != 0 and abs(p.numerator) <= 1000 and \
                        abs(float(p) * b - x) <= 4e-16 * abs(x):
                    r = rf_const(p) * root(rf_const(base), 2)
                    break
        if r is None:
            # sqrt(2 pi) and log(2 pi) style constants
            for val, mk in _special_constants():
                p = Fraction(x / val).limit_denominator(64)
                if p != 0 and abs(p.numerator) <= 64 and \
                        abs(float(p) * val - x) <= 4e-16 * abs(x):
                    r = rf_const(p) * mk()
                    break
        if r is None:
            r = rf_const(Fraction(repr(float(x))))
    if len(_CONST_CACHE) > 100000:
        _CONST_CACHE.clear()
    # atoms are reset between runs of the engine, so cache only pure numbers
    if r.is_const():
        _CONST_CACHE[x] = r
    return r


def _special_constants():
    return (
        (math.sqrt(2 * math.pi), lambda: root(rf_const(2) * rf_atom(PI), 2)),
        (math.sqrt(math.pi), lambda: root(rf_atom(PI), 2)),
        (math.log(2 * math.pi), lambda: log(rf_const(2) * rf_atom(PI))),
        (math.log(2), lambda: log(rf_const(2))),
        (math.log(10), lambda: log(rf_const(10))),
        (math.log(3), lambda: log(rf_const(3))),
    )


# --------------------------------------------------------------------------
# sign knowledge

def mono_nonneg(m):
    for a, e in m:
        if e % 2 and not ATOMS[a].nonneg:
            return False
    return True


def mono_pos(m):
    for a, e in m:
        if not ATOMS[a].pos:
            return False
    return True


def poly_sign_quick(p):
    """+1 (>0), 2 (>=0), -1, -2, 0 or None (unknown), without the solver."""
    if p.is_zero():
        return 0
    pos = neg = True
    strict = False
    for m, c in p.t.items():
        if not mono_nonneg(m):
            return None
        if c > 0:
            neg = False
        else:
            pos = False
        if mono_pos(m):
            strict = True
    if pos:
        return 1 if strict else 2
    if neg:
        return -1 if strict else -2
    return None


def is_positive(rf):
    return state.sign_query(rf, '>')


def is_nonneg(rf):
    return state.sign_query(rf, '>=')


# --------------------------------------------------------------------------
# functions

def _find_same(kind, args):
    for a in BY_KIND.get(kind, ()):
        if len(a.args) == len(args):
            ok = True
            for x, y in zip(a.args, args):
                if isinstance(x, RF) != isinstance(y, RF):
                    ok = False
                elif isinstance(x, RF):
                    ok = x.same(y)
                else:
                    ok = x == y
                if not ok:
                    break
            if ok:
                return a
    return None


def _argkey(args):
    return tuple(a.key() if isinstance(a, RF) else a for a in args)


def apply_uf(kind, args, **kw):
    key = (kind,) + _argkey(args)
    a = BY_KEY.get(key)
    if a is None:
        a = _find_same(kind, args) if kind != 'def' else None
        if a is None:
            a = _new_atom(kind, tuple(args), '%s(%s)' % (
                kind, ', '.join(_short(x) for x in args)), key, **kw)
        else:
            BY_KEY[key] = a
    return rf_atom(a)


def _short(x):
    s = repr(x)
    return s if len(s) < 60 else s[:57] + '...'


def _gens(rf):
    """Split a rational function into {generator key: (coeff, mono, den)}."""
    out = []
    den = rf.d
    for m, c in sorted(rf.n.t.items()):
        out.append((c, m, den))
    return out


def _split_pow(p, q):
    """largest square-free style split of integer p = a^q * b"""
    a = 1
    b = p
    d = 2
    while d ** q <= b and d < 2000:
        while b % (d ** q) == 0:
            b //= d ** q
            a *= d
        d += 1
    r = round(b ** (1.0 / q))
    if r > 1 and r ** q == b:
        a *= r
        b = 1
    return a, b


def root(x, q):
    """principal real q-th root of x (x >= 0 is required when q is even)."""
    if x.is_zero():
        return RF0
    if x.is_const():
        v = x.const_value()
        if v < 0:
            if q % 2 == 0:
                raise SymUnsupported('even root of a negative constant')
            return -root(-x, q)
        a1, b1 = _split_pow(v.numerator * v.denominator ** (q - 1), q)
        out = rf_const(Fraction(a1, v.denominator))
        if b1 != 1:
            out = out * _root_atom(rf_const(b1), q)
        return out
    if not x.d.is_one():
        # root(n/d) = root(n d^(q-1)) / |d|
        d = RF(x.d)
        if not is_positive(d):
            if is_positive(-d):
                x = RF(-x.n, -x.d, norm=False)
                d = -d
            elif state.decide(d, '>'):
                pass
            else:
                x = RF(-x.n, -x.d, norm=False)
                d = -d
        return root(RF(x.n * x.d ** (q - 1)), q) / d
    p = x.n
    # content
    num, den = 0, 1
    for c in p.t.values():
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    cont = Fraction(num, den)
    out = RF1
    if cont != 1:
        out = root(rf_const(cont), q)
        p = p.scale(1 / cont)
    # common monomial
    common = None
    for m in p.t:
        md = dict(m)
        common = md if common is None else {
            a: min(e, md[a]) for a, e in common.items() if a in md}
    if common:
        strip = {}
        keep = {}
        for a, e in common.items():
            full = e // q
            if full:
                ra = rf_atom(ATOMS[a])
                if q % 2 == 0 and full % 2 and not ATOMS[a].nonneg:
                    if is_nonneg(ra):
                        pass
                    elif is_nonneg(-ra):
                        ra = -ra
                    else:
                        ra = absval(ra)
                out = out * ra ** full
                strip[a] = full * q
            rest = e - full * q
            if rest and ATOMS[a].nonneg and \
                    not (p.is_mono() and len(common) == 1 and rest == 1):
                out = out * root(rf_atom(ATOMS[a]), q) ** rest
                strip[a] = strip.get(a, 0) + rest
        if strip:
            t = {}
            for m, c in p.t.items():
                t[tuple((a, e - strip.get(a, 0)) for a, e in m
                        if e - strip.get(a, 0))] = c
            p = Poly(t)
    if p.is_one():
        return out
    if p.is_const():
        return out * root(RF(p), q)
    if p.is_mono():
        (m, c), = p.t.items()
        if len(m) == 1 and c == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'root' and m[0][1] == 1:
                return out * root(a.args[0], q * a.args[1])
            if a.kind == 'exp' and m[0][1] == 1:
                # exp(g/D)^(1/q)
                return out * exp(a.args[0] * rf_const(Fraction(1, a.args[1])) *
                                 rf_const(Fraction(1, q)))
    if q == 2 and len(p.t) > 1:
        s = _perfect_square(p)
        if s is not None:
            return out * absval(RF(s))
    return out * _root_atom(RF(p), q)


def _perfect_square(p):
    """s with s^2 == p for small two/three-term polynomials, else None."""
    if len(p.t) > 6:
        return None
    squares = []
    for m, c in p.t.items():
        if all(e % 2 == 0 for _, e in m) and c > 0:
            a, b = _split_pow(c.numerator * c.denominator, 2)
            if b == 1:
                squares.append((Fraction(a, c.denominator),
                                tuple((x, e // 2) for x, e in m)))
    if len(squares) == 2 and len(p.t) == 3:
        (c1, m1), (c2, m2) = squares
        for sg in (1, -1):
            s = Poly({m1: c1, m2: sg * c2}) if m1 != m2 else None
            if s is not None and (s * s - p).is_zero():
                return s
    return None


def _root_atom(x, q):
    key = ('root', x.key(), q)
    a = BY_KEY.get(key)
    if a is None:
        a = _find_same('root', (x, q))
        if a is None:
            if q % 2 == 0 and not is_nonneg(x):
                state.domain(x, '>=', 'even root')
            a = _new_atom('root', (x, q), 'root%d(%s)' % (q, _short(x)), key,
                          nonneg=True, pos=is_positive(x))
            if x.d.is_one():
                REDUCE[a.id] = (q, x.n)
        else:
            BY_KEY[key] = a
    return rf_atom(a)


def absval(x):
    if x.is_const():
        v = x.const_value()
        return rf_const(abs(v))
    if is_nonneg(x):
        return x
    if is_nonneg(-x):
        return -x
    # canonical sign
    if x.n.t[max(x.n.t)] < 0:
        x = -x
    key = ('abs', x.key())
    a = BY_KEY.get(key)
    if a is None:
        a = _find_same('abs', (x,))
        if a is None:
            a = _new_atom('abs', (x,), '|%s|' % _short(x), key, nonneg=True)
            sq = x * x
            if sq.d.is_one():
                REDUCE[a.id] = (2, sq.n)
    return rf_atom(a)


# ---- trigonometry

def _trig_base(gen, D):
    """(sin, cos) atoms of gen/D as RFs."""
    key = ('trig', gen.key(), D)
    p = BY_KEY.get(key)
    if p is None:
        s = _new_atom('sin', (gen, D), 'sin(%s%s)' % (
            _short(gen), '/%d' % D if D != 1 else ''), None)
        c = _new_atom('cos', (gen, D), 'cos(%s%s)' % (
            _short(gen), '/%d' % D if D != 1 else ''), None)
        REDUCE[c.id] = (2, ONE - Poly.atom(s, 2))
        BY_KEY[key] = p = (s, c)
        TRIG_BASES.setdefault(gen.key(), {})[D] = p
    return rf_atom(p[0]), rf_atom(p[1])


TRIG_BASES = {}


def _multiple(s, c, n):
    """(sin(n x), cos(n x)) from (sin x, cos x)."""
    if n < 0:
        a, b = _multiple(s, c, -n)
        return -a, b
    S, C = RF0, RF1
    for _ in range(n):
        S, C = S * c + C * s, C * c - S * s
    return S, C


def sincos(x):
    if state.CTX is not None and state.CTX.def_terms is not None and \
            (len(x.n.t) > 1 or not x.d.is_one()):
        x = apply_uf('def', (x,))
    S, C = RF0, RF1
    for q, m, den in _gens(x):
        s, c = _sincos_term(q, m, den)
        S, C = S * c + C * s, C * c - S * s
    return S, C


def _sincos_term(q, m, den):
    if den.is_one():
        if m == ((PI.id, 1),):
            # multiple of pi
            k = q * 2
            if k.denominator == 1:
                k = int(k) % 4
                return [(RF0, RF1), (RF1, RF0), (RF0, -RF1), (-RF1, RF0)][k]
        if len(m) == 2 and (PI.id, 1) in m:
            other = [a for a, e in m if a != PI.id and e == 1]
            if other and ATOMS[other[0]].kind == 'floor' and \
                    q.denominator == 1 and q % 2 == 0:
                return RF0, RF1
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == 'abs':
                u = a.args[0] * rf_const(q)
                return sincos(u if state.decide(a.args[0], '>=') else -u)
            if a.kind in ('arctan', 'atan2', 'arcsin', 'arccos'):
                D = q.denominator
                base = None
                if D == 1:
                    n = int(q)
                    if a.kind == 'arctan':
                        u = a.args[0]
                        den2 = RF1 + u * u
                        if n % 2 == 0:
                            base = ((u + u) / den2, (RF1 - u * u) / den2)
                            n //= 2
                        else:
                            h = root(den2, 2)
                            base = (u / h, h / den2)
                    elif a.kind == 'atan2':
                        y, xx = a.args
                        h = a.meta
                        if h is None:
                            h2 = y * y + xx * xx
                            a.meta = h = root(h2, 2)
                        base = (y / h, xx / h)
                    elif a.kind == 'arcsin':
                        u = a.args[0]
                        base = (u, root(RF1 - u * u, 2))
                    elif a.kind == 'arccos':
                        u = a.args[0]
                        base = (root(RF1 - u * u, 2), u)
                if base is not None:
                    return _multiple(base[0], base[1], n)
    if m == () and den.is_one():
        gen = RF1
    else:
        lead = den.t[max(den.t)] if not den.is_one() else 1
        gen = RF(Poly({m: Fraction(1)}), den)
        # make the generator's own coefficient 1
        c = gen.n.t[max(gen.n.t)]
        if c != 1:
            gen = RF(gen.n.scale(1 / c), gen.d)
            q = q * c
    if q.denominator > 64 or abs(q.numerator) > 24:
        # Not a usable multiple: the whole term becomes its own generator
        gen = gen * rf_const(abs(q))
        s, c = _trig_base(gen, 1)
        return (s, c) if q > 0 else (-s, c)
    s, c = _trig_base(gen, q.denominator)
    return _multiple(s, c, q.numerator)


def sin(x):
    return sincos(x)[0]


def cos(x):
    return sincos(x)[1]


def tan_of_arctan(x):
    """u when x is visibly +-arctan(u) plus whole half-turns"""
    if not x.d.is_one():
        return None
    u = None
    for m, c in x.n.t.items():
        if m == ((PI.id, 1),) and c.denominator == 1:
            continue
        if u is None and len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and \
                ATOMS[m[0][0]].kind == 'arctan':
            u = ATOMS[m[0][0]].args[0]
            u = u if c == 1 else -u
            continue
        return None
    return u


def tan(x):
    # tan(y/2) = sin y / (1 + cos y): avoids half-angle generators
    S, C = sincos(x + x)
    d = RF1 + C
    if d.is_zero():
        raise SymUnsupported('tan at a pole')
    return S / d


def arctan(u):
    if u.is_zero():
        return RF0
    # odd function: canonical sign
    if u.n.t[max(u.n.t)] < 0:
        return -arctan(-u)
    if u.is_const() and u.const_value() == 1:
        return rf_const(Fraction(1, 4)) * rf_atom(PI)
    return apply_uf('arctan', (u,))


def arctan2(y, x):
    if y.is_const() and x.is_const():
        return float_to_rf(math.atan2(float(y.const_value()), float(x.const_value())))
    # common positive factor is dropped so that atan2(r y, r x) == atan2(y, x)
    if x.d.key() == y.d.key() and not x.d.is_one() and is_positive(RF(x.d)):
        x, y = RF(x.n), RF(y.n)
    if x.d.is_one() and y.d.is_one() and not x.is_zero() and not y.is_zero():
        common = None
        for p in (x.n, y.n):
            for m in p.t:
                md = dict(m)
                common = md if common is None else {
                    a: min(e, md[a]) for a, e in common.items() if a in md}
        strip = {}
        for a, e in (common or {}).items():
            ra = rf_atom(ATOMS[a])
            if ATOMS[a].pos or is_positive(ra):
                strip[a] = e
            elif e >= 2 and state.sign_query(ra, '!='):
                strip[a] = e - e % 2
        if strip:
            def st(p):
                t = {}
                for m, c in p.t.items():
                    t[tuple((a, e - strip.get(a, 0)) for a, e in m
                            if e - strip.get(a, 0))] = c
                return Poly(t)
            x, y = RF(st(x.n)), RF(st(y.n))
    h2 = x * x + y * y
    if not state.sign_query(h2, '>'):
        if not state.decide(h2, '>'):
            return RF0
    return apply_uf('atan2', (y, x))


def arcsin(u):
    if u.is_zero():
        return RF0
    return apply_uf('arcsin', (u,))


def arccos(u):
    return apply_uf('arccos', (u,))


# ---- exp / log

def exp(x):
    out = RF1
    for q, m, den in _gens(x):
        if den.is_one() and len(m) == 1 and m[0][1] == 1 and \
                ATOMS[m[0][0]].kind == 'log':
            arg = ATOMS[m[0][0]].args[0]
            b = arg if q.denominator == 1 else root(arg, q.denominator)
            out = out * b ** q.numerator
            continue
        if m == () and den.is_one():
            gen = RF1
        else:
            gen = RF(Poly({m: Fraction(1)}), den)
            c = gen.n.t[max(gen.n.t)]
            if c != 1:
                gen = RF(gen.n.scale(1 / c), gen.d)
                q = q * c
        if q.denominator > 64 or abs(q.numerator) > 64:
            gen = gen * rf_const(abs(q))
            q = Fraction(1 if q > 0 else -1)
        D = q.denominator
        key = ('exp', gen.key(), D)
        a = BY_KEY.get(key)
        if a is None:
            a = _find_same('exp', (gen, D))
            if a is None:
                a = _new_atom('exp', (gen, D), 'exp(%s%s)' % (
                    _short(gen), '/%d' % D if D != 1 else ''), key, pos=True)
            BY_KEY[key] = a
        out = out * rf_atom(a) ** q.numerator
    return out


def _factor_int(n):
    f = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def _log_const(v):
    if v <= 0:
        raise SymUnsupported('log of a non-positive constant')
    if v.numerator.bit_length() > 40 or v.denominator.bit_length() > 40:
        return rf_const(Fraction(repr(math.log(v))))
    out = RF0
    for n, sg in ((v.numerator, 1), (v.denominator, -1)):
        for p, e in _factor_int(n).items():
            a = apply_uf('log', (rf_const(p),), pos=True)
            out = out + a * rf_const(sg * e)
    return out


def log(x):
    if x.is_const():
        return _log_const(x.const_value())
    if not is_positive(x):
        state.domain(x, '>', 'log')
    n, d = x.n, x.d
    if not d.is_one() and not is_positive(RF(d)):
        if is_positive(RF(-d)):
            n, d = -n, -d
        else:
            return apply_uf('log', (x,))
    out = _log_poly(n)
    if not d.is_one():
        out = out - _log_poly(d)
    return out


def _log_poly(p):
    out = RF0
    num, den = 0, 1
    for c in p.t.values():
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    cont = Fraction(num, den)
    if cont != 1:
        out = out + _log_const(cont)
        p = p.scale(1 / cont)
    common = None
    for m in p.t:
        md = dict(m)
        common = md if common is None else {
            a: min(e, md[a]) for a, e in common.items() if a in md}
    strip = {}
    for a, e in (common or {}).items():
        at = ATOMS[a]
        ra = rf_atom(at)
        if at.pos or is_positive(ra):
            out = out + _log_atom(at) * rf_const(e)
            strip[a] = e
        elif e % 2 == 0:
            if is_positive(-ra):
                out = out + log(-ra) * rf_const(e) if False else \
                    out + apply_uf('log', (-ra,)) * rf_const(e)
                strip[a] = e
    if strip:
        t = {}
        for m, c in p.t.items():
            t[tuple((a, e - strip.get(a, 0)) for a, e in m
                    if e - strip.get(a, 0))] = c
        p = Poly(t)
    if p.is_one():
        return out
    return out + apply_uf('log', (RF(p),))


def _log_atom(a):
    if a.kind == 'exp':
        return a.args[0] * rf_const(Fraction(1, a.args[1]))
    if a.kind == 'root' and is_positive(a.args[0]):
        return log(a.args[0]) * rf_const(Fraction(1, a.args[1]))
    return apply_uf('log', (rf_atom(a),))


def power(x, y):
    if y.is_const():
        q = y.const_value()
        if q.denominator == 1:
            return x ** int(q)
        if q.denominator <= 64:
            return root(x, q.denominator) ** q.numerator
    if x.is_const() and x.const_value() > 0:
        return exp(y * _log_const(x.const_value()))
    return exp(y * log(x))


# ---- floor

def floor(x):
    # pull integer constants out
    k = 0
    if x.is_const():
        return rf_const(math.floor(x.const_value()))
    if x.d.is_one():
        c = x.n.t.get((), Fraction(0))
        k = math.floor(c)
        x = x - rf_const(k)
        # integer-valued floor atoms with integer coefficients
        extra = RF0
        for m, c in list(x.n.t.items()):
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'floor' \
                    and c.denominator == 1:
                extra = extra + RF(Poly({m: c}))
        x = x - extra
        if x.is_zero():
            return rf_const(k) + extra
        if x.is_const():
            return rf_const(k + math.floor(x.const_value())) + extra
    else:
        extra = RF0
        c, r = _int_part(x)
        k += c
        x = r
    # already known to lie in [0, 1)?
    if state.sign_query(x, '>=') and state.sign_query(RF1 - x, '>'):
        return rf_const(k) + extra
    return rf_const(k) + extra + apply_uf('floor', (x,))


def is_integer_valued(x):
    """Visibly an integer: integer combination of products of floors."""
    if not x.d.is_one():
        return False
    for m, c in x.n.t.items():
        if c.denominator != 1 or any(ATOMS[a].kind != 'floor' for a, e in m):
            return False
    return True


def _int_part(x):
    """x = c + r with integer c when the numerator contains c*den visibly."""
    d = x.d
    lead = max(d.t)
    # normalise on a monomial of the denominator, e.g. (t - tp + per)/per
    c = x.n.t.get(lead)
    if c is None:
        return 0, x
    c = c / d.t[lead]
    ci = math.floor(c)
    if ci == 0:
        return 0, x
    return ci, RF(x.n - d.scale(ci), d)


# --------------------------------------------------------------------------
# numeric evaluation at a point

class _HP(object):
    """mpmath stand-in for math: canonical forms cancel badly in doubles."""

    def __init__(self):
        import mpmath
        self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
        self.mp.dps = 400
        self.pi = +self.mp.pi
        for n in ('sin', 'cos', 'exp', 'log', 'atan', 'atan2', 'asin', 'acos',
                  'floor'):
            setattr(self, n, getattr(self.mp, n))

    def num(self, q):
        if isinstance(q, Fraction):
            return self.mp.mpf(q.numerator) / q.denominator
        return self.mp.mpf(q)


_hp = None
_math = math


def hp():
    global _hp
    if _hp is None:
        _hp = _HP()
    return _hp


def eval_hp(rf, env):
    """High-precision value of rf; env maps atom ids of inputs to floats."""
    global _math
    h = hp()
    e = env.get('hp')
    if e is None:
        e = {k: (h.num(v) if not isinstance(k, str) else v) for k, v in env.items()
             if isinstance(k, str) or ATOMS[k].kind == 'var'}
        env['hp'] = e
    old = _math
    _math = h
    try:
        return float(eval_rf(rf, e))
    finally:
        _math = old


def eval_poly(p, env):
    hpm = _math is not math
    s = _hp.num(0) if hpm else 0.0
    for m, c in p.t.items():
        v = _hp.num(c) if hpm else float(c)
        for a, e in m:
            v *= eval_atom(a, env) ** e
        s += v
    return s


def eval_rf(rf, env):
    n = eval_poly(rf.n, env)
    if rf.d.is_one():
        return n
    return n / eval_poly(rf.d, env)


def eval_atom(aid, env):
    v = env.get(aid)
    if v is not None:
        return v
    a = ATOMS[aid]
    k = a.kind
    M = _math
    hpm = M is not math
    if k == 'pi':
        v = M.pi
    elif k == 'var':
        raise KeyError(a.name)
    elif k in ('sin', 'cos'):
        x = eval_rf(a.args[0], env) / a.args[1]
        v = M.sin(x) if k == 'sin' else M.cos(x)
    elif k == 'root':
        x = eval_rf(a.args[0], env)
        q = a.args[1]
        r = (_hp.num(1) / q) if hpm else 1.0 / q
        z = _hp.num(0) if hpm else 0.0
        if x < 0 and q % 2:
            v = -((-x) ** r)
        else:
            v = max(x, z) ** r if x > -1e-9 else float('nan')
    elif k == 'exp':
        x = eval_rf(a.args[0], env) / a.args[1]
        v = M.exp(x) if x < 700 else float('inf')
    elif k == 'log':
        x = eval_rf(a.args[0], env)
        v = M.log(x) if x > 0 else float('nan')
    elif k == 'arctan':
        v = M.atan(eval_rf(a.args[0], env))
    elif k == 'atan2':
        v = M.atan2(eval_rf(a.args[0], env), eval_rf(a.args[1], env))
    elif k == 'arcsin':
        v = M.asin(max(-1, min(1, eval_rf(a.args[0], env))))
    elif k == 'arccos':
        v = M.acos(max(-1, min(1, eval_rf(a.args[0], env))))
    elif k == 'abs':
        v = abs(eval_rf(a.args[0], env))
    elif k == 'floor':
        x = eval_rf(a.args[0], env)
        v = M.floor(x) if hpm else float(math.floor(x))
    elif k == 'def':
        v = eval_rf(a.args[0], env)
    elif k.startswith('uf:'):
        fn = state.UF_CONCRETE.get(k)
        if fn is None:
            raise KeyError(k)
        v = float(fn(*[float(eval_rf(x, env)) if isinstance(x, RF) else x for x in a.args]))
        if hpm:
            v = _hp.num(v)
    else:
        raise KeyError(k)
    env[aid] = v
    return v


reset()
