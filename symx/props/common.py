"""Shared pieces of the property harnesses."""
import math

import numpy as np

from ..case import Case                         # noqa: F401
from ..shim import SHIM as F                    # works on floats too
from ..sym import sand, sor, snot, implies      # noqa: F401
from .. import sym                              # noqa: F401

import radvel
import radvel.basis
import radvel.orbit
import radvel.kepler

PI = math.pi
BASES = ['per tp e w k', 'per tc secosw sesinw logk', 'per tc secosw sesinw k',
         'per tc ecosw esinw k', 'per tc e w k', 'per tc tp e w k',
         'logper tc secosw sesinw k', 'logper tc secosw sesinw logk',
         'per tc se w k', 'logper tp e w logk']
PRINT_BASIS = 'per tc tp e w k'
FIT_BASES = [b for b in BASES if b != PRINT_BASIS]
ORBITAL = sorted(set(' '.join(BASES).split()))
ANGLES = ('w',)


def slug(b):
    return b.replace(' ', '-')


def draw_orbit(ctx, i, circular_ok=False, tag=''):
    """A free orbit of planet i."""
    s = '%s%d' % (tag, i)
    return {
        'per': ctx.real('per' + s, 0, None, open_lo=True, sample=(0.5, 50)),
        'tp': ctx.real('tp' + s, sample=(-20, 20)),
        'e': ctx.real('e' + s, 0, 1, open_lo=not circular_ok, open_hi=True,
                      sample=(0.02, 0.95)),
        'w': ctx.real('w' + s, -2 * PI, 2 * PI, sample=(-3, 3)),
        'k': ctx.real('k' + s, 0, None, open_lo=True, sample=(0.5, 60)),
    }


def conj_time(o):
    """Time of conjunction from first principles: true anomaly = pi/2 - w."""
    f = PI / 2 - o['w']
    E = 2 * F.arctan(F.sqrt((1 - o['e']) / (1 + o['e'])) * F.tan(f / 2))
    return o['tp'] + o['per'] / (2 * PI) * (E - o['e'] * F.sin(E))


def define(o, name):
    """The documented meaning of an orbital element's name."""
    if name in o:
        return o[name]
    e, w = o['e'], o['w']
    if name == 'tc':
        return conj_time(o)
    return {'logper': lambda: F.log(o['per']), 'logk': lambda: F.log(o['k']),
            'secosw': lambda: F.sqrt(e) * F.cos(w), 'sesinw': lambda: F.sqrt(e) * F.sin(w),
            'ecosw': lambda: e * F.cos(w), 'esinw': lambda: e * F.sin(w),
            'se': lambda: F.sqrt(e)}[name]()


def same_element(ctx, name, got, want, label):
    if name in ANGLES:
        ctx.check_angle_eq(got, want, label)
    else:
        ctx.check_eq(got, want, label)


def params_in(ctx, basis, orbits, vary=True):
    """A parameter set holding the given orbits, in a parameterisation."""
    P = radvel.Parameters(len(orbits), basis=basis)
    for i, o in enumerate(orbits, 1):
        for n in basis.split():
            P['%s%d' % (n, i)] = radvel.Parameter(value=define(o, n), vary=vary)
    return P


def kepler_stub(ctx):
    """Kepler's equation solved exactly: an E with E - e sin E = M per element
    (C06 decides that the solver delivers this)."""
    def solve(M, e):
        E = M + 0.85 * e * (1 if math.sin(M) > 0 else -1)
        for _ in range(80):
            d = (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
            E -= d
            if abs(d) < 1e-14:
                break
        return E

    def kepler(M, e):
        M = np.atleast_1d(np.asarray(M, dtype=object))
        e = np.broadcast_to(np.asarray(e, dtype=object), M.shape)
        out = np.empty(M.shape, dtype=object)
        for i in np.ndindex(M.shape):
            E = ctx.uf('kepler_E', M[i], e[i], fn=solve)
            if ctx.symbolic:
                ctx.assume(E - e[i] * F.sin(E) == M[i])
            out[i] = E
        if not ctx.symbolic:
            out = out.astype(float)
        return out if out.size > 1 else out[0]
    return kepler


def rv_fn(t, per, tp, e, cw, sw, k):
    """Reference single-planet velocity (floats)."""
    M = 2 * math.pi * (((t - tp) / per) % 1.0)
    E = M
    for _ in range(200):
        E -= (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
    nu = 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2), math.sqrt(1 - e) * math.cos(E / 2))
    return k * (math.cos(nu) * cw - math.sin(nu) * sw + e * cw)


def rv_drive_stub(ctx):
    """The single-planet curve as an unknown function of time and the five
    elements, the angle entering through its sine and cosine (C05)."""
    def rv_drive(t, orbel, use_c_kepler_solver=None):
        per, tp, e, om, k = orbel
        out = np.empty(len(t), dtype=object)
        for i in range(len(t)):
            out[i] = rv_curve(ctx, t[i], per, tp, e, om, k)
        return out if ctx.symbolic else out.astype(float)
    return rv_drive


def rv_curve(ctx, t, per, tp, e, om, k):
    if not ctx.symbolic:
        return rv_fn(float(t), float(per), float(tp), float(e), math.cos(om), math.sin(om), float(k))
    return ctx.uf('rv', t, per, tp, e, F.cos(om), F.sin(om), k, fn=rv_fn)


def compiled(ctx, hooks=None):
    """Make radvel use the C solver of the current tree: interpreted on
    symbolic values, really built on the concrete side."""
    from .. import cfront
    import sys
    if ctx.symbolic:
        w = cfront.Wrapper(F, hooks)
        old = sys.modules.get('radvel._kepler')
        sys.modules['radvel._kepler'] = w
        if old is not None:
            ctx.at_end(lambda: sys.modules.__setitem__('radvel._kepler', old))
        ctx.stub(radvel, '_kepler', w)
        return w
    return cfront.build_extension()


def reading(ctx):
    """From here on numbers written into text can be read back with number()."""
    from .. import state
    if ctx.symbolic:
        state.TOKENS = []
        ctx.at_end(lambda: setattr(state, 'TOKENS', None))


def number(ctx, text):
    """(value, resolution) of a printed number"""
    from .. import state
    text = text.strip()
    if ctx.symbolic:
        if text[:2] == '[[' and text[-2:] == ']]':
            return state.TOKENS[int(text[2:-2])], 0
        v = float(text)
        if v >= 1e9 and v - 1e9 < len(state.TOKENS):
            return state.TOKENS[int(v - 1e9)], 0
    d = len(text.split('.')[1]) if '.' in text and 'e' not in text else 0
    return float(text), 10.0 ** -d if 'e' not in text else abs(float(text)) * 1e-3


def check_printed(ctx, text, want, label, tol=0):
    """the text is the wanted number, to the digits shown"""
    try:
        v, res = number(ctx, text)
    except ValueError:
        ctx.check(False, label + ': a number')
        return
    ctx.check(F.abs(v - want) <= tol + res * 0.500001 + 1e-9, label)
