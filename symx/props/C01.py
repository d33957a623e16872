"""Every ordered pair of parameterisations: the code's conversions are run on
a symbolic orbit and compared with the names' definitions; then converted
back."""
import pandas as pd

from .common import *

EXPLANATION = ('For each of the 100 ordered pairs of parameterisations the real conversion code is '
               'executed on symbolic orbits (period, periastron time, eccentricity, omega, amplitude free); z3 proves '
               'each converted element equal to its definition and the round trip equal to the start.')
BOUNDS = '1-3 planets (parameter sets), 1-2 planets and 2 rows (tables); period > 0, 0 < e < 1, -2pi <= omega <= 2pi, K > 0; omega = -pi/2 mod 2pi only in the limit'
OUTSIDE = 'e = 0 and e >= 1; omega exactly at the pole of tan((pi/2-omega)/2)'


def one_params(A, npl, targets):
    def h(ctx):
        orbits = [draw_orbit(ctx, i) for i in range(1, npl + 1)]
        for Bn in targets:
            src = params_in(ctx, A, orbits)
            Q = src.basis.to_any_basis(src, Bn)
            ctx.check(Q.basis.name == Bn, 'name of target')
            for i, o in enumerate(orbits, 1):
                for n in Bn.split():
                    same_element(ctx, n, Q['%s%d' % (n, i)].value, define(o, n),
                                 '%s -> %s: %s%d' % (A, Bn, n, i))
            R = Q.basis.to_any_basis(Q, A)
            for i, o in enumerate(orbits, 1):
                for n in A.split():
                    same_element(ctx, n, R['%s%d' % (n, i)].value, define(o, n),
                                 '%s -> %s -> back: %s%d' % (A, Bn, n, i))
    return h


def one_table(A, npl, targets, rows=2):
    def h(ctx):
        orbits = [[draw_orbit(ctx, i, tag='r%d_' % r) for i in range(1, npl + 1)]
                  for r in range(rows)]
        cols = {}
        for i in range(1, npl + 1):
            for n in A.split():
                cols['%s%d' % (n, i)] = ctx.array([define(orbits[r][i - 1], n)
                                                   for r in range(rows)])
        basis = radvel.Basis(A, npl)
        # a thinned chain: row labels are not 0..n-1
        df = pd.DataFrame(cols, index=[3 * r + 7 for r in range(rows)])
        for Bn in targets:
            syn = basis.to_synth(df)
            for keep in (True, False):
                out = basis.from_synth(syn, Bn, keep=keep)
                for r in range(rows):
                    for i in range(1, npl + 1):
                        o = orbits[r][i - 1]
                        for n in 'per tp e w k'.split():
                            if keep:
                                same_element(ctx, n, syn['%s%d' % (n, i)].iloc[r], o[n],
                                             '%s -> synth table: %s%d row %d' % (A, n, i, r))
                        for n in Bn.split():
                            same_element(ctx, n, out['%s%d' % (n, i)].iloc[r], define(o, n),
                                         'table %s -> %s: %s%d row %d' % (A, Bn, n, i, r))
    return h


def cases(tier):
    out = []
    for A in BASES:
        half = len(BASES) // 2
        for part, t in enumerate((BASES[:half], BASES[half:])):
            out.append(Case('params %s part %d' % (slug(A), part), one_params(A, 2, t),
                            '2 planets, %d targets' % len(t)))
        out.append(Case('table %s' % slug(A), one_table(A, 1, BASES), '1 planet, 2 rows, 10 targets'))
        if tier == 'thorough':
            out.append(Case('params3 %s' % slug(A), one_params(A, 3, BASES), '3 planets'))
            out.append(Case('table2 %s' % slug(A), one_table(A, 2, BASES), '2 planets, 2 rows'))
    return out
