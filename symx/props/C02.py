"""Frame conditions of conversion."""
import pandas as pd

from .common import *

EXPLANATION = ('The real conversion code runs on parameter sets whose values, step sizes and flags are '
               'symbolic; the source is compared before and after, the result is compared entry by entry for everything '
               'that is not an orbital element, and its set of elements must be exactly the target\'s.')
BOUNDS = '1-2 planets, offsets, jitters, trends, a GP and a custom parameter; all ordered pairs, chains of three conversions'
OUTSIDE = 'subclasses of the parameter containers'

EXTRA = ['gamma_j', 'jit_j', 'dvdt', 'curv', 'gp_amp', 'my_param']


def build(ctx, A, npl):
    orbits = [draw_orbit(ctx, i) for i in range(1, npl + 1)]
    P = radvel.Parameters(npl, basis=A, planet_letters={1: 'd', 2: 'f'})
    for i, o in enumerate(orbits, 1):
        for n in A.split():
            k = '%s%d' % (n, i)
            P[k] = radvel.Parameter(value=define(o, n), vary=ctx.boolean('vary_' + k),
                                    mcmcscale=ctx.real('scale_' + k, 0, 10))
    for k in EXTRA:
        P[k] = radvel.Parameter(value=ctx.real('v_' + k), vary=ctx.boolean('vary_' + k),
                                mcmcscale=ctx.real('scale_' + k, 0, 10),
                                linear=ctx.boolean('lin_' + k))
    return orbits, P


def snap(P):
    return [(k, p, p.value, p.vary, p.mcmcscale, p.linear) for k, p in P.items()]


def unchanged(ctx, P, s, basis, label):
    ctx.check(list(P.keys()) == [x[0] for x in s], label + ': names and order of the source')
    ctx.check(P.basis.name == basis and P.planet_parameters == basis.split(),
              label + ': parameterisation of the source')
    for k, p, v, vary, sc, lin in s:
        q = P.get(k)
        ctx.check(q is p, label + ': %s is still the same entry' % k)
        ctx.check_eq(q.value, v, label + ': source value of %s' % k)
        same_flag(ctx, q.vary, vary, label + ': source vary of %s' % k)
        ctx.check_eq(q.mcmcscale, sc, label + ': source step of %s' % k)
        same_flag(ctx, q.linear, lin, label + ': source linear flag of %s' % k)


def same_flag(ctx, a, b, label):
    ctx.check(a is b or (not (isinstance(a, str) or a is None) and sym_eq(a, b)), label)


def sym_eq(a, b):
    return a == b


def others_kept(ctx, Q, s, label):
    d = {x[0]: x for x in s}
    for k in EXTRA:
        ctx.check(k in Q, label + ': %s kept' % k)
        if k not in Q:
            continue
        _, p, v, vary, sc, lin = d[k]
        ctx.check_eq(Q[k].value, v, label + ': value of %s' % k)
        same_flag(ctx, Q[k].vary, vary, label + ': vary of %s' % k)
        ctx.check_eq(Q[k].mcmcscale, sc, label + ': step of %s' % k)
        same_flag(ctx, Q[k].linear, lin, label + ': linear flag of %s' % k)


def elements(names, npl):
    return {'%s%d' % (n, i) for n in ORBITAL for i in range(1, npl + 1)} & set(names)


def shared_kept(ctx, A, Bn, Q, s, npl, label):
    d = {x[0]: x for x in s}
    for n in set(A.split()) & set(Bn.split()):
        for i in range(1, npl + 1):
            k = '%s%d' % (n, i)
            same_flag(ctx, Q[k].vary, d[k][3], label + ': vary of shared %s' % k)
            ctx.check_eq(Q[k].mcmcscale, d[k][4], label + ': step of shared %s' % k)


def pair(A, npl, targets):
    def h(ctx):
        orbits, P = build(ctx, A, npl)
        s = snap(P)
        for Bn in targets:
            lab = '%s -> %s' % (A, Bn)
            Q = P.basis.to_any_basis(P, Bn)
            unchanged(ctx, P, s, A, lab)
            others_kept(ctx, Q, s, lab)
            want = {'%s%d' % (n, i) for n in Bn.split() for i in range(1, npl + 1)}
            ctx.check(elements(Q, npl) == want, lab + ': exactly the elements of the target')
            ctx.check(set(Q) == want | set(EXTRA), lab + ': nothing else appears')
            ctx.check(Q.num_planets == npl and Q.planet_letters == P.planet_letters,
                      lab + ': planets and letters')
            ctx.check(Q.basis.name == Bn and Q.basis.num_planets == npl, lab + ': basis of the result')
            shared_kept(ctx, A, Bn, Q, s, npl, lab)
            # the two steps separately
            for nv in (True, False):
                S = P.basis.to_synth(P, noVary=nv)
                unchanged(ctx, P, s, A, lab + ' (to synth)')
                others_kept(ctx, S, s, lab + ' (to synth)')
                s2 = snap(S)
                T = P.basis.from_synth(S, Bn, keep=nv)
                unchanged(ctx, S, s2, S.basis.name, lab + ' (from synth)')
                others_kept(ctx, T, s, lab + ' (from synth)')
                unchanged(ctx, P, s, A, lab + ' (from synth)')
                if not nv:
                    ctx.check(elements(T, npl) == want, lab + ': exactly the elements (from synth)')
    return h


def chain(A, npl):
    def h(ctx):
        orbits, P = build(ctx, A, npl)
        s = snap(P)
        Q = P
        for Bn in BASES:
            s1 = snap(Q)
            old = Q
            oldname = Q.basis.name
            Q = old.basis.to_any_basis(old, Bn)
            lab = '%s ... %s -> %s' % (A, oldname, Bn)
            unchanged(ctx, old, s1, oldname, lab)
            unchanged(ctx, P, s, A, lab)
            others_kept(ctx, Q, s, lab)
            want = {'%s%d' % (n, i) for n in Bn.split() for i in range(1, npl + 1)}
            ctx.check(set(Q) == want | set(EXTRA), lab + ': exactly the elements of the target')
    return h


def table(A, npl):
    def h(ctx):
        rows = 2
        cols = {}
        for i in range(1, npl + 1):
            orb = [draw_orbit(ctx, i, tag='r%d_' % r) for r in range(rows)]
            for n in A.split():
                cols['%s%d' % (n, i)] = ctx.array([define(o, n) for o in orb])
        for k in EXTRA + ['lnprobability']:
            cols[k] = ctx.array([ctx.real('%s_%d' % (k, r)) for r in range(rows)])
        df = pd.DataFrame(cols, index=[4, 9])
        keep0 = {c: list(df[c]) for c in df.columns}
        names = list(df.columns)
        basis = radvel.Basis(A, npl)

        def same(d, vals, lab):
            ctx.check(list(d.columns) == names, lab + ': columns of the source')
            for c in vals:
                if c in d.columns:
                    ctx.check_all_eq(list(d[c]), vals[c], lab + ': source column ' + c)
        for Bn in BASES:
            lab = 'table %s -> %s' % (A, Bn)
            S = basis.to_synth(df)
            same(df, keep0, lab)
            names_s = list(S.columns)
            vals_s = {c: list(S[c]) for c in S.columns}
            for keep in (True, False):
                T = basis.from_synth(S, Bn, keep=keep)
                ctx.check(list(S.columns) == names_s, lab + ': columns of the intermediate table')
                for c in vals_s:
                    ctx.check_all_eq(list(S[c]), vals_s[c], lab + ': intermediate column ' + c)
                same(df, keep0, lab)
                for c in EXTRA + ['lnprobability']:
                    ctx.check(c in T.columns, lab + ': keeps column ' + c)
                    ctx.check_all_eq(list(T[c]), keep0[c], lab + ': column ' + c)
                ctx.check(list(T.index) == [4, 9], lab + ': row labels')
                want = {'%s%d' % (n, i) for n in Bn.split() for i in range(1, npl + 1)}
                if keep:
                    ctx.check(want <= set(T.columns), lab + ': has the target elements')
                else:
                    ctx.check(elements(T.columns, npl) == want, lab + ': exactly the target elements')
    return h


def cases(tier):
    out = []
    half = 5
    for A in BASES:
        out.append(Case('pairs %s a' % slug(A), pair(A, 2, BASES[:half]), '2 planets'))
        out.append(Case('pairs %s b' % slug(A), pair(A, 2, BASES[half:]), '2 planets'))
        out.append(Case('table %s' % slug(A), table(A, 1), '1 planet, 2 rows'))
        out.append(Case('chain %s' % slug(A), chain(A, 1), '10 conversions in a row'))
        if tier == 'thorough':
            out.append(Case('table2 %s' % slug(A), table(A, 2), '2 planets, 2 rows'))
            out.append(Case('chain2 %s' % slug(A), chain(A, 2), '10 conversions in a row, 2 planets'))
    return out
