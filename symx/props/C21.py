"""MCMC bookkeeping: the table of samples returned, and saved runs."""
import os
import shutil
import tempfile
import types

import sys
import radvel.posterior

from .common import *

EXPLANATION = ('The real mcmc() runs with a stand-in for the emcee sampler that produces arbitrary (symbolic) positions and log-probabilities and with arbitrary outcomes of every '
               'convergence check; HDF5 files and worker pools are stand-ins in memory (real HDF5 files in the concrete replay). The table returned is compared row by row with the history.')
BOUNDS = '1-2 (thorough: 3) ensembles, 2-4 walkers, 1-2 free parameters, 1-4 intervals of 2-3 steps, every outcome of each check, saved and resumed runs, thinning by 1-3 or more than there are rows'
OUTSIDE = 'the sampler itself, interruption from the keyboard, screen output'


MCMC = sys.modules['radvel.mcmc']


class State(object):
    def __init__(self, coords, log_prob):
        self.coords, self.log_prob = coords, log_prob
        self.random_state, self.blobs = None, None

    def __iter__(self):
        return iter((self.coords, self.log_prob, self.random_state))


def coords(p):
    return p.coords if isinstance(p, State) else p


class World(object):
    """everything that happened in a run"""

    def __init__(self, ctx, run='first', previous=None):
        self.ctx, self.run, self.samplers = ctx, run, []
        self.rows = {}                          # tag -> (values, log-probability)
        if previous is not None:
            self.rows.update(previous.rows)
        self.kept = []                          # per sampler: tags of the rows it holds now
        self.starts = []                        # (sampler, position it was started from)

    def kind(self):
        return object if self.ctx.symbolic else float


def engine(world):
    ctx = world.ctx

    class Backend(object):
        def __init__(self):
            self.chain, self.log_prob, self.accepted, self.iteration = None, None, None, 0

        def grow(self, n, blobs):
            self.grown = n

    class EnsembleSampler(object):
        def __init__(self, nwalkers, ndim, fn, *a, **kw):
            self.nw, self.nd, self.fn = nwalkers, ndim, fn
            self.number = len(world.samplers)
            world.samplers.append(self)
            self.backend = Backend()
            self.backend.accepted = np.zeros(nwalkers)
            self.total = 0

        @property
        def iteration(self):
            return self.backend.iteration

        @property
        def acceptance_fraction(self):
            return np.ones(self.nw) * 0.5

        def reset(self):
            self.backend.chain = self.backend.log_prob = None
            self.backend.iteration = 0
            self.backend.accepted = np.zeros(self.nw)

        def _step(self):
            t = self.total
            self.total += 1
            x = np.empty((1, self.nw, self.nd), dtype=world.kind())
            lp = np.empty((1, self.nw), dtype=world.kind())
            for w in range(self.nw):
                tag = 100000 * (1 if world.run == 'first' else 2) + 10000 * self.number + 100 * t + w
                x[0, w, 0] = tag                # the first parameter identifies the step and walker
                for d in range(1, self.nd):
                    x[0, w, d] = ctx.real('x%d_%d' % (tag, d), sample=(-5, 5))
                lp[0, w] = ctx.real('lp%d' % tag, sample=(-5, 5))
                world.rows[tag] = (list(x[0, w]), lp[0, w])
            b = self.backend
            b.chain = x if b.chain is None else np.concatenate((np.array(b.chain), x))
            b.log_prob = lp if b.log_prob is None else np.concatenate((np.array(b.log_prob), lp))
            b.iteration += 1
            b.accepted = np.array(b.accepted) + 1

        def sample(self, p0, iterations=1, store=True, **kw):
            world.starts.append((self.number, coords(p0), self.total))
            for _ in range(iterations):
                self._step()
                yield self.get_last_sample()

        def run_mcmc(self, p0, n, **kw):
            world.starts.append((self.number, coords(p0), self.total))
            for _ in range(n):
                self._step()
            return self.get_last_sample()

        def get_chain(self, flat=False, discard=0, thin=1):
            c = np.array(self.backend.chain)[discard::thin]
            return c.reshape(-1, self.nd) if flat else c

        def get_log_prob(self, flat=False, discard=0, thin=1):
            c = np.array(self.backend.log_prob)[discard::thin]
            return c.reshape(-1) if flat else c

        def get_last_sample(self):
            return State(np.array(self.backend.chain)[-1], np.array(self.backend.log_prob)[-1])
    return EnsembleSampler


class Dataset(object):
    def __init__(self, data):
        self.data = np.array(data)
        self.shape = self.data.shape

    def __getitem__(self, i):
        return self.data[i] if not isinstance(self.data[i], np.ndarray) else self.data[i].copy()

    def __array__(self, dtype=None, copy=None):
        return self.data.copy()

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


def files(ctx):
    """HDF5 files in memory"""
    disk = {}
    if not ctx.symbolic:
        folder = tempfile.mkdtemp(prefix='symx-c21-')
        ctx.at_end(lambda: shutil.rmtree(folder, ignore_errors=True))
        return folder

    class File(object):
        def __init__(self, name, mode='r'):
            if mode == 'r' and name not in disk:
                raise OSError('no such file: ' + name)
            if mode == 'w':
                disk[name] = {}
            self.d = disk.setdefault(name, {})

        def keys(self):
            return self.d.keys()

        def __contains__(self, k):
            return k in self.d

        def __getitem__(self, k):
            return self.d[k]

        def __delitem__(self, k):
            del self.d[k]

        def create_dataset(self, k, data):
            if k in self.d:
                raise ValueError('name already exists')
            self.d[k] = Dataset(data)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    ctx.stub(MCMC, 'h5py', types.SimpleNamespace(File=File))
    return ''


class Pool(object):
    def __init__(self, *a, **kw):
        pass

    def map(self, f, items):
        return [f(x) for x in items]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def posterior(nd):
    P = radvel.Parameters(1, basis='per tp e w k')
    for n, v in zip('per tp e w k'.split(), (10., 1., 0.1, 0.2, 5.)):
        P[n + '1'] = radvel.Parameter(value=v, vary=False)
    for n in ('dvdt', 'curv', 'gamma', 'jit'):
        P[n] = radvel.Parameter(value=1.0, vary=False)
    for n in ('tp1', 'k1', 'e1')[:nd]:
        P[n].vary = True
    m = radvel.RVModel(P)
    return radvel.posterior.Posterior(radvel.likelihood.RVLikelihood(m, [1., 2.], [1., 2.], [1., 1.]))


def run(ctx, world, checks, E, W, nd, n_intervals, interval, serial=True, **kw):
    """one call of mcmc(); checks: list of (mixed, statistic below the burn-in threshold)"""
    ctx.stub(MCMC, 'emcee', types.SimpleNamespace(EnsembleSampler=engine(world), autocorr=types.SimpleNamespace(integrated_time=None)))
    ctx.stub(MCMC, 'mp', types.SimpleNamespace(Pool=Pool, cpu_count=lambda: 2))
    world.history, world.seen = [], []

    def calculate(chains, oldautocorrelation, minAfactor, maxArchange, minTz, maxGR):
        i = len(world.history)
        mixed = ctx.decide_bool(ctx.boolean('mixed_%s_%d' % (world.run, i))) if checks else False
        low = ctx.decide_bool(ctx.boolean('burned_%s_%d' % (world.run, i))) if checks else False
        # what each sampler holds at this check
        world.seen.append([[int(v) for v in np.array(s.backend.chain)[:, :, 0].reshape(-1)] for s in world.samplers])
        world.history.append((mixed, low))
        g = np.array([1.005 if low else 2.0] * nd)
        return mixed, np.ones((1, nd)), np.ones((1, nd)), np.ones((1, nd)), g, [5.0] * nd
    ctx.stub(MCMC, 'convergence_calculate', calculate)
    post = posterior(nd)
    before = [float(v) for v in post.vector.vector[:, 0]]
    args = dict(nwalkers=W, nrun=n_intervals * interval, ensembles=E, checkinterval=interval + 1, minpercent=0, minsteps=0,
                serial=serial, headless=True, burnGR=1.03, burnAfactor=1e9)
    args.update(kw)
    df = MCMC.mcmc(post, **args)
    ctx.check([float(v) for v in post.vector.vector[:, 0]] == before, 'posterior values unchanged')
    return df, post


def compare(ctx, df, post, want, world, nd, thin=1):
    names = post.name_vary_params()
    ctx.check(sorted(df.columns) == sorted(list(names) + ['lnprobability']), 'one column per free parameter and one log-probability')
    if sorted(df.columns) != sorted(list(names) + ['lnprobability']):
        return
    n = len(df)
    ctx.check(n == -(-len(want) // thin), 'one row per kept step and walker')
    cols = {c: list(df[c]) for c in df.columns}
    tags = cols[names[0]]
    plain = all(isinstance(t, (int, float, np.floating)) for t in tags)
    ctx.check(plain, 'columns in place')
    if not plain:
        return
    tags = [int(t) for t in tags]
    ctx.check(len(set(tags)) == n, 'no step twice')
    ctx.check(set(tags) <= set(want), 'only kept steps')
    if thin == 1:
        ctx.check(set(tags) == set(want), 'every kept step')
    for i, t in enumerate(tags):
        if t in world.rows:
            vals, lp = world.rows[t]
            for d in range(1, nd):
                ctx.check_eq(cols[names[d]][i], vals[d], 'value')
            ctx.check_eq(cols['lnprobability'][i], lp, 'log-probability')


def burn(world):
    """index of the check at which burn-in ended, or None"""
    for i, (mixed, low) in enumerate(world.history):
        if low:
            return i
    return None


def simulate(world, n):
    """how many checks a run makes: it stops after two mixed ones in a row"""
    for i in range(1, len(world.history)):
        if world.history[i][0] and world.history[i - 1][0]:
            return i + 1
    return n


def flat(lists):
    return [t for x in lists for t in x]


def fresh(E, W, nd, n, interval, serial=True, thin=1):
    def h(ctx):
        w = World(ctx)
        df, post = run(ctx, w, True, E, W, nd, n, interval, serial, thin=thin)
        ctx.check(len(w.history) == simulate(w, n), 'stops after two mixed checks in a row')
        ctx.check(len(w.samplers) == E, 'one sampler per ensemble')
        # the rows held at the last check are those returned
        want = flat(w.seen[-1])
        compare(ctx, df, post, want, w, nd, thin)
        # which are all steps since burn-in ended
        b = burn(w)
        for s in range(E):
            first = [t for t in w.rows if (t % 100000) // 10000 == s]
            per = (interval + 1) * W
            done = per * len(w.history)
            gone = per * (b + 1) if b is not None and b < len(w.history) - 1 else 0
            ctx.check(w.seen[-1][s] == sorted(first)[gone:done], 'all steps after the discarded ones')
        continued(ctx, w)
    return h


def continued(ctx, w, start=None):
    """every ensemble goes on from its own last positions"""
    for s, p, done in w.starts:
        p = np.array(p)
        tags = p[:, 0]
        own = [t for t in tags if float(t) >= 100000]
        if own:
            ctx.check(len(own) == len(tags) and all(int((float(t) % 100000) // 10000) == s for t in own), 'ensembles go on from their own positions')
        else:
            ctx.check(done <= 1, 'initial positions only at the start')


def resumed(E, W, nd, n1, n2, interval, burned):
    def h(ctx):
        folder = files(ctx)
        a, b = os.path.join(folder, 'first.h5'), os.path.join(folder, 'second.h5')
        w = World(ctx)
        df, post = run(ctx, w, burned, E, W, nd, n1, interval, True, save=True, savename=a)
        held = w.seen[-1]
        first_burn = burn(w)
        v = World(ctx, 'second', w)
        df, post = run(ctx, v, True, E, W, nd, n2, interval, True, save=True, savename=b, proceed=True, proceedname=a)
        compare(ctx, df, post, flat(v.seen[-1]), v, nd)
        # earlier steps stay in front of later ones, unless the resumed run ends burn-in
        over = first_burn is not None and first_burn < len(w.history) - 1
        b2 = None if over else burn(v)
        for s in range(E):
            new = sorted(t for t in v.rows if t >= 200000 and (t % 100000) // 10000 == s)
            per = (interval + 1) * W
            done = per * len(v.history)
            if b2 is not None and b2 < len(v.history) - 1:
                want = new[per * (b2 + 1):done]
            else:
                want = held[s] + new[:done]
            ctx.check(v.seen[-1][s] == want, 'earlier steps in front of later ones')
        continued(ctx, v)
        ctx.check(all(float(np.array(p)[0, 0]) >= 100000 for s, p, done in v.starts), 'resumed where it stopped')
    return h


def mismatch(what):
    """a saved run with another layout is refused"""
    def h(ctx):
        folder = files(ctx)
        a = os.path.join(folder, 'first.h5')
        w = World(ctx)
        run(ctx, w, False, 2, 4, 2, 1, 2, True, save=True, savename=a)
        args = dict(E=2, W=4, nd=2)
        args.update(what)
        try:
            run(ctx, World(ctx, 'second', w), False, args['E'], args['W'], args['nd'], 1, 2, True, proceed=True, proceedname=a)
            ctx.check(False, 'refused')
        except ValueError:
            ctx.check(True, 'refused')
    return h


def no_name(**kw):
    def h(ctx):
        try:
            run(ctx, World(ctx), False, 1, 2, 1, 1, 2, True, **kw)
            ctx.check(False, 'refused')
        except ValueError:
            ctx.check(True, 'refused')
    return h


def walkers(ctx):
    """at least two walkers per free parameter"""
    w = World(ctx)
    df, post = run(ctx, w, False, 1, 2, 2, 1, 2)
    ctx.check(w.samplers[0].nw == 4, 'number of walkers raised')
    compare(ctx, df, post, flat(w.seen[-1]), w, 2)


def cases(tier):
    q = tier == 'quick'
    out = []
    for E, W, nd, n, k in ((1, 4, 2, 3, 2), (2, 4, 2, 2, 2), (2, 2, 1, 4, 2), (1, 3, 1, 2, 3)) + (() if q else ((3, 4, 2, 3, 2), (2, 4, 2, 4, 3), (2, 6, 3, 2, 2))):
        out.append(Case('%d ensembles %d walkers %d parameters %d intervals of %d' % (E, W, nd, n, k), fresh(E, W, nd, n, k)))
    out.append(Case('worker pool', fresh(2, 4, 2, 2, 2, serial=False)))
    for t in (2, 3, 50):
        out.append(Case('thinned by %d' % t, fresh(2, 4, 2, 1, 2, thin=t)))
    for E, W, nd, n1, n2, k, b in ((2, 4, 2, 1, 1, 2, False), (2, 2, 1, 2, 2, 2, True)) + (() if q else ((3, 2, 1, 2, 2, 2, False), (2, 4, 2, 3, 2, 2, True))):
        out.append(Case('resumed %d %d %d %d then %d' % (E, W, nd, n1, n2), resumed(E, W, nd, n1, n2, k, b)))
    for what in (dict(E=1), dict(E=3), dict(W=5), dict(W=6, nd=3)):
        out.append(Case('resumed with %s' % what, mismatch(what)))
    out.append(Case('save without a name', no_name(save=True)))
    out.append(Case('resume without a name', no_name(proceed=True)))
    out.append(Case('few walkers', walkers))
    return out
