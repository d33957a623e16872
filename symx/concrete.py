"""Run harnesses on ordinary floats against the unmodified code in /repo.

usage: python -m symx.concrete REQUESTS.json [OUT.json]
Without OUT.json the outcome is printed (replay of a reported violation)."""
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback

from . import env
env.setup()


def close(a, b, rtol=1e-5, atol=1e-7):
    if a is None or b is None:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if math.isnan(a) and math.isnan(b):
        return True
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def tonum(x):
    import numpy as np
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x[()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    return None


def search(q, state):
    """Look for a failing input of a case the solver left undecided."""
    import random
    rng = random.Random(q.get('seed', 1))
    t0 = time.time()
    n = 0
    for i in range(q['tries']):
        if time.time() - t0 > q.get('seconds', 60):
            break
        r = dict(q, vals={}, bools={})
        out = run(r, state, rng)
        n += not out.get('skipped')
        if out['failures']:
            out['vals'], out['bools'] = r['vals'], r['bools']
            return out
    return {'failures': [], 'mismatch': [], 'compared': 0, 'searched': n}


def run(q, state, rng=None):
    import numpy as np
    from . import sym, shim
    from .runner import wrap
    mod = importlib.import_module('symx.props.' + q['property'])
    key = (q['property'], q.get('tier', 'quick'))
    if key not in state:
        state[key] = mod.cases(q.get('tier', 'quick'))
        pre = getattr(mod, 'prepare', None)
        if pre:
            pre(shim.Patch(), False)
    case = None
    for c in state[key]:
        if c.name == q['name']:
            case = c
    ctx = sym.ConcCtx(q['vals'], q['bools'], rng=rng,
                      rtol=case.opts.get('rtol', 1e-6), atol=case.opts.get('atol', 1e-9))
    from . import state as st
    st.CTX = None
    st.UF_CONCRETE.clear()
    out = {'failures': [], 'mismatch': [], 'compared': 0}
    try:
        with np.errstate(all='ignore'):
            wrap(case.fn, False)(ctx)
    except sym.PathInfeasible:
        out['skipped'] = True
        return out
    except Exception as e:
        if not sym.in_radvel(e):
            raise
        ctx.failures.append(('raises %s' % type(e).__name__,
                             '%s: %s | %s' % (type(e).__name__, e,
                                              traceback.format_exc()[-600:])))
    out['failures'] = [list(f) for f in ctx.failures]
    if q.get('what') == 'validate':
        # same obligations in the same order, same values
        rec = q['records']
        for (l1, k1, a1, b1), (l2, k2, a2, b2) in zip(rec, ctx.records):
            if l1 != l2:
                break
            for u, v in ((a1, tonum(a2)), (b1, tonum(b2))):
                if u is None or v is None:
                    continue
                out['compared'] += 1
                if k1 == 'angle' and math.isfinite(u) and math.isfinite(v):
                    v -= 2 * math.pi * round((v - u) / (2 * math.pi))
                    v = v if abs(u - v) > 2e-5 else u
                if not close(u, v):
                    out['mismatch'].append('%s: symbolic %r, real %r' % (l1, u, v))
    return out


class TooLong(BaseException):
    pass


def limited(seconds, f, *a):
    """f(*a), interrupted after some time"""
    def stop(*_):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def main(argv):
    with open(argv[1]) as f:
        reqs = json.load(f)
    import radvel
    assert radvel.__file__.startswith(env.REPO + '/'), radvel.__file__
    state = {}
    res = []
    end = time.time() + float(os.environ.get('SYMX_SECONDS', 3600))
    bad, done, cache = 0, set(), {}
    for q in reqs:
        what = (q['what'], json.dumps([q['name'], q['vals'], q['bools']], sort_keys=True))
        if q['what'] == 'replay' and what in cache:
            res.append(cache[what])
            continue
        if time.time() > end or q['what'] == 'replay' and (not q.get('all') and bad >= 12 or (q['name'], q.get('fail')) in done):
            res.append({'failures': [], 'mismatch': [], 'compared': 0, 'skipped': True})
            continue
        try:
            if q['what'] == 'search':
                res.append(limited(2 * q['seconds'], search, q, state))
            else:
                res.append(limited(90, run, q, state))
        except TooLong:
            res.append({'failures': [], 'mismatch': [], 'compared': 0, 'skipped': True})
            if q['what'] == 'replay':
                res[-1] = {'failures': [['does not return', 'no result after 90 s']], 'mismatch': [], 'compared': 0}
        except Exception as e:
            res.append({'failures': [], 'mismatch': ['harness error: %s %s' % (
                type(e).__name__, traceback.format_exc()[-800:])], 'compared': 0})
        if q['what'] == 'replay' and len(argv) > 2:
            # a few reproduced failures of each kind are enough
            cache[what] = res[-1]
            if res[-1]['failures']:
                bad += 1
                done.add((q['name'], q.get('fail')))
    if len(argv) > 2:
        with open(argv[2], 'w') as f:
            json.dump(res, f)
        return 0
    bad = 0
    for q, r in zip(reqs, res):
        print('property %s, case %s, inputs %s' % (q['property'], q['name'],
                                                   json.dumps(q['vals'])))
        for label, detail in r['failures']:
            bad = 1
            print('  FAILS: %s: %s' % (label, detail))
        if not r['failures']:
            print('  no failure')
    return bad


if __name__ == '__main__':
    rc = main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
