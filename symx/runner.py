"""Decide one property: run its cases symbolically, replay counterexamples,
validate the encoding against the real code, write the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time
import traceback

from . import env
env.setup()

import z3  # noqa: E402


def collect_functions(on):
    """Record the radvel functions executed symbolically (sys.monitoring)."""
    mon = sys.monitoring
    tool = 3
    seen = set()
    if not on:
        return seen, lambda: None
    try:
        mon.use_tool_id(tool, 'symx')
    except ValueError:
        return seen, lambda: None

    def start(code, off):
        f = code.co_filename
        if f.startswith(env.REPO + '/radvel/'):
            seen.add('%s:%s' % (f[len(env.REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)

    def stop():
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
    return seen, stop


def run_case(job):
    prop, idx, tier, seed = job
    t0 = time.time()
    out = {'idx': idx, 'error': None}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    from . import sym, shim
    try:
        mod = importlib.import_module('symx.props.' + prop)
        case = mod.cases(tier)[idx]
        out['name'] = case.name
        sys.monitoring.restart_events()
        seen, stop = collect_functions(True)
        patch = shim.Patch()
        opts = dict(case.opts)
        opts.setdefault('seed', seed)
        opts.setdefault('case_timeout_s', 400 if tier == 'quick' else 3000)
        if tier == 'thorough':
            opts['timeout_ms'] = 4 * opts.get('timeout_ms', 20000)
        pre = getattr(mod, 'prepare', None)
        if pre:
            pre(patch, True)
        shim.install(patch)
        loud = sys.stdout
        try:
            if not os.environ.get('SYMX_DEBUG'):
                sys.stdout = open(os.devnull, 'w')
            res = sym.explore(wrap(case.fn, True), opts)
        finally:
            sys.stdout = loud
            stop()
            patch.undo()
        out['functions'] = sorted(seen)
        out['stats'] = res['stats'].dict()
        out['reached'] = res['reached']
        out['witnesses'] = res['witnesses']
        out['unwitnessed'] = res['unwitnessed']
        out['failures'] = [{'label': f.label, 'detail': f.detail, 'kind': f.kind,
                            'points': f.points} for f in res['failures']]
    except sym.SymUnsupported as e:
        out['error'] = 'unsupported: %s\n%s' % (e, traceback.format_exc()[-1200:])
    except MemoryError:
        out['error'] = 'out of memory'
    except Exception as e:
        out['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    out['wall'] = time.time() - t0
    return out


def wrap(fn, symbolic):
    """Give the harness its stub facility and always undo the stubs."""
    from .case import Stubs

    def g(ctx):
        ctx.stubs = Stubs()
        ctx.stub = ctx.stubs.set
        ends = []
        ctx.at_end = ends.append
        try:
            fn(ctx)
        finally:
            ctx.stubs.undo()
            for f in ends:
                f()
    return g


def concrete(requests, timeout=800):
    """Run harnesses on ordinary floats in a fresh process on the real code."""
    d = env.scratch('conc')
    try:
        p = os.path.join(d, 'req.json')
        with open(p, 'w') as f:
            json.dump(requests, f)
        o = os.path.join(d, 'out.json')
        r = subprocess.run([sys.executable, '-m', 'symx.concrete', p, o],
                           capture_output=True, text=True, timeout=timeout,
                           cwd=env.ROOT, env=dict(os.environ, SYMX_SECONDS=str(0.9 * timeout)))
        if not os.path.exists(o):
            return None, (r.stdout + r.stderr)[-3000:]
        with open(o) as f:
            return json.load(f), None
    except subprocess.TimeoutExpired:
        return None, 'concrete run timed out'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_known():
    path = os.path.join(env.ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('known', [])


def matches(k, prop, case, label):
    return k['property'] == prop and k['case'] == case and label in k['labels']


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('SYMX_CASE')
    import radvel  # noqa: F401  (fails here when the tree does not import)
    assert radvel.__file__.startswith(env.REPO + '/'), radvel.__file__
    mod = importlib.import_module('symx.props.' + prop)
    cases = mod.cases(tier)
    jobs = [(prop, i, tier, seed) for i, c in enumerate(cases)
            if not only or only in c.name]
    results = []
    ctx = mp.get_context('fork')
    budget = (640 if tier == 'quick' else 4 * 3600)
    with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
        hs = [(j, pool.apply_async(run_case, (j,))) for j in jobs]
        open_, done = list(hs), {}
        while open_ and time.time() - t0 < budget:
            rest = []
            for j, h in open_:
                if not h.ready():
                    rest.append((j, h))
                    continue
                done[j[1]] = h.get()
                if any(f['kind'] == 'sat' and f['points'] for f in done[j[1]].get('failures') or ()):
                    # something to report: what else turns up in a few minutes is enough
                    budget = min(budget, time.time() - t0 + float(os.environ.get('SYMX_GRACE', 150)))
            open_ = rest
            time.sleep(0.05)
        for j, h in hs:
            results.append(done.get(j[1]) or {'idx': j[1], 'name': cases[j[1]].name,
                                              'error': 'time limit', 'wall': budget})
        pool.terminate()
    errors = []
    for r in results:
        r.setdefault('name', cases[r['idx']].name)
        if r['error']:
            errors.append('%s: %s' % (r['name'], r['error']))
        elif not r['reached'] and cases[r['idx']].expect_reach:
            errors.append('%s: no obligation was reached (vacuous)' % r['name'])
        elif not r['failures'] and not r['witnesses'] and cases[r['idx']].expect_reach:
            errors.append('%s: no concrete witness for any path (vacuous?)' % r['name'])
    limit = 870 if tier == 'quick' else 6 * 3600
    # replay + validation requests, those of failures first
    reqs = []
    for r in results:
        if r['error']:
            continue
        for k, w in enumerate(r['witnesses']):
            reqs.append({'property': prop, 'tier': tier, 'case': r['idx'], 'name': r['name'],
                         'what': 'validate', 'vals': w['vals'], 'bools': w['bools'],
                         'records': w['records']})
        for k, f in enumerate(r['failures']):
            for n, p in enumerate(f['points'][:8]):
                reqs.append({'n': n, 'all': any(k['property'] == prop for k in load_known()),'property': prop, 'tier': tier, 'case': r['idx'],
                             'name': r['name'], 'what': 'replay', 'fail': k,
                             'label': f['label'], 'vals': p[0], 'bools': p[1]})
    reqs.sort(key=lambda q: (q['what'] != 'replay', q.get('n', 0), q.get('fail', 0)))
    conc = []
    if reqs:
        conc, err = concrete(reqs, limit - 60 - (time.time() - t0))
        if conc is None:
            errors.append('concrete run failed: ' + err)
            conc = []
    known = load_known()
    violations = []
    known_hits = []
    validated = mismatches = compared = 0
    confirmed = set()
    for q, c in zip(reqs, conc):
        if c.get('skipped'):
            continue
        if q['what'] == 'validate':
            validated += 1
            compared += c['compared']
            if c['mismatch']:
                mismatches += 1
                errors.append('%s: encoding disagrees with the real code: %s' %
                              (q['name'], c['mismatch'][:3]))
        for label, detail in c['failures']:
            if q['what'] == 'replay':
                confirmed.add((q['case'], q['fail']))
            hit = [k for k in known if matches(k, prop, q['name'], label)]
            if hit:
                known_hits.append((hit[0], label))
                continue
            violations.append((q, label, detail))
    unreproduced = 0
    undecided = []
    look = set()
    for r in results:
        if r['error']:
            look.add(r['idx'])
            continue
        for k, f in enumerate(r['failures']):
            if (r['idx'], k) not in confirmed:
                if violations and f['kind'] == 'sat':
                    continue    # enough has been reported, not all were replayed
                if any(matches(x, prop, r['name'], f['label']) for x in known):
                    continue
                unreproduced += 1
                look.add(r['idx'])
                undecided.append('%s: %s (%s): %s' % (
                    r['name'], f['label'],
                    'abstract counterexample not reproduced' if f['kind'] == 'sat' else f['kind'],
                    f['detail'][:600]))
    bad_cases = [r for r in results if r['error']]
    if look and not violations:
        # not decided: look for a concrete failing input before saying so
        left = max(10, limit - (time.time() - t0))
        look = sorted(look)[:12]
        reqs2 = [{'property': prop, 'tier': tier, 'case': i, 'name': cases[i].name,
                  'what': 'search', 'tries': 150, 'seconds': min(60, 0.7 * left / len(look)),
                  'seed': seed, 'vals': {}, 'bools': {}} for i in look]
        conc2, err = concrete(reqs2, left)
        for q, c in zip(reqs2, conc2 or []):
            for label, detail in c['failures']:
                hit = [k for k in known if matches(k, prop, q['name'], label)]
                if hit:
                    known_hits.append((hit[0], label))
                    continue
                violations.append((dict(q, vals=c['vals'], bools=c['bools']), label, detail))
    # report
    rc = 0
    seen = set()
    for k, label in known_hits:
        line = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
        if line not in seen:
            seen.add(line)
            print(line)
    reported = set()
    if violations:
        rc = 1
        rd = os.path.join(env.ROOT, 'replays')
        os.makedirs(rd, exist_ok=True)
        n = 0
        for q, label, detail in violations:
            if (q['name'], label) in reported or n >= 10:
                continue
            reported.add((q['name'], label))
            n += 1
            path = os.path.join(rd, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump([{k: q[k] for k in ('property', 'tier', 'case', 'name',
                                              'vals', 'bools')} |
                           {'what': 'replay', 'label': label, 'detail': detail}], f, indent=1)
            print('  %s / %s: %s  at %s' % (q['name'], label, detail, _short(q['vals'])))
            print('VIOLATION property=%s replay=%s' % (prop, path))
    elif errors and (len(errors) > len(bad_cases) or 2 * len(bad_cases) >= len(results)
                     or os.environ.get('SYMX_STRICT')):
        rc = 2
    elif undecided and os.environ.get('SYMX_STRICT'):
        rc = 2
    for e in errors[:20]:
        print(('ERROR ' if rc else 'UNDECIDED ') + e)
    for e in undecided[:20]:
        print('UNDECIDED ' + e)
    write_evidence(prop, mod, tier, seed, results, cases, validated, compared,
                   mismatches, unreproduced, len(reported), errors + undecided, known_hits,
                   time.time() - t0)
    ok = sum(1 for r in results if not r['error'])
    st = [r['stats'] for r in results if not r['error']]
    print('%s %s: %d/%d cases, %d paths, %d obligations, %d queries, %.1f s solver, '
          '%d witnesses validated, %.1f s' % (
              prop, tier, ok, len(results), sum(s['paths'] for s in st),
              sum(s['checks'] for s in st), sum(s['queries'] for s in st),
              sum(s['solver_s'] for s in st), validated, time.time() - t0))
    return rc


def _short(v):
    s = json.dumps(v)
    return s if len(s) < 400 else s[:400] + '...'


def write_evidence(prop, mod, tier, seed, results, cases, validated, compared,
                   mismatches, unreproduced, nviol, errors, known_hits, wall):
    from .sym import Stats
    tot = Stats()
    funcs = set()
    per = []
    for r in results:
        c = cases[r['idx']]
        d = {'case': r['name'], 'bounds': c.bounds, 'wall_s': round(r['wall'], 2)}
        if r['error']:
            d['error'] = r['error'][:300]
        else:
            tot.merge(r['stats'])
            funcs.update(r['functions'])
            s = r['stats']
            d.update(paths=s['paths'], obligations=s['checks'],
                     queries=s['queries'], solver_s=round(s['solver_s'], 3),
                     witnesses=len(r['witnesses']),
                     paths_without_witness=r['unwitnessed'])
        per.append(d)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', '') or (mod.__doc__ or '').strip(),
            'functions_encoded': sorted(funcs) + list(getattr(mod, 'EXTRA_FUNCTIONS', [])),
            'cases': per,
            'paths_explored': tot.paths,
            'paths_cut_at_the_unrolling_bound': tot.cut,
            'obligations_checked': tot.checks,
            'obligations_decided_without_a_query': tot.trivial,
            'solver_queries': tot.queries,
            'queries_unsat': tot.unsat,
            'queries_sat': tot.sat,
            'queries_unknown': tot.unknown,
            'queries_for_branches': tot.branch_queries,
            'solver_seconds': round(tot.solver_s, 2),
            'slowest_query_seconds': round(tot.max_query_s, 2),
            'witness_paths_replayed_on_real_code': validated,
            'values_compared_symbolic_vs_real': compared,
            'encoding_mismatches': mismatches,
            'counterexamples_not_reproduced': unreproduced,
            'known_findings_hit': len(known_hits),
            'solver': 'z3 ' + z3.get_version_string(),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside_the_claim': getattr(mod, 'OUTSIDE', ''),
            'samples': tot.samples[:4],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'Python floats are read as exact reals (rounding, overflow and NaN '
            'from overflow are outside the claim)'] + [
            'assumed on some path: %s is not zero (%d times)' % (k, v)
            for k, v in sorted(tot.assumed.items())],
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    if errors:
        ev['coverage']['not_decided'] = [e[:400] for e in errors[:20]]
    os.makedirs(os.path.join(env.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(env.ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
