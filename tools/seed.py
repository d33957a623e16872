"""Plant a bug: make and confirm /verif/seeded/<id>/ from an edit.

usage: seed.py add SPEC.py       SPEC defines SEEDS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)]
       seed.py tests [ID...]     run the stable tests with the bug in a scratch copy
       seed.py caught [ID...]    apply each to /repo, run its property's check, undo"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
W = '/var/tmp/seedwork'
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', RADVEL_DATADIR='/repo/example_data',
           PATH='/opt/venv/bin:' + os.environ['PATH'], OMP_NUM_THREADS='2', LC_ALL='C.UTF-8')
ENV.pop('PYTHONPATH', None)
DEMO_SH = '''#!/bin/bash
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 RADVEL_DATADIR="$PWD/example_data"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
DEMO_HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
import numpy as np
import radvel
assert os.path.dirname(os.path.dirname(os.path.abspath(radvel.__file__))) == os.getcwd()
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def fresh(name=''):
    w = W + name
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', os.environ.get('SEED_BASE', '/repo'), w])
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    return w


def add(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(SEEDED, s['id'])
        w = fresh()
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        if any(f.startswith('src/') for f, _, _ in s['edits']):
            sh('/opt/venv/bin/python', 'setup.py', 'build_ext', '--inplace', '--force', cwd=w, env=ENV)
        diff = sh('git', 'diff', '--', *sorted({f for f, _, _ in s['edits']}), cwd=w).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(DEMO_HEAD + s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('bash', os.path.join(d, 'demo.sh'), cwd=os.environ.get('SEED_BASE', '/repo'), env=ENV)
        b = sh('bash', os.path.join(d, 'demo.sh'), cwd=w, env=ENV)
        ok = a.returncode == 0 and b.returncode != 0
        print(s['id'], 'OK' if ok else 'BAD', a.returncode, b.returncode)
        if not ok or 'AssertionError' not in b.stderr:
            print(a.stderr[-800:], b.stderr[-800:])
    shutil.rmtree(W, ignore_errors=True)


def tests(ids):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        if not os.path.exists(d):
            continue
        mark = os.path.join(HERE, '.scratch', 'tests-' + i)
        patch = open(os.path.join(d, 'patch.diff')).read()
        if os.path.exists(mark) and open(mark).read() == patch:
            continue
        w = fresh('t%d' % os.getpid())
        r = sh('git', 'apply', os.path.join(d, 'patch.diff'), cwd=w)
        assert r.returncode == 0, r.stderr
        if 'src/' in patch:
            sh('/opt/venv/bin/python', 'setup.py', 'build_ext', '--inplace', '--force', cwd=w, env=ENV)
        # a private /tmp: the tests write there
        sh('unshare', '-m', 'sh', '-c', 'mount -t tmpfs x /tmp && exec "$@"', 'sh',
           '/opt/venv/bin/python', '-m', 'pytest', 'radvel', '-q', '-p', 'no:cacheprovider', '-n', '4', '--dist',
           'loadfile', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml', w + '/junit.xml', cwd=w, env=ENV)
        out = w + '/out.json'
        sh('/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + w + '/junit.xml')
        passed = set(json.load(open(out))['passed'])
        miss = stable - passed
        print(i, 'tests', 'OK' if not miss else 'FAIL %s' % sorted(miss)[:4], len(passed), flush=True)
        if not miss:
            os.makedirs(os.path.dirname(mark), exist_ok=True)
            open(mark, 'w').write(patch)
        shutil.rmtree(w, ignore_errors=True)


def caught(ids):
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        r = sh('git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff'))
        if r.returncode:
            print(i, 'does not apply')
            continue
        try:
            r = sh(os.path.join(HERE, 'check'), prop, 'quick')
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        first = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1]
        print(i, prop, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode,
              first[0][:160] if first else r.stdout[-300:], flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'add':
        add(sys.argv[2])
    elif sys.argv[1] == 'tests':
        tests(sys.argv[2:])
    else:
        caught(sys.argv[2:])
