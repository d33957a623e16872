"""Symbolic execution of the C solver: src/kepler.c is compiled by clang to
LLVM IR on every run and the IR is interpreted on symbolic values; the Cython
wrapper src/_kepler.pyx is reduced to plain Python.  The concrete side builds
the real extension from the same sources in a scratch directory."""
import math
import os
import re
import shutil
import struct
import subprocess
import sys

import numpy as np

from . import env
from .expr import SymUnsupported
from .sym import PathInfeasible, SymBool, SymReal, sand, snot, sor

SRC = env.REPO + '/src'


class CExit(Exception):
    """exit() was called: the process would end here."""


def ir():
    d = env.scratch('ir')
    try:
        out = os.path.join(d, 'k.ll')
        r = subprocess.run(['clang', '-O0', '-S', '-emit-llvm', '-fno-math-errno',
                            '-ffp-contract=off', '-w', os.path.join(SRC, 'kepler.c'), '-o', out],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('clang: ' + r.stderr[-1000:])
        with open(out) as f:
            return f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Fn(object):
    def __init__(self, name, params):
        self.name = name
        self.params = params
        self.blocks = {}
        self.entry = None


def parse(text):
    fns = {}
    glob = {}
    cur = None
    lines = iter(text.splitlines())
    for ln in lines:
        m = re.match(r'@([\w.$]+) = .*?(global|constant) (\S+) (.*?)(, align \d+)?$', ln)
        if m and cur is None:
            glob[m.group(1)] = (m.group(3), m.group(4))
        m = re.match(r'define .*?(\S+) @([\w.$]+)\((.*?)\)', ln)
        if m:
            ps = re.findall(r'%([\w.]+)(?=,|$|\))', m.group(3) + ')')
            cur = Fn(m.group(2), ps)
            blk = str(len(ps)) if all(p.isdigit() for p in ps) else 'entry'
            cur.entry = blk
            cur.blocks[blk] = []
            continue
        if cur is None:
            continue
        if ln.startswith('}'):
            fns[cur.name] = cur
            cur = None
            continue
        m = re.match(r'^([\w.]+):', ln)
        if m:
            blk = m.group(1)
            cur.blocks[blk] = []
            if not cur.blocks[cur.entry] and cur.entry == 'entry':
                cur.blocks.pop('entry', None)
                cur.entry = blk
                cur.blocks[blk] = []
            continue
        s = ln.split(';')[0].strip() if '; preds' in ln else ln.strip()
        s = re.sub(r', !\w[\w.]* !\d+.*$', '', s)
        if s.startswith('switch'):
            while not s.rstrip().endswith(']'):
                s += ' ' + next(lines).strip()
        if s:
            cur.blocks[blk].append(s)
    return fns, glob


class Ptr(object):
    def __init__(self, cells, i=0):
        self.cells, self.i = cells, i


def _dbl(tok):
    if tok.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0]
    return float(tok)


ATTR = r'(?:noundef |nonnull |signext |zeroext |nofpclass\(\w+\) )*'


class Machine(object):
    def __init__(self, F, hooks=None, steps=20000):
        """F: math functions (symbolic shim); hooks: replacement of C functions."""
        self.fns, self.glob = parse(ir())
        self.F = F
        self.hooks = hooks or {}
        self.limit = steps
        self.globals = {}

    def call(self, name, args):
        if name in self.hooks:
            return self.hooks[name](*args)
        F = self.F
        std = {'sin': F.sin, 'cos': F.cos, 'tan': F.tan, 'sqrt': F.sqrt, 'floor': F.floor,
               'fabs': F.abs, 'exp': F.exp, 'log': F.log, 'atan': F.arctan, 'atan2': F.arctan2,
               'ceil': F.ceil,
               'pow': lambda x, y: x ** y, 'fmod': self.fmod,
               'copysign': self.copysign}
        base = name
        m = re.match(r'llvm\.(\w+)\.', name)
        if m:
            base = m.group(1)
        if base in std and base not in self.fns:
            return std[base](*args)
        if base == 'fmuladd' or base == 'fma':
            return args[0] * args[1] + args[2]
        if base in ('maxnum', 'fmax'):
            return args[0] if bool(args[0] >= args[1]) else args[1]
        if base in ('minnum', 'fmin'):
            return args[0] if bool(args[0] <= args[1]) else args[1]
        if base in ('printf', 'puts', 'fprintf', 'putchar', 'fflush', 'scanf', '__isoc99_scanf'):
            return 0
        if base in ('exit', 'abort', '_exit'):
            raise CExit('%s(%s)' % (base, ', '.join(str(a) for a in args)))
        if name in self.fns:
            return self.run(self.fns[name], args)
        raise SymUnsupported('C function %s' % name)

    def fmod(self, x, y):
        q = x / y
        q = self.F.floor(q) if bool(q >= 0) else -self.F.floor(-q)
        return x - y * q

    def copysign(self, x, y):
        a = self.F.abs(x)
        return a if bool(y >= 0) else -a

    def run(self, fn, args):
        regs = dict(zip(fn.params, args))
        prev, blk, steps = None, fn.entry, 0

        def val(ty, tok):
            tok = tok.strip()
            if tok.startswith('%'):
                return regs[tok[1:]]
            if tok.startswith('@'):
                g = tok[1:]
                if g not in self.globals:
                    t, v = self.glob.get(g, ('ptr', None))
                    self.globals[g] = Ptr([_dbl(v) if t in ('double', 'float') else
                                           int(v) if t.startswith('i') else v])
                return self.globals[g]
            if tok in ('true', 'false'):
                return tok == 'true'
            if tok in ('undef', 'poison', 'null', 'zeroinitializer'):
                return 0
            if ty in ('double', 'float'):
                return _dbl(tok)
            return int(tok)

        def setr(r, v):
            regs[r] = v

        while True:
            jumped = False
            code = fn.blocks[blk]
            # phis first, simultaneously
            phis = {}
            for s in code:
                m = re.match(r'%([\w.]+) = phi (\S+) (.*)', s)
                if not m:
                    break
                for v, b in re.findall(r'\[ (\S+), %([\w.]+) \]', m.group(3)):
                    if b == prev:
                        phis[m.group(1)] = val(m.group(2), v)
            regs.update(phis)
            for s in code:
                steps += 1
                if steps > self.limit:
                    raise SymUnsupported('C step limit')
                m = re.match(r'%([\w.]+) = (.*)', s)
                r, op = (m.group(1), m.group(2)) if m else (None, s)
                w = op.split(None, 1)[0]
                if w == 'phi':
                    continue
                if w == 'alloca':
                    n = re.match(r'alloca \[(\d+) x', op)
                    setr(r, Ptr([0.0] * (int(n.group(1)) if n else 1)))
                elif w == 'load':
                    m = re.match(r'load (?:volatile )?(\S+), ptr (\S+?)(?:,.*)?$', op)
                    p = val('ptr', m.group(2))
                    setr(r, p.cells[p.i])
                elif w == 'store':
                    m = re.match(r'store (?:volatile )?(\S+) (\S+), ptr (\S+?)(?:,.*)?$', op)
                    p = val('ptr', m.group(3))
                    p.cells[p.i] = val(m.group(1), m.group(2))
                elif w in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                    m = re.match(r'\w+ (?:\w+ )*?(double|float) (\S+), (\S+)', op)
                    a, b = val('double', m.group(2)), val('double', m.group(3))
                    if w == 'frem':
                        v = self.fmod(a, b)
                    elif w == 'fdiv' and not isinstance(a, SymReal) and not isinstance(b, SymReal):
                        v = float(np.float64(a) / np.float64(b))
                    else:
                        v = a + b if w == 'fadd' else a - b if w == 'fsub' else \
                            a * b if w == 'fmul' else a / b
                    setr(r, v)
                elif w == 'fneg':
                    m = re.match(r'fneg (?:\w+ )*?(double|float) (\S+)', op)
                    setr(r, -val('double', m.group(2)))
                elif w == 'fcmp':
                    m = re.match(r'fcmp (?:fast )?(\w+) (double|float) (\S+), (\S+)', op)
                    a, b = val('double', m.group(3)), val('double', m.group(4))
                    k = m.group(1)[1:]
                    setr(r, {'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b,
                             'le': lambda: a <= b, 'eq': lambda: a == b, 'ne': lambda: a != b,
                             'rd': lambda: True, 'no': lambda: False}[k]())
                elif w == 'icmp':
                    m = re.match(r'icmp (\w+) (\S+) (\S+), (\S+)', op)
                    a, b = (self.as_int(val(m.group(2), x)) for x in (m.group(3), m.group(4)))
                    k = m.group(1).lstrip('su') if m.group(1) not in ('eq', 'ne') else m.group(1)
                    setr(r, {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b,
                             'eq': a == b, 'ne': a != b}[k])
                elif w in ('add', 'sub', 'mul', 'sdiv', 'srem', 'shl', 'and', 'or', 'xor'):
                    m = re.match(r'\w+ (?:nsw |nuw |exact )*(\S+) (\S+), (\S+)', op)
                    a, b = val(m.group(1), m.group(2)), val(m.group(1), m.group(3))
                    if m.group(1) == 'i1':
                        v = {'and': lambda: sand(a, b), 'or': lambda: sor(a, b),
                             'xor': lambda: sor(sand(a, snot(b)), sand(snot(a), b))}[w]()
                    else:
                        a, b = self.as_int(a), self.as_int(b)
                        v = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                             'sdiv': lambda: int(a / b), 'srem': lambda: a - b * int(a / b),
                             'shl': lambda: a << b, 'and': lambda: a & b, 'or': lambda: a | b,
                             'xor': lambda: a ^ b}[w]()
                    setr(r, v)
                elif w in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'bitcast', 'freeze'):
                    m = re.match(r'\w+ (?:nneg )?(\S+) (\S+)(?: to (\S+))?', op)
                    v = val(m.group(1), m.group(2))
                    if w in ('zext', 'sext') and m.group(1) == 'i1':
                        v = (1 if bool(v) else 0) * (1 if w == 'zext' else -1)
                    elif w == 'trunc' and m.group(3) == 'i1':
                        v = bool(self.as_int(v) & 1)
                    setr(r, v)
                elif w in ('sitofp', 'uitofp'):
                    m = re.match(r'\w+ (?:nneg )?(\S+) (\S+) to', op)
                    setr(r, float(self.as_int(val(m.group(1), m.group(2)))))
                elif w in ('fptosi', 'fptoui'):
                    m = re.match(r'\w+ (\S+) (\S+) to', op)
                    setr(r, int(val('double', m.group(2))))
                elif w == 'select':
                    m = re.match(r'select (?:\w+ )*?i1 (\S+), (\S+) (\S+), (\S+) (\S+)', op)
                    c = bool(val('i1', m.group(1)))
                    setr(r, val(m.group(2), m.group(3)) if c else val(m.group(4), m.group(5)))
                elif w == 'getelementptr':
                    m = re.match(r'getelementptr (?:inbounds )?(.*?), ptr (\S+?), (.*)$', op)
                    p = val('ptr', m.group(2))
                    idx = [self.as_int(val('i64', x.split()[-1])) for x in m.group(3).split(',')]
                    setr(r, Ptr(p.cells, p.i + idx[-1]))
                elif w == 'call' or op.startswith('tail call') or op.startswith('notail call'):
                    m = re.search(r'@([\w.$]+)\((.*)\)', op)
                    if not m:
                        raise SymUnsupported('indirect call in C: ' + op)
                    args2 = []
                    if m.group(2).strip():
                        for a in m.group(2).split(', '):
                            p = a.split()
                            args2.append(val(p[0], p[-1]))
                    v = self.call(m.group(1), args2)
                    if r is not None:
                        setr(r, v)
                elif w == 'br':
                    m = re.match(r'br label %([\w.]+)', op)
                    if m:
                        prev, blk = blk, m.group(1)
                    else:
                        m = re.match(r'br i1 (\S+), label %([\w.]+), label %([\w.]+)', op)
                        c = bool(val('i1', m.group(1)))
                        prev, blk = blk, m.group(2) if c else m.group(3)
                    jumped = True
                    break
                elif w == 'switch':
                    m = re.match(r'switch (\S+) (\S+), label %([\w.]+) \[(.*)\]', op)
                    v = self.as_int(val(m.group(1), m.group(2)))
                    dst = m.group(3)
                    for k, lab in re.findall(r'\S+ (-?\d+), label %([\w.]+)', m.group(4)):
                        if int(k) == v:
                            dst = lab
                    prev, blk = blk, dst
                    jumped = True
                    break
                elif w == 'ret':
                    m = re.match(r'ret (\S+)(?: (\S+))?', op)
                    return None if m.group(1) == 'void' else val(m.group(1), m.group(2))
                elif w == 'unreachable':
                    raise CExit('unreachable')
                else:
                    raise SymUnsupported('C instruction ' + op)
            if not jumped:
                raise SymUnsupported('C block without terminator')

    @staticmethod
    def as_int(v):
        if isinstance(v, (bool, np.bool_, SymBool)):
            return int(bool(v))
        return v


def depyx(text):
    """Plain Python of the (small) Cython wrapper."""
    out = []
    skip = None
    for ln in text.splitlines():
        ind = len(ln) - len(ln.lstrip())
        if skip is not None and ln.strip() and ind > skip:
            continue
        skip = None
        s = ln.strip()
        if s.startswith('cdef extern'):
            skip = ind
            continue
        if 'cimport' in s or s.startswith(('ctypedef', '@cython', 'import cython', 'np.import_array')):
            continue
        out.append(ln)
    t = '\n'.join(out)
    ty = r'(?:np\.ndarray\s*\[[^\]]*\]|np\.\w+_t|DTYPE_t|unsigned |const |double|float|int|long|bint|Py_ssize_t|object)\s*(?:\[[^\]]*\])?'
    # function signatures
    def sig(m):
        args = []
        depth = 0
        cur = ''
        for ch in m.group(3):
            if ch in '[(':
                depth += 1
            if ch in '])':
                depth -= 1
            if ch == ',' and not depth:
                args.append(cur)
                cur = ''
            else:
                cur += ch
        args.append(cur)
        names = []
        for a in args:
            a = a.strip()
            a = re.sub(r'^(?:%s\s*)+(?=\w)' % ty, '', a)
            a = re.sub(r'\s*not None$', '', a)
            names.append(a.split()[-1] if '=' not in a else a)
        return '%sdef %s(%s):' % (m.group(1), m.group(2), ', '.join(names))
    t = re.sub(r'(?m)^(\s*)(?:c?p?def)\s+(?:inline\s+)?(?:%s\s+)?(\w+)\s*\(((?:[^()]|\([^()]*\))*)\)\s*(?:nogil|noexcept)?\s*:' % ty, sig, t)
    t = t.replace('\\\n', ' ')

    def decl(m):
        rest = re.sub(r'^(?:%s\s*)+' % ty, '', m.group(2)).strip()
        return m.group(1) + (rest if '=' in rest else 'pass')
    t = re.sub(r'(?m)^(\s*)cdef\s+(.*)$', decl, t)
    return t


class _NP(object):
    def __init__(self, F):
        self.F = F

    def __getattr__(self, n):
        return getattr(self.F, n)

    def ndarray(self, shape, dtype=None):
        return np.zeros(shape, dtype=object)


class Wrapper(object):
    """Symbolic stand-in for the extension module radvel._kepler."""

    def __init__(self, F, hooks=None):
        self.machine = Machine(F, hooks)
        with open(os.path.join(SRC, '_kepler.pyx')) as f:
            code = depyx(f.read())
        ns = {'sin': F.sin, 'cos': F.cos, 'sqrt': F.sqrt, 'floor': F.floor, 'fabs': F.abs,
              'tan': F.tan, 'M_PI': math.pi, 'pi': math.pi, '__name__': 'radvel._kepler',
              'range': range}
        for n in self.machine.fns:
            ns[n] = (lambda nm: lambda *a: self.machine.call(nm, list(a)))(n)
        exec(compile(code, SRC + '/_kepler.pyx', 'exec'), ns)
        ns['np'] = _NP(F)
        self.ns = ns
        for k in ('kepler_array', 'rv_drive_array'):
            setattr(self, k, ns[k])


_built = []


def build_extension():
    """The real extension, built from /repo/src, loaded as radvel._kepler."""
    if _built:
        return _built[0]
    import importlib.util
    import sysconfig
    d = env.scratch('ext')
    try:
        for f in os.listdir(SRC):
            if f != '_kepler.c':
                shutil.copy(os.path.join(SRC, f), d)
        r = subprocess.run([sys.executable, '-m', 'cython', '_kepler.pyx', '-o', '_kepler.c'],
                           cwd=d, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('cython: ' + r.stderr[-800:])
        so = os.path.join(d, '_kepler.so')
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + sysconfig.get_paths()['include'],
                            '-I' + np.get_include(), '_kepler.c', '-o', so, '-lm'],
                           cwd=d, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('gcc: ' + r.stderr[-800:])
        spec = importlib.util.spec_from_file_location('radvel._kepler', so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    import radvel
    sys.modules['radvel._kepler'] = mod
    radvel._kepler = mod
    _built.append(mod)
    return mod
