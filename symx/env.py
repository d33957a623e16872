"""Process setup shared by the symbolic and the concrete side."""
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_DEV_REPO', '/repo')        # another tree only while developing
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup(z3=True):
    if z3 and VT not in sys.path:
        sys.path.append(VT)
    if REPO != '/repo':
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    os.environ.setdefault('RADVEL_DATADIR', '/repo/example_data')


def scratch(name):
    import tempfile
    base = os.path.join(ROOT, '.scratch')
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=name + '-', dir=base)
