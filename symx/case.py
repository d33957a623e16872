"""What a property module is made of."""
import sys
import types


class Case(object):
    def __init__(self, name, fn, bounds='', opts=None, expect_reach=True):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.opts = dict(opts or {})
        self.expect_reach = expect_reach


class Stubs(object):
    """Reversible replacement of external collaborators, on both sides."""

    def __init__(self):
        from .shim import Patch
        self.p = Patch()

    def set(self, obj, name, value):
        """replace obj.name, and the same function or class wherever else the code under test has imported it"""
        old = obj.__dict__.get(name) if isinstance(obj, types.ModuleType) else None
        self.p.set(obj, name, value)
        if isinstance(old, (type, types.FunctionType)) and (getattr(obj, '__name__', '') or '').split('.')[0] == 'radvel':
            for n, m in sorted(sys.modules.items()):
                if n.split('.')[0] == 'radvel' and m is not obj and m is not None and not n.startswith('radvel.tests'):
                    for k, v in list(m.__dict__.items()):
                        if v is old:
                            self.p.set(m, k, value)

    def undo(self):
        self.p.undo()
