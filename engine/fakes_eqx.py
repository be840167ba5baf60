"""Stand-ins for equinox / jaxtyping etc. (class level)."""
from abc import ABCMeta
from . import ir
from .arr import Arr


class ModuleMeta(ABCMeta):
    def __call__(cls, *a, **k):
        if '__abstractmethods__' in cls.__dict__ and cls.__abstractmethods__:
            raise TypeError('abstract class %s' % cls.__name__)
        o = object.__new__(cls)
        init = None
        for c in cls.__mro__:
            if '__init__' in c.__dict__ and c is not object:
                init = c.__dict__['__init__']
                break
            if c is Module or c is object:
                break
        if init is None or getattr(init, '_generated', False):
            names = cls._all_fields()
            for n, v in zip(names, a):
                setattr(o, n, v)
            for n, v in k.items():
                setattr(o, n, v)
        else:
            init(o, *a, **k)
        return o


class Module(metaclass=ModuleMeta):
    @classmethod
    def _all_fields(cls):
        out = []
        for c in reversed(cls.__mro__):
            for n in c.__dict__.get('__annotations__', {}):
                if n not in out:
                    out.append(n)
        return out

    def _field_order(self):
        f = [n for n in type(self)._all_fields() if n in self.__dict__]
        return f + [n for n in self.__dict__ if n not in f]


class _Sub:
    """anything subscriptable used in annotations"""

    def __getitem__(self, k):
        return object

    def __call__(self, *a, **k):
        return object

    def __or__(self, o):
        return object

    __ror__ = __or__
