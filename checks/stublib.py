"""Importable stand-ins for frameworks that are not installed (torch, tensorflow, ...).

Only names are provided: classes to inherit from and callables that record
nothing.  What a harness needs of a framework it sets explicitly.
"""
import importlib.abc
import importlib.machinery
import sys
import types

FAKE = ("torch", "tensorflow", "tensorflow_addons", "horovod", "transformers", "boto3", "botocore", "requests", "sklearn", "apex", "tensorboard", "tensorboardX")


class _Meta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = _Meta(name, (Stub,), {})
        setattr(cls, name, v)
        return v

    def __getitem__(cls, k):
        return cls


class Stub(metaclass=_Meta):
    def __init__(self, *a, **k):
        pass

    def __class_getitem__(cls, k):
        return cls


class FakeModule(types.ModuleType):
    __path__ = []
    __version__ = "9.9.9"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        full = f"{self.__name__}.{name}"
        if full in sys.modules:
            return sys.modules[full]
        v = _Meta(name, (Stub,), {})
        setattr(self, name, v)
        return v


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in FAKE:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return FakeModule(spec.name)

    def exec_module(self, module):
        pass


def install():
    """Make the missing frameworks importable; installed ones are left alone."""
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.append(_Finder())
