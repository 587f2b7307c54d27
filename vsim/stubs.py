"""Stub array libraries.

`plain` stubs are numpy-like modules that lack some functions; each has its own array class, so the
type of a result names the module that produced it.  `device` stubs (cupy, torch, tensorflow, jax)
implement just the calls opt_einsum's converters make; their arrays refuse to be mixed with numpy
arrays.  Every function goes through Sim.backend_call, i.e. can be recorded, delayed and failed.

The modules are created by a meta-path finder when the library imports them; whether an import
succeeds is decided by the run (Sim.cfg['imports'] / 'imp' operations).
"""

import importlib.abc
import importlib.machinery
import sys
import types

import numpy as np

from . import boot
from .core import CUR

PLAIN = {
    "vs_full": ("einsum", "tensordot", "transpose"),
    "vs_noein": ("tensordot", "transpose"),
    "vs_notr": ("einsum", "tensordot"),
    "vs_bare": ("tensordot",),
    "vs_notd": ("einsum", "transpose"),
    "mars": ("einsum", "tensordot", "transpose"),  # known alias: mars.tensor
}
DEVICE = ("cupy", "torch", "tensorflow", "jax")
NOOUT = ("vs_notr", "mars")  # their einsum ignores `out`, as dask's and torch's do
MODNAME = {"mars": "mars.tensor"}


class ImportFault(ImportError):
    pass


IMPORT_EXC = {
    "ImportError": ImportFault,
    "ModuleNotFoundError": type("ModuleNotFoundFault", (ModuleNotFoundError,), {}),
    "OSError": type("OSFault", (OSError,), {}),
    "AttributeError": type("AttributeFault", (AttributeError,), {}),
    "RuntimeError": type("RuntimeFault", (RuntimeError,), {}),
}


def _bc(bname, func, fn, args, kwargs):
    sim = CUR.sim
    if sim is None:
        return fn(*args, **kwargs)
    return sim.backend_call(bname, func, fn, args, kwargs)


_E = lambda: boot.orig("np.einsum")
_T = lambda: boot.orig("np.tensordot")
_P = lambda: boot.orig("np.transpose")


# --------------------------------------------------------------------------- plain stubs
ARR = {}


def _make_arr(name):
    def transpose(self, *axes):
        def fn(a, ax):
            return np.ndarray.transpose(np.asarray(a), ax).view(cls)

        ax = axes[0] if len(axes) == 1 else axes
        return _bc(name, "transpose", fn, (self, tuple(ax)), {})

    cls = type("Arr", (np.ndarray,), {"__module__": name if name != "mars" else "mars.core", "transpose": transpose})
    return cls


for _n in PLAIN:
    ARR[_n] = _make_arr(_n)


def make_plain(name, a):
    """A user array of stub library `name`."""
    return np.array(a).view(ARR[name])


def _plain_module(name):
    mod = types.ModuleType(MODNAME.get(name, name))
    cls = ARR[name]

    def wrap(func, fn):
        def f(*args, **kwargs):
            return _bc(name, func, fn, args, kwargs)

        f.__name__ = func
        setattr(mod, func, f)

    def einsum(eq, *ops, **kw):
        out = kw.pop("out", None)
        r = np.asarray(_E()(eq, *[np.asarray(o) for o in ops], **kw)).view(cls)
        if out is not None and name not in NOOUT:
            out[...] = r
            return out
        return r

    def tensordot(x, y, axes=2):
        return np.asarray(_T()(np.asarray(x), np.asarray(y), axes)).view(cls)

    def transpose(x, axes=None):
        return np.ndarray.transpose(np.asarray(x), axes).view(cls)

    fns = {"einsum": einsum, "tensordot": tensordot, "transpose": transpose}
    for f in PLAIN[name]:
        wrap(f, fns[f])
    return mod


# --------------------------------------------------------------------------- device stubs
class _Dev:
    def __init__(self, a):
        self._a = np.array(a)

    @property
    def shape(self):
        return self._a.shape

    @property
    def dtype(self):
        return self._a.dtype

    @property
    def ndim(self):
        return self._a.ndim

    def ndimension(self):
        return self._a.ndim

    def __setitem__(self, key, val):
        if not isinstance(val, type(self)):
            raise TypeError("expected a %s array" % type(self).__module__)
        self._a[key] = val._a


def _mk_dev(name):
    return type("ndarray" if name == "cupy" else "Tensor", (_Dev,), {"__module__": {"tensorflow": "tensorflow.python", "jax": "jaxlib.stub"}.get(name, name), "_lib": name})


DEV = {n: _mk_dev(n) for n in DEVICE}


def make_device(name, a):
    return DEV[name](a)


def _chk(cls, *ops):
    for o in ops:
        if type(o) is not cls:
            raise TypeError("Unsupported type %r for %s" % (type(o), cls.__module__))


def _dev_fns(name):
    cls = DEV[name]

    if name == "jax":  # jax.numpy functions accept numpy arrays

        def norm(*ops):
            return [o if type(o) is cls else cls(o) for o in ops]
    else:

        def norm(*ops):
            _chk(cls, *ops)
            return ops

    def einsum(eq, *ops, **kw):
        ops = norm(*ops)
        out = kw.pop("out", None)
        r = cls(_E()(eq, *[o._a for o in ops], **kw))
        if out is not None and name != "torch":
            _chk(cls, out)
            out._a[...] = r._a
            return out
        return r

    def tensordot(x, y, axes=2):
        x, y = norm(x, y)
        return cls(_T()(x._a, y._a, axes))

    def transpose(x, axes=None):
        (x,) = norm(x)
        return cls(_P()(x._a, axes))

    return einsum, tensordot, transpose


def _rec(name, func, fn):
    def f(*args, **kwargs):
        return _bc(name, func, fn, args, kwargs)

    f.__name__ = func
    return f


def _device_module(name, fullname):
    cls = DEV[name]
    einsum, tensordot, transpose = _dev_fns(name)
    mod = types.ModuleType(fullname)
    if name == "cupy":
        mod.einsum, mod.tensordot, mod.transpose = (_rec(name, n, f) for n, f in (("einsum", einsum), ("tensordot", tensordot), ("transpose", transpose)))

        def asarray(a):
            return a if type(a) is cls else cls(a)

        mod.asarray = _rec(name, "transfer", asarray)
        cls.get = lambda self: _bc(name, "fetch", lambda t: t._a.copy(), (self,), {})
    elif name == "torch":
        mod.einsum = _rec(name, "einsum", lambda eq, ops: einsum(eq, *ops))
        if not getattr(CUR.sim, "old_torch", False):  # (versions before 1.0 have none)
            mod.tensordot = _rec(name, "tensordot", lambda x, y, dims: tensordot(x, y, dims))
        mod.cuda = types.SimpleNamespace(is_available=lambda: False)
        mod.from_numpy = _rec(name, "transfer", lambda a: cls(a))
        cls.to = lambda self, dev: self

        def permute(self, *axes):
            if not axes:
                raise TypeError('permute() missing 1 required positional argument: "dims"')
            if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
                axes = tuple(axes[0])
            return _bc(name, "transpose", transpose, (self, axes), {})

        cls.permute = permute
        cls.device = types.SimpleNamespace(type="cpu")
        cls.numpy = lambda self: _bc(name, "fetch", lambda t: t._a, (self,), {})
        mod.Tensor = cls
    elif name == "tensorflow":
        mod.einsum, mod.tensordot = _rec(name, "einsum", einsum), _rec(name, "tensordot", tensordot)
        mod.transpose = _rec(name, "transpose", transpose)
        mod.executing_eagerly = lambda: True
        mod.test = types.SimpleNamespace(gpu_device_name=lambda: "")
        import contextlib

        mod.device = lambda d: contextlib.nullcontext()
        mod.convert_to_tensor = _rec(name, "transfer", lambda a: a if type(a) is cls else cls(a))
        cls.numpy = lambda self: _bc(name, "fetch", lambda t: t._a.copy(), (self,), {})
        mod.Tensor = cls
    elif name == "jax":
        # (jax.numpy shares the module object)
        mod.einsum, mod.tensordot, mod.transpose = (_rec(name, n, f) for n, f in (("einsum", einsum), ("tensordot", tensordot), ("transpose", transpose)))
        mod.asarray = _rec(name, "transfer", lambda a: a if type(a) is cls else cls(a))

        def conv(x):
            if isinstance(x, np.ndarray):
                return cls(x)
            if isinstance(x, (list, tuple)):
                return type(x)(conv(y) for y in x)
            return x

        def jit(f, **kw):
            def jitted(*args):
                # a single array is a transfer of its own; arrays inside containers travel with the call
                return f(*[_bc(name, "transfer", cls, (a,), {}) if isinstance(a, np.ndarray) else conv(a) for a in args])

            jitted.__name__ = getattr(f, "__name__", "jitted")
            return jitted

        mod.jit = jit
        cls.__array__ = lambda self, dtype=None, copy=None: self._a.copy()
        mod.numpy = mod
    return mod


def lib_of(obj):
    """Which library an array belongs to."""
    if isinstance(obj, _Dev):
        return obj._lib
    if type(obj) is np.ndarray or isinstance(obj, np.generic):
        return "numpy"
    for n, c in ARR.items():
        if type(obj) is c:
            return n
    return "?%s" % type(obj).__name__


def to_np(obj):
    if isinstance(obj, _Dev):
        return obj._a
    if type(obj).__module__.split(".")[0] == "torch":
        return obj.numpy()
    return np.asarray(obj)


# --------------------------------------------------------------------------- imports
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Serves the stub modules; consults the running simulation whether an import succeeds."""

    def __init__(self):
        self.names = {}
        for n in PLAIN:
            self.names[MODNAME.get(n, n)] = n
        for n in DEVICE:
            self.names[n] = n
        self.names["jax.numpy"] = "jax"
        self.real = set()

    def find_spec(self, fullname, path=None, target=None):
        if fullname == "mars":
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        lib = self.names.get(fullname)
        if lib is None or lib in self.real:
            return None
        return importlib.machinery.ModuleSpec(fullname, self, is_package=(fullname == "jax"))

    def create_module(self, spec):
        name = spec.name
        if name == "mars":
            return types.ModuleType("mars")
        lib = self.names[name]
        sim = CUR.sim
        if sim is not None and sim.on_import is not None:
            sim.on_import(lib)  # may raise
        if lib in PLAIN:
            return _plain_module(lib)
        if name == "jax.numpy":
            return sys.modules["jax"]
        return _device_module(lib, name)

    def exec_module(self, module):
        pass


FINDER = Finder()


def install(real=()):
    FINDER.real = set(real)
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
