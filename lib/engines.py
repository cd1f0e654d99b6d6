"""Two ways of executing the repository's own source.

* ``jit``    - exactly as shipped: numba compiles the kernels.
* ``interp`` - the same source files executed by CPython: numba's decorators are replaced *before the
  package is imported* by pass-throughs that keep the typed-attribute semantics of jitclass (declared
  attributes only, integer/float coercion, zero-initialised scalars).  Every array access is then
  bounds-checked, objects are observable, and there is no minutes-long compilation.  numba's own
  NUMBA_DISABLE_JIT cannot be used because the modules read ``cls.class_type``.

A violation seen under ``interp`` is only reported after the same case has been replayed under ``jit``.
"""
import os, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")


class UndeclaredAttribute(AttributeError):
    pass


class UninitialisedRead(AttributeError):
    """a declared attribute is read before it was ever written: compiled code gets whatever is in memory"""


def _install_shim():
    import numba, numpy as np
    import numba.experimental
    from numba.core import types as nbt

    def passthrough(*args, **kw):
        if len(args) == 1 and not kw and isinstance(args[0], types.FunctionType):
            return args[0]
        def deco(f):
            return f
        return deco

    class _ClassType:
        def __init__(self, name):
            self.instance_type = ("instance", name)
        class_name = property(lambda s: s.instance_type[1])

    class _Deferred:
        def define(self, *_a):
            pass

    def coerce(name, ty, v):
        if isinstance(ty, nbt.Integer):
            if isinstance(v, np.ndarray) and v.ndim > 0:
                raise TypeError("array stored in integer field " + name)
            return int(v)
        if isinstance(ty, nbt.Float):
            if isinstance(v, np.ndarray) and v.ndim > 0:
                raise TypeError("array stored in float field " + name)
            return np.float64(v) if not isinstance(v, np.floating) else v
        if isinstance(ty, nbt.Array):
            if not isinstance(v, np.ndarray):
                raise TypeError("non-array stored in array field " + name)
            if v.ndim != ty.ndim:
                raise TypeError("wrong number of dimensions for field " + name)
            want = np.float64 if isinstance(ty.dtype, nbt.Float) else np.int64
            if v.dtype != want:
                raise TypeError("dtype %s stored in field %s" % (v.dtype, name))
        return v

    def jitclass(spec=None, **kw):
        def wrap(cls):
            table = dict(spec)
            base = cls
            def __setattr__(self, name, value):
                ty = table.get(name)
                if ty is None:
                    raise UndeclaredAttribute("attribute %r is not in the jitclass spec" % name)
                object.__setattr__(self, name, coerce(name, ty, value))
            def __getattr__(self, name):
                ty = table.get(name)
                if isinstance(ty, nbt.Integer): return 0
                if isinstance(ty, nbt.Float): return 0.0
                if ty is not None: raise UninitialisedRead("attribute %r is read before it is written" % name)
                raise AttributeError(name)
            ns = {k: v for k, v in cls.__dict__.items() if k not in ("__dict__", "__weakref__")}
            ns["__setattr__"] = __setattr__
            ns["__getattr__"] = __getattr__
            new = type(cls.__name__, (object,), ns)
            new.class_type = _ClassType(cls.__name__)
            new.__module__ = cls.__module__
            return new
        if isinstance(spec, type):
            cls, spec = spec, []
            return wrap(cls)
        return wrap

    class PyDict(dict):
        """stand-in for numba.typed.Dict(str -> int64)"""
        def __init__(self, *a, **k):
            super().__init__()
            for src in a:
                if isinstance(src, dict):
                    for kk, vv in src.items(): self[kk] = vv
        @staticmethod
        def empty(key_type=None, value_type=None, n_keys=0):
            return PyDict()
        def __setitem__(self, k, v):
            if not isinstance(k, str): raise TypeError("key of typed dict must be a string")
            super().__setitem__(k, int(v))
    import numba.typed
    numba.typed.Dict = PyDict
    real_typeof = numba.typeof
    def typeof(v, *a, **k):
        if isinstance(v, PyDict):
            return nbt.DictType(nbt.unicode_type, nbt.int64)
        return real_typeof(v, *a, **k)
    numba.typeof = typeof

    for nm in ("njit", "jit", "vectorize", "guvectorize", "generated_jit"):
        if hasattr(numba, nm):
            setattr(numba, nm, passthrough)
    numba.prange = range
    numba.deferred_type = lambda *a: _Deferred()
    numba.experimental.jitclass = jitclass


def _numpy_proxy():
    """numpy as the repository's modules see it under ``interp``: compiled code subtracts boolean
    arrays as integers, CPython's numpy refuses to."""
    import numpy as np

    class BoolArr(np.ndarray):
        def __sub__(self, o): return np.asarray(self).astype(np.int64) - np.asarray(o).astype(np.int64)
        def __rsub__(self, o): return np.asarray(o).astype(np.int64) - np.asarray(self).astype(np.int64)
        def __neg__(self): return -np.asarray(self).astype(np.int64)

    proxy = types.ModuleType("numpy_proxy")
    proxy.__dict__.update({k: v for k, v in np.__dict__.items() if not k.startswith("__")})
    proxy.__getattr__ = lambda name: getattr(np, name)
    for nm in ("greater", "greater_equal", "less", "less_equal", "equal", "not_equal"):
        def mk(f):
            def g(*a, **k):
                r = f(*a, **k)
                return r.view(BoolArr) if isinstance(r, np.ndarray) and r.dtype == bool else r
            return g
        setattr(proxy, nm, mk(getattr(np, nm)))
    return proxy


def finish(engine):
    """After the package was imported: install the numpy stand-in in its modules."""
    if engine != "interp":
        return
    import numpy as np
    proxy = _numpy_proxy()
    for name, mod in list(sys.modules.items()):
        if name.startswith("moving_mesh_transport") and getattr(mod, "np", None) is np:
            mod.np = proxy


def setup(engine):
    """Prepare the interpreter for the chosen engine; must run before the package is imported."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    if engine == "interp":
        _install_shim()
        import numpy as np
        # compiled code raises ZeroDivisionError for scalars (not for arrays): make numpy scalars do the same
        np.seterr(all="ignore", divide="warn", invalid="warn")
        warnings.filterwarnings("error", message="(divide by zero|invalid value) encountered in scalar divide")
    return engine
