"""Loads the current sources of /repo/norfair (and of filterpy) into a private module table.

Symbolic mode: numpy is the shim of symnp, a few builtins understand symbolic values.  Concrete mode (replay of
counterexamples and of path witnesses): the real numpy, scipy and filterpy, no builtin overrides.
In both modes the surroundings a harness controls (cv2, os, open, ...) can be replaced by stand-ins.
"""
import builtins
import importlib
import math
import numbers
import os
import sys
import types

import numpy as np

from . import core, symdict, symnp, symstr
from .core import Sym, SymBool, SymFP, SymNum, mk_and, mk_bool, mk_ite, mk_or

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"

numbers.Number.register(SymNum)


# --------------------------------------------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SymNum) and x.k == "i") or isinstance(x, SymBool)


class SInt(int, metaclass=_IntMeta):
    _np_dtype = "int64"
    __name__ = "int"

    def __new__(cls, x=0, *a):
        if isinstance(x, symnp.SymArray):
            x = x._one()
        if isinstance(x, SymNum):
            return x.trunc()
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, SymFP):
            raise core.Unsupported("int of an IEEE value")
        if hasattr(x, "__symint__"):
            return x.__symint__(*a)
        if isinstance(x, str) and not a and "⟦" in x:
            v = core.engine().number(x)
            if v is not None:
                if v.k == "i":
                    return v
                raise ValueError("invalid literal for int() with base 10")
        return int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SymNum) and x.k == "r") or isinstance(x, SymFP)


class SFloat(float, metaclass=_FloatMeta):
    _np_dtype = "float64"

    def __new__(cls, x=0.0):
        if isinstance(x, symnp.SymArray):
            x = x._one()
        if isinstance(x, SymNum):
            return x.to_real()
        if isinstance(x, SymBool):
            return x.as_int().to_real()
        if isinstance(x, SymFP):
            return x.to("f64")
        if isinstance(x, str) and "⟦" in x:
            v = core.engine().number(x)
            if v is not None:
                return v.to_real()
        return float(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))


class SBool(metaclass=_BoolMeta):
    _np_dtype = "bool"

    def __new__(cls, x=False):
        if isinstance(x, symnp.SymArray):
            x = x._one()
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymNum):
            return mk_bool(x.t != 0)
        return bool(x)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, x):
        return issubclass(x, type)


class SType(type, metaclass=_TypeMeta):
    def __new__(m, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymNum):
                return SInt if x.k == "i" else SFloat
            if isinstance(x, SymFP):
                return SFloat
            if isinstance(x, SymBool):
                return SBool
            t = type(x)
            return {int: SInt, float: SFloat, bool: SBool, dict: symdict.SDict, set: symdict.SSet}.get(t, t)
        return type(*a, **k)


def _numlike(x):
    return isinstance(x, (SymNum, SymFP, SymBool)) or core.const_num(x)


def _minmax(real, pick):
    def f(*args, **kw):
        if kw.get("key") is None and "default" not in kw:
            xs = list(args[0]) if len(args) == 1 else list(args)
            if xs and any(isinstance(x, Sym) for x in xs) and all(_numlike(x) for x in xs):
                xs = [x.item() if isinstance(x, np.ndarray) else x for x in xs]
                r = xs[0]
                for x in xs[1:]:
                    r = symnp._pick(pick(x, r), x, r)
                return r
            return real(xs) if len(args) == 1 else real(*args)
        return real(*args, **kw)

    return f


smin = _minmax(min, lambda x, r: x < r)
smax = _minmax(max, lambda x, r: x > r)


def sall(it):
    if isinstance(it, (list, tuple, symnp.SymArray)):
        xs = list(it)
        if any(isinstance(x, Sym) for x in xs):
            return mk_and(*[symnp._B(x) if _numlike(x) else bool(x) for x in xs])
    return all(it)


def sany(it):
    if isinstance(it, (list, tuple, symnp.SymArray)):
        xs = list(it)
        if any(isinstance(x, Sym) for x in xs):
            return mk_or(*[symnp._B(x) if _numlike(x) else bool(x) for x in xs])
    return any(it)


def shash(x):
    if hasattr(type(x), "__symhash__"):
        return x.__symhash__()
    if isinstance(x, SymNum) and x.k == "i":
        return mk_ite(x == -1, -2, x)  # CPython: hash(n) == n for |n| < 2**61 - 1, hash(-1) == -2
    return hash(x)


def sgetattr(o, n, *d):
    if isinstance(n, symstr.SymStr):
        for k in dir(o):
            if len(k) == len(n) and bool(n == k):
                return getattr(o, k)
        n = "⟪no such name⟫"
    return getattr(o, n, *d)


def slen(x):
    f = getattr(type(x), "__symlen__", None)
    return f(x) if f is not None else len(x)


def sround(x, n=None):
    return round(x) if n is None else round(x, n)


def _math_shim():
    m = types.ModuleType("math")
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith("__")})

    def w(name, f):
        real = getattr(math, name)

        def g(*a):
            a = [x._one() if isinstance(x, symnp.SymArray) else x for x in a]
            if any(isinstance(x, Sym) for x in a):
                return f(*a)
            return real(*a)

        setattr(m, name, g)

    def msqrt(x):
        if bool(x < 0):
            raise ValueError("math domain error")
        return core.sym_sqrt(x)

    w("sqrt", msqrt)
    w("floor", lambda x: x.floor())
    w("ceil", lambda x: x.ceil())
    w("trunc", lambda x: x.trunc())
    w("fabs", lambda x: abs(x).to_real())
    w("isnan", lambda x: symnp._isnan(x))
    w("isinf", lambda x: symnp._isinf(x))
    w("isfinite", lambda x: symnp._isfinite(x))
    w("hypot", lambda *a: core.sym_sqrt(sum(x * x for x in a)))
    w("dist", lambda a, b: core.sym_sqrt(sum((x - y) * (x - y) for x, y in zip(a, b))))
    w("pow", lambda a, b: a ** b)
    for n in ("exp", "log", "sin", "cos", "tan"):
        w(n, symnp._unsup(n))
    return m


# --------------------------------------------------------------------------------------------------------------
# stand-ins for libraries
# --------------------------------------------------------------------------------------------------------------
class Anything:
    """Accepts every call and attribute; returns itself."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(())


def _rich_modules():
    out = {}
    rich = types.ModuleType("rich")
    rich.__path__ = []
    printed = rich.printed = []
    rich.print = lambda *a, **k: printed.extend(a)
    out["rich"] = rich

    class Bar:
        def __init__(self, *a, **k):
            self.tasks = []

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def add_task(self, *a, **k):
            self.tasks.append((a, k))
            return len(self.tasks) - 1

        def update(self, *a, **k):
            pass

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda *a, **k: None

    prog = types.ModuleType("rich.progress")
    prog.Progress = Bar
    prog.track = lambda it, *a, **k: (x for x in it)
    prog.__getattr__ = lambda n: type(n, (Anything,), {})
    out["rich.progress"] = prog
    rich.progress = prog
    cons = types.ModuleType("rich.console")
    cons.Console = type("Console", (Anything,), {"print": lambda self, *a, **k: printed.extend(a)})
    out["rich.console"] = cons
    tab = types.ModuleType("rich.table")

    class Table:
        made = []

        def __init__(self, *a, **k):
            self.columns, self.rows = [], []
            Table.made.append(self)

        def add_column(self, *a, **k):
            self.columns.append(a)

        def add_row(self, *a, **k):
            self.rows.append(a)

    tab.Table = Table
    out["rich.table"] = tab
    rich.console, rich.table = cons, tab
    return out


def _logging_module():
    import logging

    m = types.ModuleType("logging")
    m.__dict__.update({k: v for k, v in logging.__dict__.items() if not k.startswith("__")})
    m.calls = []

    def rec(*a, **k):
        m.calls.append(a)

    for n in ("warning", "warn", "info", "debug", "error", "exception", "critical"):
        setattr(m, n, rec)
    m.getLogger = lambda *a: m
    return m


def sym_cdist(XA, XB, metric="euclidean", *, out=None, **kw):
    XA, XB = symnp.asym(XA), symnp.asym(XB)
    if XA.ndim != 2:
        raise ValueError("XA must be a 2-dimensional array.")
    if XB.ndim != 2:
        raise ValueError("XB must be a 2-dimensional array.")
    if XA.shape[1] != XB.shape[1]:
        raise ValueError("XA and XB must have the same number of columns (i.e. feature dimension.)")
    if not symnp.has_sym(XA.a) and not symnp.has_sym(XB.a):
        from scipy.spatial.distance import cdist

        return symnp.wrap(cdist(XA.real(), XB.real(), metric, **kw))
    r = np.empty((XA.shape[0], XB.shape[0]), dtype=object)
    p, w, V = kw.pop("p", None), kw.pop("w", None), kw.pop("V", None)
    metric = {"cityblock": "cityblock", "manhattan": "cityblock", "euclid": "euclidean", "eu": "euclidean", "e": "euclidean"}.get(metric, metric)
    if metric == "minkowski" and not isinstance(p, core.SymNum):
        metric = {None: "euclidean", 1: "cityblock", 2: "euclidean", float("inf"): "chebyshev"}.get(p, metric)
    elif p is not None:
        kw["p"] = p
    if metric == "seuclidean" and V is not None:
        w, metric = [1 / v for v in symnp.asym(V).a.flat], "euclidean"
    elif V is not None:
        kw["V"] = V
    w = [1] * XA.shape[1] if w is None else list(symnp.asym(w).a.flat) if metric in ("cityblock", "euclidean", "sqeuclidean") else kw.setdefault("w", w)
    if kw:
        metric = (metric, "with parameters")
    for i in range(XA.shape[0]):
        for j in range(XB.shape[0]):
            d = [a - b for a, b in zip(XA.a[i], XB.a[j])]
            if metric == "euclidean":
                s = 0.0
                for x, f in zip(d, w):
                    s = s + f * x * x
                v = core.sym_sqrt(s)
            elif metric == "sqeuclidean":
                v = 0.0
                for x, f in zip(d, w):
                    v = v + f * x * x
            elif metric == "cityblock":
                v = 0.0
                for x, f in zip(d, w):
                    v = v + f * abs(x)
            elif metric == "chebyshev":
                v = smax([abs(x) for x in d])
            elif metric == "hamming":
                v = sum(mk_ite(x != 0, 1.0, 0.0) for x in d) / len(d)
            elif metric == "canberra":
                v = 0.0
                for a, b, x in zip(XA.a[i], XB.a[j], d):
                    den = abs(a) + abs(b)
                    v = v + (abs(x) / den if bool(den != 0) else 0.0)
            elif metric == "braycurtis":
                num = sum(abs(x) for x in d)
                den = sum(abs(a + b) for a, b in zip(XA.a[i], XB.a[j]))
                v = num / den
            else:
                # an uninterpreted non-negative function of the pair
                v = SymNum("r", core.engine().fresh("r"))
                core.engine().assume(v >= 0)
                core.engine().notes.setdefault("uninterpreted", set()).add("cdist " + str(metric))
                core.engine().path_incomplete = "uninterpreted metric"
            r[i, j] = symnp.cast_scalar(v, np.dtype("float64"))
    return symnp.SymArray(r, np.dtype("float64"))


def sym_assignment(cost_matrix, maximize=False):
    """the pairing of least total cost (one of them, if several are)"""
    C = symnp.asym(cost_matrix)
    if not symnp.has_sym(C.a):
        from scipy.optimize import linear_sum_assignment

        return tuple(symnp.wrap(x) for x in linear_sum_assignment(C.real(), maximize))
    n, m = C.shape
    if max(n, m) > 4:
        raise core.Unsupported("assignment of more than four")
    turned = n > m
    a = C.a.T if turned else C.a
    n, m = a.shape
    import itertools

    options = [(sum((-a[i, j] if maximize else a[i, j]) for i, j in enumerate(pm)), pm) for pm in itertools.permutations(range(m), n)]
    best = options[0]
    for o in options[1:]:
        if bool(o[0] < best[0]):
            best = o
    rows, cols = list(range(n)), list(best[1])
    if turned:
        rows, cols = map(list, zip(*sorted(zip(cols, rows)))) if rows else ([], [])
    return symnp.wrap(np.array(rows, dtype=int)), symnp.wrap(np.array(cols, dtype=int))


class TextFile:
    """a file whose content is symbolic text"""

    def __init__(self, text, name):
        self.text, self.name, self.closed = text, name, False

    def read(self, n=-1):
        r, self.text = (self.text, "") if n is None or n < 0 else (self.text[:n], self.text[n:])
        return r

    def readline(self):
        i = self.text.find("\n")
        r, self.text = (self.text, "") if i < 0 else (self.text[:i + 1], self.text[i + 1:])
        return r

    def __iter__(self):
        while len(self.text):
            yield self.readline()

    def readlines(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True


def sopen(file, mode="r", *a, **k):
    f = open(file, mode, *a, **k)
    if mode in ("r", "rt"):
        text = f.read()
        f.seek(0)
        if "⟦" in text:
            s = symstr.mk(symstr.codes(text))
            if isinstance(s, symstr.SymStr):
                f.close()
                return TextFile(s, file)
    return f


_code = {}


def _compile(path, sym):
    c = _code.get((path, sym))
    if c is None:
        with open(path) as f:
            text = f.read()
        c = _code[path, sym] = compile(symdict.parse(text, path) if sym else text, path, "exec")
    return c


class World:
    def __init__(self, sym, modules=None, open_=None, builtin_overrides=None):
        self.sym = sym
        self.modules = {}
        self.b = dict(builtins.__dict__)
        self.b["__import__"] = self._import
        if sym:
            self.np = _numpy_shim()
            self.modules["numpy"] = self.np
            self.modules["numpy.linalg"] = self.np.linalg
            self.modules["numpy.random"] = self.np.random
            self.modules["math"] = _MATH
            self.modules["re"] = _RE
            self.modules["collections"] = _COLLECTIONS
            sp = types.ModuleType("scipy")
            sp.__path__ = []
            sp.spatial = types.ModuleType("scipy.spatial")
            sp.spatial.__path__ = []
            sp.spatial.distance = types.ModuleType("scipy.spatial.distance")
            sp.spatial.distance.cdist = sym_cdist
            sp.optimize = types.ModuleType("scipy.optimize")
            sp.optimize.linear_sum_assignment = sym_assignment
            for n, m in (("scipy", sp), ("scipy.spatial", sp.spatial), ("scipy.spatial.distance", sp.spatial.distance), ("scipy.optimize", sp.optimize)):
                self.modules[n] = m
            self.b.update(
                int=SInt, float=SFloat, bool=SBool, type=SType, min=smin, max=smax, all=sall, any=sany, hash=shash,
                len=slen, getattr=sgetattr, open=sopen, dict=symdict.SDict, set=symdict.SSet,
                __vf_dict__=symdict.SDict.display, __vf_set__=symdict.SSet,
            )
        else:
            self.np = np
        self.modules.update(_rich_modules())
        self.logging = self.modules["logging"] = _logging_module()
        for n, m in (modules or {}).items():
            self.modules[n] = m
        if open_ is not None:
            self.b["open"] = open_
        self.b.update(builtin_overrides or {})

    # -------------------------------------------------------------------------------------------- import system
    def _source(self, name):
        parts = name.split(".")
        if parts[0] == "norfair":
            base = os.path.join(REPO, *parts)
        elif parts[0] == "filterpy" and self.sym:
            base = os.path.join(SITE, *parts)
        else:
            return None
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None

    def _load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if self.sym and name in ("filterpy", "filterpy.kalman", "filterpy.common", "filterpy.stats"):
            return self._filterpy(name)
        src = self._source(name)
        if src is None:
            if name.split(".")[0] == "norfair":
                raise ModuleNotFoundError(f"No module named '{name}'", name=name)
            m = importlib.import_module(name)
            self.modules[name] = m
            return m
        path, pkg = src
        if "." in name:
            parent = self._load(name.rpartition(".")[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.b
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        try:
            exec(_compile(path, self.sym), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if "." in name:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def _filterpy(self, name):
        pk = types.ModuleType(name)
        pk.__path__ = []
        self.modules[name] = pk
        if name == "filterpy":
            pk.__version__ = "1.4.5"
        elif name == "filterpy.kalman":
            self._load("filterpy")
            sub = "filterpy.kalman.kalman_filter"
            m = types.ModuleType(sub)
            m.__file__ = os.path.join(SITE, "filterpy/kalman/kalman_filter.py")
            m.__package__ = "filterpy.kalman"
            m.__dict__["__builtins__"] = self.b
            self.modules[sub] = m
            exec(_compile(m.__file__, False), m.__dict__)
            pk.kalman_filter = m
            pk.KalmanFilter = m.KalmanFilter
        elif name == "filterpy.common":
            pk.reshape_z = self._reshape_z
            pk.pretty_str = lambda *a: ""
            pk.__getattr__ = lambda n: Anything()
        elif name == "filterpy.stats":
            pk.logpdf = lambda *a, **k: 0.0
            pk.__getattr__ = lambda n: Anything()
        return pk

    def _reshape_z(self, z, dim_z, ndim):
        a = self.np
        z = a.atleast_2d(z)
        if z.shape[1] == dim_z:
            z = z.T
        if z.shape != (dim_z, 1):
            raise ValueError(f"z must be convertible to shape ({dim_z}, 1)")
        if ndim == 1:
            z = z[:, 0]
        if ndim == 0:
            z = z[0, 0]
        return z

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or (globals or {}).get("__name__", "")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
        else:
            full = name
        top = full.split(".")[0]
        ours = top in ("norfair", "filterpy" if self.sym else "norfair") or full in self.modules or top in self.modules
        if not ours:
            return __import__(name, globals, locals, fromlist, level)
        # load parents first, so that attributes are set
        parts = full.split(".")
        for i in range(1, len(parts) + 1):
            n = ".".join(parts[:i])
            if n in self.modules:
                if self.modules[n] is None:
                    raise ModuleNotFoundError(f"No module named '{n}'", name=n)
                continue
            if self._source(n) or (self.sym and top == "filterpy"):
                self._load(n)
            elif top in self.modules and top != "norfair" and i > 1:
                parent = self.modules[".".join(parts[: i - 1])]
                sub = getattr(parent, parts[i - 1], None)
                if sub is None:
                    raise ModuleNotFoundError(f"No module named '{n}'", name=n)
                self.modules[n] = sub
            else:
                self._load(n)
        m = self.modules[full]
        if fromlist:
            if hasattr(m, "__path__"):
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        sub = full + "." + f
                        if sub in self.modules:
                            setattr(m, f, self.modules[sub])
                        elif self._source(sub):
                            setattr(m, f, self._load(sub))
            return m
        return m if level else self.modules[parts[0]]

    def load(self, name):
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            self._load(".".join(parts[:i]))
        return self.modules[name]


_NP = None
_MATH = _math_shim()
_RE = symstr.re_module()
_COLLECTIONS = symdict.collections_module()


def _numpy_shim():
    global _NP
    if _NP is None:
        _NP = symnp.make_module()
    return _NP
